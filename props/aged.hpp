// Callbacks that have already given out a huge number of ids and call ids.
//
// The counters are protected members, i.e. accessible for derived classes. If there is no such member
// (anymore), the callback just stays young.
#pragma once

#include "pbt.hpp"
#include <cstdint>
#include <memory>

namespace aged {

template<typename CB>
struct Aged : CB {
	using CB::operator=;

	template<typename D> static auto subs(D& d, std::int64_t v, int) -> decltype(void(d.subID_ = v)) { d.subID_ = v; }
	template<typename D> static void subs(D&, std::int64_t, long) {}
	template<typename D> static auto calls(D& d, std::int64_t v, int) -> decltype(void(d.callID_ = v)) { d.callID_ = v; }
	template<typename D> static void calls(D&, std::int64_t, long) {}

	void age(std::int64_t ids, std::int64_t callIds) {
		subs(*this, ids, 0);
		calls(*this, callIds, 0);
	}
};

// shortly before some power of two, far from the limit where the counters wrap
inline std::int64_t count(pbt::Ctx& c) {
	auto bits = c.pick({31, 32, 16, 24, 53, 62, 48, 8, 15, 63});
	if(bits == 63) return INT64_MAX / 2 + static_cast<std::int64_t>(c.draw(1000));
	return (std::int64_t(1) << bits) - static_cast<std::int64_t>(c.draw(12));
}

template<typename CB>
std::unique_ptr<CB> make(pbt::Ctx& c) {
	auto ret = std::make_unique<Aged<CB>>();
	auto ids = count(c), calls = count(c);
	c.note("after ", ids, " ids and ", calls, " calls: ");
	ret->age(ids, calls);
	return ret;
}

} // namespace aged
