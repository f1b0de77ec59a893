// M01: integer mappings, exact 64 bit oracle.
#include "pbt.hpp"
#include <nytl/math.hpp>

#include <unordered_set>

namespace {

std::uint32_t anyUnsigned(pbt::Ctx& c) {
	switch(c.draw(3)) {
		case 0: return std::uint32_t(c.draw(20));
		case 1: { // around powers of two
			auto p = std::uint64_t(1) << c.draw(32);
			return std::uint32_t(p + std::uint64_t(c.sym(3)));
		}
		case 2: return std::uint32_t(c.draw(0xFFFFFFFFull));
		default: return 0xFFFFFFFFu - std::uint32_t(c.draw(20));
	}
}

constexpr std::uint32_t zigzag(std::int64_t x) {
	return std::uint32_t(x < 0 ? -x * 2 - 1 : x * 2);
}

static_assert(nytl::mapUnsigned(-3) == 5 && nytl::unmapUnsigned(5) == -3 && nytl::pair(1, 2) == 8);

} // namespace

FACET(map, 600000) {
	auto x = static_cast<std::int32_t>(anyUnsigned(c));
	auto m = nytl::mapUnsigned(x);
	c.nontrivial(std::abs(std::int64_t(x)) > 1);
	c.note("x = ", x);
	EXPECT(m == zigzag(x), "mapUnsigned(", x, ") is ", m, ", should be ", zigzag(x));
	EXPECT(nytl::unmapUnsigned(m) == x, "unmapUnsigned(", m, ") is ", nytl::unmapUnsigned(m));

	auto u = anyUnsigned(c);
	auto back = nytl::unmapUnsigned(u);
	c.note("u = ", u);
	EXPECT(zigzag(back) == u, "unmapUnsigned(", u, ") is ", back);
	EXPECT(nytl::mapUnsigned(back) == u, "mapUnsigned(unmapUnsigned(", u, ")) is ", nytl::mapUnsigned(back));

	auto y = static_cast<std::int32_t>(c.boolean() ? std::uint32_t(x) + 1 : anyUnsigned(c));
	EXPECT((nytl::mapUnsigned(y) == m) == (x == y), x, " and ", y, " are mapped to ", m);
}

FACET(cantor, 600000) {
	// number that is a pairing, taken apart exactly
	std::uint64_t s {}, y {};
	constexpr auto maxSum = 92680ull; // s(s+1)/2 + s stays below 2^32 up to 92680 - only partly for the last
	switch(c.draw(2)) {
		case 0: s = c.draw(30); break;
		case 1: s = c.draw(maxSum); break;
		case 2: s = maxSum - c.draw(3); break;
	}
	switch(c.draw(2)) {
		case 0: y = c.draw(s); break;
		case 1: y = std::min<std::uint64_t>(s, c.draw(3)); break;
		case 2: y = s - std::min<std::uint64_t>(s, c.draw(3)); break;
	}
	auto expected = s * (s + 1) / 2 + y;
	if(expected > 0xFFFFFFFFull) { // only partly representable diagonal
		y = 0;
		expected = s * (s + 1) / 2;
		if(expected > 0xFFFFFFFFull) return;
	}
	auto x = s - y;
	c.nontrivial(x > 1 && y > 1);
	auto p = nytl::pair(unsigned(x), unsigned(y));
	c.note("pair(", x, ", ", y, ") = ", p);
	EXPECT(p == expected, "pair(", x, ", ", y, ") is ", p, " instead of ", expected);

	// different from its neighbours
	if(y > 0) {
		auto q = nytl::pair(unsigned(x + 1), unsigned(y - 1));
		EXPECT(q + 1 == p, "neighbour on the diagonal has ", q);
	}
}

FACET(signedPairs, 300000) {
	// documented use: signed coordinates
	auto m = c.draw(1) ? 20000 : 50;
	auto x1 = int(c.sym(m)), y1 = int(c.sym(m));
	auto x2 = c.boolean() ? int(c.sym(m)) : x1;
	auto y2 = c.boolean() ? int(c.sym(m)) : y1;
	if(c.chance(1, 3)) { x2 = y1; y2 = x1; }
	auto f = [](int x, int y) { return nytl::pair(nytl::mapUnsigned(x), nytl::mapUnsigned(y)); };
	c.note(x1, ",", y1, " / ", x2, ",", y2);
	c.nontrivial(x1 < 0 || y1 < 0);
	EXPECT((f(x1, y1) == f(x2, y2)) == (x1 == x2 && y1 == y2), "pairs ", x1, ",", y1, " and ", x2, ",", y2,
		" get ", f(x1, y1), " and ", f(x2, y2));
}
