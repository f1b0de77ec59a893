// V04: element access, conversions and comparison of Vec.
#include "vecgen.hpp"

#include <algorithm>
#include <iterator>
#include <stdexcept>

namespace {

using namespace gen;
using nytl::Vec;

template<std::size_t D> struct Make;
template<> struct Make<1> { template<typename T> static Vec<1, T> make(const T* v) { return {v[0]}; } };
template<> struct Make<2> { template<typename T> static Vec<2, T> make(const T* v) { return {v[0], v[1]}; } };
template<> struct Make<3> { template<typename T> static Vec<3, T> make(const T* v) { return {v[0], v[1], v[2]}; } };
template<> struct Make<4> { template<typename T> static Vec<4, T> make(const T* v) { return {v[0], v[1], v[2], v[3]}; } };
template<> struct Make<5> { template<typename T> static Vec<5, T> make(const T* v)
	{ return {v[0], v[1], v[2], v[3], v[4]}; } };
template<> struct Make<6> { template<typename T> static Vec<6, T> make(const T* v)
	{ return {v[0], v[1], v[2], v[3], v[4], v[5]}; } };

template<> struct Make<9> { template<typename T> static Vec<9, T> make(const T* v)
	{ return {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]}; } };

template<typename T> T sub(pbt::Ctx& c) {
	if constexpr(std::is_same_v<T, bool>) return c.boolean();
	else return value<T>(c);
}

template<std::size_t D, typename T> void access(pbt::Ctx& c) {
	T src[D];
	for(auto& x : src) x = sub<T>(c);
	auto v = Make<D>::template make<T>(src);
	const auto& cv = v;
	c.note("dimension ", D, " values ", show(v));

	static_assert(Vec<D, T>::size() == D);
	static_assert(sizeof(Vec<D, T>) == D * sizeof(T));
	auto check = [&](const char* what) {
		EXPECT(v.end() - v.begin() == D && cv.end() - cv.begin() == D, what, ": iterator distance");
		EXPECT(std::equal(v.begin(), v.end(), src), what, ": iteration");
		EXPECT(std::equal(cv.begin(), cv.end(), src), what, ": const iteration");
		std::size_t n = 0;
		for(auto& x : cv) { EXPECT(n < D && x == src[n], what, ": range for, element ", n); ++n; }
		EXPECT(n == D, what, ": range for visits ", n);
		EXPECT(v.front() == src[0] && cv.front() == src[0], what, ": front");
		EXPECT(v.back() == src[D - 1] && cv.back() == src[D - 1], what, ": back");
		for(std::size_t i = 0; i < D; ++i) {
			EXPECT(v[i] == src[i] && cv[i] == src[i], what, ": element ", i, " is ", v[i]);
			EXPECT(v.data()[i] == src[i] && cv.data()[i] == src[i], what, ": data()[", i, "]");
			EXPECT(&v[i] == v.data() + i && &cv[i] == &v[i], what, ": elements are not contiguous");
		}
		if constexpr(D == 2 || D == 3) EXPECT(v.x == src[0] && v.y == src[1], what, ": x, y");
		if constexpr(D == 3) EXPECT(v.z == src[2], what, ": z");
	};
	check("constructed");

	// changes through every kind of access
	for(auto n = c.range(1, 4); n > 0 && !c.failed(); --n) {
		auto i = c.draw(D - 1);
		auto val = sub<T>(c);
		c.nontrivial(i > 0 || n > 1);
		src[i] = val;
		switch(c.draw(5)) {
			case 0: v[i] = val; break;
			case 1: v.data()[i] = val; break;
			case 2: *(v.begin() + i) = val; break;
			case 3: *(v.end() - (D - i)) = val; break;
			case 4:
				if(i == 0) v.front() = val;
				else if(i == D - 1) v.back() = val;
				else v[i] = val;
				break;
			case 5: // member
				if constexpr(D == 2 || D == 3) {
					if(i == 0) v.x = val;
					else if(i == 1) v.y = val;
				}
				if constexpr(D == 3) { if(i == 2) v.z = val; }
				if constexpr(D != 2 && D != 3) v[i] = val;
				break;
		}
		check("after writing");
	}

	// value initialization and copies
	Vec<D, T> zero {};
	for(std::size_t i = 0; i < D; ++i) EXPECT(zero[i] == T {}, "default element ", i);
	auto copy = v;
	copy[D - 1] = T(!copy[D - 1]);
	check("after changing a copy");

	if constexpr(D == 2 || D == 3) {
		std::size_t bad = D + c.draw(3);
		if(c.chance(1, 4)) bad = std::size_t(-1) - c.draw(3);
		if(c.chance(1, 4)) bad = std::size_t(1) << (2 + c.draw(61));
		if(bad < D) return;
		bool thrown = false;
		try { (void) v[bad]; } catch(const std::out_of_range&) { thrown = true; }
		EXPECT(thrown, "index ", bad, " did not throw");
		thrown = false;
		try { (void) cv[bad]; } catch(const std::out_of_range&) { thrown = true; }
		EXPECT(thrown, "const index ", bad, " did not throw");
	}
}

template<std::size_t D, typename T, std::size_t OD, typename OT> void convert(pbt::Ctx& c) {
	auto v = vec<D, T>(c);
	// every value of the type as long as the conversion is defined
	if(!(std::is_floating_point_v<T> && std::is_integral_v<OT>) && c.boolean())
		for(auto& x : v) x = wide<T>(c);
	const auto v0 = v;
	c.note("from ", show(v), " to dimension ", OD);
	c.nontrivial(OD != D || !std::is_same_v<T, OT>);
	auto o = static_cast<Vec<OD, OT>>(v);
	for(std::size_t i = 0; i < OD; ++i) {
		auto e = i < D ? static_cast<OT>(v[i]) : OT {};
		EXPECT(identical<OT>(o[i], e), "component ", i, " is ", +o[i], " instead of ", +e);
	}
	EXPECT(same(v, v0), "the converted vector was changed");
	static_assert(!std::is_convertible_v<Vec<D, T>, Vec<OD, OT>> || std::is_same_v<Vec<D, T>, Vec<OD, OT>>,
		"conversion must be explicit");
}
template<std::size_t D, typename T, typename OT> void convertTo(pbt::Ctx& c) {
	switch(c.draw(6)) {
		case 0: convert<D, T, 2, OT>(c); break;
		case 1: convert<D, T, 3, OT>(c); break;
		case 2: convert<D, T, 1, OT>(c); break;
		case 3: convert<D, T, 4, OT>(c); break;
		case 4: convert<D, T, 5, OT>(c); break;
		case 5: convert<D, T, 6, OT>(c); break;
		case 6: convert<D, T, 9, OT>(c); break;
	}
}
template<typename T, typename OT> void convertDims(pbt::Ctx& c) {
	switch(c.draw(6)) {
		case 0: convertTo<2, T, OT>(c); break;
		case 1: convertTo<3, T, OT>(c); break;
		case 2: convertTo<1, T, OT>(c); break;
		case 3: convertTo<4, T, OT>(c); break;
		case 4: convertTo<5, T, OT>(c); break;
		case 5: convertTo<6, T, OT>(c); break;
		case 6: convertTo<9, T, OT>(c); break;
	}
}

template<std::size_t D, typename T, typename OT> void compare(pbt::Ctx& c) {
	Vec<D, T> a {};
	Vec<D, OT> b {};
	for(std::size_t i = 0; i < D; ++i) {
		auto x = c.range(0, 3);
		a[i] = T(x);
		b[i] = OT(x);
	}
	bool equal = true;
	if(c.chance(2, 3)) {
		auto i = c.draw(D - 1);
		b[i] = OT(b[i] + OT(1 + c.draw(2)));
		equal = false;
		c.nontrivial(i > 0);
	}
	if(c.chance(1, 4)) { // second difference, must not cancel
		auto i = c.draw(D - 1);
		a[i] = T(a[i] + 100);
		equal = false;
	}
	c.note(show(a), " and ", show(b));
	EXPECT((a == b) == equal, "a == b");
	EXPECT((b == a) == equal, "b == a");
	EXPECT((a != b) == !equal, "a != b");
	EXPECT((b != a) == !equal, "b != a");
	EXPECT(a == a && !(a != a), "a == a");
}
// components that are nearly the same or lose their difference when converted
template<std::size_t D, typename T, typename OT> void comparePrecise(pbt::Ctx& c) {
	Vec<D, T> a {};
	Vec<D, OT> b {};
	auto equal = true;
	auto changes = 0u;
	for(std::size_t i = 0; i < D; ++i) {
		a[i] = wide<T>(c);
		switch(c.draw(7)) {
			default: break;
			case 0: a[i] = T(c.sym(3)); break;
		}
		// the value itself if it fits, otherwise (or sometimes) the nearest or another one
		auto x = static_cast<long double>(a[i]);
		if(std::is_integral_v<OT> && (std::isinf(x) || std::fabs(x) > 1e9L)) { a[i] = T(5); x = 5; }
		if(std::is_unsigned_v<OT> && x < 0) { a[i] = T(7); x = 7; }
		b[i] = static_cast<OT>(x);
		if(c.chance(1, 6)) {
			++changes;
			if constexpr(std::is_integral_v<OT>) b[i] = OT(b[i] ^ (OT(1) << c.draw(sizeof(OT) * 8 - 2)));
			else switch(c.draw(2)) {
				case 0: b[i] = std::nextafter(b[i], OT(0)); break;
				case 1: b[i] = b[i] + OT(0.25); break;
				case 2: b[i] = -b[i]; break; // the zeros are equal
			}
		}
		equal = equal && a[i] == b[i];
	}
	c.note(show(a), " and ", show(b));
	c.nontrivial(changes > 0 || !std::is_same_v<T, OT>);
	c.label(equal, "equal");
	EXPECT((a == b) == equal, "a == b");
	EXPECT((b == a) == equal, "b == a");
	EXPECT((a != b) == !equal, "a != b");
	EXPECT((b != a) == !equal, "b != a");
	EXPECT(a == a && !(a != a) && b == b && !(b != b), "a == a");
}
template<typename T, typename OT> void comparePreciseDims(pbt::Ctx& c) {
	switch(c.draw(5)) {
		case 0: comparePrecise<2, T, OT>(c); break;
		case 1: comparePrecise<3, T, OT>(c); break;
		case 2: comparePrecise<1, T, OT>(c); break;
		case 3: comparePrecise<4, T, OT>(c); break;
		case 4: comparePrecise<5, T, OT>(c); break;
		case 5: comparePrecise<9, T, OT>(c); break;
	}
}
template<typename T, typename OT> void compareDims(pbt::Ctx& c) {
	switch(c.draw(6)) {
		case 0: compare<2, T, OT>(c); break;
		case 1: compare<3, T, OT>(c); break;
		case 2: compare<1, T, OT>(c); break;
		case 3: compare<4, T, OT>(c); break;
		case 4: compare<5, T, OT>(c); break;
		case 5: compare<6, T, OT>(c); break;
		case 6: compare<9, T, OT>(c); break;
	}
}
template<typename T> void accessDims(pbt::Ctx& c) {
	switch(c.draw(6)) {
		case 0: access<2, T>(c); break;
		case 1: access<3, T>(c); break;
		case 2: access<1, T>(c); break;
		case 3: access<4, T>(c); break;
		case 4: access<5, T>(c); break;
		case 5: access<6, T>(c); break;
		case 6: access<9, T>(c); break;
	}
}

// deduction from values
static_assert(std::is_same_v<decltype(Vec {1, 2, 3}), Vec<3, int>>);
static_assert(std::is_same_v<decltype(Vec {1.f, 2.0}), Vec<2, double>>);
static_assert(std::is_same_v<decltype(Vec {1, 2, 3, 4, 5}), Vec<5, int>>);
static_assert(nytl::Vec3i {1, 2, 3}[2] == 3 && nytl::Vec2i {1, 2} == nytl::Vec2i {1, 2});
static_assert(static_cast<nytl::Vec3i>(nytl::Vec2i {4, 5}) == nytl::Vec3i {4, 5, 0});

} // namespace

#if PBT_PART == 0
FACET(access, 250000) {
	switch(c.draw(4)) {
		case 0: accessDims<int>(c); break;
		case 1: accessDims<double>(c); break;
		case 2: accessDims<float>(c); break;
		case 3: accessDims<std::uint8_t>(c); break;
		case 4: accessDims<bool>(c); break;
	}
}
#elif PBT_PART == 1
FACET(conversion, 200000) {
	switch(c.draw(3)) {
		case 0: convertDims<int, int>(c); break;
		case 1: convertDims<double, int>(c); break;
		case 2: convertDims<int, double>(c); break;
		case 3: convertDims<float, double>(c); break;
	}
}
#elif PBT_PART == 2
FACET(conversionWide, 200000) {
	switch(c.draw(4)) {
		case 0: convertDims<std::int64_t, double>(c); break;
		case 1: convertDims<double, double>(c); break;
		case 2: convertDims<double, float>(c); break;
		case 3: convertDims<int, std::uint8_t>(c); break;
		case 4: convertDims<std::int64_t, std::int64_t>(c); break;
	}
}
#elif PBT_PART == 3
FACET(comparison, 200000) {
	switch(c.draw(3)) {
		case 0: compareDims<int, int>(c); break;
		case 1: compareDims<double, double>(c); break;
		case 2: compareDims<int, double>(c); break;
		case 3: compareDims<float, double>(c); break;
	}
}
FACET(highDims, 4000) {
	switch(c.draw(4)) {
		case 0: compare<300, int, int>(c); break;
		case 1: comparePrecise<270, int, double>(c); break;
		case 2: convert<300, int, 280, double>(c); break;
		case 3: convert<3, float, 300, double>(c); break;
		case 4: convert<260, double, 5, float>(c); break;
	}
}
FACET(comparisonPrecise, 250000) {
	switch(c.draw(5)) {
		case 0: comparePreciseDims<int, double>(c); break;
		case 1: comparePreciseDims<float, double>(c); break;
		case 2: comparePreciseDims<double, double>(c); break;
		case 3: comparePreciseDims<std::int64_t, std::int64_t>(c); break;
		case 4: comparePreciseDims<int, std::int64_t>(c); break;
		case 5: comparePreciseDims<std::uint8_t, int>(c); break;
	}
}
#endif
