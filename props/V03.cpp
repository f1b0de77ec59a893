// V03: every componentwise operation against the scalar function per component.
#include "vecgen.hpp"
#include <nytl/vecOps.hpp>

#include <cmath>
#include <algorithm>

namespace {

using namespace gen;
using nytl::Vec;
namespace cw = nytl::vec::cw;

// equal up to some units in the last place
template<typename T> bool ulps(T a, T b) {
	if constexpr(std::is_integral_v<T>) return a == b;
	else {
		if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
		if(a == b) return true;
		if(std::isinf(a) || std::isinf(b)) return false;
		auto tol = 4 * std::numeric_limits<T>::epsilon() * std::max(std::abs(a), std::abs(b));
		return std::abs(a - b) <= tol + 4 * std::numeric_limits<T>::denorm_min();
	}
}

template<std::size_t D, typename T, typename E>
void expectAll(pbt::Ctx& c, const Vec<D, T>& got, E expected, const char* what) {
	for(std::size_t i = 0; i < D; ++i) {
		T e = static_cast<T>(expected(i));
		EXPECT(ulps<T>(got[i], e), what, " at ", i, " is ", +got[i], " instead of ", +e);
	}
}

// exactly, for everything that is a single arithmetic operation
template<std::size_t D, typename T, typename E>
void expectExact(pbt::Ctx& c, const Vec<D, T>& got, E expected, const char* what) {
	for(std::size_t i = 0; i < D; ++i) {
		T e = static_cast<T>(expected(i));
		EXPECT(identical<T>(got[i], e), what, " at ", i, " is ", +got[i], " instead of ", +e);
	}
}

template<std::size_t D, typename T> bool unequal(const Vec<D, T>& v) {
	for(std::size_t i = 1; i < D; ++i) if(v[i] != v[0]) return true;
	return D == 1;
}

// The domains the functions are evaluated on
enum Domain { all, unit, positive, moderate, whole };

// equal, NaN to NaN; used for the functions whose result is exact
template<typename T> bool equal(T a, T b) {
	if constexpr(std::is_integral_v<T>) return a == b;
	else return a == b || (std::isnan(a) && std::isnan(b));
}

// zeros have the same sign
template<typename T> bool zeroSign(T a, T b) {
	if constexpr(std::is_integral_v<T>) return true;
	else return !(a == 0 && b == 0) || std::signbit(a) == std::signbit(b);
}

template<std::size_t D, typename T> Vec<D, T> inDomain(pbt::Ctx& c, Domain d) {
	Vec<D, T> v {};
	for(std::size_t i = 0; i < D; ++i) {
		switch(d) {
			case all: v[i] = c.chance(1, 4) ? T(c.sym(40)) / 4 : T(c.real(-30, 30)); break;
			case unit: v[i] = c.chance(1, 6) ? T(c.sym(1)) : T(c.real(-1, 1)); break;
			case positive: v[i] = c.chance(1, 4) ? T(1 + c.draw(20)) / 2 :
				T(std::ldexp(1 + c.unit(), int(c.sym(20)))); break;
			case moderate: v[i] = T(c.real(-8, 8)); break;
			case whole: v[i] = wide<T>(c); break;
		}
	}
	return v;
}

template<std::size_t D, typename T> void unary(pbt::Ctx& c) {
	Vec<D, T> v {};
	Vec<D, T> ret {}, ip {};
	// infinities, huge, tiny and out of domain values: what the scalar function makes of them
	const auto edge = c.chance(1, 5);
	c.label(edge, "whole range");
#define UNARY(DOM, FUNC) { \
		v = inDomain<D, T>(c, edge ? whole : DOM); \
		const auto cv = v; \
		ret = cw::FUNC(cv); \
		ip = cv; \
		cw::ip::FUNC(ip); \
		c.note(#FUNC " of ", show(cv)); \
		expectAll(c, ret, [&](std::size_t i) { return std::FUNC(v[i]); }, #FUNC); \
		expectAll(c, ip, [&](std::size_t i) { return ret[i]; }, "ip::" #FUNC); \
		for(std::size_t i = 0; i < D; ++i) \
			EXPECT(zeroSign<T>(ret[i], std::FUNC(v[i])) && zeroSign<T>(ip[i], std::FUNC(v[i])), #FUNC " at ", i, " has the wrong sign"); \
		EXPECT(same(cv, v), #FUNC " changed its argument"); \
		break; \
	}
	switch(c.draw(12)) {
		case 0: UNARY(all, abs)
		case 1: UNARY(all, sin)
		case 2: UNARY(all, cos)
		case 3: UNARY(all, tan)
		case 4: UNARY(unit, asin)
		case 5: UNARY(unit, acos)
		case 6: UNARY(all, atan)
		case 7: UNARY(positive, sqrt)
		case 8: UNARY(positive, log)
		case 9: UNARY(all, exp)
		case 10: UNARY(all, exp2)
		case 11: UNARY(all, floor)
		case 12: UNARY(all, ceil)
	}
#undef UNARY
	c.nontrivial(unequal(v));
}

// the functions with exact results
template<std::size_t D, typename T> void rounding(pbt::Ctx& c) {
	Vec<D, T> v {};
	const auto mode = c.draw(2);
	for(std::size_t i = 0; i < D; ++i) {
		switch(mode) {
			case 0: v[i] = wide<T>(c); break;
			case 1: v[i] = T(c.sym(60)) / 4; break;
			default: { // around integers, up to where every value is one
				auto base = std::ldexp(T(1 + c.draw(7)), int(c.draw(std::numeric_limits<T>::digits)));
				base = c.boolean() ? base : -base;
				v[i] = c.chance(1, 3) ? base : std::nextafter(base, c.boolean() ? T(0) : 2 * base);
				break;
			}
		}
	}
	const auto cv = v;
	c.note("of ", show(cv));
	c.nontrivial(unequal(v));
#define EXACT(FUNC) { \
		auto ret = cw::FUNC(cv); \
		auto ip = cv; \
		cw::ip::FUNC(ip); \
		for(std::size_t i = 0; i < D; ++i) { \
			T e = std::FUNC(v[i]); \
			EXPECT(equal<T>(ret[i], e) && zeroSign<T>(ret[i], e), #FUNC " at ", i, " is ", ret[i], " instead of ", e); \
			EXPECT(equal<T>(ip[i], e) && zeroSign<T>(ip[i], e), "ip::" #FUNC " at ", i, " is ", ip[i], " instead of ", e); \
		} \
	}
	EXACT(abs)
	EXACT(floor)
	EXACT(ceil)
#undef EXACT
	EXPECT(same(cv, v), "argument changed");
}

template<std::size_t D, typename T> void power(pbt::Ctx& c) {
	// also zero and negative bases, of which only whole powers exist
	const auto edge = c.chance(1, 4);
	auto va = inDomain<D, T>(c, edge ? all : positive);
	auto vb = inDomain<D, T>(c, moderate);
	if(edge) for(std::size_t i = 0; i < D; ++i) if(c.chance(3, 4)) vb[i] = T(c.sym(5));
	const auto a = va;
	const auto b = vb;
	auto s = edge ? T(c.sym(5)) : T(c.real(-4, 4));
	auto n = int(c.sym(4));
	c.label(edge, "any base");
	c.note("a ", show(a), " b ", show(b), " s ", s, " n ", n);
	c.nontrivial(unequal(a));
	const auto a0 = a;
	auto ip = a;
	expectAll(c, cw::pow(a, b), [&](std::size_t i) { return std::pow(a0[i], b[i]); }, "pow(vec, vec)");
	cw::ip::pow(ip, b);
	expectAll(c, ip, [&](std::size_t i) { return std::pow(a0[i], b[i]); }, "ip::pow(vec, vec)");
	ip = a;
	expectAll(c, cw::pow(a, s), [&](std::size_t i) { return std::pow(a0[i], s); }, "pow(vec, scalar)");
	cw::ip::pow(ip, s);
	expectAll(c, ip, [&](std::size_t i) { return std::pow(a0[i], s); }, "ip::pow(vec, scalar)");
	ip = a;
	expectAll(c, cw::pow(a, n), [&](std::size_t i) { return std::pow(a0[i], n); }, "pow(vec, int)");
	cw::ip::pow(ip, n);
	expectAll(c, ip, [&](std::size_t i) { return std::pow(a0[i], n); }, "ip::pow(vec, int)");
	EXPECT(same(a, a0), "argument changed");
}

// base and exponent of different types
template<std::size_t D, typename A, typename B> void powerMixed(pbt::Ctx& c) {
	Vec<D, A> va {};
	Vec<D, B> vb {};
	for(std::size_t i = 0; i < D; ++i) {
		va[i] = A(c.range(1, 30));
		vb[i] = std::is_integral_v<B> ? B(c.range(0, 4)) : B(c.range(0, 16)) / 4;
	}
	const auto a = va;
	const auto b = vb;
	const auto s = b[c.draw(D - 1)];
	c.note("a ", show(a), " b ", show(b), " s ", s);
	c.nontrivial(unequal(a) && unequal(b));
	auto vec = [&](std::size_t i) { return std::pow(va[i], vb[i]); };
	auto scalar = [&](std::size_t i) { return std::pow(va[i], s); };
	auto ip = a;
	cw::ip::pow(ip, b);
	expectAll(c, ip, vec, "ip::pow(vec, vec)");
	expectAll(c, cw::pow(a, b), vec, "pow(vec, vec)");
	ip = a;
	cw::ip::pow(ip, s);
	expectAll(c, ip, scalar, "ip::pow(vec, scalar)");
	expectAll(c, cw::pow(a, s), scalar, "pow(vec, scalar)");
	EXPECT(same(a, va) && same(b, vb), "argument changed");
}

template<std::size_t D, typename T> void ordering(pbt::Ctx& c) {
	Vec<D, T> va {}, vb {}, vl {}, vh {};
	if(c.chance(1, 4)) { // extreme values
		for(std::size_t i = 0; i < D; ++i) {
			va[i] = wide<T>(c); vb[i] = wide<T>(c);
			vl[i] = wide<T>(c); vh[i] = wide<T>(c);
			if(vh[i] < vl[i]) std::swap(vh[i], vl[i]);
		}
		c.label("extreme values");
	} else for(std::size_t i = 0; i < D; ++i) {
		va[i] = small<T>(c, 10);
		vb[i] = small<T>(c, 10);
		vl[i] = small<T>(c, 10);
		vh[i] = T(vl[i] + small<T>(c, 8) * small<T>(c, 1));
		if(vh[i] < vl[i]) std::swap(vh[i], vl[i]);
	}
	const auto a = va, b = vb, lo = vl, hi = vh;
	const T s = c.chance(1, 4) ? wide<T>(c) : small<T>(c, 10), slo = std::min(s, b[0]), shi = std::max(s, b[0]);
	c.note("a ", show(a), " b ", show(b), " lo ", show(lo), " hi ", show(hi), " s ", +s);
	c.nontrivial(unequal(a));
	expectAll(c, cw::max(a, b), [&](std::size_t i) { return std::max(va[i], vb[i]); }, "max(vec, vec)");
	expectAll(c, cw::min(a, b), [&](std::size_t i) { return std::min(va[i], vb[i]); }, "min(vec, vec)");
	expectAll(c, cw::max(a, s), [&](std::size_t i) { return std::max(va[i], s); }, "max(vec, scalar)");
	expectAll(c, cw::min(a, s), [&](std::size_t i) { return std::min(va[i], s); }, "min(vec, scalar)");
	expectAll(c, cw::clamp(a, lo, hi), [&](std::size_t i) { return std::clamp(va[i], vl[i], vh[i]); }, "clamp(vec, vec, vec)");
	expectAll(c, cw::clamp(a, slo, shi), [&](std::size_t i) { return std::clamp(va[i], slo, shi); }, "clamp(vec, scalar, scalar)");
	auto ip = a;
	cw::ip::clamp(ip, lo, hi);
	expectAll(c, ip, [&](std::size_t i) { return std::clamp(va[i], vl[i], vh[i]); }, "ip::clamp(vec, vec, vec)");
	ip = a;
	cw::ip::clamp(ip, slo, shi);
	expectAll(c, ip, [&](std::size_t i) { return std::clamp(va[i], slo, shi); }, "ip::clamp(vec, scalar, scalar)");
	// the limits may be the components of the vector itself
	ip = a;
	cw::ip::clamp(ip, std::min(ip[0], ip[D - 1]), std::max(ip[0], ip[D - 1]));
	expectAll(c, ip, [&](std::size_t i) { return std::clamp(va[i], std::min(va[0], va[D - 1]), std::max(va[0], va[D - 1])); },
		"ip::clamp with own components");
	expectAll(c, cw::max(a, a[D - 1]), [&](std::size_t i) { return std::max(va[i], va[D - 1]); }, "max with own component");
	expectAll(c, cw::min(a, a[0]), [&](std::size_t i) { return std::min(va[i], va[0]); }, "min with own component");
	EXPECT(same(a, va) && same(b, vb) && same(lo, vl) && same(hi, vh), "argument changed");
}

template<typename T> T nonZero(pbt::Ctx& c, long long m) {
	auto v = small<T>(c, m);
	return v == 0 ? T(1) : v;
}

template<std::size_t D, typename A, typename B> void products(pbt::Ctx& c) {
	Vec<D, A> va {};
	Vec<D, B> vb {};
	// extreme values where nothing can overflow or convert to an integer out of range
	constexpr auto real = std::is_floating_point_v<A> && std::is_floating_point_v<B>;
	constexpr auto narrow = std::is_integral_v<A> && sizeof(A) < sizeof(int);
	constexpr auto wraps = std::is_unsigned_v<A> && std::is_unsigned_v<B>;
	const auto big = (real || wraps) && c.chance(1, 3);
	auto lim = narrow ? 11LL : 100LL;
	// values that only a product of the wider type can represent
	if(std::is_integral_v<A> && std::is_integral_v<B> && sizeof(A) == 8 && sizeof(B) >= 4 && c.boolean()) lim = 2000000000;
	for(std::size_t i = 0; i < D; ++i) {
		va[i] = nonZero<A>(c, lim);
		vb[i] = nonZero<B>(c, lim);
		if(c.chance(1, 6)) vb[i] = B(va[i]) == 0 ? B(1) : B(va[i]);
		if(big) {
			va[i] = wide<A>(c);
			vb[i] = wide<B>(c);
			if(!real && va[i] == 0) va[i] = 1;
			if(!real && vb[i] == 0) vb[i] = 1;
		}
	}
	const auto a = va;
	const auto b = vb;
	auto vf = nonZero<B>(c, 50);
	if(big) vf = wide<B>(c);
	if(c.chance(1, 5)) vf = B(va[c.draw(D - 1)]);
	if(!real && vf == 0) vf = 1;
	const auto f = vf;
	c.label(big, "extreme values");
	c.note("a ", show(a), " b ", show(b), " f ", +f);
	c.nontrivial(unequal(a) && unequal(b));
	using R = decltype(A() * B());

	static_assert(std::is_same_v<decltype(cw::multiply(a, b)), Vec<D, R>>);
	static_assert(std::is_same_v<decltype(cw::divide(a, b)), Vec<D, R>>);
	expectExact(c, cw::multiply(a, b), [&](std::size_t i) { return va[i] * vb[i]; }, "multiply");
	expectExact(c, cw::divide(a, b), [&](std::size_t i) { return va[i] / vb[i]; }, "divide");
	{
		using namespace nytl::vec::operators;
		expectExact(c, a * f, [&](std::size_t i) { return va[i] * f; }, "vec * scalar");
		expectExact(c, a / f, [&](std::size_t i) { return va[i] / f; }, "vec / scalar");
		expectExact(c, f / a, [&](std::size_t i) { return f / va[i]; }, "scalar / vec");
		expectExact(c, f * a, [&](std::size_t i) { return f * va[i]; }, "scalar * vec");
		static_assert(std::is_same_v<decltype(a / f), Vec<D, R>>);
	}
	{
		using namespace nytl::vec::cw::operators;
		expectExact(c, a * b, [&](std::size_t i) { return va[i] * vb[i]; }, "vec * vec");
		expectExact(c, a / b, [&](std::size_t i) { return va[i] / vb[i]; }, "vec / vec");
		expectExact(c, a + f, [&](std::size_t i) { return va[i] + f; }, "vec + scalar");
		expectExact(c, f + a, [&](std::size_t i) { return f + va[i]; }, "scalar + vec");
		expectExact(c, a - f, [&](std::size_t i) { return va[i] - f; }, "vec - scalar");
		expectExact(c, f - a, [&](std::size_t i) { return f - va[i]; }, "scalar - vec");
		expectExact(c, a + b, [&](std::size_t i) { return va[i] + vb[i]; }, "vec + vec");
		expectExact(c, a - b, [&](std::size_t i) { return va[i] - vb[i]; }, "vec - vec");
		auto x = a;
		auto& rx = (x *= b);
		EXPECT(&rx == &x, "*= returns another object");
		expectExact(c, x, [&](std::size_t i) { A t = va[i]; t *= vb[i]; return t; }, "vec *= vec");
		x = a;
		auto& ry = (x /= b);
		EXPECT(&ry == &x, "/= returns another object");
		expectExact(c, x, [&](std::size_t i) { A t = va[i]; t /= vb[i]; return t; }, "vec /= vec");
		x = a;
		x *= x;
		expectExact(c, x, [&](std::size_t i) { return va[i] * va[i]; }, "vec *= itself");
		x = a;
		x /= x;
		expectExact(c, x, [&](std::size_t i) { A t = va[i]; t /= va[i]; return t; }, "vec /= itself");
	}
	EXPECT(same(a, va) && same(b, vb), "argument changed");
}

template<std::size_t D, typename T> void intAbs(pbt::Ctx& c) {
	Vec<D, T> v {};
	for(std::size_t i = 0; i < D; ++i) v[i] = c.chance(1, 5) ? std::numeric_limits<T>::max() * T(c.boolean() ? 1 : -1) :
		T(c.sym(std::numeric_limits<T>::max() / 4));
	const auto cv = v;
	c.note("abs of ", show(cv));
	c.nontrivial(unequal(v));
	auto ip = v;
	cw::ip::abs(ip);
	auto abs = [&](std::size_t i) { return v[i] < 0 ? -v[i] : v[i]; };
	expectAll(c, cw::abs(cv), abs, "abs");
	expectAll(c, ip, abs, "ip::abs");
	EXPECT(same(cv, v), "argument changed");
}

} // namespace

#define DIMS(F, ...) \
	switch(c.draw(8)) { \
		case 6: F<5, __VA_ARGS__>(c); break; \
		case 7: F<7, __VA_ARGS__>(c); break; \
		case 8: F<8, __VA_ARGS__>(c); break; \
		case 0: F<2, __VA_ARGS__>(c); break; \
		case 1: F<3, __VA_ARGS__>(c); break; \
		case 2: F<1, __VA_ARGS__>(c); break; \
		case 3: F<4, __VA_ARGS__>(c); break; \
		case 4: F<6, __VA_ARGS__>(c); break; \
		case 5: F<17, __VA_ARGS__>(c); break; \
	}

#if PBT_PART == 0
FACET(unaryDouble, 300000) {
	DIMS(unary, double);
}
FACET(integerAbs, 60000) {
	switch(c.draw(1)) {
		case 0: DIMS(intAbs, int); break;
		case 1: DIMS(intAbs, std::int64_t); break;
	}
}
#elif PBT_PART == 1
FACET(unaryFloat, 300000) {
	DIMS(unary, float);
}
#elif PBT_PART == 2
FACET(pow, 150000) {
	switch(c.draw(1)) {
		case 0: DIMS(power, double); break;
		case 1: DIMS(power, float); break;
	}
}
#elif PBT_PART == 7
FACET(powMixed, 100000) {
	switch(c.draw(3)) {
		case 0: DIMS(powerMixed, int, double); break;
		case 1: DIMS(powerMixed, int, int); break;
		case 2: DIMS(powerMixed, float, double); break;
		case 3: DIMS(powerMixed, double, int); break;
	}
}
FACET(highDims, 3000) {
	switch(c.draw(4)) {
		case 0: ordering<300, int>(c); break;
		case 1: ordering<260, float>(c); break;
		case 2: products<300, int, int>(c); break;
		case 3: unary<270, double>(c); break;
		case 4: power<258, float>(c); break;
	}
}
#elif PBT_PART == 3
FACET(ordering, 250000) {
	switch(c.draw(5)) {
		case 3: DIMS(ordering, std::uint8_t); break;
		case 4: DIMS(ordering, std::int64_t); break;
		case 5: DIMS(ordering, unsigned); break;
		case 0: DIMS(ordering, int); break;
		case 1: DIMS(ordering, double); break;
		case 2: DIMS(ordering, float); break;
	}
}
#elif PBT_PART == 4
FACET(products, 150000) {
	switch(c.draw(1)) {
		case 0: DIMS(products, int, int); break;
		case 1: DIMS(products, double, double); break;
	}
}
#elif PBT_PART == 5
FACET(productsMixed, 150000) {
	switch(c.draw(2)) {
		case 0: DIMS(products, float, float); break;
		case 1: DIMS(products, int, double); break;
		case 2: DIMS(products, double, int); break;
	}
}
#elif PBT_PART == 6
FACET(productsNarrow, 150000) {
	switch(c.draw(3)) {
		case 0: DIMS(products, std::uint8_t, std::uint8_t); break;
		case 1: DIMS(products, short, short); break;
		case 2: DIMS(products, unsigned, unsigned); break;
		case 3: DIMS(products, float, double); break;
	}
}
#elif PBT_PART == 8
FACET(unaryLongDouble, 150000) {
	DIMS(unary, long double);
}
FACET(rounding, 150000) {
	switch(c.draw(2)) {
		case 0: DIMS(rounding, double); break;
		case 1: DIMS(rounding, float); break;
		case 2: DIMS(rounding, long double); break;
	}
}
#elif PBT_PART == 9
FACET(productsWide, 120000) {
	switch(c.draw(4)) {
		case 0: DIMS(products, std::int64_t, std::int64_t); break;
		case 1: DIMS(products, std::uint64_t, std::uint64_t); break;
		case 2: DIMS(products, long double, long double); break;
		case 3: DIMS(products, std::int64_t, int); break;
		case 4: DIMS(products, std::uint8_t, std::int64_t); break;
	}
}
#elif PBT_PART == 10
FACET(orderingWide, 100000) {
	switch(c.draw(4)) {
		case 0: DIMS(ordering, std::int8_t); break;
		case 1: DIMS(ordering, std::uint64_t); break;
		case 2: DIMS(ordering, long double); break;
		case 3: DIMS(ordering, short); break;
		case 4: DIMS(ordering, std::uint16_t); break;
	}
}
FACET(powLongDouble, 30000) {
	DIMS(power, long double);
}
#endif
