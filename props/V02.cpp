// V02: vector geometry against definitions evaluated in long double (exactly for integers).
#include "vecgen.hpp"
#include <nytl/vecOps.hpp>

#include <cmath>

namespace {

using namespace gen;
using nytl::Vec;

constexpr LD pi = 3.14159265358979323846264338327950288L;

static_assert(nytl::dot(nytl::Vec2i {1, 2}, nytl::Vec2i {3, 4}) == 11);

template<std::size_t D, typename T> LD exactDot(const Vec<D, T>& a, const Vec<D, T>& b) {
	LD r = 0;
	for(std::size_t i = 0; i < D; ++i) r += LD(a[i]) * LD(b[i]);
	return r;
}
template<std::size_t D, typename T> LD absDot(const Vec<D, T>& a, const Vec<D, T>& b) {
	LD r = 0;
	for(std::size_t i = 0; i < D; ++i) r += std::fabs(LD(a[i]) * LD(b[i]));
	return r;
}
template<typename T> LD epsOf() { return std::numeric_limits<T>::epsilon(); }

template<std::size_t D, typename T> bool oblique(const Vec<D, T>& a) {
	int n = 0;
	for(std::size_t i = 0; i < D; ++i) n += a[i] != 0;
	return n > 1 || D == 1;
}

// - integers, exact -
template<std::size_t D, typename A, typename B> void integers(pbt::Ctx& c) {
	Vec<D, A> a {};
	Vec<D, B> b {};
	auto max = c.draw(1) ? 5 : 90;
	for(std::size_t i = 0; i < D; ++i) { a[i] = A(c.sym(max)); b[i] = B(c.sym(max)); }
	const auto a0 = a;
	c.note("a ", show(a), " b ", show(b));
	c.nontrivial(oblique(a) && oblique(b));
	std::int64_t s = 0, d = 0, aa = 0, dd = 0;
	double p = 1, big = 1;
	for(std::size_t i = 0; i < D; ++i) {
		s += std::int64_t(a[i]);
		d += std::int64_t(a[i]) * std::int64_t(b[i]);
		aa += std::int64_t(a[i]) * std::int64_t(a[i]);
		auto x = std::int64_t(a[i]) - std::int64_t(b[i]);
		dd += x * x;
		p *= double(a[i]);
		big *= std::max(1.0, std::fabs(double(a[i])));
	}
	EXPECT(nytl::sum(a) == s, "sum is ", nytl::sum(a), " instead of ", s);
	if(big < 1e9) EXPECT(double(nytl::multiply(a)) == p, "multiply is ", nytl::multiply(a), " instead of ", p);
	EXPECT(nytl::dot(a, b) == d, "dot is ", nytl::dot(a, b), " instead of ", d);
	EXPECT(nytl::dot(b, a) == d, "dot(b, a) is ", nytl::dot(b, a), " instead of ", d);
	EXPECT(nytl::dot(a, a) == aa, "dot(a, a) is ", nytl::dot(a, a));
	EXPECT(nytl::dot(a + a, b) == 2 * d, "dot(a + a, b)");
	EXPECT(std::fabs(nytl::length(a) - std::sqrt(LD(aa))) <= 1e-6L * std::sqrt(LD(aa)), "length is ", nytl::length(a));
	EXPECT(std::fabs(nytl::distance(a, b) - std::sqrt(LD(dd))) <= 1e-6L * std::sqrt(LD(dd)),
		"distance is ", nytl::distance(a, b), " instead of ", std::sqrt(LD(dd)));
	auto m = nytl::mirror(a, static_cast<Vec<D, A>>(b));
	for(std::size_t i = 0; i < D; ++i) EXPECT(m[i] == 2 * a[i] - A(b[i]), "mirror at ", i, " is ", m[i]);
	for(std::size_t i = 0; i < D; ++i) EXPECT(a[i] == a0[i], "operand changed");
	if constexpr(D == 3) {
		auto x = nytl::cross(a, b);
		auto y = nytl::cross(b, a);
		const std::int64_t e[3] = {
			std::int64_t(a[1]) * std::int64_t(b[2]) - std::int64_t(a[2]) * std::int64_t(b[1]),
			std::int64_t(a[2]) * std::int64_t(b[0]) - std::int64_t(a[0]) * std::int64_t(b[2]),
			std::int64_t(a[0]) * std::int64_t(b[1]) - std::int64_t(a[1]) * std::int64_t(b[0])};
		for(auto i = 0; i < 3; ++i) {
			EXPECT(x[i] == e[i], "cross at ", i, " is ", x[i], " instead of ", e[i]);
			EXPECT(y[i] == -e[i], "cross(b, a) at ", i, " is ", y[i]);
		}
		EXPECT(nytl::dot(x, a) == 0 && nytl::dot(x, b) == 0, "cross product is not orthogonal");
	}
	if constexpr(D == 2) {
		auto e = std::int64_t(a[0]) * std::int64_t(b[1]) - std::int64_t(a[1]) * std::int64_t(b[0]);
		EXPECT(nytl::cross(a, b) == e, "cross is ", nytl::cross(a, b), " instead of ", e);
		EXPECT(nytl::cross(b, a) == -e, "cross(b, a)");
	}
}

// - narrow, large and unsigned integers: computed in the type of the scalar operations -
template<std::size_t D, typename A, typename B> void wideIntegers(pbt::Ctx& c) {
	using P = decltype(A() * B());
	Vec<D, A> a {};
	Vec<D, B> b {};
	// for types that are not promoted nothing may overflow, unsigned types wrap
	auto gen = [&](auto t) {
		using T = decltype(t);
		if constexpr(std::is_unsigned_v<T>) return T(c.boolean() ? c.draw(9) : c.draw(std::numeric_limits<T>::max()));
		else if constexpr(sizeof(T) < sizeof(int)) return T(c.sym(std::numeric_limits<T>::max()));
		else return T(c.sym(sizeof(T) == 8 ? 300000000 : 9000));
	};
	for(std::size_t i = 0; i < D; ++i) { a[i] = gen(A()); b[i] = gen(B()); }
	c.note("a ", show(a), " b ", show(b));
	c.nontrivial(oblique(a) && oblique(b));
	using S = decltype(A() + A());
	// all oracles wrap, where the real computation may not overflow they are exact
	std::uint64_t s = 0, d = 0;
	LD bigD = 0;
	for(std::size_t i = 0; i < D; ++i) {
		s += std::uint64_t(S(a[i]));
		d += std::uint64_t(P(a[i])) * std::uint64_t(P(b[i]));
		bigD += std::fabs(LD(a[i]) * LD(b[i]));
	}
	EXPECT(nytl::sum(a) == S(s), "sum is ", nytl::sum(a), " instead of ", S(s));
	static_assert(std::is_same_v<decltype(nytl::sum(a)), S>, "sum has the type of a sum of its components");
	if(std::is_unsigned_v<P> || bigD < LD(std::numeric_limits<P>::max())) {
		EXPECT(nytl::dot(a, b) == P(d), "dot is ", nytl::dot(a, b), " instead of ", P(d));
		EXPECT(nytl::dot(b, a) == P(d), "dot(b, a) is ", nytl::dot(b, a), " instead of ", P(d));
		auto prod = [&](std::size_t i, std::size_t j) { return std::uint64_t(P(a[i])) * std::uint64_t(P(b[j])); };
		if constexpr(D == 3) {
			auto x = nytl::cross(a, b);
			if(std::is_unsigned_v<P> || sizeof(P) == 8 || bigD < 1e9) for(auto i = 0; i < 3; ++i) {
				auto j = (i + 1) % 3, k = (i + 2) % 3;
				auto m = std::fabs(LD(a[j]) * LD(b[k])) + std::fabs(LD(a[k]) * LD(b[j]));
				if(!std::is_unsigned_v<P> && m > LD(std::numeric_limits<P>::max())) continue;
				EXPECT(x[i] == P(prod(j, k) - prod(k, j)), "cross at ", i, " is ", x[i]);
			}
		}
		if constexpr(D == 2) {
			auto m = std::fabs(LD(a[0]) * LD(b[1])) + std::fabs(LD(a[1]) * LD(b[0]));
			if(std::is_unsigned_v<P> || m <= LD(std::numeric_limits<P>::max()))
				EXPECT(nytl::cross(a, b) == P(prod(0, 1) - prod(1, 0)), "cross is ", nytl::cross(a, b));
		}
	}
	LD aa = 0, mul = 1, steps = 1;
	std::uint64_t m = 1;
	for(std::size_t i = 0; i < D; ++i) {
		aa += LD(a[i]) * LD(a[i]);
		mul *= LD(a[i]);
		steps *= std::max(LD(1), std::fabs(LD(a[i])));
		m *= std::uint64_t(S(a[i]));
	}
	using M = decltype(A() * A());
	if(std::is_unsigned_v<M> || steps < LD(std::numeric_limits<M>::max()))
		EXPECT(nytl::multiply(a) == M(m), "multiply is ", nytl::multiply(a), " instead of ", M(m));
	if(aa < LD(std::numeric_limits<M>::max()))
		EXPECT(std::fabs(LD(nytl::length(a)) - std::sqrt(aa)) <= 1e-12L * std::sqrt(aa), "length is ", nytl::length(a));
}

// - real numbers -
template<std::size_t D, typename T> Vec<D, T> realVec(pbt::Ctx& c) {
	Vec<D, T> a {};
	auto lim = std::is_same_v<T, float> ? 25 : 200;
	auto scale = c.chance(1, 3) ? std::ldexp(1.0, int(c.sym(lim))) : 1.0;
	for(std::size_t i = 0; i < D; ++i) {
		double x {};
		switch(c.draw(3)) {
			case 0: x = double(c.sym(6)); break;
			case 1: x = c.real(-1, 1); break;
			case 2: x = c.real(-100, 100); break;
			case 3: x = std::ldexp(c.boolean() ? 1.0 : -1.0, int(c.sym(8))); break;
		}
		a[i] = T(x * scale);
	}
	return a;
}
template<std::size_t D, typename T> bool isZero(const Vec<D, T>& a) {
	for(std::size_t i = 0; i < D; ++i) if(a[i] != 0) return false;
	return true;
}

// the angle has to be one whose cosine is in the rounding range of the exact one
template<typename T> void checkAngle(pbt::Ctx& c, LD got, LD cosine, LD delta, const char* what) {
	auto eps = 8 * epsOf<T>();
	auto lo = std::acos(std::min(LD(1), cosine + delta)) - eps;
	auto hi = std::acos(std::max(LD(-1), cosine - delta)) + eps;
	EXPECT(!std::isnan(got), what, " is nan");
	EXPECT(got >= lo && got <= hi, what, " is ", got, ", should be in ", lo, " to ", hi);
	EXPECT(got >= 0 && got <= pi * (1 + 4 * epsOf<T>()), what, " is outside of [0, pi]: ", got);
}

template<std::size_t D, typename T> void real(pbt::Ctx& c) {
	auto a = realVec<D, T>(c);
	Vec<D, T> b {};
	switch(c.draw(5)) {
		case 0: b = realVec<D, T>(c); break;
		case 1: b = a; break;
		case 2: b = T(-1) * a; break;
		case 3: b = T(c.real(0.01, 50)) * a; c.label("parallel"); break;
		case 4: b = T(c.real(-50, -0.01)) * a; c.label("opposite"); break;
		case 5: { // nearly parallel
			b = a;
			auto i = c.draw(D - 1);
			b[i] = T(b[i] * (1 + std::ldexp(1.0, -int(c.range(4, 30)))));
			c.label("nearly parallel");
			break;
		}
	}
	c.note("a ", show(a), " b ", show(b));
	LD e = epsOf<T>() * (D + 4);
	LD d = exactDot(a, b), la = std::sqrt(exactDot(a, a)), lb = std::sqrt(exactDot(b, b));
	EXPECT(std::fabs(LD(nytl::dot(a, b)) - d) <= e * absDot(a, b), "dot is ", nytl::dot(a, b), " instead of ", d);
	EXPECT(std::fabs(LD(nytl::dot(a, b)) - LD(nytl::dot(b, a))) <= e * absDot(a, b), "dot is not symmetric");
	LD s = 0, sa = 0;
	for(std::size_t i = 0; i < D; ++i) { s += LD(a[i]); sa += std::fabs(LD(a[i])); }
	EXPECT(std::fabs(LD(nytl::sum(a)) - s) <= e * sa, "sum is ", nytl::sum(a), " instead of ", s);
	EXPECT(std::fabs(LD(nytl::length(a)) - la) <= e * la, "length is ", nytl::length(a), " instead of ", la);
	LD dist = 0;
	for(std::size_t i = 0; i < D; ++i) { auto x = LD(a[i]) - LD(b[i]); dist += x * x; }
	dist = std::sqrt(dist);
	// the differences may be so small that their squares vanish
	auto tiny = dist < 1e-15L && dist > 0;
	if(!tiny) EXPECT(std::fabs(LD(nytl::distance(a, b)) - dist) <= e * dist,
		"distance is ", nytl::distance(a, b), " instead of ", dist);
	EXPECT(nytl::distance(a, a) == 0, "distance of a to itself is ", nytl::distance(a, a));
	auto m = nytl::mirror(a, b);
	for(std::size_t i = 0; i < D; ++i) EXPECT(std::fabs(LD(m[i]) - (2 * LD(a[i]) - LD(b[i]))) <=
		4 * epsOf<T>() * (2 * std::fabs(LD(a[i])) + std::fabs(LD(b[i]))), "mirror at ", i, " is ", m[i]);

	if(isZero(a) || isZero(b) || la < 1e-120L || lb < 1e-120L) return;
	if(std::is_same_v<T, float> && (la < 1e-15L || lb < 1e-15L)) return;
	c.nontrivial(oblique(a) && oblique(b));
	// cosine: rounding of the dot product and of both lengths
	auto cosine = d / la / lb;
	auto delta = e * (absDot(a, b) / la / lb + 2);
	LD ang = nytl::angle(a, b);
	checkAngle<T>(c, ang, cosine, delta, "angle");
	checkAngle<T>(c, nytl::angle(b, a), cosine, delta, "angle(b, a)");
	checkAngle<T>(c, nytl::angle(a, a), 1, e * 3, "angle(a, a)");
	checkAngle<T>(c, nytl::angle(a, T(-1) * a), -1, e * 3, "angle(a, -a)");

	const auto n = nytl::normalized(a);
	auto nb = b;
	nytl::normalize(nb);
	static_assert(std::is_same_v<decltype(nytl::normalized(a)), Vec<D, T>>);
	LD ln = std::sqrt(exactDot(n, n));
	EXPECT(std::fabs(ln - 1) <= e, "normalized vector has length ", ln);
	for(std::size_t i = 0; i < D; ++i) {
		EXPECT(std::fabs(LD(n[i]) - LD(a[i]) / la) <= e, "normalized at ", i, " is ", n[i], " instead of ", LD(a[i]) / la);
		EXPECT(std::fabs(LD(nb[i]) - LD(b[i]) / lb) <= e, "normalize at ", i, " is ", nb[i], " instead of ", LD(b[i]) / lb);
	}
	checkAngle<T>(c, nytl::angleNormed(n, nb), exactDot(n, nb), e, "angleNormed");

	if constexpr(D == 3) {
		auto x = nytl::cross(a, b);
		auto y = nytl::cross(b, a);
		for(auto i = 0; i < 3; ++i) {
			auto j = (i + 1) % 3, k = (i + 2) % 3;
			auto ex = LD(a[j]) * LD(b[k]) - LD(a[k]) * LD(b[j]);
			auto tol = 4 * epsOf<T>() * (std::fabs(LD(a[j]) * LD(b[k])) + std::fabs(LD(a[k]) * LD(b[j])));
			EXPECT(std::fabs(LD(x[i]) - ex) <= tol, "cross at ", i, " is ", x[i], " instead of ", ex);
			EXPECT(std::fabs(LD(y[i]) + ex) <= tol, "cross(b, a) at ", i, " is ", y[i], " instead of ", -ex);
		}
	}
	if constexpr(D == 2) {
		auto ex = LD(a[0]) * LD(b[1]) - LD(a[1]) * LD(b[0]);
		auto tol = 4 * epsOf<T>() * (std::fabs(LD(a[0]) * LD(b[1])) + std::fabs(LD(a[1]) * LD(b[0])));
		EXPECT(std::fabs(LD(nytl::cross(a, b)) - ex) <= tol, "cross is ", nytl::cross(a, b), " instead of ", ex);
	}
}

// the normals of a 2D vector in a right- and in a left-handed coordinate system
template<typename T> void normals(pbt::Ctx& c) {
	const nytl::Vec2<T> v {c.boolean() ? wide<T>(c) : small<T>(c, 50), c.boolean() ? wide<T>(c) : small<T>(c, 50)};
	c.note("v ", show(v));
	c.nontrivial(v[0] != 0 && v[1] != 0 && v[0] != v[1]);
_Pragma("GCC diagnostic push")
_Pragma("GCC diagnostic ignored \"-Wdeprecated-declarations\"")
	auto rl = nytl::rho::lnormal(v), rr = nytl::rho::rnormal(v);
	auto ll = nytl::lho::lnormal(v), lr = nytl::lho::rnormal(v);
_Pragma("GCC diagnostic pop")
	static_assert(std::is_same_v<decltype(rl), nytl::Vec2<T>> && std::is_same_v<decltype(ll), nytl::Vec2<T>>);
	auto is = [](const nytl::Vec2<T>& a, T x, T y) { return a[0] == x && a[1] == y; };
	EXPECT(is(rl, T(-v[1]), v[0]), "left normal (right-handed) is ", show(rl));
	EXPECT(is(rr, v[1], T(-v[0])), "right normal (right-handed) is ", show(rr));
	EXPECT(is(ll, v[1], T(-v[0])), "left normal (left-handed) is ", show(ll));
	EXPECT(is(lr, T(-v[1]), v[0]), "right normal (left-handed) is ", show(lr));
}

// different value types in one operation
template<std::size_t D, typename A, typename B> void mixed(pbt::Ctx& c) {
	Vec<D, A> a {};
	Vec<D, B> b {};
	for(std::size_t i = 0; i < D; ++i) { a[i] = small<A>(c, 40); b[i] = small<B>(c, 40); }
	c.note("a ", show(a), " b ", show(b));
	c.nontrivial(oblique(a) && oblique(b));
	LD d = 0, aa = 0, bb = 0, dd = 0;
	for(std::size_t i = 0; i < D; ++i) {
		d += LD(a[i]) * LD(b[i]);
		aa += LD(a[i]) * LD(a[i]);
		bb += LD(b[i]) * LD(b[i]);
		dd += (LD(a[i]) - LD(b[i])) * (LD(a[i]) - LD(b[i]));
	}
	EXPECT(LD(nytl::dot(a, b)) == d && LD(nytl::dot(b, a)) == d, "dot is ", nytl::dot(a, b), " instead of ", d);
	EXPECT(std::fabs(LD(nytl::distance(a, b)) - std::sqrt(dd)) <= 1e-6L * std::sqrt(dd), "distance is ", nytl::distance(a, b));
	if(aa > 0 && bb > 0) {
		auto cosine = d / std::sqrt(aa) / std::sqrt(bb);
		checkAngle<float>(c, nytl::angle(a, b), cosine, 20 * epsOf<float>(), "angle");
	}
	if constexpr(D == 3) {
		auto x = nytl::cross(a, b);
		for(auto i = 0; i < 3; ++i) {
			auto j = (i + 1) % 3, k = (i + 2) % 3;
			EXPECT(LD(x[i]) == LD(a[j]) * LD(b[k]) - LD(a[k]) * LD(b[j]), "cross at ", i, " is ", x[i]);
		}
	}
	if constexpr(D == 2) EXPECT(LD(nytl::cross(a, b)) == LD(a[0]) * LD(b[1]) - LD(a[1]) * LD(b[0]), "cross");
}

} // namespace

#define DIMS(F, ...) \
	switch(c.draw(8)) { \
		case 7: F<6, __VA_ARGS__>(c); break; \
		case 8: F<8, __VA_ARGS__>(c); break; \
		case 0: F<2, __VA_ARGS__>(c); break; \
		case 1: F<3, __VA_ARGS__>(c); break; \
		case 2: F<1, __VA_ARGS__>(c); break; \
		case 3: F<4, __VA_ARGS__>(c); break; \
		case 4: F<5, __VA_ARGS__>(c); break; \
		case 5: F<7, __VA_ARGS__>(c); break; \
		case 6: F<17, __VA_ARGS__>(c); break; \
	}

#if PBT_PART == 0
FACET(integers, 200000) {
	switch(c.draw(1)) {
		case 0: DIMS(integers, int, int); break;
		case 1: DIMS(integers, std::int64_t, int); break;
	}
}
#elif PBT_PART == 1
FACET(realDouble, 250000) {
	DIMS(real, double);
}
#elif PBT_PART == 2
FACET(realFloat, 250000) {
	DIMS(real, float);
}
FACET(normals, 40000) {
	switch(c.draw(3)) {
		case 0: normals<int>(c); break;
		case 1: normals<double>(c); break;
		case 2: normals<float>(c); break;
		case 3: normals<std::int64_t>(c); break;
	}
}
#elif PBT_PART == 3
FACET(mixedTypes, 150000) {
	switch(c.draw(3)) {
		case 0: DIMS(mixed, double, int); break;
		case 1: DIMS(mixed, float, double); break;
		case 2: DIMS(mixed, int, float); break;
		case 3: DIMS(mixed, int, int); break;
	}
}
#elif PBT_PART == 4
FACET(wideIntegers, 150000) {
	switch(c.draw(5)) {
		case 0: DIMS(wideIntegers, int, int); break;
		case 1: DIMS(wideIntegers, std::uint8_t, std::uint8_t); break;
		case 2: DIMS(wideIntegers, short, short); break;
		case 3: DIMS(wideIntegers, unsigned, unsigned); break;
		case 4: DIMS(wideIntegers, std::int64_t, std::int64_t); break;
		case 5: DIMS(wideIntegers, std::uint8_t, std::int64_t); break;
	}
}
#elif PBT_PART == 5
FACET(realLongDouble, 60000) {
	DIMS(real, long double);
}
FACET(highDims, 3000) {
	switch(c.draw(3)) {
		case 0: integers<300, int, int>(c); break;
		case 1: real<300, double>(c); break;
		case 2: real<257, float>(c); break;
		case 3: mixed<260, int, double>(c); break;
	}
}
#endif
