// M02: scalar helpers.
#include "pbt.hpp"
#include <nytl/math.hpp>

#include <cmath>
#include <type_traits>

namespace {

using LD = long double;
constexpr LD pi = 3.14159265358979323846264338327950288L;

double anyReal(pbt::Ctx& c) {
	auto e = int(c.sym(60));
	return (c.boolean() ? -1 : 1) * (1 + c.unit()) * std::ldexp(1.0, e);
}
double sensible(pbt::Ctx& c) {
	switch(c.draw(2)) {
		case 0: return double(c.sym(20));
		case 1: return c.real(-10, 10);
		default: return anyReal(c);
	}
}
bool close(LD a, LD b, LD rel, LD abs = 0) {
	return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs;
}

static_assert(nytl::factorial(5) == 120 && nytl::mix(1.0, 3.0, 0.5) == 2.0);

template<typename T> void angle(pbt::Ctx& c) {
	auto x = T(sensible(c));
	auto y = T(sensible(c));
	LD tol = 1e-10L + 8 * std::numeric_limits<T>::epsilon(); // the pi constant has 12 digits
	c.note("x ", x);
	EXPECT(close(nytl::degrees(x), LD(x) * 180 / pi, tol), "degrees(", x, ") = ", nytl::degrees(x));
	EXPECT(close(nytl::radians(x), LD(x) * pi / 180, tol), "radians(", x, ") = ", nytl::radians(x));
	// the constants are doubles: a long double result need not be better than that
	LD eps = 16 * std::max<LD>(std::numeric_limits<T>::epsilon(), std::numeric_limits<double>::epsilon());
	EXPECT(close(nytl::degrees(nytl::radians(x)), x, eps), "degrees(radians(x))");
	EXPECT(close(nytl::radians(nytl::degrees(x)), x, eps), "radians(degrees(x))");
	LD scale = (std::fabs(LD(x)) + std::fabs(LD(y))) * 180;
	EXPECT(close(nytl::degrees(x) + nytl::degrees(y), nytl::degrees(T(x + y)), 0, eps * scale), "degrees linear");
	EXPECT(close(nytl::radians(x) + nytl::radians(y), nytl::radians(T(x + y)), 0, eps * scale), "radians linear");
	EXPECT(nytl::degrees(T(0)) == 0 && nytl::radians(T(0)) == 0, "zero");
	EXPECT(close(nytl::radians(T(180)), pi, tol), "180 degrees");
	EXPECT(close(nytl::degrees(T(pi)), 180, tol), "pi");
	c.nontrivial(x != 0);
}

template<typename T> void mixT(pbt::Ctx& c) {
	auto x = T(sensible(c)), y = T(sensible(c));
	T a {};
	switch(c.draw(3)) {
		case 0: a = T(c.unit()); break;
		case 1: a = T(c.draw(1)); break;
		case 2: a = T(c.sym(8)) / 4; break;
		case 3: a = T(c.real(-3, 3)); break;
	}
	c.note("mix(", x, ", ", y, ", ", a, ")");
	c.nontrivial(a != 0 && a != 1);
	LD r = nytl::mix(x, y, a);
	LD e = (1 - LD(a)) * x + LD(a) * y;
	LD scale = (std::fabs(1 - LD(a)) + std::fabs(LD(a)) + 1) * (std::fabs(LD(x)) + std::fabs(LD(y)));
	EXPECT(close(r, e, 0, 8 * std::numeric_limits<T>::epsilon() * scale), "mix is ", r, " instead of ", e);
	if(a == 0) EXPECT(r == x, "factor 0 gives ", r);
	if(a == 1) EXPECT(r == y, "factor 1 gives ", r);
	// other factor type
	LD r2 = nytl::mix(x, y, double(a));
	LD e2 = (1 - LD(double(a))) * x + LD(double(a)) * y;
	LD eps2 = std::max<LD>(std::numeric_limits<T>::epsilon(), std::numeric_limits<double>::epsilon());
	EXPECT(close(r2, e2, 0, 8 * eps2 * scale), "mix with double factor is ", r2);
	LD r3 = nytl::mix(double(x), double(y), 0);
	LD r4 = nytl::mix(double(x), double(y), 1);
	EXPECT(r3 == double(x) && r4 == double(y), "integer factor");
}

template<typename P, typename T> void mixIntT(pbt::Ctx& c) {
	auto value = [&] { return static_cast<P>(c.weighted({1, 2}) ? c.sym(std::numeric_limits<P>::max() / 2) : c.sym(100)); };
	P x = value(), y = value();
	T a = c.boolean() ? T(c.unit()) : T(c.sym(8)) / 4;
	c.note("mix(", +x, ", ", +y, ", ", a, ")");
	c.nontrivial(a != 0 && a != 1);
	LD r = nytl::mix(x, y, a);
	LD e = (1 - LD(a)) * x + LD(a) * y;
	LD scale = (std::fabs(1 - LD(a)) + std::fabs(LD(a)) + 1) * (std::fabs(LD(x)) + std::fabs(LD(y)));
	EXPECT(close(r, e, 0, 8 * std::numeric_limits<T>::epsilon() * scale), "mix is ", r, " instead of ", e);
}

template<typename T> void smooth(pbt::Ctx& c) {
	auto lo = T(sensible(c));
	auto hi = lo + T(std::fabs(sensible(c)) + 0.01);
	if(!(hi > lo) || !std::isfinite(hi - lo)) return;
	auto at = [&](T t) { return T(lo + t * (hi - lo)); };
	T x {};
	switch(c.draw(4)) {
		case 0: x = at(T(c.unit())); break;
		case 1: x = lo; break;
		case 2: x = hi; break;
		case 3: x = lo - T(std::fabs(sensible(c))); break;
		case 4: x = hi + T(std::fabs(sensible(c))); break;
	}
	LD v = nytl::smoothstep(lo, hi, x);
	c.note("smoothstep(", lo, ", ", hi, ", ", x, ") = ", v);
	LD eps = std::numeric_limits<T>::epsilon();
	c.nontrivial(x > lo && x < hi);
	if(x <= lo) EXPECT(v == 0, "below the range it is ", v);
	if(x >= hi) EXPECT(v == 1, "above the range it is ", v);
	LD t = (LD(x) - lo) / (LD(hi) - lo);
	if(t < 0) t = 0;
	if(t > 1) t = 1;
	EXPECT(close(v, t * t * (3 - 2 * t), 0, 16 * eps), "value ", v, " for t = ", t);
	// monotonic
	auto x2 = T(x + (hi - lo) * T(c.unit()) * T(0.1));
	LD v2 = nytl::smoothstep(lo, hi, x2);
	EXPECT(v2 >= v - 16 * eps, "not monotonic: ", v, " then ", v2);
	EXPECT(v >= 0 && v <= 1 + 4 * eps, "outside of [0, 1]: ", v);
}

} // namespace

FACET(angles, 250000) {
	switch(c.draw(4)) {
		case 0: case 1: angle<float>(c); break;
		case 2: case 3: angle<double>(c); break;
		case 4: angle<long double>(c); break;
	}
}
FACET(angles_integer, 50000) {
	auto x = static_cast<int>(c.boolean() ? c.sym(720) : c.sym(1000000));
	c.note("x ", x);
	EXPECT(close(nytl::degrees(x), LD(x) * 180 / pi, 1e-9L), "degrees(", x, ") = ", nytl::degrees(x));
	EXPECT(close(nytl::radians(x), LD(x) * pi / 180, 1e-9L), "radians(", x, ") = ", nytl::radians(x));
	EXPECT(close(nytl::degrees(nytl::radians(x)), x, 1e-12L), "degrees(radians(x))");
	EXPECT(close(nytl::radians(nytl::degrees(x)), x, 1e-12L), "radians(degrees(x))");
	auto l = static_cast<long>(x) * 1000;
	EXPECT(close(nytl::radians(l), LD(l) * pi / 180, 1e-9L), "radians(", l, "l) = ", nytl::radians(l));
	c.nontrivial(x != 0);
}
FACET(mix, 250000) {
	switch(c.draw(2)) {
		case 0: mixT<float>(c); break;
		case 1: mixT<double>(c); break;
		case 2: mixT<long double>(c); break;
	}
}
FACET(mix_integer, 100000) {
	switch(c.draw(4)) {
		case 0: mixIntT<int, double>(c); break;
		case 1: mixIntT<int, float>(c); break;
		case 2: mixIntT<short, double>(c); break;
		case 3: mixIntT<signed char, float>(c); break;
		case 4: mixIntT<long, double>(c); break;
	}
}
FACET(smoothstep, 250000) {
	switch(c.draw(4)) {
		case 0: case 1: smooth<float>(c); break;
		case 2: case 3: smooth<double>(c); break;
		case 4: smooth<long double>(c); break;
	}
}
FACET(factorial, 5000) {
	auto n = unsigned(c.draw(20));
	unsigned long long e = 1;
	for(auto i = 2u; i <= n; ++i) e *= i;
	c.note("factorial(", n, ")");
	c.nontrivial(n > 1);
	EXPECT(nytl::factorial(n) == e, "factorial(", n, ") is ", nytl::factorial(n), " instead of ", e);
}
FACET(clampStore, 400000) {
	auto lo = float(sensible(c));
	auto hi = float(lo + std::fabs(sensible(c)));
	if(!(lo <= hi)) return;
	float v {};
	switch(c.draw(6)) {
		case 0: v = float(c.real(lo, hi)); break;
		case 1: v = lo; break;
		case 2: v = hi; break;
		case 3: v = std::nextafter(lo, c.boolean() ? INFINITY : -INFINITY); break;
		case 4: v = std::nextafter(hi, c.boolean() ? INFINITY : -INFINITY); break;
		case 5: v = float(sensible(c)); break;
		case 6: v = c.boolean() ? INFINITY : -INFINITY; break;
	}
	int store = int(c.sym(5));
	float r = nytl::clampStore(v, lo, hi, store);
	c.note("clampStore(", v, ", ", lo, ", ", hi, ") = ", r, ", ", store);
	c.nontrivial(v != lo && v != hi);
	float e = v < lo ? lo : v > hi ? hi : v;
	EXPECT(r == e, "returned ", r, " instead of ", e);
	if(v < lo) EXPECT(store == -1, "below, but stored ", store);
	if(v > hi) EXPECT(store == 1, "above, but stored ", store);
	if(v > lo && v < hi) EXPECT(store == 0, "inside, but stored ", store);
	// at the limits: inside or clamped to that limit
	if(v == lo && lo < hi) EXPECT(store == 0 || store == -1, "at min, but stored ", store);
	if(v == hi && lo < hi) EXPECT(store == 0 || store == 1, "at max, but stored ", store);
}
