// A01: approximate equality against the documented tolerance in long double.
#include "pbt.hpp"
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>
#include <nytl/vec.hpp>
#include <nytl/mat.hpp>

#include <complex>
#include <limits>

namespace {

using LD = long double;

template<typename T> T anyValue(pbt::Ctx& c) {
	T sign = c.boolean() ? -1 : 1;
	switch(c.draw(4)) {
		case 0: return T(c.sym(10));
		case 1: return sign * T(c.unit());
		case 2: return sign * T(std::ldexp(1 + c.unit(), int(c.sym(sizeof(T) == 4 ? 30 : 200))));
		case 3: return sign * std::numeric_limits<T>::max() * T(0.1 + 0.4 * c.unit());
		default: return sign * std::numeric_limits<T>::denorm_min() * T(c.draw(1000));
	}
}

double anyEps(pbt::Ctx& c) {
	switch(c.draw(5)) {
		case 0: return nytl::defaultApproxEpsilon;
		case 1: return std::ldexp(1 + c.unit(), -int(c.draw(30)) - 2);
		case 2: return c.real(0, 0.9);
		case 3: return std::ldexp(1.0, -int(c.draw(20)));
		case 4: return std::ldexp(1 + c.unit(), -30 - int(c.draw(15)));
		default: return 0.0;
	}
}

enum Verdict { no, yes, open };

LD bound(LD x, LD v, LD eps) { return eps * (1 + std::max(std::fabs(x), std::fabs(v))); }

Verdict oracle(LD x, LD v, LD eps, LD margin) {
	if(std::isnan(x) || std::isnan(v)) return no;
	auto d = std::fabs(x - v);
	auto b = bound(x, v, eps);
	if(d == 0) return b > 0 ? yes : no;
	auto m = margin * (b + d);
	if(d < b - m) return yes;
	if(d > b + m) return no;
	return open;
}

// value whose distance from v is around the tolerance
template<typename T> T near(pbt::Ctx& c, T v, double eps) {
	auto b = bound(v, v, eps);
	LD ratio = 0;
	switch(c.draw(6)) {
		case 0: ratio = 0; break;
		case 1: ratio = c.real(0, 1); break;
		case 2: ratio = c.real(1, 2); break;
		case 3: ratio = c.real(0.95, 1.05); break;
		case 4: ratio = c.real(1, 100); break;
		case 5: ratio = std::ldexp(1.0, -int(c.draw(7))); break;
		case 6: return anyValue<T>(c);
	}
	LD x = c.boolean() ? v - b * ratio : v + b * ratio;
	auto max = LD(std::numeric_limits<T>::max());
	if(std::fabs(x) > max) return v;
	return T(x);
}

template<typename L, typename R>
void check(pbt::Ctx& c, const L& l, const R& r, bool expected, const char* what) {
	bool eq = l == r, ne = l != r, eq2 = r == l, ne2 = r != l;
	EXPECT(eq == expected, what, ": == is ", eq);
	EXPECT(eq2 == expected, what, ": == with sides swapped is ", eq2);
	EXPECT(ne == !expected, what, ": != is ", ne);
	EXPECT(ne2 == !expected, what, ": != with sides swapped is ", ne2);
}

template<typename T> constexpr LD marginOf() {
	return 16 * LD(std::max<LD>(std::numeric_limits<T>::epsilon(), std::numeric_limits<double>::epsilon()));
}

template<typename T> void scalar(pbt::Ctx& c) {
	auto v = anyValue<T>(c);
	auto eps = anyEps(c);
	auto x = near(c, v, eps);
	c.note("x ", x, " v ", v, " eps ", eps);
	auto o = oracle(x, v, eps, marginOf<T>());
	auto b = bound(x, v, eps), d = std::fabs(LD(x) - v);
	c.nontrivial(d > 0 && d > b / 100 && d < b * 100);
	auto a = nytl::approx(v, eps);
	EXPECT(a.value == v && a.epsilon == eps, "approx does not hold its arguments");
	if(o != open) {
		c.label(o == yes ? "equal" : "different");
		check(c, x, a, o == yes, "scalar");
		check(c, v, nytl::approx(x, eps), o == yes, "scalar, roles swapped");
	} else {
		c.label("boundary");
		bool eq = x == a;
		EXPECT((a == x) == eq && (x != a) == !eq && (a != x) == !eq, "sides or negation disagree");
	}
	// default epsilon
	o = oracle(x, v, nytl::defaultApproxEpsilon, marginOf<T>());
	if(o != open) check(c, x, nytl::approx(v), o == yes, "default epsilon");
	// nan
	auto nan = std::numeric_limits<T>::quiet_NaN();
	check(c, nan, a, false, "nan left");
	check(c, x, nytl::approx(nan, eps), false, "nan in approx");
	check(c, nan, nytl::approx(nan, eps), false, "nan with nan");
}

// Verdict for corresponding components
template<typename A, typename B>
Verdict all(const A& x, const B& v, std::size_t n, double eps, LD margin) {
	Verdict r = yes;
	for(std::size_t i = 0; i < n; ++i) {
		auto o = oracle(x[i], v[i], eps, margin);
		if(o == no) return no;
		if(o == open) r = open;
	}
	return r;
}

// x: close to v in all components, one of them perturbed more
template<typename T>
void fill(pbt::Ctx& c, std::vector<T>& v, std::vector<T>& x, std::size_t n, double eps) {
	v.resize(n);
	x.resize(n);
	auto exact = c.boolean();
	for(std::size_t i = 0; i < n; ++i) {
		v[i] = anyValue<T>(c);
		x[i] = v[i];
		if(!exact) x[i] = T(LD(v[i]) * (1 + LD(eps) * 0.4L * c.unit()));
		if(!std::isfinite(x[i])) x[i] = v[i];
	}
	if(c.chance(3, 4)) {
		auto i = c.draw(n - 1);
		x[i] = c.chance(1, 8) ? std::numeric_limits<T>::quiet_NaN() : near(c, v[i], eps);
		auto b = bound(x[i], v[i], eps), d = std::fabs(LD(x[i]) - v[i]);
		c.nontrivial(d > 0 && d > b / 100 && d < b * 100);
	}
	if(c.verbose) for(std::size_t i = 0; i < n; ++i) c.note("component ", i, ": x ", x[i], " v ", v[i], " eps ", eps);
}

// the approximated values have type T, the compared ones type OT
template<std::size_t D, typename T, typename OT> void vec(pbt::Ctx& c) {
	auto eps = anyEps(c);
	std::vector<T> v, x;
	fill(c, v, x, D, eps);
	nytl::Vec<D, T> vv;
	nytl::Vec<D, OT> vx;
	for(auto i = 0u; i < D; ++i) { vv[i] = v[i]; vx[i] = OT(x[i]); }
	std::vector<OT> xo(D);
	for(auto i = 0u; i < D; ++i) xo[i] = vx[i];
	auto o = all(xo, v, D, eps, std::max(marginOf<T>(), marginOf<OT>()));
	if(o != open) check(c, vx, nytl::approx(vv, eps), o == yes, "vector");
	else {
		auto a = nytl::approx(vv, eps);
		bool eq = vx == a;
		EXPECT((a == vx) == eq && (vx != a) == !eq && (a != vx) == !eq, "sides or negation disagree");
	}
	nytl::Vec<D + 1, T> longer;
	for(auto i = 0u; i < D; ++i) longer[i] = v[i];
	longer[D] = 0;
	check(c, longer, nytl::approx(vv, eps), false, "longer vector");
	check(c, vv, nytl::approx(longer, eps), false, "shorter vector");
}

template<std::size_t R, std::size_t C, typename T, typename OT> void mat(pbt::Ctx& c) {
	auto eps = anyEps(c);
	std::vector<T> v, x;
	fill(c, v, x, R * C, eps);
	nytl::Mat<R, C, T> mv;
	nytl::Mat<R, C, OT> mx;
	std::vector<OT> xo(R * C);
	for(auto i = 0u; i < R * C; ++i) { mv[i / C][i % C] = v[i]; xo[i] = mx[i / C][i % C] = OT(x[i]); }
	auto o = all(xo, v, R * C, eps, std::max(marginOf<T>(), marginOf<OT>()));
	if(o != open) check(c, mx, nytl::approx(mv, eps), o == yes, "matrix");
}

template<typename T, typename OT> void complexT(pbt::Ctx& c) {
	auto eps = anyEps(c);
	std::vector<T> v, x;
	fill(c, v, x, 2, eps);
	std::complex<T> cv(v[0], v[1]);
	std::complex<OT> cx(x[0], x[1]);
	std::vector<OT> xo {cx.real(), cx.imag()};
	auto o = all(xo, v, 2, eps, std::max(marginOf<T>(), marginOf<OT>()));
	if(o != open) check(c, cx, nytl::approx(cv, eps), o == yes, "complex");
}

} // namespace

FACET(scalars, 500000) {
	switch(c.draw(2)) {
		case 0: scalar<double>(c); break;
		case 1: scalar<float>(c); break;
		case 2: scalar<long double>(c); break;
	}
}
FACET(mixedScalar, 200000) {
	// float approximations compared with double values and the other way round
	auto v = anyValue<float>(c);
	auto eps = anyEps(c);
	auto x = double(near(c, double(v), eps));
	if(std::fabs(x) > 3e38) return;
	c.note("x ", x, " v ", v, " eps ", eps);
	LD margin = marginOf<float>();
	auto b = bound(x, v, eps), d = std::fabs(LD(x) - v);
	if(d > b / 100 && d < b * 100) c.nontrivial();
	// x may be rounded to float first
	LD slack = 2 * std::numeric_limits<float>::epsilon() * std::fabs(x) + 1e-44L;
	if(d + slack < b * (1 - margin)) check(c, x, nytl::approx(v, eps), true, "double with float");
	else if(d - slack > b * (1 + margin)) check(c, x, nytl::approx(v, eps), false, "double with float");
	float fx = c.boolean() ? v : float(x);
	auto o = oracle(fx, v, eps, margin);
	if(o != open) check(c, fx, nytl::approx(double(v), eps), o == yes, "float with double");
}
FACET(vectors, 300000) {
	switch(c.draw(8)) {
		case 0: vec<2, double, double>(c); break;
		case 1: vec<3, double, double>(c); break;
		case 2: vec<1, double, double>(c); break;
		case 3: vec<4, float, float>(c); break;
		case 4: vec<3, float, float>(c); break;
		case 5: vec<2, float, double>(c); break;
		case 6: vec<5, double, double>(c); break;
		case 7: vec<6, float, double>(c); break;
		case 8: vec<13, double, double>(c); break;
	}
}
FACET(matrices, 200000) {
	switch(c.draw(7)) {
		case 0: mat<2, 2, double, double>(c); break;
		case 1: mat<3, 2, double, double>(c); break;
		case 2: mat<2, 4, float, float>(c); break;
		case 3: mat<4, 4, double, double>(c); break;
		case 4: mat<3, 3, float, double>(c); break;
		case 5: mat<1, 3, double, double>(c); break;
		case 6: mat<11, 2, double, double>(c); break;
		case 7: mat<2, 10, double, double>(c); break;
	}
}
FACET(complexNumbers, 200000) {
	switch(c.draw(2)) {
		case 0: complexT<double, double>(c); break;
		case 1: complexT<float, float>(c); break;
		case 2: complexT<float, double>(c); break;
	}
}
