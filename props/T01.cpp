// T01: scale, translation, rotation, orientation, flips, base, multPos.
#include "quatgen.hpp"
#include <nytl/transform.hpp>

namespace {

using namespace gen;
template<typename T> constexpr LD eps = std::numeric_limits<T>::epsilon();
template<std::size_t D> using W = std::array<LD, D>; // vector
template<std::size_t D> using X = std::array<W<D>, D>; // matrix

template<std::size_t D> X<D> ident() { X<D> r {}; for(auto i = 0u; i < D; ++i) r[i][i] = 1; return r; }
template<std::size_t D> X<D> mul(const X<D>& a, const X<D>& b) {
	X<D> r {};
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) for(auto k = 0u; k < D; ++k) r[i][j] += a[i][k] * b[k][j];
	return r;
}
template<std::size_t D, typename T> X<D> toX(const nytl::SquareMat<D, T>& m) {
	X<D> r {};
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) r[i][j] = m[i][j];
	return r;
}
template<std::size_t D> LD diff(const X<D>& a, const X<D>& b) {
	LD d = 0;
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) {
		auto e = std::fabs(a[i][j] - b[i][j]);
		if(!(e <= d)) d = e; // NaN as well
	}
	return d;
}
template<std::size_t D> std::string showX(const X<D>& m) {
	std::string s = "{";
	for(auto& r : m) { for(auto x : r) s += pbt::str(x) + " "; s += "; "; }
	return s + "}";
}
template<std::size_t D, typename T> std::string showM(const nytl::SquareMat<D, T>& m) { return showX(toX<D, T>(m)); }

// sets the magnitude of the values
template<std::size_t N, typename T> nytl::Vec<N, T> params(pbt::Ctx& c, bool& gen, LD& mag) {
	nytl::Vec<N, T> v {};
	gen = true;
	mag = c.chance(1, 3) ? std::ldexp(1.L, int(c.sym(std::is_same_v<T, float> ? 40 : 300))) : 1;
	auto simple = c.boolean();
	for(auto& x : v) {
		x = T(mag * (simple ? LD(c.sym(8)) : c.real(-10, 10)));
		gen &= x != T(0) && x != T(1);
	}
	return v;
}
template<std::size_t D, typename T> nytl::SquareMat<D, T> anyMat(pbt::Ctx& c) {
	nytl::SquareMat<D, T> m {};
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) m[i][j] = T(std::is_integral_v<T> || c.boolean() ? LD(c.sym(5)) : c.real(-5, 5));
	return m;
}

template<std::size_t D, std::size_t R, typename T> void scaling(pbt::Ctx& c) {
	bool g;
	LD mag;
	const auto s = params<R, T>(c, g, mag);
	c.note("scale ", show(s), " in ", D);
	c.nontrivial(g);
	auto e = ident<D>();
	for(auto i = 0u; i < R; ++i) e[i][i] = s[i];
	const auto m = nytl::scaleMat<D>(s);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, nytl::Mat<D, D, T>>);
	EXPECT(diff(toX<D, T>(m), e) == 0, "scaleMat is ", showM<D, T>(m), " instead of ", showX(e));
	auto a = anyMat<D, T>(c);
	auto ex = mul(e, toX<D, T>(a));
	nytl::scale(a, s);
	if constexpr(R == D) { // by one of its own rows
		auto b = anyMat<D, T>(c);
		auto k = c.draw(D - 1);
		auto f = ident<D>();
		for(auto i = 0u; i < D; ++i) f[i][i] = b[k][i];
		auto e = mul(f, toX<D, T>(b));
		nytl::scale(b, b[k]);
		EXPECT(diff(toX<D, T>(b), e) <= 100 * eps<T>, "scale by own row ", k, " gives ", showM<D, T>(b), " instead of ", showX(e));
	}
	if constexpr(D == 4) {
		auto d = nytl::scaleMat(s);
		EXPECT(d.rows() == 4 && d.cols() == 4 && diff(toX<4, T>(d), e) == 0, "scaleMat of default dimension");
	}
	EXPECT(diff(toX<D, T>(a), ex) <= 100 * eps<T> * std::max(mag, 1.L), "scale gives ", showM<D, T>(a), " instead of ", showX(ex));
}

template<std::size_t D, std::size_t R, typename T> void translation(pbt::Ctx& c) {
	bool g;
	LD mag;
	const auto t = params<R, T>(c, g, mag);
	mag = std::max(mag, 1.L);
	c.note("translate ", show(t), " in ", D);
	c.nontrivial(g);
	auto e = ident<D>();
	for(auto i = 0u; i < R; ++i) e[i][D - 1] = t[i];
	const auto m = nytl::translateMat<D>(t);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, nytl::Mat<D, D, T>>);
	EXPECT(diff(toX<D, T>(m), e) == 0, "translateMat is ", showM<D, T>(m), " instead of ", showX(e));
	auto a = anyMat<D, T>(c);
	auto ex = mul(e, toX<D, T>(a));
	nytl::translate(a, t);
	if constexpr(D == 4) {
		auto d = nytl::translateMat(t);
		EXPECT(d.rows() == 4 && d.cols() == 4 && diff(toX<4, T>(d), e) == 0, "translateMat of default dimension");
	}
	EXPECT(diff(toX<D, T>(a), ex) <= 200 * eps<T> * mag, "translate gives ", showM<D, T>(a), " instead of ", showX(ex));
	// on a point
	nytl::Vec<D, T> p {};
	for(auto i = 0u; i + 1 < D; ++i) p[i] = T(c.sym(9));
	p[D - 1] = T(1);
	auto r = m * p;
	for(auto i = 0u; i < D; ++i) {
		auto x = LD(p[i]) + (i < R ? LD(t[i]) : 0);
		EXPECT(std::fabs(LD(r[i]) - x) <= 40 * eps<T> * mag, "translated ", show(p), " to ", show(r));
	}
}

template<std::size_t D, typename T> void rotation2(pbt::Ctx& c) {
	const auto w = T(wideAngle(c));
	c.note("angle ", w, " in ", D);
	auto cs = std::cos(LD(w)), sn = std::sin(LD(w));
	c.nontrivial(std::fabs(cs) > 0.01L && std::fabs(sn) > 0.01L);
	auto e = ident<D>();
	e[0][0] = e[1][1] = cs; e[0][1] = -sn; e[1][0] = sn;
	const auto m = nytl::rotateMat<D>(w);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, nytl::Mat<D, D, T>>);
	EXPECT(diff(toX<D, T>(m), e) <= 4 * eps<T>, "rotateMat is ", showM<D, T>(m), " instead of ", showX(e));
	auto a = anyMat<D, T>(c);
	auto ex = mul(e, toX<D, T>(a));
	nytl::rotate(a, w);
	EXPECT(diff(toX<D, T>(a), ex) <= 100 * eps<T>, "rotate gives ", showM<D, T>(a), " instead of ", showX(ex));
}

template<std::size_t D, typename T> void rotation3(pbt::Ctx& c) {
	auto axis = fromV<T>(unitVector(c));
	const auto w = T(wideAngle(c));
	c.note("axis ", show(axis), " angle ", w, " in ", D);
	c.nontrivial(general(toV(axis)));
	auto ax = unit(toV(axis));
	auto e = ident<D>();
	for(int j = 0; j < 3; ++j) {
		V u {}; u[j] = 1;
		auto r = rotated(u, ax, LD(w));
		for(int i = 0; i < 3; ++i) e[i][j] = r[i];
	}
	const auto m = nytl::rotateMat<D>(axis, w);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, nytl::Mat<D, D, T>>);
	EXPECT(diff(toX<D, T>(m), e) <= 16 * eps<T>, "rotateMat is ", showM<D, T>(m), " instead of ", showX(e));
	auto a = anyMat<D, T>(c);
	auto ex = mul(e, toX<D, T>(a));
	nytl::rotate(a, axis, w);
	EXPECT(diff(toX<D, T>(a), ex) <= 400 * eps<T>, "rotate gives ", showM<D, T>(a), " instead of ", showX(ex));
	if constexpr(D == 3) { // around one of its own rows
		auto b = anyMat<3, T>(c);
		auto k = c.draw(2);
		b[k] = axis;
		auto ex = mul(e, toX<3, T>(b));
		nytl::rotate(b, b[k], w);
		EXPECT(diff(toX<3, T>(b), ex) <= 400 * eps<T>, "rotate around own row ", k, " gives ", showM<3, T>(b), " instead of ", showX(ex));
	}
	// Rodrigues' formula
	auto v = scaledPoint<T>(c);
	auto r = nytl::rotate(v, axis, w);
	auto x = rotated(toV(v), ax, LD(w));
	for(int i = 0; i < 3; ++i) EXPECT(std::fabs(LD(r[i]) - x[i]) <= 64 * eps<T> * len(toV(v)), "rotate of ", show(v), " is ", show(r), " instead of ", show(x));
}

template<std::size_t D, typename T> void orient2(pbt::Ctx& c) {
	bool units = c.boolean();
	auto dir = [&] {
		auto w = angle(c);
		auto l = units ? 1.L : std::ldexp(1 + LD(c.unit()), int(c.sym(c.boolean() ? 6 : std::is_same_v<T, float> ? 25 : 200)));
		return nytl::Vec<2, T> {T(l * std::cos(w)), T(l * std::sin(w))};
	};
	auto from = dir(), to = dir();
	c.note("from ", show(from), " to ", show(to));
	auto lf = std::hypot(LD(from[0]), LD(from[1])), lt = std::hypot(LD(to[0]), LD(to[1]));
	c.nontrivial(std::fabs(LD(from[0]) * to[1] - LD(from[1]) * to[0]) > 0.01L * lf * lt);
	const auto m = nytl::orientMat<D>(from, to);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, nytl::Mat<D, D, T>>);
	nytl::Vec<D, T> f {};
	f[0] = from[0]; f[1] = from[1];
	for(auto i = 2u; i < D; ++i) f[i] = T(i);
	auto r = m * f;
	for(auto i = 0u; i < D; ++i) {
		auto x = i < 2 ? LD(to[i % 2]) : LD(i);
		EXPECT(std::fabs(LD(r[i]) - x) <= 16 * eps<T> * (i < 2 ? lt : LD(i)), "maps from to ", show(r));
	}
	// a rotation with the scale |to| / |from|
	auto k = lt / lf;
	auto tol = 32 * eps<T> * k;
	EXPECT(std::fabs(LD(m[0][0]) - LD(m[1][1])) <= tol && std::fabs(LD(m[0][1]) + LD(m[1][0])) <= tol, "not a rotation: ", showM<D, T>(m));
	EXPECT(std::fabs(std::hypot(LD(m[0][0]), LD(m[1][0])) - k) <= tol, "scale is not ", k, ": ", showM<D, T>(m));
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) if(i > 1 || j > 1)
		EXPECT(m[i][j] == T(i == j), "element ", i, ",", j, " of ", showM<D, T>(m));
}

template<std::size_t D, typename T> void orient3(pbt::Ctx& c) {
	auto a = unitVector(c), b = unitVector(c);
	if(c.chance(1, 6)) b = a;
	if(c.chance(1, 6)) { // nearly equal
		for(auto& x : b) x = 0;
		for(int i = 0; i < 3; ++i) b[i] = a[i] + 1e-4L * c.real(-1, 1);
		b = unit(b);
	}
	if(c.chance(1, 6)) { // nearly opposite
		auto d = std::ldexp(1.L, -int(c.range(1, std::is_same_v<T, float> ? 5 : 14)));
		for(int i = 0; i < 3; ++i) b[i] = -a[i] + d * c.real(-1, 1);
		b = unit(b);
	}
	if(dot(a, b) < (std::is_same_v<T, float> ? -0.9995L : -1 + 1e-9L)) { b = cross(a, b); if(len(b) < 0.1L) b = a; b = unit(b); }
	auto from = fromV<T>(a), to = fromV<T>(b);
	c.note("from ", show(from), " to ", show(to));
	c.nontrivial(general(a) && general(b) && len(cross(a, b)) > 0.01L);
	auto k = 1 / (1 + dot(a, b));
	auto tol = 32 * eps<T> * k;
	const auto m = nytl::orientMat<D>(from, to);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, nytl::Mat<D, D, T>>);
	auto x = toX<D, T>(m);
	for(int i = 0; i < 3; ++i) {
		LD s = 0;
		for(int j = 0; j < 3; ++j) s += x[i][j] * a[j];
		EXPECT(std::fabs(s - b[i]) <= tol, "maps from to component ", i, " ", s, " instead of ", b[i]);
	}
	// orthonormal with determinant 1
	V row[3];
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) row[i][j] = x[i][j];
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j)
		EXPECT(std::fabs(dot(row[i], row[j]) - (i == j)) <= 4 * tol, "not orthonormal: ", showM<D, T>(m));
	EXPECT(dot(cross(row[0], row[1]), row[2]) > 0, "a reflection: ", showM<D, T>(m));
	// shortest rotation: its axis stays in place
	auto ax = cross(a, b);
	for(int i = 0; i < 3; ++i) EXPECT(std::fabs(dot(row[i], ax) - ax[i]) <= 2 * tol, "does not rotate around the common normal: ", showM<D, T>(m));
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) if(i > 2 || j > 2)
		EXPECT(m[i][j] == T(i == j), "element ", i, ",", j, " of ", showM<D, T>(m));
}

template<typename T> void basis(pbt::Ctx& c) {
	auto v = unitVector(c);
	if(c.chance(1, 3)) { // near the z axis
		auto r = std::ldexp(1.L + c.unit(), -int(c.range(1, 40)));
		auto w = angle(c);
		v = {r * std::cos(w), r * std::sin(w), c.boolean() ? 1.L : -1.L};
		v = unit(v);
	}
	auto d = fromV<T>(v);
	c.note(show(d));
	c.nontrivial(general(v) || v[2] < -0.99L);
	auto b = nytl::base(d);
	static_assert(std::is_same_v<std::decay_t<decltype(b[0])>, nytl::Vec<3, T>>);
	auto tol = 64 * eps<T>;
	auto x = toV(b[0]), y = toV(b[1]), z = toV(d);
	EXPECT(std::fabs(len(x) - 1) <= tol && std::fabs(len(y) - 1) <= tol, "not unit vectors: ", show(x), " ", show(y));
	EXPECT(std::fabs(dot(x, z)) <= tol && std::fabs(dot(y, z)) <= tol && std::fabs(dot(x, y)) <= tol, "not orthogonal: ", show(x), " ", show(y));
}

template<std::size_t D, std::size_t A, typename T> void flip(pbt::Ctx& c) {
	const auto m = anyMat<D, T>(c);
	auto e = toX<D, T>(m);
	for(auto& x : e[A]) x = -x;
	bool nz = false;
	for(auto x : e[A]) nz |= x != 0;
	c.note(showM<D, T>(m), " axis ", A);
	c.nontrivial(nz);
	auto check = [&](const nytl::SquareMat<D, T>& r, const char* how) {
		EXPECT(diff(toX<D, T>(r), e) == 0, how, " gives ", showM<D, T>(r));
	};
	auto f = m;
	nytl::flipAxis<A>(f);
	check(f, "flipAxis");
	check(nytl::flippedAxis<A>(m), "flippedAxis");
	if constexpr(A == 1) {
		auto g = m;
		nytl::flipY(g);
		check(g, "flipY");
		check(nytl::flippedY(m), "flippedY");
	}
	if constexpr(A == 2) {
		auto g = m;
		nytl::flipZ(g);
		check(g, "flipZ");
		check(nytl::flippedZ(m), "flippedZ");
	}
}

template<typename T> void homogeneous(pbt::Ctx& c) {
	auto m = anyMat<4, T>(c);
	auto v = point<T>(c);
	auto affine = c.chance(1, 4);
	if(affine) { m[3] = {}; m[3][3] = T(1); }
	LD r[4], a[4];
	for(int i = 0; i < 4; ++i) {
		r[i] = a[i] = 0;
		for(int j = 0; j < 4; ++j) {
			auto x = LD(m[i][j]) * (j < 3 ? LD(v[j % 3]) : 1);
			r[i] += x;
			a[i] += std::fabs(x);
		}
	}
	if(std::fabs(r[3]) < 0.1L) return; // not a point
	c.note(showM<4, T>(m), " * ", show(v));
	c.nontrivial(!affine && r[3] != 1);
	auto p = nytl::multPos(m, v);
	for(int i = 0; i < 3; ++i) {
		auto tol = 16 * eps<T> * (a[i] + a[3] * std::fabs(r[i] / r[3]) + std::fabs(r[i])) / std::fabs(r[3]);
		EXPECT(std::fabs(LD(p[i]) - r[i] / r[3]) <= tol, "multPos gives ", show(p), " instead of ", r[i] / r[3], " at ", i);
	}
}

template<std::size_t D, std::size_t O, typename T, typename S> void expanded(pbt::Ctx& c) {
	auto m = anyMat<O, S>(c);
	auto r = nytl::expandIdentity<D, T>(m);
	c.nontrivial(D > O);
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) {
		auto e = i < O && j < O ? T(m[i % O][j % O]) : T(i == j);
		EXPECT(r[i][j] == e, "element ", i, ",", j, " is ", r[i][j], " instead of ", e);
	}
}

} // namespace

#if PBT_PART == 0
#define SCALES(T) switch(c.draw(7)) { \
	case 0: scaling<4, 3, T>(c); break; \
	case 1: scaling<3, 2, T>(c); break; \
	case 2: scaling<2, 2, T>(c); break; \
	case 3: scaling<4, 4, T>(c); break; \
	case 4: scaling<3, 3, T>(c); break; \
	case 5: scaling<5, 2, T>(c); break; \
	case 7: scaling<7, 6, T>(c); break; \
	case 6: scaling<4, 1, T>(c); break; }
FACET(scaleDouble, 60000) { SCALES(double) }
FACET(scaleFloat, 60000) { SCALES(float) }
#elif PBT_PART == 1
#define TRANSLATES(T) switch(c.draw(5)) { \
	case 5: translation<7, 6, T>(c); break; \
	case 0: translation<4, 3, T>(c); break; \
	case 1: translation<3, 2, T>(c); break; \
	case 2: translation<4, 2, T>(c); break; \
	case 3: translation<5, 4, T>(c); break; \
	case 4: translation<2, 1, T>(c); break; }
FACET(translateDouble, 60000) { TRANSLATES(double) }
FACET(translateFloat, 60000) { TRANSLATES(float) }
FACET(homogeneousDouble, 60000) { homogeneous<double>(c); }
FACET(homogeneousFloat, 60000) { homogeneous<float>(c); }
#elif PBT_PART == 2
#define ROTATES(T) switch(c.draw(6)) { \
	case 6: rotation2<6, T>(c); break; \
	case 0: rotation3<4, T>(c); break; \
	case 1: rotation3<3, T>(c); break; \
	case 2: rotation2<4, T>(c); break; \
	case 3: rotation2<2, T>(c); break; \
	case 4: rotation2<3, T>(c); break; \
	case 5: rotation3<5, T>(c); break; }
FACET(rotateDouble, 100000) { ROTATES(double) }
FACET(rotateFloat, 60000) { ROTATES(float) }
#elif PBT_PART == 3
#define ORIENTS(T) switch(c.draw(4)) { \
	case 0: orient3<4, T>(c); break; \
	case 1: orient3<3, T>(c); break; \
	case 2: orient2<2, T>(c); break; \
	case 3: orient2<4, T>(c); break; \
	case 4: orient2<3, T>(c); break; }
FACET(orientDouble, 100000) { ORIENTS(double) }
FACET(orientFloat, 60000) { ORIENTS(float) }
FACET(baseDouble, 100000) { basis<double>(c); }
FACET(baseFloat, 60000) { basis<float>(c); }
#elif PBT_PART == 4
FACET(flips, 80000) {
	switch(c.draw(6)) {
		case 0: flip<4, 1, float>(c); break;
		case 1: flip<4, 2, double>(c); break;
		case 2: flip<4, 0, float>(c); break;
		case 3: flip<3, 1, double>(c); break;
		case 4: flip<3, 2, float>(c); break;
		case 5: flip<4, 3, double>(c); break;
		case 6: flip<2, 1, double>(c); break;
	}
}
FACET(expand, 40000) {
	switch(c.draw(7)) {
		case 5: expanded<7, 3, double, double>(c); break;
		case 6: expanded<9, 1, double, double>(c); break;
		case 7: expanded<4, 3, int, int>(c); break;
		case 0: expanded<4, 3, float, float>(c); break;
		case 1: expanded<4, 2, double, double>(c); break;
		case 2: expanded<3, 3, double, float>(c); break;
		case 3: expanded<5, 2, float, double>(c); break;
		case 4: expanded<3, 2, double, double>(c); break;
	}
}
#endif
