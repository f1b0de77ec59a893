// Q02: the representations of a rotation agree.
#include "quatgen.hpp"

namespace {

using namespace gen;

template<typename T> constexpr LD tol() { return 64 * LD(std::numeric_limits<T>::epsilon()); }

template<std::size_t N, typename T> void matrix(pbt::Ctx& c) {
	const auto q = rotation(c);
	const auto m = nytl::toMat<N, T>(q);
	c.note(show(q));
	auto e = matOf(toH(q));
	c.nontrivial(general({q.x, q.y, q.z}));
	auto eps = LD(std::max<LD>(std::numeric_limits<T>::epsilon(), std::numeric_limits<double>::epsilon())) * 8;
	for(auto i = 0u; i < N; ++i) for(auto j = 0u; j < N; ++j) {
		auto x = i < 3 && j < 3 ? e[i % 3][j % 3] : LD(i == j);
		EXPECT(std::fabs(LD(m[i][j]) - x) <= eps, "matrix at ", i, ",", j, " is ", m[i][j], " instead of ", x);
		if(i > 2 || j > 2) EXPECT(m[i][j] == T(i == j), "matrix at ", i, ",", j, " is ", m[i][j]);
	}
	// and the columns are the images of the axes
	for(auto j = 0u; j < 3; ++j) {
		nytl::Vec<3, T> a {};
		a[j] = T(1);
		auto r = nytl::apply(q, a);
		for(auto i = 0u; i < 3; ++i) EXPECT(std::fabs(LD(r[i]) - LD(m[i][j])) <= 2 * eps, "apply to axis ", j, " is ", show(r), ", column is different");
	}
}

template<typename T> void vectors(pbt::Ctx& c) {
	const auto q = rotation(c);
	const auto v = scaledPoint<T>(c), w = scaledPoint<T>(c);
	c.note(show(q), " v ", show(v), " w ", show(w));
	c.nontrivial(general({q.x, q.y, q.z}) && general(toV(v)));
	auto r = nytl::apply(q, v), s = nytl::apply(q, w);
	static_assert(std::is_same_v<decltype(r), nytl::Vec<3, T>>);
	auto e = rotated(toH(q), toV(v));
	auto lv = len(toV(v)), lw = len(toV(w));
	for(auto i = 0u; i < 3; ++i) EXPECT(std::fabs(LD(r[i]) - e[i]) <= tol<T>() * (lv), "apply gives ", show(r), " instead of ", show(e));
	EXPECT(std::fabs(len(toV(r)) - lv) <= tol<T>() * lv, "length changes from ", lv, " to ", len(toV(r)));
	// handedness: the cross product is rotated as well
	auto x = cross(toV(r), toV(s)), y = rotated(toH(q), cross(toV(v), toV(w)));
	for(auto i = 0u; i < 3; ++i) EXPECT(std::fabs(x[i] - y[i]) <= 4 * tol<T>() * lv * lw, "cross product of the rotated vectors is ", show(x), " instead of ", show(y));
	// matrix
	auto mv = nytl::toMat<3, T>(q) * v;
	for(auto i = 0u; i < 3; ++i) EXPECT(std::fabs(LD(mv[i]) - LD(r[i])) <= 2 * tol<T>() * lv, "matrix gives ", show(mv), ", apply ", show(r));
	// definition with the library's product
	auto p = (q * Quaternion {double(v[0]), double(v[1]), double(v[2]), 0}) * nytl::conjugated(q);
	EXPECT(std::fabs(p.x - LD(r[0])) <= 2 * tol<T>() * lv && std::fabs(p.y - LD(r[1])) <= 2 * tol<T>() * lv && std::fabs(p.z - LD(r[2])) <= 2 * tol<T>() * lv,
		"q v conj(q) is ", show(p), ", apply ", show(r));
}

template<typename T> void back(pbt::Ctx& c) {
	const auto q = rotation(c);
	c.note(show(q));
	c.nontrivial(general({q.x, q.y, q.z}));
	c.label(std::fabs(q.w) < 0.1, "near half turn");
	auto m = nytl::toMat<3, T>(q);
	auto r = Quaternion::fromMat(m);
	EXPECT(finite(r) && rotDist(toH(r), toH(q)) <= tol<T>(), "fromMat(toMat(q)) is ", show(r));
}

Quaternion axis(int i, double angle) { return Quaternion::axisAngle(i == 0, i == 1, i == 2, angle); }

} // namespace

#if PBT_PART == 0
FACET(matrices, 120000) {
	switch(c.draw(7)) {
		case 6: matrix<9, double>(c); break;
		case 7: matrix<4, long double>(c); break;
		case 0: matrix<3, double>(c); break;
		case 1: matrix<4, double>(c); break;
		case 2: matrix<3, float>(c); break;
		case 3: matrix<4, float>(c); break;
		case 4: matrix<5, double>(c); break;
		case 5: matrix<7, float>(c); break;
	}
}
FACET(applyDouble, 120000) { vectors<double>(c); }
FACET(applyFloat, 60000) { vectors<float>(c); }
#elif PBT_PART == 1
FACET(fromMatDouble, 120000) { back<double>(c); }
FACET(fromMatFloat, 60000) { back<float>(c); }

FACET(axisAngles, 150000) {
	auto a = unitVector(c);
	auto w = LD(double(wideAngle(c)));
	c.note("axis ", show(a), " angle ", w);
	c.nontrivial(general(a));
	const nytl::Vec3f af {float(a[0]), float(a[1]), float(a[2])};
	auto q = Quaternion::axisAngle(double(a[0]), double(a[1]), double(a[2]), double(w));
	auto e = axisAngle(a, w);
	EXPECT(dist(toH(q), e) <= 1e-14L, "axisAngle is ", show(q), " instead of ", show(fromH(e)));
	auto qf = Quaternion::axisAngle(af, double(w));
	auto ef = axisAngle({af[0], af[1], af[2]}, w);
	EXPECT(dist(toH(qf), ef) <= 1e-14L, "axisAngle(Vec) is ", show(qf), " instead of ", show(fromH(ef)));
	auto v = point<double>(c);
	auto r = nytl::apply(q, v);
	auto x = rotated(toV(v), a, w);
	for(auto i = 0u; i < 3; ++i) EXPECT(std::fabs(r[i] - x[i]) <= 1e-13L * (1 + len(toV(v))), "rotating ", show(v), " gives ", show(r), " instead of ", show(x));
}

FACET(composition, 120000) {
	const auto p = rotation(c), q = rotation(c);
	auto v = point<double>(c);
	c.note("p ", show(p), " q ", show(q), " v ", show(v));
	c.nontrivial(general({q.x, q.y, q.z}) && general({p.x, p.y, p.z}));
	auto l = nytl::apply(p * q, v), r = nytl::apply(p, nytl::apply(q, v));
	for(auto i = 0u; i < 3; ++i) EXPECT(std::fabs(l[i] - r[i]) <= 1e-13L * (1 + len(toV(v))), "apply of the product ", show(l), ", composition ", show(r));
	auto b = nytl::apply(nytl::conjugated(p), nytl::apply(p, v));
	for(auto i = 0u; i < 3; ++i) EXPECT(std::fabs(b[i] - v[i]) <= 1e-13L * (1 + len(toV(v))), "rotating back gives ", show(b));
	auto m = nytl::toMat<3, double>(p * q);
	auto n = nytl::toMat<3, double>(p) * nytl::toMat<3, double>(q);
	for(auto i = 0u; i < 3; ++i) for(auto j = 0u; j < 3; ++j) EXPECT(std::fabs(m[i][j] - n[i][j]) <= 1e-14L, "matrix of the product differs at ", i, ",", j);
}

FACET(yxzSequence, 100000) {
	auto yaw = double(wideAngle(c)), pitch = double(wideAngle(c)), roll = double(wideAngle(c));
	c.note(yaw, " ", pitch, " ", roll);
	c.nontrivial(yaw != 0 && pitch != 0 && roll != 0);
	auto q = Quaternion::yxz(yaw, pitch, roll);
	auto e = mul(mul(axisAngle({0, 1, 0}, yaw), axisAngle({1, 0, 0}, pitch)), axisAngle({0, 0, 1}, roll));
	EXPECT(dist(toH(q), e) <= 1e-14L, "yxz is ", show(q), " instead of ", show(fromH(e)));
	auto p = axis(1, yaw) * axis(0, pitch) * axis(2, roll);
	EXPECT(dist(toH(q), toH(p)) <= 1e-14L, "yxz is ", show(q), ", product ", show(p));
}
#endif
