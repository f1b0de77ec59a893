// T03: lookAt.
#include "quatgen.hpp"
#include <nytl/transform.hpp>

namespace {

using namespace gen;

template<std::size_t D, typename T> V times(const nytl::Mat<D, D, T>& m, const V& v, bool translate) {
	V r {};
	for(int i = 0; i < 3; ++i) {
		for(int j = 0; j < 3; ++j) r[i] += LD(m[i][j]) * v[j];
		if(translate) r[i] += LD(m[i][D - 1]);
	}
	return r;
}

template<std::size_t D, typename T> void rigid(pbt::Ctx& c, const nytl::Mat<D, D, T>& m, LD tol, const char* what) {
	V row[3];
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) row[i][j] = m[i][j];
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j)
		EXPECT(std::fabs(dot(row[i], row[j]) - (i == j)) <= tol, what, ": rows ", i, " and ", j, " are not orthonormal");
	EXPECT(dot(cross(row[0], row[1]), row[2]) > 0.5L, what, " is a reflection");
	for(auto i = 3u; i < D; ++i) for(auto j = 0u; j < D; ++j)
		EXPECT(m[i][j] == T(i == j), what, ": element ", i, ",", j, " is ", m[i][j]);
}

template<typename T> void camera(pbt::Ctx& c) {
	auto z = unitVector(c);
	V up = c.boolean() ? V {0, 1, 0} : unitVector(c);
	if(c.boolean()) { auto s = std::ldexp(1 + LD(c.unit()), int(c.sym(c.boolean() ? 5 : std::is_same_v<T, float> ? 30 : 200))); for(auto& x : up) x *= s; }
	auto s = len(cross(up, z)) / len(up);
	if(s < 0.1L) { // parallel: take another axis
		int k = std::fabs(z[0]) < 0.5L ? 0 : 1;
		up = {};
		up[k] = 1;
		s = len(cross(up, z));
	}
	auto pos = point<T>(c, c.boolean() ? 100 : 1e5);
	const auto tz = fromV<T>(z), tu = fromV<T>(up);
	c.note("pos ", show(pos), " z ", show(tz), " up ", show(tu));
	c.nontrivial(general(z) && general(up));
	LD e = std::numeric_limits<T>::epsilon();
	auto tol = 64 * e / s;
	auto lp = len(toV(pos));

	const auto m = nytl::lookAt(pos, tz, tu);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, nytl::Mat<4, 4, T>>);
	rigid(c, m, tol, "lookAt");
	auto o = times(m, toV(pos), true);
	EXPECT(len(o) <= 16 * e * (1 + lp), "lookAt maps pos to ", show(o));
	auto iz = times(m, z, false);
	EXPECT(len(V {iz[0], iz[1], iz[2] - 1}) <= tol, "lookAt maps z to ", show(iz));
	auto iu = times(m, up, false);
	EXPECT(std::fabs(iu[0]) <= tol * len(up) && iu[1] > 0, "lookAt maps up to ", show(iu));
	// by the library
	auto p = nytl::multPos(m, pos);
	EXPECT(len(toV(p)) <= 32 * e * (1 + lp), "multPos maps pos to ", show(p));
	auto v = point<T>(c);
	nytl::Vec<3, T> moved {pos[0] + v[0], pos[1] + v[1], pos[2] + v[2]};
	auto a = times(m, toV(moved), true), b = times(m, toV(v), false);
	for(int i = 0; i < 3; ++i) EXPECT(std::fabs(a[i] - b[i]) <= 64 * e * (1 + lp + len(toV(v))), "pos + ", show(v), " is mapped to ", show(a), " instead of ", show(b));

	// only the rotation
	auto check = [&](auto& r) {
		rigid(c, r, tol, "lookAt without position");
		for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j)
			EXPECT(std::fabs(LD(r[i][j]) - LD(m[i][j])) <= 2 * tol, "lookAt without position differs at ", i, ",", j, ": ", r[i][j], " instead of ", m[i][j]);
		for(auto i = 0u; i < 3; ++i) for(auto j = 3u; j < r.cols(); ++j) EXPECT(r[i][j] == T(0), "lookAt without position translates");
	};
	switch(c.draw(2)) {
		case 0: { auto r = nytl::lookAt<3>(tz, tu); check(r); break; }
		case 1: { auto r = nytl::lookAt<4>(tz, tu); check(r); break; }
		default: { auto r = nytl::lookAt<5>(tz, tu); check(r); break; }
	}
}

template<typename T> void oriented(pbt::Ctx& c) {
	const auto q = rotation(c);
	auto pos = point<T>(c, c.boolean() ? 100 : 1e5);
	c.note(show(q), " pos ", show(pos));
	c.nontrivial(general({q.x, q.y, q.z}));
	LD e = std::numeric_limits<T>::epsilon();
	auto lp = len(toV(pos));
	const auto m = nytl::lookAt(q, pos);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, nytl::Mat<4, 4, T>>);
	rigid(c, m, 32 * e, "lookAt");
	auto o = times(m, toV(pos), true);
	EXPECT(len(o) <= 16 * e * (1 + lp), "lookAt maps pos to ", show(o));
	// undoes the rotation of q around pos
	auto v = toV(point<T>(c));
	auto w = rotated(toH(q), v);
	for(int i = 0; i < 3; ++i) w[i] += pos[i];
	auto b = times(m, w, true);
	for(int i = 0; i < 3; ++i) EXPECT(std::fabs(b[i] - v[i]) <= 64 * e * (1 + lp + len(v)), "maps pos + q(v) to ", show(b), " instead of ", show(v));
	// the other overload
	auto z = nytl::apply(q, nytl::Vec<3, T> {T(0), T(0), T(1)}), y = nytl::apply(q, nytl::Vec<3, T> {T(0), T(1), T(0)});
	const auto n = nytl::lookAt(pos, z, y);
	for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j)
		EXPECT(std::fabs(LD(m[i][j]) - LD(n[i][j])) <= 64 * e * (1 + (j == 3 ? lp : 0)), "the overloads differ at ", i, ",", j, ": ", m[i][j], ", ", n[i][j]);
}

} // namespace

#if PBT_PART == 0
FACET(cameraDouble, 200000) { camera<double>(c); }
FACET(orientedDouble, 200000) { oriented<double>(c); }
#elif PBT_PART == 1
FACET(cameraFloat, 150000) { camera<float>(c); }
FACET(orientedFloat, 150000) { oriented<float>(c); }
#endif
