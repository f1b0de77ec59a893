// Generators and references for quaternions and rotations
#pragma once

#include "pbt.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/quaternion.hpp>
#include <array>
#include <cmath>

namespace gen {

using LD = long double;
using nytl::Quaternion;
inline constexpr LD PI = 3.14159265358979323846264338327950288L;

inline std::string show(const Quaternion& q) {
	return "(x " + pbt::str(q.x) + ", y " + pbt::str(q.y) + ", z " + pbt::str(q.z) + ", w " + pbt::str(q.w) + ")";
}
inline bool finite(const Quaternion& q) { return std::isfinite(q.x) && std::isfinite(q.y) && std::isfinite(q.z) && std::isfinite(q.w); }

using V = std::array<LD, 3>;
using M = std::array<V, 3>; // rows
using H = std::array<LD, 4>; // w, x, y, z

inline H toH(const Quaternion& q) { return {q.w, q.x, q.y, q.z}; }
inline Quaternion fromH(const H& h) { return {double(h[1]), double(h[2]), double(h[3]), double(h[0])}; }

// from the multiplication table of the units 1, i, j, k
inline H mul(const H& a, const H& b) {
	static constexpr int idx[4][4] = {{0, 1, 2, 3}, {1, 0, 3, 2}, {2, 3, 0, 1}, {3, 2, 1, 0}};
	static constexpr int sgn[4][4] = {{1, 1, 1, 1}, {1, -1, 1, -1}, {1, -1, -1, 1}, {1, 1, -1, -1}};
	H r {};
	for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) r[idx[i][j]] += sgn[i][j] * a[i] * b[j];
	return r;
}
inline H conj(const H& a) { return {a[0], -a[1], -a[2], -a[3]}; }
inline LD dot(const H& a, const H& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]; }
inline LD len(const H& a) { return std::sqrt(dot(a, a)); }
inline LD dist(const H& a, const H& b) { LD s = 0; for(int i = 0; i < 4; ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }
inline H neg(const H& a) { return {-a[0], -a[1], -a[2], -a[3]}; }
// distance of the rotations
inline LD rotDist(const H& a, const H& b) { return std::min(dist(a, b), dist(a, neg(b))); }
inline H scale(LD f, const H& a) { return {f * a[0], f * a[1], f * a[2], f * a[3]}; }

inline LD dot(const V& a, const V& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V cross(const V& a, const V& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline LD len(const V& a) { return std::sqrt(dot(a, a)); }
inline V unit(const V& a) { auto l = len(a); return {a[0] / l, a[1] / l, a[2] / l}; }
template<typename T> V toV(const nytl::Vec<3, T>& v) { return {LD(v[0]), LD(v[1]), LD(v[2])}; }
template<typename T> nytl::Vec<3, T> fromV(const V& v) { return {T(v[0]), T(v[1]), T(v[2])}; }
inline std::string show(const V& v) { return pbt::str("(", v[0], ", ", v[1], ", ", v[2], ")"); }

// Rodrigues, right hand rule
inline V rotated(const V& v, const V& axis, LD angle) {
	auto x = cross(axis, v);
	auto d = dot(axis, v);
	V r;
	for(int i = 0; i < 3; ++i) r[i] = std::cos(angle) * v[i] + std::sin(angle) * x[i] + d * (1 - std::cos(angle)) * axis[i];
	return r;
}
inline H axisAngle(const V& a, LD angle) {
	auto s = std::sin(angle / 2);
	return {std::cos(angle / 2), a[0] * s, a[1] * s, a[2] * s};
}
// rotation of v by the unit quaternion q
inline V rotated(const H& q, const V& v) {
	auto r = mul(mul(q, {0, v[0], v[1], v[2]}), conj(q));
	return {r[1], r[2], r[3]};
}
inline M matOf(const H& q) {
	M m;
	for(int j = 0; j < 3; ++j) {
		V e {}; e[j] = 1;
		auto col = rotated(q, e);
		for(int i = 0; i < 3; ++i) m[i][j] = col[i];
	}
	return m;
}

// - generators -
inline V unitVector(pbt::Ctx& c) {
	switch(c.draw(3)) {
		case 0: { V v {}; v[c.draw(2)] = c.boolean() ? -1 : 1; return v; }
		case 1: { // diagonals and other simple ones
			V v {LD(c.sym(2)), LD(c.sym(2)), LD(c.sym(2))};
			if(dot(v, v) == 0) v[0] = 1;
			return unit(v);
		}
		case 2: { // close to an axis
			V v {c.sym(1) * 1e-3L * c.unit(), c.sym(1) * 1e-6L * c.unit(), c.boolean() ? 1.L : -1.L};
			std::rotate(v.begin(), v.begin() + c.draw(2), v.end());
			return unit(v);
		}
		default: break;
	}
	V v {c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)};
	if(len(v) < 0.01L) v = {1, 0.5L, 0.25L};
	return unit(v);
}
inline bool general(const V& v) { return std::fabs(v[0]) > 0.01L && std::fabs(v[1]) > 0.01L && std::fabs(v[2]) > 0.01L; }

inline LD angle(pbt::Ctx& c) {
	switch(c.draw(3)) {
		case 0: return c.sym(4) * PI / 2;
		case 1: return c.sym(24) * PI / 12;
		case 2: return c.sym(2) * PI / 2 + std::ldexp(LD(c.sym(4)), -int(c.range(4, 50)));
		default: return c.real(-7, 7);
	}
}

// also many turns
inline LD wideAngle(pbt::Ctx& c) { return c.chance(1, 5) ? LD(c.real(-1000, 1000)) : angle(c); }

// unit up to rounding
inline Quaternion rotation(pbt::Ctx& c) {
	switch(c.draw(3)) {
		case 0: return fromH(axisAngle(unitVector(c), angle(c)));
		case 1: { // Hurwitz units and the like: many zeros, equal components
			H h {LD(c.sym(1)), LD(c.sym(1)), LD(c.sym(1)), LD(c.sym(1))};
			if(dot(h, h) == 0) h[0] = 1;
			return fromH(scale(1 / len(h), h));
		}
		case 2: return fromH(mul(axisAngle(unitVector(c), angle(c)), axisAngle(unitVector(c), angle(c))));
		default: break;
	}
	H h {c.real(-1, 1), c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)};
	if(len(h) < 0.01L) h = {1, 0, 0, 0};
	return fromH(scale(1 / len(h), h));
}

template<typename T> nytl::Vec<3, T> point(pbt::Ctx& c, LD max = 10) {
	nytl::Vec<3, T> v {};
	auto kind = c.draw(2);
	for(auto& x : v) x = T(kind == 0 ? LD(c.sym(5)) : c.real(double(-max), double(max)));
	if(kind == 2) { auto k = c.draw(2); v = {}; v[k] = T(1); }
	return v;
}
// of any magnitude that can still be squared twice
template<typename T> nytl::Vec<3, T> scaledPoint(pbt::Ctx& c) {
	auto v = point<T>(c);
	if(c.chance(1, 3)) {
		auto f = T(std::ldexp(1.0, int(c.sym(std::is_same_v<T, float> ? 25 : 200))));
		for(auto& x : v) x *= f;
	}
	return v;
}
template<std::size_t D, typename T> std::string show(const nytl::Vec<D, T>& v) {
	std::string s = "(";
	for(std::size_t i = 0; i < D; ++i) s += (i ? ", " : "") + pbt::str(v[i]);
	return s + ")";
}

} // namespace gen
