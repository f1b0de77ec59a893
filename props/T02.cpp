// T02: projection matrices map their volume onto the clip space cube.
#include "quatgen.hpp"
#include <nytl/transform.hpp>

namespace {

using namespace gen;

template<typename T> struct Volume { T left, right, bot, top, near, far; };

template<typename T> std::string show(const Volume<T>& v) {
	return pbt::str("left ", v.left, " right ", v.right, " bot ", v.bot, " top ", v.top, " near ", v.near, " far ", v.far);
}

template<typename T> void interval(pbt::Ctx& c, T& lo, T& hi) {
	switch(c.draw(2)) {
		case 0: hi = T(1 + c.draw(3)); lo = -hi; break;
		case 1: lo = T(c.sym(8)); hi = lo + T(1 + c.draw(7)); break;
		default: lo = T(c.real(-5, 5)); hi = T(lo + T(c.real(0.5, 8))); break;
	}
	if(c.chance(1, 5)) { auto f = T(std::ldexp(1.0, int(c.sym(20)))); lo *= f; hi *= f; }
	if(c.chance(1, 5)) std::swap(lo, hi);
}

template<typename T> Volume<T> frustumVolume(pbt::Ctx& c) {
	Volume<T> v;
	interval(c, v.left, v.right);
	interval(c, v.bot, v.top);
	v.near = T(c.boolean() ? LD(1 + c.draw(3)) / 2 : c.real(0.05, 4));
	v.far = T(v.near * (c.boolean() ? T(2 + c.draw(6)) : T(c.real(1.2, 200))));
	if(c.chance(1, 5)) { auto f = T(std::ldexp(1.0, int(c.sym(20)))); v.near *= f; v.far *= f; }
	if(c.boolean()) { v.near = -v.near; v.far = -v.far; }
	return v;
}

// position between two bounds: the ends, or anything in between (or somewhat outside)
LD param(pbt::Ctx& c) {
	switch(c.draw(2)) {
		case 0: return c.draw(1);
		case 1: return c.draw(8) / 8.L;
		default: return c.unit();
	}
}

// in the library's type, and exactly
template<typename T> void compare(pbt::Ctx& c, const nytl::Mat<4, 4, T>& m, const V& p, const V& e, LD tol, const char* what) {
	LD r[4];
	for(int i = 0; i < 4; ++i) r[i] = LD(m[i][0]) * p[0] + LD(m[i][1]) * p[1] + LD(m[i][2]) * p[2] + LD(m[i][3]);
	for(int i = 0; i < 3; ++i)
		EXPECT(std::fabs(r[i] / r[3] - e[i]) <= tol, what, " maps ", gen::show(p), " to (", r[0] / r[3], ", ", r[1] / r[3], ", ", r[2] / r[3], ") instead of ", gen::show(e));
	auto n = nytl::multPos(m, fromV<T>(p));
	for(int i = 0; i < 3; ++i)
		EXPECT(std::fabs(LD(n[i]) - e[i]) <= 8 * tol, what, " with multPos maps ", gen::show(p), " to (", n[0], ", ", n[1], ", ", n[2], ") instead of ", gen::show(e));
}

template<typename T> LD skew(const Volume<T>& v) { // how far off the center
	auto x = std::fabs((LD(v.left) + v.right) / (LD(v.right) - v.left)), y = std::fabs((LD(v.top) + v.bot) / (LD(v.top) - v.bot));
	return 1 + std::max(x, y);
}

template<typename T> void boxes(pbt::Ctx& c) {
	Volume<T> v;
	interval(c, v.left, v.right);
	interval(c, v.bot, v.top);
	interval(c, v.near, v.far);
	c.note(show(v));
	auto m = nytl::ortho(v.left, v.right, v.bot, v.top, v.near, v.far);
	static_assert(std::is_same_v<decltype(m), nytl::Mat<4, 4, T>>);
	auto fx = param(c), fy = param(c), fz = param(c);
	c.nontrivial(v.left + v.right != 0 && v.bot + v.top != 0 && v.near != 0);
	c.label(v.near < 0, "negative near");
	V p {v.left + fx * (LD(v.right) - v.left), v.bot + fy * (LD(v.top) - v.bot), v.near + fz * (LD(v.far) - v.near)};
	auto k = skew(v) + std::fabs(LD(v.near) / (LD(v.far) - v.near));
	compare(c, m, p, {2 * fx - 1, 2 * fy - 1, fz}, 16 * k * std::numeric_limits<T>::epsilon(), "ortho");
	for(int i = 0; i < 4; ++i) EXPECT(m[3][i] == T(i == 3), "ortho is not affine");
}

template<typename T> void frusta(pbt::Ctx& c) {
	const auto v = frustumVolume<T>(c);
	c.note(show(v));
	auto m = nytl::frustum(v.left, v.right, v.bot, v.top, v.near, v.far);
	auto rev = nytl::frustumRev(v.left, v.right, v.bot, v.top, v.near, v.far);
	auto inf = nytl::frustumRevInf(v.left, v.right, v.bot, v.top, v.near);
	static_assert(std::is_same_v<decltype(m), nytl::Mat<4, 4, T>> && std::is_same_v<decltype(rev), decltype(m)> && std::is_same_v<decltype(inf), decltype(m)>);
	c.nontrivial((v.left + v.right != 0 && v.bot + v.top != 0) || v.near < 0);
	c.label(v.near < 0, "negative near");
	auto fx = param(c), fy = param(c), fz = param(c);
	auto z = v.near + fz * (LD(v.far) - v.near);
	auto s = z / v.near; // the volume gets larger with the distance
	V p {s * (v.left + fx * (LD(v.right) - v.left)), s * (v.bot + fy * (LD(v.top) - v.bot)), z};
	auto depth = LD(v.far) * (z - v.near) / (z * (LD(v.far) - v.near));
	auto tol = 32 * (skew(v) + v.far / (LD(v.far) - v.near)) * std::numeric_limits<T>::epsilon();
	compare(c, m, p, {2 * fx - 1, 2 * fy - 1, depth}, tol, "frustum");
	compare(c, rev, p, {2 * fx - 1, 2 * fy - 1, 1 - depth}, tol, "frustumRev");
	compare(c, inf, p, {2 * fx - 1, 2 * fy - 1, v.near / z}, tol, "frustumRevInf");

	// beyond far
	V q {0, 0, v.near * std::ldexp(1.L, 40)};
	LD dz = LD(inf[2][2]) * q[2] + LD(inf[2][3]), dw = LD(inf[3][2]) * q[2] + LD(inf[3][3]);
	EXPECT(std::fabs(dz / dw) <= 1e-9L, "frustumRevInf maps infinity to depth ", dz / dw);

	// monotonic depth
	auto f2 = param(c);
	auto z2 = v.near + f2 * (LD(v.far) - v.near);
	if(f2 > fz) {
		auto at = [&](const nytl::Mat<4, 4, T>& a, LD z) { return (LD(a[2][2]) * z + LD(a[2][3])) / (LD(a[3][2]) * z + LD(a[3][3])); };
		EXPECT(at(m, z2) > at(m, z), "depth at ", z2, " is ", at(m, z2), " and at ", z, " it is ", at(m, z));
		EXPECT(at(rev, z2) < at(rev, z), "reversed depth at ", z2, " is ", at(rev, z2), " and at ", z, " it is ", at(rev, z));
		EXPECT(at(inf, z2) < at(inf, z), "reversed infinite depth at ", z2, " is ", at(inf, z2), " and at ", z, " it is ", at(inf, z));
	}
}

template<typename T> void perspectives(pbt::Ctx& c) {
	auto fov = T(c.boolean() ? LD(PI) * (1 + c.draw(4)) / 6 : c.real(0.2, 2.8));
	auto aspect = T(c.boolean() ? LD(1 + c.draw(4)) / 2 : c.real(0.2, 4));
	auto v = frustumVolume<T>(c);
	c.note("fov ", fov, " aspect ", aspect, " near ", v.near, " far ", v.far);
	auto m = nytl::perspective(fov, aspect, v.near, v.far);
	auto rev = nytl::perspectiveRev(fov, aspect, v.near, v.far);
	auto inf = nytl::perspectiveRevInf(fov, aspect, v.near);
	static_assert(std::is_same_v<decltype(m), nytl::Mat<4, 4, T>> && std::is_same_v<decltype(rev), decltype(m)> && std::is_same_v<decltype(inf), decltype(m)>);
	c.nontrivial(v.near < 0 || aspect != T(1));
	c.label(v.near < 0, "negative near");
	auto fx = param(c), fy = param(c), fz = param(c);
	auto z = v.near + fz * (LD(v.far) - v.near);
	auto h = std::tan(LD(fov) / 2) * std::fabs(z), w = h * aspect;
	V p {w * (2 * fx - 1), h * (2 * fy - 1), z};
	auto depth = LD(v.far) * (z - v.near) / (z * (LD(v.far) - v.near));
	auto tol = 64 * (1 + v.far / (LD(v.far) - v.near)) * std::numeric_limits<T>::epsilon();
	compare(c, m, p, {2 * fx - 1, 2 * fy - 1, depth}, tol, "perspective");
	compare(c, rev, p, {2 * fx - 1, 2 * fy - 1, 1 - depth}, tol, "perspectiveRev");
	compare(c, inf, p, {2 * fx - 1, 2 * fy - 1, v.near / z}, tol, "perspectiveRevInf");

	// swapped planes
	auto sw = nytl::perspective(fov, aspect, v.far, v.near);
	compare(c, sw, p, {2 * fx - 1, 2 * fy - 1, 1 - depth}, tol, "perspective with swapped planes");

	// points of the volume are in front: positive w
	EXPECT(LD(m[3][2]) * z + LD(m[3][3]) > 0, "perspective: w of a point in the volume is not positive");
	EXPECT(LD(inf[3][2]) * z + LD(inf[3][3]) > 0, "perspectiveRevInf: w of a point in the volume is not positive");

	// the corresponding frustum
	auto nh = T(std::tan(LD(fov) / 2) * std::fabs(LD(v.near))), nw = T(nh * aspect);
	auto fr = nytl::frustum(-nw, nw, -nh, nh, v.near, v.far);
	auto a = nytl::multPos(m, fromV<T>(p)), b = nytl::multPos(fr, fromV<T>(p));
	for(int i = 0; i < 3; ++i) EXPECT(std::fabs(LD(a[i]) - LD(b[i])) <= 32 * tol, "perspective maps ", gen::show(p), " to (", a[0], ", ", a[1], ", ", a[2],
		"), frustum to (", b[0], ", ", b[1], ", ", b[2], ")");
}

} // namespace

#if PBT_PART == 0
FACET(orthoDouble, 100000) { boxes<double>(c); }
FACET(frustumDouble, 150000) { frusta<double>(c); }
FACET(perspectiveDouble, 150000) { perspectives<double>(c); }
#elif PBT_PART == 1
FACET(orthoFloat, 100000) { boxes<float>(c); }
FACET(frustumFloat, 100000) { frusta<float>(c); }
FACET(perspectiveFloat, 100000) { perspectives<float>(c); }
#endif
