// Q03: slerp follows the shorter arc at constant speed.
#include "quatgen.hpp"

namespace {

using namespace gen;

// b at the given angle (in the 4D space) from a
H away(pbt::Ctx& c, const H& a, LD angle) {
	H d;
	for(;;) {
		d = {c.real(-1, 1), c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)};
		if(c.chance(1, 4)) { d = {}; d[c.draw(3)] = 1; }
		auto f = dot(a, d);
		for(int i = 0; i < 4; ++i) d[i] -= f * a[i];
		if(len(d) > 0.05L) break;
		// an axis that is far from a
		d = {};
		auto k = 0;
		for(int i = 1; i < 4; ++i) if(std::fabs(a[i]) < std::fabs(a[k])) k = i;
		d[k] = 1;
		f = dot(a, d);
		for(int i = 0; i < 4; ++i) d[i] -= f * a[i];
		break;
	}
	auto l = len(d);
	H r;
	for(int i = 0; i < 4; ++i) r[i] = std::cos(angle) * a[i] + std::sin(angle) * d[i] / l;
	return r;
}

double parameter(pbt::Ctx& c) {
	switch(c.draw(3)) {
		case 0: return double(c.draw(1));
		case 1: return 0.5;
		case 2: return double(c.draw(8)) / 8;
		default: return c.unit();
	}
}

LD arcAngle(const H& a, const H& b) { // [0, pi]
	H s, d;
	for(int i = 0; i < 4; ++i) { s[i] = a[i] + b[i]; d[i] = a[i] - b[i]; }
	return 2 * std::atan2(len(d), len(s));
}

void arc(pbt::Ctx& c, const Quaternion& a, const Quaternion& b, double t) {
	c.note("a ", show(a), " b ", show(b), " t ", t);
	auto A = toH(a), B = toH(b);
	auto ambiguous = std::fabs(dot(A, B)) < 1e-12L;
	auto q = nytl::slerp(a, b, t);
	REQUIRE(finite(q), "slerp is ", show(q));
	auto flipped = dot(A, B) < 0;
	c.label(flipped, "negative dot");
	if(flipped) B = neg(B);
	auto th = arcAngle(A, B);
	c.nontrivial(t > 0 && t < 1 && th > PI / 180 && th < 89 * PI / 180);
	c.label(th < 0.0316, "close");
	auto at = [&](const H& to) {
		H e = A;
		if(th > 0) {
			auto s0 = std::sin((1 - t) * th) / std::sin(th), s1 = std::sin(t * th) / std::sin(th);
			for(int i = 0; i < 4; ++i) e[i] = s0 * A[i] + s1 * to[i];
		}
		return e;
	};
	// interpolating linearly and normalizing is close enough for small angles
	auto tol = th < 0.05L ? 1e-5L : 1e-12L;
	auto e = at(B);
	auto d = dist(toH(q), e);
	if(ambiguous) d = std::min(d, dist(toH(q), at(neg(B))));
	EXPECT(d <= tol, "slerp is ", show(q), " instead of ", show(fromH(e)), " (angle between the ends ", th, ")");
	EXPECT(std::fabs(len(toH(q)) - 1) <= 1e-12L, "norm is ", len(toH(q)));
	EXPECT(std::fabs(arcAngle(A, toH(q)) - t * th) <= 2 * tol + 1e-9L, "angle to a is ", arcAngle(A, toH(q)), " instead of ", t * th);
	// ends
	EXPECT(dist(toH(nytl::slerp(a, b, 0)), A) <= 1e-12L, "slerp(a, b, 0) is ", show(nytl::slerp(a, b, 0)));
	EXPECT(rotDist(toH(nytl::slerp(a, b, 1)), B) <= 1e-12L, "slerp(a, b, 1) is ", show(nytl::slerp(a, b, 1)));
	if(!ambiguous) {
		auto r = nytl::slerp(b, a, 1 - t);
		EXPECT(rotDist(toH(r), toH(q)) <= 2 * tol, "slerp(b, a, 1 - t) is ", show(r), ", slerp(a, b, t) ", show(q));
		auto m = nytl::slerp(a, -1.0 * b, t);
		EXPECT(rotDist(toH(m), toH(q)) <= 2 * tol, "slerp(a, -b, t) is ", show(m), ", slerp(a, b, t) ", show(q));
	}
}

} // namespace

FACET(givenAngle, 200000) {
	auto a = rotation(c);
	LD w;
	switch(c.draw(4)) {
		case 0: w = PI / 12 * c.draw(12); break;
		case 1: w = c.real(0, double(PI)); break;
		case 2: w = c.real(0, 0.06); break; // close
		case 3: w = PI - c.real(0, 0.06); break; // the same rotation, opposite sign
		default: w = std::ldexp(1.L, -int(c.range(1, 40))); if(c.boolean()) w = PI - w; break;
	}
	auto b = fromH(away(c, toH(a), w));
	arc(c, a, b, parameter(c));
}

FACET(anyPair, 100000) {
	auto a = rotation(c), b = rotation(c);
	arc(c, a, b, parameter(c));
}

FACET(equalRotations, 30000) {
	auto a = rotation(c);
	auto b = c.boolean() ? a : -1.0 * a;
	auto t = parameter(c);
	c.note("a ", show(a), " b ", show(b), " t ", t);
	c.nontrivial(a != b && t > 0 && t < 1);
	auto q = nytl::slerp(a, b, t);
	EXPECT(finite(q) && dist(toH(q), toH(a)) <= 1e-12L, "slerp of equal rotations is ", show(q));
}

// rotations about one axis: angles are interpolated linearly
FACET(oneAxis, 100000) {
	auto a = unitVector(c);
	auto w = angle(c), delta = LD(c.real(-3.1, 3.1));
	auto t = parameter(c);
	c.note("axis ", show(a), " from ", w, " by ", delta, " t ", t);
	c.nontrivial(general(a) && t > 0 && t < 1);
	auto q = nytl::slerp(fromH(axisAngle(a, w)), fromH(axisAngle(a, w + delta)), t);
	auto e = axisAngle(a, w + t * delta);
	auto tol = std::fabs(delta) < 0.1L ? 1e-5L : 1e-12L;
	EXPECT(finite(q) && rotDist(toH(q), e) <= tol, "slerp is ", show(q), " instead of ", show(fromH(e)));
}
