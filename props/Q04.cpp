// Q04: eulerAngles reproduces the rotation for every sequence.
#include "quatgen.hpp"

namespace {

using namespace gen;
using Seq = nytl::RotationSequence;

struct Named { const char* name; Seq seq; int axes[3]; };
constexpr Named sequences[] = {
	{"xyz", Seq::xyz, {0, 1, 2}}, {"xzy", Seq::xzy, {0, 2, 1}}, {"yxz", Seq::yxz, {1, 0, 2}},
	{"yzx", Seq::yzx, {1, 2, 0}}, {"zxy", Seq::zxy, {2, 0, 1}}, {"zyx", Seq::zyx, {2, 1, 0}},
	{"xyx", Seq::xyx, {0, 1, 0}}, {"xzx", Seq::xzx, {0, 2, 0}}, {"yxy", Seq::yxy, {1, 0, 1}},
	{"yzy", Seq::yzy, {1, 2, 1}}, {"zxz", Seq::zxz, {2, 0, 2}}, {"zyz", Seq::zyz, {2, 1, 2}},
};

H about(int axis, LD angle) {
	V a {};
	a[axis] = 1;
	return axisAngle(a, angle);
}
H compose(const Named& s, LD a, LD b, LD g) {
	return mul(mul(about(s.axes[0], a), about(s.axes[1], b)), about(s.axes[2], g));
}

// sine of the distance of the middle angle from the degenerate values
LD degeneracy(const Named& s, const H& q) {
	auto m = matOf(q);
	auto x = m[s.axes[0]][s.axes[2]]; // +-sin of the middle angle, or its cosine for classic sequences
	return std::sqrt(std::max(0.L, 1 - x * x));
}

void check(pbt::Ctx& c, const Named& s, const Quaternion& q) {
	auto r = nytl::eulerAngles(q, s.seq);
	REQUIRE(std::isfinite(r[0]) && std::isfinite(r[1]) && std::isfinite(r[2]), "angles for ", s.name, " are ", r[0], ", ", r[1], ", ", r[2], " for ", show(q));
	auto d = degeneracy(s, toH(q));
	c.label(d < 1e-3, "degenerate");
	auto tol = d > 0.01L ? 1e-9L : 2e-6L;
	auto p = compose(s, r[0], r[1], r[2]);
	EXPECT(rotDist(p, toH(q)) <= tol, "angles for ", s.name, " are ", r[0], ", ", r[1], ", ", r[2], ", which is the rotation ", show(fromH(p)), " instead of ", show(q));
	// with the library's own product
	Quaternion l;
	for(int i = 0; i < 3; ++i) {
		auto k = s.axes[i];
		l *= Quaternion::axisAngle(k == 0, k == 1, k == 2, r[i]);
	}
	EXPECT(rotDist(toH(l), toH(q)) <= tol, "angles for ", s.name, " are ", r[0], ", ", r[1], ", ", r[2], ", product ", show(l), " instead of ", show(q));
}

const Named& sequence(pbt::Ctx& c) { return sequences[c.draw(11)]; }

} // namespace

FACET(composed, 200000) {
	auto& s = sequence(c);
	auto classic = s.axes[0] == s.axes[2];
	auto a = angle(c), g = angle(c);
	LD b;
	switch(c.draw(3)) {
		case 0: b = angle(c); break;
		case 1: b = c.real(-4, 4); break;
		default: { // degenerate or close to it
			b = c.sym(3) * PI + (classic ? 0 : PI / 2);
			if(c.boolean()) b += (c.boolean() ? -1 : 1) * std::ldexp(1.L + c.unit(), -int(c.range(2, 56)));
			c.label("middle angle near degenerate");
		}
	}
	auto q = fromH(compose(s, a, b, g));
	if(c.chance(1, 4)) q = -1.0 * q;
	c.note(s.name, " from ", a, ", ", b, ", ", g, ": ", show(q));
	c.nontrivial((a != 0 && b != 0 && g != 0) || degeneracy(s, toH(q)) < 1e-6);
	check(c, s, q);
}

FACET(anyRotation, 200000) {
	auto& s = sequence(c);
	auto q = rotation(c);
	c.note(s.name, " ", show(q));
	c.nontrivial(general({q.x, q.y, q.z}) || degeneracy(s, toH(q)) < 1e-6);
	check(c, s, q);
}

// the angles used for the composition come back if they are in the open standard ranges
FACET(standardRange, 100000) {
	auto& s = sequence(c);
	auto classic = s.axes[0] == s.axes[2];
	auto a = LD(c.real(-3.1, 3.1)), g = LD(c.real(-3.1, 3.1)), b = LD(classic ? c.real(0.05, 3.05) : c.real(-1.5, 1.5));
	auto q = fromH(compose(s, a, b, g));
	c.note(s.name, " from ", a, ", ", b, ", ", g, ": ", show(q));
	c.nontrivial();
	check(c, s, q);
}
