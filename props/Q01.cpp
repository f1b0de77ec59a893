// Q01: the algebra of quaternions.
#include "quatgen.hpp"

namespace {

using namespace gen;

Quaternion small(pbt::Ctx& c, long long m = 9) {
	if(c.chance(1, 4)) { // units
		H h {};
		h[c.draw(3)] = c.boolean() ? -1 : 1;
		return fromH(h);
	}
	return {double(c.sym(m)), double(c.sym(m)), double(c.sym(m)), double(c.sym(m))};
}
Quaternion real(pbt::Ctx& c) {
	auto s = std::ldexp(1.0, int(c.sym(c.boolean() ? 30 : 240)));
	Quaternion q {c.real(-1, 1) * s, c.real(-1, 1) * s, c.real(-1, 1) * s, c.real(-1, 1) * s};
	if(c.chance(1, 4)) q = rotation(c);
	return q;
}
bool full(const Quaternion& q) { return q.x != 0 && q.y != 0 && q.z != 0 && q.w != 0; }
bool is(const Quaternion& q, const H& h) { return q.w == h[0] && q.x == h[1] && q.y == h[2] && q.z == h[3]; }
H add(const H& a, const H& b, LD f = 1) { H r; for(int i = 0; i < 4; ++i) r[i] = a[i] + f * b[i]; return r; }

} // namespace

// everything is exact
FACET(integerAlgebra, 300000) {
	const auto a = small(c), b = small(c), d = small(c);
	const auto A = toH(a), B = toH(b), D = toH(d);
	c.note("a ", show(a), " b ", show(b), " c ", show(d));
	c.nontrivial(full(a) && full(b));
	EXPECT(is(a * b, mul(A, B)), "a * b is ", show(a * b), " instead of ", show(fromH(mul(A, B))));
	EXPECT(is(b * a, mul(B, A)), "b * a is ", show(b * a));
	EXPECT(is(a + b, add(A, B)), "a + b is ", show(a + b));
	EXPECT(is(a - b, add(A, B, -1)), "a - b is ", show(a - b));
	auto f = double(c.sym(12)) / 4;
	EXPECT(is(f * a, scale(f, A)), f, " * a is ", show(f * a));
	EXPECT(is(nytl::conjugated(a), conj(A)), "conjugated(a) is ", show(nytl::conjugated(a)));
	EXPECT(nytl::dot(a, b) == double(dot(A, B)), "dot(a, b) is ", nytl::dot(a, b), " instead of ", dot(A, B));
	EXPECT(nytl::dot(a, a) == double(dot(A, A)), "dot(a, a) is ", nytl::dot(a, a), " instead of ", dot(A, A));

	// relations
	EXPECT((a * b) * d == a * (b * d), "(ab)c is ", show((a * b) * d), ", a(bc) is ", show(a * (b * d)));
	EXPECT(a * (b + d) == a * b + a * d, "a(b + c) is ", show(a * (b + d)));
	EXPECT((a - b) * d == a * d - b * d, "(a - b)c is ", show((a - b) * d));
	EXPECT(nytl::conjugated(a * b) == nytl::conjugated(b) * nytl::conjugated(a), "conjugated(ab) is ", show(nytl::conjugated(a * b)));
	EXPECT(nytl::dot(a, b) == nytl::dot(b, a), "dot is not symmetric");

	// assignment form
	auto x = a;
	auto& r = (x *= b);
	EXPECT(&r == &x, "*= returns another object");
	EXPECT(is(x, mul(A, B)), "a *= b gives ", show(x));
	auto y = a;
	y *= y;
	EXPECT(is(y, mul(A, A)), "a *= a gives ", show(y));
	EXPECT(is(a, A) && is(b, B), "operands changed");
}

FACET(units, 20000) {
	const Quaternion u[] = {{0, 0, 0, 1}, {1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}};
	// a word of units and their negatives
	auto q = Quaternion {};
	H h {1, 0, 0, 0};
	EXPECT(is(q, h), "default constructed Quaternion is ", show(q));
	auto n = 0u;
	while(c.more(n, 12)) {
		auto k = c.draw(3);
		auto s = c.boolean() ? -1.0 : 1.0;
		q = c.boolean() ? q * (s * u[k]) : (q *= s * u[k], q);
		H e {};
		e[k] = s;
		h = mul(h, e);
		++n;
	}
	c.nontrivial(n > 2);
	EXPECT(is(q, h), "product of ", n, " units is ", show(q), " instead of ", show(fromH(h)));
	auto i = u[1], j = u[2], k = u[3];
	auto m = Quaternion {0, 0, 0, -1};
	EXPECT(i * i == m && j * j == m && k * k == m && i * j * k == m, "i*i ", show(i * i), " j*j ", show(j * j), " k*k ", show(k * k), " ijk ", show(i * j * k));
}

FACET(equality, 100000) {
	const auto a = small(c, 1);
	auto b = a;
	for(auto n = c.draw(2); n > 0; --n) {
		auto v = double(c.sym(2));
		switch(c.draw(3)) {
			case 0: b.x = v; break;
			case 1: b.y = v; break;
			case 2: b.z = v; break;
			case 3: b.w = v; break;
		}
	}
	if(c.chance(1, 8)) b = -1.0 * a;
	auto eq = a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w;
	c.nontrivial(!eq);
	EXPECT((a == b) == eq && (b == a) == eq, "== of ", show(a), " and ", show(b), " is ", a == b);
	EXPECT((a != b) == !eq && (b != a) == !eq, "!= of ", show(a), " and ", show(b), " is ", a != b);
}

FACET(realAlgebra, 200000) {
	const auto a = real(c), b = real(c);
	const auto A = toH(a), B = toH(b);
	c.note("a ", show(a), " b ", show(b));
	c.nontrivial(full(a) && full(b));
	auto eps = std::numeric_limits<double>::epsilon();
	auto near = [&](const Quaternion& q, const H& h, LD scale, const char* what) {
		EXPECT(finite(q) && dist(toH(q), h) <= 8 * eps * scale, what, " is ", show(q), " instead of ", show(fromH(h)));
	};
	auto la = len(A), lb = len(B);
	near(a * b, mul(A, B), la * lb, "a * b");
	near(a + b, add(A, B), la + lb, "a + b");
	near(a - b, add(A, B, -1), la + lb, "a - b");
	EXPECT(std::fabs(nytl::norm(a) - la) <= 8 * eps * la, "norm is ", nytl::norm(a), " instead of ", la);
	EXPECT(std::fabs(nytl::norm(a * b) - la * lb) <= 32 * eps * la * lb, "norm(ab) is ", nytl::norm(a * b), " instead of ", la * lb);
	EXPECT(std::fabs(nytl::dot(a, b) - dot(A, B)) <= 8 * eps * la * lb, "dot is ", nytl::dot(a, b), " instead of ", dot(A, B));
	EXPECT(std::fabs(std::sqrt(nytl::dot(a, a)) - nytl::norm(a)) <= 8 * eps * la, "sqrt(dot(a, a)) is ", std::sqrt(nytl::dot(a, a)), " norm is ", nytl::norm(a));
	if(la > 0) {
		auto n = nytl::normalized(a);
		near(n, scale(1 / la, A), 1, "normalized");
		EXPECT(std::fabs(nytl::norm(n) - 1) <= 16 * eps, "norm of normalized is ", nytl::norm(n));
	}
}

FACET(zeroQuaternion, 1000) {
	Quaternion z {c.boolean() ? -0.0 : 0.0, c.boolean() ? -0.0 : 0.0, c.boolean() ? -0.0 : 0.0, c.boolean() ? -0.0 : 0.0};
	auto n = nytl::normalized(z);
	EXPECT(is(n, {1, 0, 0, 0}), "normalized zero is ", show(n));
	EXPECT(nytl::norm(z) == 0 && nytl::dot(z, z) == 0, "norm of zero is ", nytl::norm(z));
	auto q = real(c);
	EXPECT(is(q * z, {0, 0, 0, 0}) && is(z * q, {0, 0, 0, 0}) && is(0.0 * q, {0, 0, 0, 0}), "product with zero");
	c.nontrivial(full(q));
}
