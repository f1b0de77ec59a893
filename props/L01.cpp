// L01: matrix arithmetic against nested loops on plain arrays.
#include "matgen.hpp"

namespace {

using namespace gen;

static_assert((nytl::Mat2d {1, 2, 3, 4} * nytl::Mat2d {0, 1, 1, 0})[0][0] == 2);
static_assert(nytl::Mat2i {1, 2, 3, 4} == nytl::Mat2i {1, 2, 3, 4});

// magnitude up to which sums of a few products stay exact
template<typename A, typename B> long long magnitude(pbt::Ctx& c, std::size_t terms) {
	using R = decltype(A() * B());
	if(terms > 20 || sizeof(A) < 4 || sizeof(B) < 4 || c.chance(2, 3)) return 12;
	if constexpr(std::is_same_v<R, float>) return 800;
	else if constexpr(IsComplex<R>::value || sizeof(R) < 8) return 12000;
	else if constexpr(std::is_same_v<A, float> || std::is_same_v<B, float>) return 4000000;
	else return 20000000;
}

template<std::size_t R, std::size_t C, typename A, typename B> void elementwise(pbt::Ctx& c) {
	const auto mag = magnitude<A, B>(c, C);
	const auto a = smallMat<R, C, A>(c, mag);
	const auto b = smallMat<R, C, B>(c, mag);
	const auto f = small<B>(c, std::min(mag, 10000ll));
	const auto v = [&] { Vec<C, B> v {}; for(std::size_t i = 0; i < C; ++i) v[i] = small<B>(c, mag); return v; }();
	const auto ma = toModel(a);
	const auto mb = toModel(b);
	c.note("a ", show(a), " b ", show(b), " f ", f, " v ", show(v));
	c.nontrivial(interesting(a) && interesting(b));

	auto sum = a + b;
	auto diff = a - b;
	auto neg = -a;
	auto scaled = f * a;
	auto mv = a * v;
	static_assert(std::is_same_v<decltype(sum), Mat<R, C, decltype(A() + B())>>);
	static_assert(std::is_same_v<decltype(diff), Mat<R, C, decltype(A() - B())>>);
	static_assert(std::is_same_v<decltype(scaled), Mat<R, C, decltype(A() * B())>>);
	static_assert(std::is_same_v<decltype(neg), Mat<R, C, A>>);
	static_assert(std::is_same_v<decltype(mv), Vec<R, decltype(A() * B())>>);
	for(std::size_t i = 0; i < R; ++i) {
		decltype(A() * B()) s {};
		for(std::size_t j = 0; j < C; ++j) {
			EXPECT(sum[i][j] == ma[i][j] + mb[i][j], "a + b at ", i, ",", j, " is ", sum[i][j]);
			EXPECT(diff[i][j] == ma[i][j] - mb[i][j], "a - b at ", i, ",", j, " is ", diff[i][j]);
			EXPECT(identical(neg[i][j], A(-ma[i][j])), "-a at ", i, ",", j, " is ", +neg[i][j]);
			EXPECT(scaled[i][j] == f * ma[i][j], "f * a at ", i, ",", j, " is ", scaled[i][j]);
			s += ma[i][j] * v[j];
		}
		EXPECT(mv[i] == s, "a * v at ", i, " is ", mv[i], " instead of ", s);
	}

	// comparison
	bool equalAB = true;
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) equalAB &= ma[i][j] == mb[i][j];
	EXPECT((a == b) == equalAB && (a != b) == !equalAB, "comparison of a and b");
	auto d = a;
	EXPECT(a == d && !(a != d), "comparison with a copy");
	auto di = c.draw(R - 1), dj = c.draw(C - 1);
	d[di][dj] += 1;
	EXPECT(!(a == d) && a != d, "comparison, element ", di, ",", dj, " differs");

	// assignment forms, several in a row
	auto x = a;
	auto mx = ma;
	if(mag == 12) for(auto n = c.range(1, 3); n > 0; --n) {
		auto op = c.draw(2);
		auto s = small<B>(c, 5);
		auto& r = op == 0 ? (x += b) : op == 1 ? (x -= b) : (x *= s);
		EXPECT(&r == &x, "assignment returns another object");
		for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) {
			if(op == 0) mx[i][j] = A(mx[i][j] + mb[i][j]);
			else if(op == 1) mx[i][j] = A(mx[i][j] - mb[i][j]);
			else mx[i][j] = A(mx[i][j] * s);
		}
		EXPECT(equal(x, mx), "assignment ", op, " gives ", show(x), " instead of ", show(mx));
	}
	EXPECT(equal(a, ma) && equal(b, mb), "operand changed");
}

// values that need the whole range of the type
template<std::size_t R, std::size_t C, typename T> void extreme(pbt::Ctx& c) {
	Mat<R, C, T> a {}, b {};
	auto differ = c.draw(R * C);
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) {
		a[i][j] = wide<T>(c);
		b[i][j] = differ == R * C || c.boolean() ? a[i][j] : wide<T>(c);
	}
	const auto ma = toModel(a);
	const auto mb = toModel(b);
	const auto f = small<T>(c, 4);
	c.note("a ", show(a), " b ", show(b), " f ", +f);
	c.nontrivial(interesting(a) && interesting(b));
	auto sum = a + b;
	auto diff = a - b;
	auto neg = -a;
	auto scaled = f * a;
	auto add = a, sub = a, mul = a;
	add += b;
	sub -= b;
	mul *= f;
	bool eq = true;
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) {
		auto x = ma[i][j], y = mb[i][j];
		eq &= x == y;
		EXPECT(identical(sum[i][j], x + y), "a + b at ", i, ",", j, " is ", +sum[i][j]);
		EXPECT(identical(diff[i][j], x - y), "a - b at ", i, ",", j, " is ", +diff[i][j]);
		EXPECT(identical(neg[i][j], T(-x)), "-a at ", i, ",", j, " is ", +neg[i][j]);
		EXPECT(identical(scaled[i][j], f * x), "f * a at ", i, ",", j, " is ", +scaled[i][j]);
		EXPECT(identical(add[i][j], T(x + y)), "a += b at ", i, ",", j, " is ", +add[i][j]);
		EXPECT(identical(sub[i][j], T(x - y)), "a -= b at ", i, ",", j, " is ", +sub[i][j]);
		EXPECT(identical(mul[i][j], T(x * f)), "a *= f at ", i, ",", j, " is ", +mul[i][j]);
	}
	EXPECT((a == b) == eq && (a != b) == !eq, "comparison of a and b");
}

template<std::size_t R, std::size_t M, std::size_t C, typename A, typename B> void product(pbt::Ctx& c) {
	const auto mag = magnitude<A, B>(c, M);
	const auto a = smallMat<R, M, A>(c, mag);
	const auto b = smallMat<M, C, B>(c, mag);
	const auto ma = toModel(a);
	const auto mb = toModel(b);
	c.note("a ", show(a), " b ", show(b));
	c.nontrivial(interesting(a) && interesting(b));
	auto p = a * b;
	static_assert(std::is_same_v<decltype(p), Mat<R, C, decltype(A() * B())>>);
	auto e = model<decltype(A() * B())>(R, C);
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j)
		for(std::size_t k = 0; k < M; ++k) e[i][j] += ma[i][k] * mb[k][j];
	EXPECT(equal(p, e), "a * b is ", show(p), " instead of ", show(e));
	EXPECT(equal(a, ma) && equal(b, mb), "operand changed");
}
template<typename A, typename B> void products(pbt::Ctx& c) {
	switch(c.draw(11)) {
		case 0: product<2, 2, 2, A, B>(c); break;
		case 1: product<3, 3, 3, A, B>(c); break;
		case 2: product<2, 3, 4, A, B>(c); break;
		case 3: product<4, 3, 2, A, B>(c); break;
		case 4: product<1, 3, 1, A, B>(c); break;
		case 5: product<3, 1, 3, A, B>(c); break;
		case 6: product<4, 4, 4, A, B>(c); break;
		case 7: product<5, 2, 3, A, B>(c); break;
		case 8: product<3, 4, 3, A, B>(c); break;
		case 9: product<1, 1, 1, A, B>(c); break;
		case 10: product<6, 7, 5, A, B>(c); break;
		case 11: product<2, 9, 8, A, B>(c); break;
	}
}

// assignment forms with square matrices, also with itself and with own elements
template<std::size_t D, typename T> void square(pbt::Ctx& c) {
	auto a = smallMat<D, D, T>(c);
	const auto b = smallMat<D, D, T>(c);
	const auto ma = toModel(a);
	const auto mb = toModel(b);
	auto i = c.draw(D - 1), j = c.draw(D - 1);
	c.note("a ", show(a), " b ", show(b), " element ", i, ",", j);
	c.nontrivial(interesting(a) && interesting(b));
	auto mul = [&](const Model<T>& l, const Model<T>& r) {
		auto e = model<T>(D, D);
		for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j)
			for(std::size_t k = 0; k < D; ++k) e[i][j] += l[i][k] * r[k][j];
		return e;
	};
	auto each = [&](auto f) {
		auto e = ma;
		for(auto& r : e) for(auto& x : r) x = f(x);
		return e;
	};
	auto e = ma;
	const Mat<D, D, T>* res = nullptr;
	const char* what = "";
	switch(c.draw(7)) {
		case 0: res = &(a *= b); e = mul(ma, mb); what = "a *= b"; break;
		case 1: res = &(a *= a); e = mul(ma, ma); what = "a *= a"; break;
		case 2: res = &(a += a); e = each([](T x) { return T(x + x); }); what = "a += a"; break;
		case 3: res = &(a -= a); e = each([](T) { return T(0); }); what = "a -= a"; break;
		case 4: res = &(a *= a[i][j]); e = each([&](T x) { return T(x * ma[i][j]); }); what = "a *= a[i][j]"; break;
		case 5: a = a * a; res = &a; e = mul(ma, ma); what = "a = a * a"; break;
		case 6: a = a[i][j] * a; res = &a; e = each([&](T x) { return T(x * ma[i][j]); }); what = "a = a[i][j] * a"; break;
		case 7: res = &((a *= b) *= b); e = mul(mul(ma, mb), mb); what = "(a *= b) *= b"; break;
	}
	EXPECT(res == &a, what, " returns another object");
	EXPECT(equal(a, e), what, " gives ", show(a), " instead of ", show(e));
	EXPECT(equal(b, mb), "operand changed");
}

} // namespace

#if PBT_PART == 0
FACET(elementwiseInt, 80000) {
	SHAPES(elementwise, int, int);
}
FACET(elementwiseFloat, 40000) {
	switch(c.draw(1)) {
		case 0: elementwise<3, 2, float, float>(c); break;
		case 1: elementwise<4, 4, float, float>(c); break;
	}
}
#elif PBT_PART == 1
FACET(elementwiseReal, 80000) {
	SHAPES(elementwise, double, double);
}
#elif PBT_PART == 2
FACET(elementwiseMixed, 80000) {
	switch(c.draw(5)) {
		case 0: elementwise<2, 2, double, int>(c); break;
		case 1: elementwise<3, 3, float, double>(c); break;
		case 2: elementwise<2, 4, float, double>(c); break;
		case 3: elementwise<4, 3, double, int>(c); break;
		case 4: elementwise<1, 5, double, float>(c); break;
		case 5: elementwise<5, 1, double, int>(c); break;
	}
}
FACET(productMixed, 80000) {
	switch(c.draw(1)) {
		case 0: products<int, double>(c); break;
		case 1: products<double, float>(c); break;
	}
}
#elif PBT_PART == 3
FACET(matrixProduct, 160000) {
	switch(c.draw(2)) {
		case 0: products<int, int>(c); break;
		case 1: products<double, double>(c); break;
		case 2: products<float, float>(c); break;
	}
}
#elif PBT_PART == 4
FACET(assignment, 250000) {
	switch(c.draw(2)) {
		case 0: SQUARES(square, int); break;
		case 1: SQUARES(square, double); break;
		case 2: SQUARES(square, float); break;
	}
}
#elif PBT_PART == 5
FACET(elementwiseTypes, 100000) {
	switch(c.draw(11)) {
		case 0: elementwise<3, 4, long long, long long>(c); break;
		case 1: elementwise<4, 2, unsigned, unsigned>(c); break;
		case 2: elementwise<2, 3, short, short>(c); break;
		case 3: elementwise<3, 3, std::uint8_t, std::uint8_t>(c); break;
		case 4: elementwise<2, 5, long double, long double>(c); break;
		case 5: elementwise<3, 2, std::complex<double>, std::complex<double>>(c); break;
		case 6: elementwise<3, 3, long long, int>(c); break;
		case 7: elementwise<2, 3, long double, double>(c); break;
		case 8: elementwise<7, 6, int, int>(c); break;
		case 9: elementwise<6, 9, double, double>(c); break;
		case 10: elementwise<1, 17, float, float>(c); break;
		case 11: elementwise<17, 1, int, int>(c); break;
	}
}
FACET(extremeValues, 150000) {
	switch(c.draw(12)) {
		case 0: extreme<3, 3, double>(c); break;
		case 1: extreme<3, 3, float>(c); break;
		case 2: extreme<4, 2, double>(c); break;
		case 3: extreme<2, 4, float>(c); break;
		case 4: extreme<3, 3, int>(c); break;
		case 5: extreme<2, 3, long long>(c); break;
		case 6: extreme<3, 2, unsigned>(c); break;
		case 7: extreme<2, 2, short>(c); break;
		case 8: extreme<4, 4, long double>(c); break;
		case 9: extreme<4, 4, std::uint64_t>(c); break;
		case 10: extreme<1, 1, double>(c); break;
		case 11: extreme<7, 8, int>(c); break;
		case 12: extreme<8, 7, double>(c); break;
	}
}
#elif PBT_PART == 6
FACET(productTypes, 120000) {
	switch(c.draw(6)) {
		case 0: products<long long, long long>(c); break;
		case 1: products<unsigned, unsigned>(c); break;
		case 2: products<short, short>(c); break;
		case 3: products<long double, long double>(c); break;
		case 4: products<std::complex<double>, std::complex<double>>(c); break;
		case 5: products<int, long long>(c); break;
		case 6: products<float, int>(c); break;
	}
}
FACET(assignmentLarge, 100000) {
	switch(c.draw(6)) {
		case 0: square<6, int>(c); break;
		case 1: square<7, double>(c); break;
		case 2: square<9, float>(c); break;
		case 3: square<3, long long>(c); break;
		case 4: square<3, unsigned>(c); break;
		case 5: square<2, long double>(c); break;
		case 6: square<2, std::complex<double>>(c); break;
	}
}
template<std::size_t D, typename A, typename B> void mixedAssign(pbt::Ctx& c) {
	auto whole = [&](auto m) { for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j) m[i][j] = decltype(+m[i][j])(c.sym(9)); return m; };
	auto a = whole(Mat<D, D, A> {});
	const auto b = whole(Mat<D, D, B> {});
	c.note("a ", show(a), " b ", show(b));
	c.nontrivial(interesting(a) && interesting(b));
	auto e = toModel(a);
	for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j) {
		e[i][j] = A {};
		for(std::size_t k = 0; k < D; ++k) e[i][j] += A(a[i][k] * b[k][j]);
	}
	EXPECT(&(a *= b) == &a && equal(a, e), "a *= b gives ", show(a), " instead of ", show(e));
}
FACET(high, 2000) {
	switch(c.draw(5)) {
		case 0: elementwise<3, 300, int, int>(c); break;
		case 1: elementwise<300, 2, double, double>(c); break;
		case 2: product<2, 300, 3, int, int>(c); break;
		case 3: product<260, 2, 2, double, double>(c); break;
		case 4: product<2, 2, 270, float, float>(c); break;
		case 5: extreme<2, 280, double>(c); break;
	}
}
FACET(mixedAssignment, 50000) {
	switch(c.draw(4)) {
		case 0: mixedAssign<2, double, int>(c); break;
		case 1: mixedAssign<3, int, double>(c); break;
		case 2: mixedAssign<4, float, double>(c); break;
		case 3: mixedAssign<3, long long, int>(c); break;
		case 4: mixedAssign<5, double, float>(c); break;
	}
}
#endif
