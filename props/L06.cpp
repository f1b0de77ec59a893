// L06: solving and inverting linear systems.
#include "lu.hpp"

namespace {

using namespace gen;

template<std::size_t D> std::size_t order(pbt::Ctx& c, const std::array<std::size_t, D>& p) {
	auto n = cycle(p);
	c.nontrivial(n > 2 || (D == 2 && n == 2));
	c.label(n > 2, "cycle of 3 or more");
	return n;
}

template<std::size_t D, typename M> LD normOf(const M& m) {
	LD best = 0;
	for(auto i = 0u; i < D; ++i) {
		LD s = 0;
		for(auto j = 0u; j < D; ++j) s += std::fabs(LD(m[i][j]));
		best = std::max(best, s);
	}
	return best;
}

// independent solution: Gauss-Jordan in long double with full pivoting of the rows
template<std::size_t D, typename T> Model<LD> referenceInverse(const Mat<D, D, T>& m) {
	auto a = model<LD>(D, 2 * D);
	for(auto i = 0u; i < D; ++i) {
		for(auto j = 0u; j < D; ++j) a[i][j] = m[i][j];
		a[i][D + i] = 1;
	}
	for(auto k = 0u; k < D; ++k) {
		auto best = k;
		for(auto i = k; i < D; ++i) if(std::fabs(a[i][k]) > std::fabs(a[best][k])) best = i;
		std::swap(a[k], a[best]);
		auto f = a[k][k];
		for(auto& x : a[k]) x /= f;
		for(auto i = 0u; i < D; ++i) if(i != k) {
			auto g = a[i][k];
			for(auto j = 0u; j < 2 * D; ++j) a[i][j] -= g * a[k][j];
		}
	}
	auto r = model<LD>(D, D);
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) r[i][j] = a[i][D + j];
	return r;
}

// Matrix with moderate condition; the generators keep cond * eps far below 1
template<std::size_t D, typename T> Mat<D, D, T> regular(pbt::Ctx& c, std::array<std::size_t, D>& p) {
	auto m = conditioned<D, T>(c, p);
	switch(c.draw(3)) {
		case 0: break;
		case 1: { // scaled rows
			if(std::is_integral_v<T>) break;
			for(auto i = 0u; i < D; ++i) {
				auto f = T(std::ldexp(1.0, int(c.sym(6))));
				for(auto j = 0u; j < D; ++j) m[i][j] *= f;
			}
			break;
		}
		case 2: // permutation matrix
			m = {};
			for(auto i = 0u; i < D; ++i) m[i][p[i]] = T(c.boolean() ? 1 : c.sym(4) * 2 + 1);
			break;
		case 3: { // product of unit triangular matrices, rows permuted: determinant +-1
			Model<long long> l = model<long long>(D, D), u = l;
			for(auto i = 0u; i < D; ++i) {
				l[i][i] = u[i][i] = 1;
				for(auto j = 0u; j < i; ++j) { l[i][j] = c.sym(1); u[j][i] = c.sym(1); }
			}
			for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) {
				long long s = 0;
				for(auto k = 0u; k < D; ++k) s += l[i][k] * u[k][j];
				m[p[i]][j] = T(s);
			}
			break;
		}
	}
	if(!std::is_integral_v<T> && c.chance(1, 5)) {
		auto f = T(std::ldexp(1.0, int(c.sym(std::is_same_v<T, float> ? 40 : 200))));
		for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) m[i][j] *= f;
		c.label("scaled");
	}
	return m;
}

template<std::size_t D, typename T, typename TB = T> void solve(pbt::Ctx& c) {
	std::array<std::size_t, D> p;
	const auto a = regular<D, T>(c, p);
	order(c, p);
	c.note("A ", show(a));
	nytl::Vec<D, TB> b {};
	auto big = std::is_same_v<TB, long long> ? 1ll << 45 : std::is_same_v<TB, int> ? 1ll << 30 : 9;
	if(c.boolean()) big = 9;
	for(auto i = 0u; i < D; ++i) b[i] = TB(c.boolean() || std::is_integral_v<TB> ? double(c.sym(big)) : c.real(-10, 10));
	c.note("b ", show(b));
	const auto inv = referenceInverse(a);
	auto cond = normOf<D>(a) * normOf<D>(inv);
	LD bmax = 0;
	for(auto i = 0u; i < D; ++i) bmax = std::max(bmax, std::fabs(LD(b[i])));
	auto tol = cond * normOf<D>(inv) * bmax * std::ldexp(LD(D * D), D) * 4 * std::numeric_limits<double>::epsilon();

	const auto lu = nytl::luDecomp(a);
	auto check = [&](const auto& x, const char* how) {
		static_assert(std::is_same_v<std::decay_t<decltype(x)>, nytl::Vec<D, double>>);
		for(auto i = 0u; i < D; ++i) {
			LD e = 0;
			for(auto j = 0u; j < D; ++j) e += inv[i][j] * LD(b[j]);
			EXPECT(std::fabs(LD(x[i]) - e) <= tol, how, " gives x[", i, "] = ", x[i], " instead of ", e, " (tolerance ", tol, ")");
		}
	};
	auto x = nytl::luEvaluate(lu, b);
	check(x, "luEvaluate(decomposition, b)");
	auto y = nytl::luEvaluate(lu.lower, lu.upper, lu.perm * b);
	check(y, "luEvaluate(lower, upper, perm * b)");

	// a decomposition in less precision
	if constexpr(std::is_same_v<T, double>) {
		auto a0 = normOf<D>(a), i0 = normOf<D>(inv);
		if(!(a0 < 1e10L && i0 < 1e10L)) return;
		nytl::LUDecomposition<D, float> f;
		f.lower = static_cast<Mat<D, D, float>>(lu.lower);
		f.upper = static_cast<Mat<D, D, float>>(lu.upper);
		f.perm = lu.perm;
		f.sign = lu.sign;
		tol = tol / std::numeric_limits<double>::epsilon() * std::numeric_limits<float>::epsilon();
		if(cond * std::numeric_limits<float>::epsilon() * std::ldexp(LD(D * D), D) > 0.01L) return;
		check(nytl::luEvaluate(f, b), "luEvaluate(float decomposition, b)");
		auto fi = nytl::inverse(f);
		static_assert(std::is_same_v<decltype(fi), Mat<D, D, float>>);
		auto itol = cond * i0 * std::ldexp(LD(D * D), D) * 4 * std::numeric_limits<float>::epsilon();
		for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j)
			EXPECT(std::fabs(LD(fi[i][j]) - inv[i][j]) <= itol, "inverse of the float decomposition at ", i, ",", j, " is ", fi[i][j], " instead of ", inv[i][j]);
	}
}

template<std::size_t D, typename T> void triangular(pbt::Ctx& c) {
	// any regular triangular matrices, not only ones from a decomposition
	nytl::Mat<D, D, T> l {}, u {};
	nytl::Vec<D, T> x {};
	for(auto i = 0u; i < D; ++i) {
		x[i] = T(c.sym(9));
		for(auto j = 0u; j <= i; ++j) {
			l[i][j] = T(j == i ? c.pick({1, -1, 2, 4, -2}) : c.sym(3));
			u[j][i] = T(j == i ? c.pick({1, -1, 2, 4, -2}) : c.sym(3));
		}
	}
	c.note("L ", show(l), " U ", show(u), " x ", show(x));
	c.nontrivial(interesting(l) && interesting(u));
	nytl::Vec<D, T> ux {}, b {};
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) ux[i] += u[i][j] * x[j];
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) b[i] += l[i][j] * ux[j];
	auto got = nytl::luEvaluate(l, u, b); // all divisions are exact
	for(auto i = 0u; i < D; ++i) EXPECT(got[i] == double(x[i]), "solution of LUx = b is ", show(got));
}

template<std::size_t D, typename T> void inverses(pbt::Ctx& c) {
	std::array<std::size_t, D> p;
	const auto a = regular<D, T>(c, p);
	order(c, p);
	c.note("A ", show(a));
	const auto ref = referenceInverse(a);
	auto na = normOf<D>(a), ni = normOf<D>(ref);
	auto tol = na * ni * ni * std::ldexp(LD(D * D), D) * 4 * std::numeric_limits<double>::epsilon();
	auto inv = nytl::inverse(a);
	auto inv2 = nytl::inverse(nytl::luDecomp(a));
	static_assert(std::is_same_v<decltype(inv), nytl::Mat<D, D, double>>);
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) {
		EXPECT(std::fabs(LD(inv[i][j]) - ref[i][j]) <= tol, "inverse at ", i, ",", j, " is ", inv[i][j], " instead of ", ref[i][j]);
		EXPECT(std::fabs(LD(inv2[i][j]) - ref[i][j]) <= tol, "inverse of the decomposition at ", i, ",", j, " is ", inv2[i][j], " instead of ", ref[i][j]);
	}
	auto ptol = 2 * D * na * tol + 1e-14L;
	auto l = inv * a, r = a * inv;
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) {
		EXPECT(std::fabs(LD(l[i][j]) - (i == j)) <= ptol, "inverse * A at ", i, ",", j, " is ", l[i][j]);
		EXPECT(std::fabs(LD(r[i][j]) - (i == j)) <= ptol, "A * inverse at ", i, ",", j, " is ", r[i][j]);
	}
	auto back = nytl::inverse(inv);
	auto btol = na * na * 2 * D * tol + na * na * ni * std::ldexp(LD(D * D), D) * 4 * std::numeric_limits<double>::epsilon();
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j)
		EXPECT(std::fabs(LD(back[i][j]) - LD(a[i][j])) <= btol, "inverse of the inverse at ", i, ",", j, " is ", back[i][j], " instead of ", a[i][j]);
}

} // namespace

#define SIZES(F, T) \
	switch(c.draw(5)) { \
		case 0: F<3, T>(c); break; \
		case 1: F<2, T>(c); break; \
		case 2: F<4, T>(c); break; \
		case 3: F<5, T>(c); break; \
		case 4: F<6, T>(c); break; \
		case 5: F<1, T>(c); break; \
	}

#if PBT_PART == 0
FACET(solveDouble, 100000) { SIZES(solve, double) }
#elif PBT_PART == 1
FACET(solveFloat, 60000) { SIZES(solve, float) }
FACET(triangularSystems, 60000) { SQUARES(triangular, double) }
FACET(triangularFloat, 30000) { SQUARES(triangular, float) }
FACET(triangularInt, 30000) { SQUARES(triangular, int) }
#elif PBT_PART == 2
FACET(inverseDouble, 80000) { SIZES(inverses, double) }
#elif PBT_PART == 3
FACET(inverseFloat, 60000) { SIZES(inverses, float) }
#elif PBT_PART == 4
FACET(solveInt, 60000) { SIZES(solve, int) }
FACET(inverseInt, 60000) { SIZES(inverses, int) }
#elif PBT_PART == 5
FACET(solveMixed, 60000) {
	switch(c.draw(5)) {
		case 0: solve<3, double, int>(c); break;
		case 1: solve<3, int, double>(c); break;
		case 2: solve<4, double, float>(c); break;
		case 3: solve<3, float, long long>(c); break;
		case 4: solve<2, long double, double>(c); break;
		case 5: solve<5, int, float>(c); break;
	}
}
FACET(larger, 20000) {
	switch(c.draw(5)) {
		case 0: solve<7, double>(c); break;
		case 1: solve<9, double>(c); break;
		case 2: inverses<7, double>(c); break;
		case 3: inverses<8, int>(c); break;
		case 4: inverses<3, long long>(c); break;
		case 5: inverses<4, long double>(c); break;
	}
}
#endif
