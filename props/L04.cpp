// L04: PA = LU for every square matrix.
#include "lu.hpp"

namespace {

using namespace gen;

template<std::size_t D, typename T> Mat<D, D, T> anyMatrix(pbt::Ctx& c) {
	Mat<D, D, T> m {};
	auto kind = c.draw(8);
	auto fill = [&](auto f) { for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j) m[i][j] = T(f(i, j)); };
	auto integral = std::is_integral_v<T>;
	switch(kind) {
		case 0: fill([&](auto, auto) { return c.sym(3); }); break;
		case 1: fill([&](auto, auto) { return integral ? double(c.sym(1000)) : c.real(-10, 10); }); break;
		case 2: { // scaled rows and columns
			std::array<double, D> r, k;
			auto lim = integral ? 6 : std::is_same_v<T, float> ? 12 : 40;
			for(auto& x : r) x = std::ldexp(1.0, int(integral ? c.range(0, lim) : c.sym(lim)));
			for(auto& x : k) x = std::ldexp(1.0, int(integral ? c.range(0, lim) : c.sym(lim)));
			fill([&](auto i, auto j) { return (integral ? double(c.sym(9)) : c.real(-1, 1)) * r[i] * k[j]; });
			c.label("graded");
			break;
		}
		case 3: { // tiny pivots where the elimination starts
			fill([&](auto, auto) { return double(c.sym(4)); });
			for(std::size_t i = 0; i < D; ++i) if(c.boolean())
				m[i][i] = integral ? T(c.sym(1)) : T(std::ldexp(c.boolean() ? 1.0 : -1.0, -int(c.range(20, 60))));
			c.label("tiny pivots");
			break;
		}
		case 4: { // dependent rows
			fill([&](auto, auto) { return double(c.sym(5)); });
			if(D > 1) {
				auto a = c.draw(D - 1), b = c.draw(D - 1);
				auto f = T(c.sym(2));
				for(std::size_t j = 0; j < D; ++j) m[a][j] = T(a == b ? 0 : f * m[b][j]);
			}
			c.label("singular");
			break;
		}
		case 5: { // zero columns
			fill([&](auto, auto) { return double(c.sym(5)); });
			auto a = c.draw(D - 1);
			for(std::size_t i = 0; i < D; ++i) m[i][a] = 0;
			c.label("singular");
			break;
		}
		case 6: { // permutation with some more elements
			auto p = permutation<D>(c);
			for(std::size_t i = 0; i < D; ++i) m[i][p[i]] = T(1 + c.draw(4));
			for(auto n = c.draw(3); n > 0; --n) m[c.draw(D - 1)][c.draw(D - 1)] = T(c.sym(4));
			c.label("permutation");
			break;
		}
		case 7: { std::array<std::size_t, D> p; m = conditioned<D, T>(c, p); break; }
		case 8: { // zero in leading positions
			fill([&](auto i, auto j) { return i + j < D - 1 ? 0.0 : double(c.sym(6)); });
			c.label("leading zeros");
			break;
		}
	}
	if(!integral && c.chance(1, 4)) {
		auto f = T(std::ldexp(1.0, int(c.sym(std::is_same_v<T, float> ? 30 : 300))));
		for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j) m[i][j] *= f;
		c.label("scaled");
	}
	if(integral && c.chance(1, 6)) {
		auto max = (long long)(std::numeric_limits<T>::max() / 4);
		fill([&](auto, auto) { return c.sym(max); });
		c.label("large integers");
	}
	return m;
}

template<std::size_t D, typename T> void decompose(pbt::Ctx& c) {
	const auto a = anyMatrix<D, T>(c);
	const auto before = toModel(a);
	c.note("A ", show(a));
	auto lu = nytl::luDecomp(a);
	static_assert(std::is_same_v<std::decay_t<decltype(lu)>, nytl::LUDecomposition<D, double>>);
	EXPECT(equal(a, before), "the argument was changed");

	LD max = 0;
	for(auto& r : before) for(auto x : r) max = std::max(max, std::fabs(LD(x)));
	// elements may grow by up to 2 in each step of the elimination
	LD tol = max * std::ldexp(1.0L, int(D) + 3) * D * std::numeric_limits<double>::epsilon();

	std::array<std::size_t, D> p {};
	for(std::size_t i = 0; i < D; ++i) {
		std::size_t ones = 0, colOnes = 0;
		for(std::size_t j = 0; j < D; ++j) {
			if(lu.perm[i][j]) { ++ones; p[i] = j; }
			if(lu.perm[j][i]) ++colOnes;
		}
		REQUIRE(ones == 1 && colOnes == 1, "perm is not a permutation matrix: ", show(lu.perm));
	}
	auto even = parity(p) > 0;
	EXPECT(static_cast<int>(lu.sign) == (even ? 1 : -1), "sign is ", static_cast<int>(lu.sign), " for the permutation ", show(lu.perm));
	bool identity = true;
	for(std::size_t i = 0; i < D; ++i) identity &= p[i] == i;
	bool singular = false;
	if constexpr(D <= 6) singular = leibniz<D, LD>(a) == 0;
	c.nontrivial(!identity || singular);
	c.label(!even, "odd permutation");
	c.label(cycle(p) > 2, "cycle of 3 or more");

	for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j) {
		auto l = lu.lower[i][j], u = lu.upper[i][j];
		REQUIRE(std::isfinite(l) && std::isfinite(u), "L or U is not finite at ", i, ",", j);
		if(i == j) EXPECT(l == 1, "diagonal of L at ", i, " is ", l);
		if(j > i) EXPECT(l == 0, "L is not lower triangular at ", i, ",", j, ": ", l);
		if(j < i) EXPECT(std::fabs(u) <= tol, "U is not upper triangular at ", i, ",", j, ": ", u);
	}
	auto r = luReconstruct<D, double, LD>(lu);
	for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j)
		EXPECT(std::fabs(r[i][j] - LD(a[p[i]][j])) <= tol, "LU at ", i, ",", j, " is ", r[i][j], " but PA is ", a[p[i]][j],
			" (largest element ", max, ")");
	// as written in the documentation
	auto pa = lu.perm * a;
	auto prod = lu.lower * lu.upper;
	for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j)
		EXPECT(std::fabs(LD(pa[i][j]) - LD(prod[i][j])) <= 2 * tol, "P * A and L * U differ at ", i, ",", j, ": ", pa[i][j], ", ", prod[i][j]);
}

} // namespace

#define SIZES(T) \
	switch(c.draw(5)) { \
		case 0: decompose<2, T>(c); break; \
		case 1: decompose<3, T>(c); break; \
		case 2: decompose<4, T>(c); break; \
		case 3: decompose<5, T>(c); break; \
		case 4: decompose<6, T>(c); break; \
		case 5: decompose<1, T>(c); break; \
	}

#if PBT_PART == 0
FACET(doubleMatrices, 150000) {
	SIZES(double);
}
#elif PBT_PART == 1
FACET(floatMatrices, 80000) {
	SIZES(float);
}
#elif PBT_PART == 2
FACET(intMatrices, 80000) {
	SIZES(int);
}
#elif PBT_PART == 3
FACET(otherTypes, 60000) {
	switch(c.draw(5)) {
		case 0: decompose<3, long long>(c); break;
		case 1: decompose<4, long double>(c); break;
		case 2: decompose<3, short>(c); break;
		case 3: decompose<7, double>(c); break;
		case 4: decompose<9, double>(c); break;
		case 5: decompose<8, int>(c); break;
	}
}
#endif
