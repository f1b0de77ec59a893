// L03: row reduction. The reduced form is known by construction.
#include "matgen.hpp"

#include <cmath>

namespace {

using namespace gen;

// Reduced form, its pivot columns and a matrix of the same row space
struct Case {
	std::size_t rank {};
	std::vector<std::size_t> pivots;
	Model<double> rref, mat;
};

// small dyadic number, exact in every arithmetic below
double dyadic(pbt::Ctx& c, long long m = 6) { return double(c.sym(m)) / (c.chance(1, 3) ? 2 : 1); }

// All intermediate results of an elimination with partial pivoting are dyadic with few
// bits: in every step the largest candidate is unique and a power of two times the
// row that is searched for.
Case exactCase(pbt::Ctx& c, std::size_t R, std::size_t C) {
	Case k;
	auto maxRank = std::min(R, C);
	k.rank = c.chance(1, 3) ? maxRank : c.draw(maxRank);
	// choose pivot columns
	std::vector<std::size_t> cols(C);
	for(std::size_t i = 0; i < C; ++i) cols[i] = i;
	for(std::size_t i = 0; i < k.rank; ++i) std::swap(cols[i], cols[i + c.draw(C - i - 1)]);
	k.pivots.assign(cols.begin(), cols.begin() + long(k.rank));
	std::sort(k.pivots.begin(), k.pivots.end());
	auto isPivot = [&](std::size_t j) { return std::find(k.pivots.begin(), k.pivots.end(), j) != k.pivots.end(); };

	k.rref = model<double>(R, C);
	for(std::size_t i = 0; i < k.rank; ++i) {
		k.rref[i][k.pivots[i]] = 1;
		for(auto j = k.pivots[i] + 1; j < C; ++j) if(!isPivot(j)) k.rref[i][j] = dyadic(c);
	}
	// echelon form: add multiples of lower rows to the upper ones
	auto ech = k.rref;
	for(std::size_t i = 0; i < k.rank; ++i)
		for(auto l = i + 1; l < k.rank; ++l) {
			auto f = double(c.sym(3));
			for(std::size_t j = 0; j < C; ++j) ech[i][j] += f * k.rref[l][j];
		}
	// M = L * D * ech with |l| <= 1/2 below the diagonal, rows permuted
	k.mat = model<double>(R, C);
	for(std::size_t n = 0; n < k.rank; ++n) {
		auto d = std::ldexp(c.boolean() ? -1.0 : 1.0, int(c.sym(3)));
		for(auto i = n; i < R; ++i) {
			auto l = i == n ? 1.0 : c.pick({0.0, 0.5, -0.5, 0.25, -0.25});
			for(std::size_t j = 0; j < C; ++j) k.mat[i][j] += l * d * ech[n][j];
		}
	}
	for(std::size_t i = 0; i + 1 < R; ++i) std::swap(k.mat[i], k.mat[i + c.draw(R - i - 1)]);
	return k;
}

// echelon form with leading ones in the pivot columns, zero rows last
template<std::size_t R, std::size_t C, typename T>
void checkEchelon(pbt::Ctx& c, const Mat<R, C, T>& m, const Case& k, double tol, bool reduced, const char* what) {
	for(std::size_t i = 0; i < R; ++i) {
		auto lead = i < k.rank ? k.pivots[i] : C;
		for(std::size_t j = 0; j < lead; ++j)
			EXPECT(std::fabs(m[i][j]) <= tol, what, ": element ", i, ",", j, " left of the leading one is ", m[i][j], " in ", show(m));
		if(i < k.rank) EXPECT(std::fabs(m[i][lead] - 1) <= tol, what, ": leading element ", i, ",", lead, " is ", m[i][lead], " in ", show(m));
	}
	if(reduced) for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j)
		EXPECT(std::fabs(m[i][j] - k.rref[i][j]) <= tol * (1 + std::fabs(k.rref[i][j])), what, ": element ", i, ",", j, " is ", m[i][j],
			" instead of ", k.rref[i][j], ", result ", show(m));
	// every row is the combination of the reduced rows given by its elements in the pivot columns
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) {
		LD s = 0, a = 0;
		for(std::size_t n = 0; n < k.rank; ++n) {
			auto t = LD(m[i][k.pivots[n]]) * LD(k.rref[n][j]);
			s += t;
			a += std::fabs(t);
		}
		EXPECT(std::fabs(LD(m[i][j]) - s) <= tol * (1 + a), what, ": row ", i, " is not in the row space of the matrix: ", show(m));
	}
}

void classify(pbt::Ctx& c, const Case& k, std::size_t R) {
	bool gap = false;
	for(std::size_t i = 0; i < k.rank; ++i) gap |= k.pivots[i] != i;
	c.nontrivial(k.rank > 0 && (k.rank < R || gap));
	c.label(k.rank < R, "zero rows");
	c.label(gap, "column without pivot");
	if(c.verbose) c.note("matrix ", show(k.mat), " reduced ", show(k.rref));
}

template<std::size_t R, std::size_t C, typename T> void exact(pbt::Ctx& c) {
	auto k = exactCase(c, R, C);
	// neither the scale of the matrix nor that of single columns changes the form
	if(c.chance(1, 3)) {
		auto f = std::ldexp(1.0, int(c.sym(std::is_same_v<T, float> ? 60 : 400)));
		for(auto& r : k.mat) for(auto& x : r) x *= f;
		c.label("scaled");
	}
	classify(c, k, R);
	const auto m = fromModel<R, C, T>(k.mat);
	const double tol = 1e-5;
	auto a = m;
	nytl::rowEcholon(a);
	checkEchelon(c, a, k, tol, false, "rowEcholon");
	a = m;
	nytl::reducedRowEcholon(a);
	checkEchelon(c, a, k, tol, true, "reducedRowEcholon");
	nytl::reducedRowEcholon(a);
	checkEchelon(c, a, k, tol, true, "reducedRowEcholon twice");

	auto b = nytl::rowEcholonCopy(m);
	static_assert(std::is_same_v<decltype(b), Mat<R, C, double>>);
	checkEchelon(c, b, k, tol, false, "rowEcholonCopy");
	b = nytl::reducedRowEcholonCopy(m);
	checkEchelon(c, b, k, tol, true, "reducedRowEcholonCopy");
	EXPECT(equal(m, k.mat), "the copy version changed its argument");
}

// The copy versions of integer matrices
template<std::size_t R, std::size_t C, typename I = int> void integer(pbt::Ctx& c) {
	auto k = exactCase(c, R, C);
	auto f = std::ldexp(512.0, int(c.draw(sizeof(I) > 4 ? 30 : 8)));
	for(auto& r : k.mat) for(auto& x : r) x *= f; // integral, a power of two
	for(auto& r : k.mat) for(auto x : r) if(std::fabs(x) > double(std::numeric_limits<I>::max()) / 2) return;
	const auto m = fromModel<R, C, I>(k.mat);
	if(!equal(m, k.mat)) return;
	classify(c, k, R);
	checkEchelon(c, nytl::rowEcholonCopy(m), k, 1e-5, false, "rowEcholonCopy of int");
	checkEchelon(c, nytl::reducedRowEcholonCopy(m), k, 1e-5, true, "reducedRowEcholonCopy of int");
	EXPECT(equal(m, k.mat), "the copy version changed its argument");
}

// General real matrices of full rank: [A | B] with A permuted and diagonally dominant, zero columns mixed in
template<std::size_t R, std::size_t C, typename T> void real(pbt::Ctx& c) {
	Case k;
	const double tol = std::is_same_v<T, float> ? 1e-3 : 1e-9;
	if constexpr(C <= R) k.rank = C;
	else k.rank = R;
	// columns of zeros in between
	std::vector<bool> zero(C);
	auto spare = C - k.rank;
	std::size_t col = 0;
	for(std::size_t i = 0; i < k.rank; ++i) {
		while(spare > 0 && c.chance(1, 4)) { zero[col++] = true; --spare; }
		k.pivots.push_back(col++);
	}
	auto n = k.rank;
	// square part A (n x n), right part B, solution X = A^-1 B by construction: choose X and A, B = A X
	std::vector<std::vector<LD>> a(n, std::vector<LD>(n));
	for(std::size_t i = 0; i < n; ++i) {
		LD s = 0;
		for(std::size_t j = 0; j < n; ++j) if(j != i) { a[i][j] = c.real(-1, 1); s += std::fabs(a[i][j]); }
		a[i][i] = (c.boolean() ? -1 : 1) * (s + 0.5L + c.unit() * 3);
	}
	k.rref = model<double>(R, C);
	for(std::size_t i = 0; i < n; ++i) {
		k.rref[i][k.pivots[i]] = 1;
		for(auto j = col; j < C; ++j) k.rref[i][j] = c.real(-4, 4);
	}
	k.mat = model<double>(R, C);
	for(std::size_t i = 0; i < n; ++i) for(std::size_t j = 0; j < C; ++j) {
		LD s = 0;
		for(std::size_t l = 0; l < n; ++l) s += a[i][l] * LD(k.rref[l][j]);
		k.mat[i][j] = double(s);
	}
	// further rows of tall matrices are combinations; these have full column rank, so nothing is left of them
	for(auto i = n; i < R; ++i) for(std::size_t j = 0; j < C; ++j) k.mat[i][j] = c.real(-1, 1);
	for(std::size_t i = 0; i + 1 < R; ++i) std::swap(k.mat[i], k.mat[i + c.draw(R - i - 1)]);
	if(c.chance(1, 3)) {
		auto f = std::ldexp(1.0, int(c.sym(std::is_same_v<T, float> ? 60 : 400)));
		for(auto& r : k.mat) for(auto& x : r) x *= f;
		c.label("scaled");
	}
	classify(c, k, R);
	const auto m = fromModel<R, C, T>(k.mat);
	auto e = m;
	nytl::rowEcholon(e);
	checkEchelon(c, e, k, tol, false, "rowEcholon");
	e = m;
	nytl::reducedRowEcholon(e);
	checkEchelon(c, e, k, tol, true, "reducedRowEcholon");
	checkEchelon(c, nytl::reducedRowEcholonCopy(m), k, tol, true, "reducedRowEcholonCopy");
}

// Copies of integers that need more digits than a float has: [d | x] with unit pivots
template<std::size_t R, std::size_t C, typename I> void largeIntegers(pbt::Ctx& c) {
	static_assert(C > R);
	Case k;
	k.rank = R;
	k.rref = model<double>(R, C);
	k.mat = model<double>(R, C);
	auto max = std::is_same_v<I, int> ? 1ll << 30 : 1ll << 50;
	std::vector<std::size_t> rows(R);
	for(std::size_t i = 0; i < R; ++i) {
		k.pivots.push_back(i);
		rows[i] = i;
		k.rref[i][i] = 1;
		for(auto j = R; j < C; ++j) k.rref[i][j] = double(c.sym(max) | 1);
	}
	for(std::size_t i = 0; i + 1 < R; ++i) std::swap(rows[i], rows[i + c.draw(R - i - 1)]);
	for(std::size_t i = 0; i < R; ++i) {
		auto sign = c.boolean() ? -1.0 : 1.0;
		for(std::size_t j = 0; j < C; ++j) k.mat[rows[i]][j] = sign * k.rref[i][j];
	}
	const auto m = fromModel<R, C, I>(k.mat);
	c.note("matrix ", show(m));
	c.nontrivial(rows[0] != 0);
	for(auto& r : { nytl::rowEcholonCopy(m), nytl::reducedRowEcholonCopy(m) })
		EXPECT(equal(r, k.rref), "the copy of ", show(m), " is reduced to ", show(r));
	EXPECT(equal(m, k.mat), "the copy version changed its argument");
}

template<std::size_t R, std::size_t C> void realTypes(pbt::Ctx& c) {
	if(c.boolean()) real<R, C, float>(c); else real<R, C, double>(c);
}

} // namespace

#if PBT_PART == 0
FACET(exactDouble, 120000) {
	switch(c.draw(5)) {
		case 0: exact<2, 2, double>(c); break;
		case 1: exact<2, 3, double>(c); break;
		case 2: exact<3, 2, double>(c); break;
		case 3: exact<3, 3, double>(c); break;
		case 4: exact<1, 2, double>(c); break;
		case 5: exact<2, 1, double>(c); break;
	}
}
#elif PBT_PART == 1
FACET(exactLarge, 120000) {
	switch(c.draw(4)) {
		case 0: exact<4, 4, double>(c); break;
		case 1: exact<3, 5, double>(c); break;
		case 2: exact<5, 3, double>(c); break;
		case 3: exact<4, 6, double>(c); break;
		case 4: exact<6, 4, double>(c); break;
	}
}
#elif PBT_PART == 2
FACET(exactFloat, 80000) {
	switch(c.draw(3)) {
		case 0: exact<3, 3, float>(c); break;
		case 1: exact<2, 4, float>(c); break;
		case 2: exact<4, 2, float>(c); break;
		case 3: exact<1, 1, float>(c); break;
	}
}
FACET(integerCopies, 80000) {
	switch(c.draw(6)) {
		case 4: integer<3, 4, long long>(c); break;
		case 5: integer<4, 3, short>(c); break;
		case 6: integer<7, 8>(c); break;
		case 0: integer<3, 3>(c); break;
		case 1: integer<2, 4>(c); break;
		case 2: integer<4, 2>(c); break;
		case 3: integer<4, 5>(c); break;
	}
}
#elif PBT_PART == 3
FACET(realMatrices, 150000) {
	switch(c.draw(7)) {
		case 0: realTypes<2, 2>(c); break;
		case 1: realTypes<2, 3>(c); break;
		case 2: realTypes<3, 3>(c); break;
		case 3: realTypes<3, 4>(c); break;
		case 4: realTypes<3, 6>(c); break;
		case 5: realTypes<4, 2>(c); break;
		case 6: realTypes<5, 4>(c); break;
		case 7: realTypes<4, 5>(c); break;
	}
}
#elif PBT_PART == 4
FACET(exactHuge, 60000) {
	switch(c.draw(5)) {
		case 0: exact<7, 7, double>(c); break;
		case 1: exact<6, 9, double>(c); break;
		case 2: exact<9, 6, double>(c); break;
		case 3: exact<1, 17, double>(c); break;
		case 4: exact<17, 1, double>(c); break;
		case 5: exact<9, 9, long double>(c); break;
	}
}
FACET(realHuge, 40000) {
	switch(c.draw(3)) {
		case 0: real<7, 8, double>(c); break;
		case 1: real<9, 6, double>(c); break;
		case 2: real<8, 8, long double>(c); break;
		case 3: real<6, 7, float>(c); break;
	}
}
FACET(largeIntegerCopies, 60000) {
	switch(c.draw(3)) {
		case 0: largeIntegers<2, 3, int>(c); break;
		case 1: largeIntegers<3, 5, int>(c); break;
		case 2: largeIntegers<3, 4, long long>(c); break;
		case 3: largeIntegers<1, 3, long long>(c); break;
	}
}
#endif
