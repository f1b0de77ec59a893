// L05: determinant and invertible.
#include "lu.hpp"

namespace {

using namespace gen;

template<std::size_t D, typename T> Mat<D, D, T> matrix(pbt::Ctx& c, long long max = 7) {
	Mat<D, D, T> m {};
	switch(c.draw(5)) {
		case 0: for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) m[i][j] = T(c.sym(3)); break;
		case 1: for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) m[i][j] = T(c.sym(max)); break;
		case 2: { // permutation with more elements
			auto p = permutation<D>(c);
			for(auto i = 0u; i < D; ++i) m[i][p[i]] = T(1 + c.draw(5));
			for(auto n = c.draw(4); n > 0; --n) m[c.draw(D - 1)][c.draw(D - 1)] = T(c.sym(max));
			break;
		}
		case 3: { // zeros where the elimination starts
			for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) m[i][j] = i + j + 1 < D ? T(0) : T(c.sym(max));
			break;
		}
		case 4: { // one row is a combination of others
			for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) m[i][j] = T(c.sym(3));
			auto r = c.draw(D - 1);
			auto f = c.sym(2), g = c.sym(2);
			for(auto j = 0u; j < D; ++j) {
				T x = T(f * (r == 0 ? 0 : m[0][j]) + g * (r == D - 1 ? 0 : m[D - 1][j]));
				m[r][j] = x;
			}
			break;
		}
		case 5: { // triangular up to a permutation of the rows
			auto p = permutation<D>(c);
			for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) if(j >= p[i]) m[i][j] = T(c.sym(max));
			break;
		}
	}
	return m;
}

template<std::size_t D, typename T> LD maxOf(const Mat<D, D, T>& m) {
	LD r = 0;
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) r = std::max(r, std::fabs(LD(m[i][j])));
	return r;
}
// bound for the error of an elimination with pivoting
template<std::size_t D> LD detTol(LD max, LD eps) {
	LD t = 1;
	for(auto i = 0u; i < D; ++i) t *= max * (i + 1);
	return t * std::ldexp(LD(D * D), D) * eps;
}
template<std::size_t D, typename T> LD tolerance(const Mat<D, D, T>& m) {
	return detTol<D>(maxOf(m), std::numeric_limits<double>::epsilon()) +
		(std::is_same_v<T, float> ? std::fabs(leibniz<D, LD>(m)) * LD(2e-7) : 0);
}

template<std::size_t D, typename T> void exact(pbt::Ctx& c) {
	const auto m = matrix<D, T>(c);
	c.note(show(m));
	auto det = leibniz<D, long long>(m);
	c.nontrivial(det < 0 || (det == 0 && maxOf(m) > 0));
	c.label(det < 0, "negative");
	c.label(det == 0, "zero");
	auto got = nytl::determinant(m);
	if constexpr(std::is_integral_v<T>) EXPECT(static_cast<long long>(got) == det && LD(got) == LD(det), "determinant is ", got, " instead of ", det);
	else EXPECT(std::fabs(LD(got) - det) <= tolerance(m), "determinant is ", got, " instead of ", det);
	auto viaLu = nytl::determinant(nytl::luDecomp(m));
	EXPECT(std::fabs(LD(viaLu) - det) <= tolerance(m), "determinant of the LU decomposition is ", viaLu, " instead of ", det);
	if(det != 0) EXPECT(nytl::invertible(m), "determinant is ", det, " but the matrix is not invertible");
	if constexpr(std::is_integral_v<T>) EXPECT(nytl::invertible(m) == (det != 0), "determinant is ", det, " but invertible is ", nytl::invertible(m));
}

template<std::size_t D, typename T> void singular(pbt::Ctx& c) {
	Mat<D, D, T> m {};
	auto integral = std::is_integral_v<T> || c.boolean();
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) m[i][j] = T(integral ? double(c.sym(9)) : c.real(-5, 5));
	auto kind = c.draw(D > 1 ? 2 : 1);
	auto a = c.draw(D - 1);
	switch(kind) {
		case 0: for(auto j = 0u; j < D; ++j) m[a][j] = 0; c.label("zero row"); break;
		case 1: for(auto j = 0u; j < D; ++j) m[j][a] = 0; c.label("zero column"); break;
		case 2: {
			auto b = (a + 1 + c.draw(D - 2 + (D < 2))) % D;
			for(auto j = 0u; j < D; ++j) m[a][j] = m[b][j];
			c.label("equal rows");
			break;
		}
	}
	c.nontrivial(maxOf(m) > 0);
	c.note(show(m));
	// equal rows stay exactly equal during the elimination, zero ones stay zero
	EXPECT(nytl::determinant(m) == 0, "determinant is ", nytl::determinant(m));
	EXPECT(!nytl::invertible(m), "the matrix is not invertible");
	EXPECT(nytl::determinant(nytl::luDecomp(m)) == 0, "determinant of the LU decomposition is ", nytl::determinant(nytl::luDecomp(m)));
}

template<std::size_t D, typename T> void relations(pbt::Ctx& c) {
	auto a = matrix<D, T>(c, 4);
	auto b = matrix<D, T>(c, 4);
	auto da = leibniz<D, long long>(a), db = leibniz<D, long long>(b);
	c.note("A ", show(a), " B ", show(b));
	c.nontrivial(da * db != 0 && (da < 0 || db < 0));
	auto ab = a * b;
	auto tol = tolerance(a) * std::fabs(LD(db)) + tolerance(b) * std::fabs(LD(da)) + tolerance(a) * tolerance(b) + tolerance(ab);
	auto l = LD(nytl::determinant(ab)), r = LD(nytl::determinant(a)) * LD(nytl::determinant(b));
	EXPECT(std::fabs(l - r) <= tol, "det(AB) = ", l, ", det(A) det(B) = ", r);
	auto t = nytl::transpose(a);
	EXPECT(std::fabs(LD(nytl::determinant(t)) - LD(nytl::determinant(a))) <= 2 * tolerance(a), "det of the transposed matrix is ",
		nytl::determinant(t), " but det is ", nytl::determinant(a));
	if constexpr(D > 1) {
		auto i = c.draw(D - 1), j = (i + 1 + c.draw(D - 2)) % D;
		auto s = a;
		if(c.boolean()) nytl::swapRow(s, i, j);
		else nytl::swapCol(s, i, j);
		EXPECT(std::fabs(LD(nytl::determinant(s)) + LD(nytl::determinant(a))) <= 2 * tolerance(a), "swapping ", i, " and ", j,
			" changes the determinant from ", nytl::determinant(a), " to ", nytl::determinant(s));
	}
}

template<std::size_t D, typename T> void reals(pbt::Ctx& c) {
	Mat<D, D, T> m {};
	auto s = std::ldexp(1.0, int(c.sym(10)));
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) m[i][j] = T(c.real(-1, 1) * s);
	c.note(show(m));
	auto det = leibniz<D, LD>(m);
	c.nontrivial(det < 0);
	auto got = nytl::determinant(m);
	EXPECT(std::fabs(LD(got) - det) <= tolerance(m), "determinant is ", got, " instead of ", det);
	auto viaLu = nytl::determinant(nytl::luDecomp(m));
	EXPECT(std::fabs(LD(viaLu) - det) <= tolerance(m), "determinant of the LU decomposition is ", viaLu, " instead of ", det);
	if(std::fabs(det) > 2 * tolerance(m)) EXPECT(nytl::invertible(m), "determinant is ", det, " but the matrix is not invertible");
}

// A matrix that is regular but whose determinant is small or a fraction
template<std::size_t D, typename T> void scaled(pbt::Ctx& c) {
	std::array<std::size_t, D> p;
	auto m = conditioned<D, T>(c, p);
	auto e = int(c.sym(std::is_same_v<T, float> ? 10 : c.boolean() ? 60 : 150));
	m = T(std::ldexp(1.0, e)) * m;
	c.note(show(m));
	auto det = leibniz<D, LD>(m);
	c.nontrivial(cycle(p) > 1);
	auto tol = tolerance(m);
	EXPECT(std::fabs(LD(nytl::determinant(m)) - det) <= tol, "determinant is ", nytl::determinant(m), " instead of ", det);
	EXPECT(nytl::invertible(m), "determinant is ", det, " but the matrix is not invertible");
}

// Large elements whose determinant still has an exact value in double
template<std::size_t D, typename T> void large(pbt::Ctx& c) {
	auto max = D == 2 ? (sizeof(T) > 4 ? 1ll << 22 : 30000) : D == 3 ? (sizeof(T) > 4 ? 1ll << 14 : 600) : (sizeof(T) > 4 ? 1ll << 10 : 80);
	Mat<D, D, T> m {};
	for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) m[i][j] = T(c.sym(max));
	if(D > 1 && c.chance(1, 3)) { // nearly dependent rows, small determinant
		auto a = c.draw(D - 1), b = (a + 1 + c.draw(D - 2 + (D < 2))) % D;
		m[a] = m[b];
		m[a][c.draw(D - 1)] += 1;
	}
	c.note(show(m));
	auto det = leibniz<D, long long>(m);
	c.nontrivial(det < 0);
	auto got = nytl::determinant(m);
	EXPECT(static_cast<long long>(got) == det, "determinant is ", got, " instead of ", det);
	EXPECT(nytl::invertible(m) == (det != 0), "determinant is ", det, " but invertible is ", nytl::invertible(m));
}

// decompositions that were not made in double
template<std::size_t D, typename T> void ownDecomposition(pbt::Ctx& c) {
	nytl::LUDecomposition<D, T> lu {};
	double e = 1;
	auto p = permutation<D>(c);
	for(auto i = 0u; i < D; ++i) {
		lu.perm[i][p[i]] = true;
		auto l = c.chance(1, 2) ? 1 : c.pick({1, 2, -1, 4});
		lu.lower[i][i] = T(l);
		lu.upper[i][i] = T(c.sym(5));
		e *= double(l) * double(lu.upper[i][i]);
		for(auto j = 0u; j < i; ++j) { lu.lower[i][j] = T(c.sym(5)); lu.upper[j][i] = T(c.sym(5)); }
	}
	lu.sign = parity(p);
	c.note("L ", show(lu.lower), " U ", show(lu.upper), " sign ", int(lu.sign));
	c.nontrivial(e * lu.sign < 0);
	EXPECT(double(nytl::determinant(lu)) == e * lu.sign, "determinant of the decomposition is ", nytl::determinant(lu), " instead of ", e * lu.sign);
}

} // namespace

namespace {

// Regular (and singular) matrices whose determinant is far outside of the range of the type
template<std::size_t D, typename T> void beyond(pbt::Ctx& c) {
	Mat<D, D, T> m {};
	auto p = permutation<D>(c);
	bool regular = c.chance(3, 4);
	if constexpr(std::is_integral_v<T>) {
		// (permuted) triangular with powers of two: the elimination is exact
		constexpr int bits = std::numeric_limits<T>::digits;
		for(auto i = 0u; i < D; ++i) {
			m[i][p[i]] = T(T(1) << c.draw(bits > 32 ? 32 : bits - 1));
			if(std::is_signed_v<T> && c.boolean()) m[i][p[i]] = T(-m[i][p[i]]);
		}
	} else {
		auto e = std::is_same_v<T, float> ? 110 : 900;
		for(auto i = 0u; i < D; ++i) m[i][p[i]] = T(std::ldexp(c.real(0.5, 1) * (c.boolean() ? 1 : -1), int(c.sym(e))));
	}
	if(!regular) m[c.draw(D - 1)] = {};
	LD det = 1;
	bool small = false, big = false;
	for(auto i = 0u; i < D; ++i) det *= std::fabs(LD(m[i][p[i]]));
	small = det < LD(std::numeric_limits<T>::min()) && !std::is_integral_v<T>;
	big = det > LD(std::numeric_limits<T>::max());
	c.note(show(m));
	c.nontrivial(small || big);
	c.label(small, "too small for the type");
	c.label(big, "too big for the type");
	EXPECT(nytl::invertible(m) == regular, "invertible is ", nytl::invertible(m), " for a ", regular ? "regular" : "singular", " (scaled permutation) matrix");
}

} // namespace

#if PBT_PART == 0
FACET(integers, 150000) { SQUARES(exact, int) }
FACET(singularIntegers, 60000) { SQUARES(singular, int) }
FACET(integerRelations, 60000) { SQUARES(relations, int) }
#elif PBT_PART == 1
FACET(doubles, 100000) { SQUARES(exact, double) }
FACET(singularDoubles, 60000) { SQUARES(singular, double) }
FACET(doubleRelations, 60000) { SQUARES(relations, double) }
#elif PBT_PART == 2
FACET(floats, 60000) { SQUARES(exact, float) }
FACET(singularFloats, 40000) { SQUARES(singular, float) }
FACET(realMatrices, 80000) { SQUARES(reals, double) }
#elif PBT_PART == 3
FACET(realFloatMatrices, 60000) { SQUARES(reals, float) }
FACET(scaledMatrices, 60000) { SQUARES(scaled, double) }
FACET(scaledFloatMatrices, 60000) { SQUARES(scaled, float) }
#elif PBT_PART == 4
FACET(largeElements, 60000) {
	switch(c.draw(5)) {
		case 0: large<2, int>(c); break;
		case 1: large<3, int>(c); break;
		case 2: large<4, int>(c); break;
		case 3: large<2, long long>(c); break;
		case 4: large<3, long long>(c); break;
		case 5: large<4, long long>(c); break;
	}
}
FACET(ownDecompositions, 60000) {
	switch(c.draw(2)) {
		case 0: SQUARES(ownDecomposition, double) break;
		case 1: SQUARES(ownDecomposition, float) break;
		case 2: SQUARES(ownDecomposition, long double) break;
	}
}
FACET(otherTypes, 30000) {
	switch(c.draw(5)) {
		case 0: exact<3, long long>(c); break;
		case 1: exact<4, long double>(c); break;
		case 2: exact<3, short>(c); break;
		case 3: singular<3, long long>(c); break;
		case 4: singular<9, double>(c); break;
		case 5: singular<8, int>(c); break;
	}
}
FACET(determinantsOutsideOfTheType, 60000) {
	switch(c.draw(6)) {
		case 0: { SQUARES(beyond, float) } break;
		case 1: { SQUARES(beyond, double) } break;
		case 2: { SQUARES(beyond, int) } break;
		case 3: { SQUARES(beyond, short) } break;
		case 4: { SQUARES(beyond, signed char) } break;
		case 5: { SQUARES(beyond, long long) } break;
		case 6: { SQUARES(beyond, unsigned) } break;
	}
}
FACET(largerMatrices, 8000) {
	switch(c.draw(3)) {
		case 0: exact<6, int>(c); break;
		case 1: exact<6, double>(c); break;
		case 2: reals<6, double>(c); break;
		case 3: exact<7, int>(c); break;
	}
}
#endif
