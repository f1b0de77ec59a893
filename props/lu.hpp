// Shared by L04, L05, L06: square matrices and exact/long double references
#pragma once

#include "matgen.hpp"
#include <array>
#include <cmath>
#include <numeric>

namespace gen {

template<std::size_t D> std::array<std::size_t, D> permutation(pbt::Ctx& c) {
	std::array<std::size_t, D> p;
	std::iota(p.begin(), p.end(), std::size_t(0));
	for(std::size_t i = 0; i + 1 < D; ++i) std::swap(p[i], p[i + c.draw(D - i - 1)]);
	return p;
}
template<std::size_t D> int parity(const std::array<std::size_t, D>& p) {
	int s = 1;
	for(std::size_t i = 0; i < D; ++i) for(std::size_t j = i + 1; j < D; ++j) if(p[j] < p[i]) s = -s;
	return s;
}
// length of the longest cycle
template<std::size_t D> std::size_t cycle(const std::array<std::size_t, D>& p) {
	std::size_t best = 0;
	for(std::size_t i = 0; i < D; ++i) {
		std::size_t n = 1;
		for(auto j = p[i]; j != i; j = p[j]) ++n;
		best = std::max(best, n);
	}
	return best;
}

template<std::size_t D, typename T, typename R> Mat<D, D, R> luReconstruct(const nytl::LUDecomposition<D, T>& lu) {
	Mat<D, D, R> r {};
	for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j)
		for(std::size_t k = 0; k < D; ++k) r[i][j] += R(lu.lower[i][k]) * R(lu.upper[k][j]);
	return r;
}

// Exact determinant by expansion over all permutations
template<std::size_t D, typename N, typename T> N leibniz(const Mat<D, D, T>& m, N* absolute = nullptr) {
	std::array<std::size_t, D> p;
	std::iota(p.begin(), p.end(), std::size_t(0));
	N det {}, abs {};
	do {
		N t = 1;
		for(std::size_t i = 0; i < D; ++i) t *= N(m[i][p[i]]);
		det += parity(p) > 0 ? t : -t;
		abs += t < 0 ? -t : t;
	} while(std::next_permutation(p.begin(), p.end()));
	if(absolute) *absolute = abs;
	return det;
}

// well conditioned matrix; sets the permutation of its dominant elements
template<std::size_t D, typename T> Mat<D, D, T> conditioned(pbt::Ctx& c, std::array<std::size_t, D>& perm) {
	Mat<D, D, T> m {};
	perm = permutation<D>(c);
	auto kind = c.draw(2);
	auto big = kind == 2 ? 40.0 : 1.0;
	for(std::size_t i = 0; i < D; ++i) {
		double s = 0;
		for(std::size_t j = 0; j < D; ++j) if(j != perm[i]) {
			double x = kind == 0 ? double(c.sym(3)) : c.real(-big, big);
			if(c.chance(1, 4)) x = 0;
			m[i][j] = T(x);
			s += std::fabs(double(m[i][j]));
		}
		double d = kind == 0 ? s + 1 + double(c.draw(3)) : s + big * (0.5 + c.unit());
		if(std::is_integral_v<T>) d = std::ceil(d); // stay dominant
		m[i][perm[i]] = T(c.boolean() ? -d : d);
	}
	return m;
}

} // namespace gen
