// Generators and a nested-vector model for the matrix harnesses
#pragma once

#include "vecgen.hpp"
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>

namespace gen {

template<typename T> using Model = std::vector<std::vector<T>>;
using nytl::Mat;
using nytl::Vec;

template<typename T> Model<T> model(std::size_t R, std::size_t C) { return Model<T>(R, std::vector<T>(C)); }

template<std::size_t R, std::size_t C, typename T> Model<T> toModel(const Mat<R, C, T>& m) {
	auto r = model<T>(R, C);
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) r[i][j] = m[i][j];
	return r;
}
template<std::size_t R, std::size_t C, typename T, typename O> Mat<R, C, T> fromModel(const Model<O>& m) {
	Mat<R, C, T> r {};
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) r[i][j] = static_cast<T>(m[i][j]);
	return r;
}
template<typename T> std::string show(const Model<T>& m) {
	std::string s = "{";
	for(auto& r : m) {
		s += s.size() > 1 ? "; " : "";
		for(std::size_t j = 0; j < r.size(); ++j) s += (j ? ", " : "") + pbt::str(r[j]);
	}
	return s + "}";
}
template<std::size_t R, std::size_t C, typename T> std::string show(const Mat<R, C, T>& m) { return show(toModel(m)); }

template<std::size_t R, std::size_t C, typename A, typename B> bool equal(const Mat<R, C, A>& m, const Model<B>& e) {
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) if(!(m[i][j] == e[i][j])) return false;
	return true;
}

// small exact elements
template<std::size_t R, std::size_t C, typename T> Mat<R, C, T> smallMat(pbt::Ctx& c, long long max = 12) {
	Mat<R, C, T> r {};
	auto sparse = c.chance(1, 4);
	for(std::size_t i = 0; i < R; ++i)
		for(std::size_t j = 0; j < C; ++j)
			if(!sparse || c.chance(1, 2)) r[i][j] = small<T>(c, max);
	return r;
}

// neither zero nor diagonal, all rows differ in something
template<std::size_t R, std::size_t C, typename T> bool interesting(const Mat<R, C, T>& m) {
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) if(i != j && m[i][j] != T {}) return true;
	return R == 1 && C == 1 && m[0][0] != T {};
}

} // namespace gen

// Calls F<R, C> for a generated shape
#define SHAPES(F, ...) \
	switch(c.draw(11)) { \
		case 0: F<2, 2, __VA_ARGS__>(c); break; \
		case 1: F<3, 3, __VA_ARGS__>(c); break; \
		case 2: F<2, 3, __VA_ARGS__>(c); break; \
		case 3: F<3, 2, __VA_ARGS__>(c); break; \
		case 4: F<1, 1, __VA_ARGS__>(c); break; \
		case 5: F<4, 4, __VA_ARGS__>(c); break; \
		case 6: F<1, 4, __VA_ARGS__>(c); break; \
		case 7: F<4, 1, __VA_ARGS__>(c); break; \
		case 8: F<3, 5, __VA_ARGS__>(c); break; \
		case 9: F<5, 2, __VA_ARGS__>(c); break; \
		case 10: F<5, 5, __VA_ARGS__>(c); break; \
		case 11: F<4, 3, __VA_ARGS__>(c); break; \
	}
#define SQUARES(F, ...) \
	switch(c.draw(4)) { \
		case 0: F<2, __VA_ARGS__>(c); break; \
		case 1: F<3, __VA_ARGS__>(c); break; \
		case 2: F<1, __VA_ARGS__>(c); break; \
		case 3: F<4, __VA_ARGS__>(c); break; \
		case 4: F<5, __VA_ARGS__>(c); break; \
	}
