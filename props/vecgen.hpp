// Generators for vectors and scalars shared by the vector and matrix harnesses
#pragma once

#include "pbt.hpp"
#include <nytl/vec.hpp>
#include <cmath>
#include <complex>
#include <type_traits>

namespace gen {

template<typename T> struct IsComplex : std::false_type {};
template<typename T> struct IsComplex<std::complex<T>> : std::true_type {};

// the same value; zeros of different sign are different, all NaN the same
template<typename T> bool identical(const T& a, const T& b) {
	if constexpr(std::is_floating_point_v<T>) {
		if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
		return a == b && std::signbit(a) == std::signbit(b);
	} else return a == b;
}

using LD = long double;

// small number that is exact in every type; sums and products of some of them stay exact
template<typename T> T small(pbt::Ctx& c, long long m = 50) {
	if constexpr(std::is_unsigned_v<T>) return static_cast<T>(c.range(0, m));
	else if constexpr(std::is_integral_v<T>) return static_cast<T>(c.sym(m));
	else if constexpr(IsComplex<T>::value) return T(double(c.sym(m)), double(c.sym(m)));
	else return static_cast<T>(c.sym(m)) / (c.boolean() ? T(1) : T(4));
}

// arbitrary value of limited magnitude
template<typename T> T value(pbt::Ctx& c) {
	if constexpr(std::is_integral_v<T>)
		return small<T>(c, sizeof(T) > 2 ? 10000 : sizeof(T) > 1 ? std::numeric_limits<T>::max() / 4 : std::numeric_limits<T>::max());
	else if constexpr(IsComplex<T>::value) return small<T>(c, 100);
	else {
		switch(c.draw(3)) {
			case 0: return T(c.sym(20));
			case 1: return T(c.real(-1, 1));
			case 2: return T((c.boolean() ? -1 : 1) * std::ldexp(1 + c.unit(), int(c.sym(20))));
			default: return T(c.sym(1000)) / T(8);
		}
	}
}

// values that need the whole type: large integers (a few of them can still be added),
// any magnitude, signed zeros and infinities
template<typename T> T wide(pbt::Ctx& c) {
	if constexpr(std::is_same_v<T, bool>) return c.boolean();
	else if constexpr(std::is_unsigned_v<T>) return c.chance(1, 4) ? T(c.draw(9)) : T(c.draw(std::numeric_limits<T>::max()));
	else if constexpr(std::is_integral_v<T>) return c.chance(1, 4) ? T(c.sym(9)) : T(c.sym(std::numeric_limits<T>::max() / 32));
	else if constexpr(IsComplex<T>::value) return small<T>(c, 1000000);
	else {
		switch(c.draw(5)) {
			case 0: return T(c.sym(3));
			case 1: return c.boolean() ? T(-0.0) : T(0.0);
			case 2: return c.boolean() ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity();
			case 3: return T(c.real(-2, 2));
			case 4: return T(16777217.0 + double(c.sym(1000)));
			default: {
				auto e = std::numeric_limits<T>::max_exponent > 1000 ? 1000 : 120;
				return T(std::ldexp(T(c.boolean() ? -1 : 1) * (1 + c.unit()), int(c.sym(e))));
			}
		}
	}
}

template<std::size_t D, typename T> nytl::Vec<D, T> vec(pbt::Ctx& c) {
	nytl::Vec<D, T> v {};
	for(std::size_t i = 0; i < D; ++i) v[i] = value<T>(c);
	return v;
}

template<std::size_t D, typename T> std::string show(const nytl::Vec<D, T>& v) {
	std::string s = "(";
	for(std::size_t i = 0; i < D; ++i) s += (i ? ", " : "") + pbt::str(+v[i]);
	return s + ")";
}

template<std::size_t D, typename T> bool same(const nytl::Vec<D, T>& a, const nytl::Vec<D, T>& b) {
	for(std::size_t i = 0; i < D; ++i) if(!(a[i] == b[i])) return false;
	return true;
}

template<std::size_t D, typename T> bool varied(const nytl::Vec<D, T>& v) {
	for(std::size_t i = 1; i < D; ++i) if(v[i] != v[0] && v[i] != T(0) && v[0] != T(0)) return true;
	return D == 1 && v[0] != T(0);
}

} // namespace gen
