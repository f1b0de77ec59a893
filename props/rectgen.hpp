// Rect generators shared by R01 and R02
#pragma once

#include "vecgen.hpp"
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>

namespace gen {

using nytl::Rect;
using nytl::Vec;

template<std::size_t D, typename T> std::string show(const Rect<D, T>& r) {
	return "{" + show(r.position) + ", " + show(r.size) + "}";
}

// How the coordinates are placed. All generated values and the sums position + size are exactly
// representable, so the relations below are exact as well.
enum class Grid { small, medium, fine, large };

inline Grid anyGrid(pbt::Ctx& c, bool integral) {
	switch(c.weighted({6, 3, 2, 2})) {
		case 1: return Grid::medium;
		case 2: return integral ? Grid::medium : Grid::fine;
		case 3: c.label("large"); return Grid::large;
		default: return Grid::small;
	}
}

template<typename T> std::pair<T, T> interval(pbt::Ctx& c, Grid g, bool positive) {
	auto lim = 5LL;
	auto unit = 1.0L;
	switch(g) {
		case Grid::small: break;
		case Grid::medium: lim = 100; break;
		case Grid::fine: lim = 1 << 10; unit = std::ldexp(1.0L, -7); break;
		case Grid::large:
			if constexpr(std::is_integral_v<T>) {
				// anything whose ends are representable
				auto max = std::numeric_limits<T>::max() > std::numeric_limits<long long>::max() ? std::numeric_limits<long long>::max() : (long long)(std::numeric_limits<T>::max());
				auto min = std::max((long long)(std::numeric_limits<T>::min()), -max);
				auto lo = c.boolean() ? c.range(min, max) : c.pick<long long>({min, -1, 0, 1, max / 2, max - 1, min / 2});
				lo = std::max(lo, min);
				if(lo == max) --lo;
				auto most = lo < 0 ? max : max - lo; // size is representable as well
				auto size = c.boolean() ? c.range(positive, most) : std::min(most, c.pick<long long>({1, 2, max / 2, max - 1, max}));
				return {T(lo), T(size)};
			}
			lim = 1 << 10; unit = std::ldexp(1.0L, 20);
			break;
	}
	auto signedType = std::numeric_limits<T>::is_signed;
	auto lo = signedType ? c.sym(lim) : c.range(0, lim);
	auto size = c.range(positive, lim);
	return {T(lo * unit), T(size * unit)};
}

// a second interval in a chosen relation to the first one
template<typename T> std::pair<T, T> related(pbt::Ctx& c, std::pair<T, T> a, Grid g, bool positive) {
	auto [p, s] = a;
	T one = T(1); // keeps everything on the grid
	if(g == Grid::large && !std::is_integral_v<T>) one = T(std::ldexp(1.0, 20));
	if(g == Grid::fine) one = T(std::ldexp(1.0, -7));
	switch(c.draw(6)) {
		case 1: return a;
		case 2: // begins where a ends
			if constexpr(std::is_integral_v<T>) if(p + s > std::numeric_limits<T>::max() - 3 || g == Grid::large) break;
			return {T(p + s), T(T(1 + c.draw(2)) * one)};
		case 3: // ends where a begins
			if constexpr(std::is_integral_v<T>) if(g == Grid::large || p < T(std::numeric_limits<T>::min() + 3)) break;
			{ auto n = T(T(1 + c.draw(2)) * one); return {T(p - n), n}; }
		case 4: // inside, sharing some end
			if(s > T(2) * one) {
				auto l = T(T(c.draw(1)) * one), r = T(T(c.draw(1)) * one);
				return {T(p + l), T(s - l - r)};
			}
			break;
		case 5: // around
			if constexpr(std::is_integral_v<T>) if(g == Grid::large || p < T(std::numeric_limits<T>::min() + 3)) break;
			{ auto l = T(T(c.draw(1)) * one), r = T(T(c.draw(1)) * one); return {T(p - l), T(s + l + r)}; }
		default: break;
	}
	return interval<T>(c, g, positive);
}

template<std::size_t D, typename T> void rectPair(pbt::Ctx& c, Rect<D, T>& a, Rect<D, T>& b, bool positive) {
	auto g = anyGrid(c, std::is_integral_v<T>);
	auto swap = c.boolean();
	auto rel = c.boolean();
	// in many dimensions independent intervals hardly ever overlap in all of them
	auto near = D > 4 && c.chance(3, 4);
	if(near) g = Grid::small;
	auto free = c.draw(2 * D);
	for(auto i = 0u; i < D; ++i) {
		auto x = interval<T>(c, g, positive);
		auto y = x;
		if(near && i != free) {
			auto l = T(c.draw(1)), r = T(c.draw(1));
			if(c.boolean()) y = {T(x.first + l), T(x.second + r)};
			else if(x.second > T(2)) y = {T(x.first + l), T(x.second - l - r)};
		} else y = rel ? related<T>(c, x, g, positive) : interval<T>(c, g, positive);
		if(swap) std::swap(x, y);
		a.position[i] = x.first; a.size[i] = x.second;
		b.position[i] = y.first; b.size[i] = y.second;
	}
}

// Rects of very many dimensions: b covers a or the other way round, but for a few dimensions
template<std::size_t D, typename T> void manyDims(pbt::Ctx& c, Rect<D, T>& a, Rect<D, T>& b) {
	auto seed = unsigned(c.draw(1000));
	for(auto i = std::size_t(0); i < D; ++i) {
		auto h = unsigned(i) * 2654435761u + seed * 40503u;
		a.position[i] = T((h >> 8) % 50);
		a.size[i] = T(3 + (h >> 16) % 20);
		b.position[i] = a.position[i];
		b.size[i] = a.size[i];
	}
	for(auto n = c.draw(4); n > 0; --n) {
		auto i = std::size_t(c.boolean() ? D - 1 - c.draw(39) : c.draw(D - 1));
		auto& x = c.boolean() ? a : b;
		switch(c.draw(4)) {
			case 0: x.position[i] += T(1); x.size[i] -= T(1); break;
			case 1: x.size[i] -= T(1); break;
			case 2: x.position[i] += T(1); break;
			case 3: x.position[i] += x.size[i]; break; // touching (or not at all)
			case 4: x.position[i] += T(30); break;
		}
		if(x.size[i] < T(1)) x.size[i] = T(1);
	}
}

} // namespace gen
