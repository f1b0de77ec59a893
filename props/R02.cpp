// R02: difference of Rects.
#include "rectgen.hpp"

namespace {

using namespace gen;
using LD = long double;

template<std::size_t D, typename T> void cut(pbt::Ctx& c) {
	Rect<D, T> a, b;
	rectPair(c, a, b, true);
	c.note("a ", show(a), " b ", show(b));
	bool real = true, covered = true;
	LD alo[D], ahi[D], blo[D], bhi[D];
	for(auto i = 0u; i < D; ++i) {
		alo[i] = a.position[i]; ahi[i] = alo[i] + LD(a.size[i]);
		blo[i] = b.position[i]; bhi[i] = blo[i] + LD(b.size[i]);
		real &= std::max(alo[i], blo[i]) < std::min(ahi[i], bhi[i]);
		covered &= blo[i] <= alo[i] && ahi[i] <= bhi[i];
	}
	c.nontrivial(real && !covered);
	c.label(!real, "no overlap");
	c.label(covered, "covered");
	const auto a0 = a, b0 = b;
	auto parts = nytl::difference(a, b);
	static_assert(std::is_same_v<decltype(parts), std::vector<Rect<D, T>>>);
	std::string all;
	for(auto& p : parts) all += show(p) + " ";
	if(!real) {
		EXPECT(parts.size() == 1, "the interiors do not intersect, difference is ", all);
		if(parts.size() == 1) for(auto i = 0u; i < D; ++i)
			EXPECT(parts[0].position[i] == a0.position[i] && parts[0].size[i] == a0.size[i], "the interiors do not intersect, difference is ", all);
		return;
	}
	if(covered) {
		EXPECT(parts.empty(), "b covers a, difference is ", all);
		return;
	}
	for(auto& p : parts) for(auto i = 0u; i < D; ++i) EXPECT(p.size[i] > T(0), "empty part in ", all);

	// all cells between the coordinates of a, b and the parts
	std::vector<LD> cuts[D];
	for(auto i = 0u; i < D; ++i) {
		cuts[i] = {alo[i], ahi[i], blo[i], bhi[i]};
		for(auto& p : parts) { cuts[i].push_back(p.position[i]); cuts[i].push_back(LD(p.position[i]) + LD(p.size[i])); }
		std::sort(cuts[i].begin(), cuts[i].end());
		cuts[i].erase(std::unique(cuts[i].begin(), cuts[i].end()), cuts[i].end());
	}
	std::size_t idx[D] {};
	for(;;) {
		LD mid[D];
		for(auto i = 0u; i < D; ++i) mid[i] = (cuts[i][idx[i]] + cuts[i][idx[i] + 1]) / 2;
		auto in = [&](const LD* lo, const LD* hi) { for(auto i = 0u; i < D; ++i) if(mid[i] < lo[i] || mid[i] > hi[i]) return false; return true; };
		auto n = 0u;
		for(auto& p : parts) {
			bool has = true;
			for(auto i = 0u; i < D && has; ++i) has = LD(p.position[i]) < mid[i] && mid[i] < LD(p.position[i]) + LD(p.size[i]);
			n += has;
		}
		auto expected = in(alo, ahi) && !in(blo, bhi) ? 1u : 0u;
		if(n != expected) {
			std::string at;
			for(auto x : mid) at += pbt::str(x) + " ";
			c.fail(__FILE__, __LINE__, "point ", at, "is in ", n, " parts instead of ", expected, ": ", all);
			return;
		}
		auto i = 0u;
		for(; i < D && idx[i] + 2 == cuts[i].size(); ++i) idx[i] = 0;
		if(i == D) break;
		++idx[i];
	}
}

// too many dimensions for looking at all cells: pairwise disjoint parts inside a and outside b
// whose volumes add up (the volume is measured relative to that of a)
template<std::size_t D, typename T> void many(pbt::Ctx& c) {
	static Rect<D, T> a, b;
	manyDims(c, a, b);
	auto lo = [](auto& r, auto i) { return LD(r.position[i]); };
	auto hi = [](auto& r, auto i) { return LD(r.position[i]) + LD(r.size[i]); };
	auto overlap = [&](auto& x, auto& y) { // of the interiors
		for(auto i = 0u; i < D; ++i) if(std::max(lo(x, i), lo(y, i)) >= std::min(hi(x, i), hi(y, i))) return false;
		return true;
	};
	auto shared = LD(1);
	for(auto i = 0u; i < D; ++i) {
		shared *= std::max<LD>(0, std::min(hi(a, i), hi(b, i)) - std::max(lo(a, i), lo(b, i))) / LD(a.size[i]);
		if(lo(a, i) != lo(b, i) || hi(a, i) != hi(b, i)) c.note("dimension ", i, ": ", lo(a, i), " to ", hi(a, i), " and ", lo(b, i), " to ", hi(b, i));
	}
	auto parts = nytl::difference(a, b);
	c.nontrivial(shared > 0 && shared < 1);
	auto vol = LD(0);
	for(auto& p : parts) {
		auto v = LD(1);
		for(auto i = 0u; i < D; ++i) {
			EXPECT(p.size[i] > T(0) && lo(p, i) >= lo(a, i) && hi(p, i) <= hi(a, i), "part [", i, "]: ", p.position[i], " + ", p.size[i]);
			v *= LD(p.size[i]) / LD(a.size[i]);
		}
		vol += v;
		EXPECT(!overlap(p, b), "a part overlaps b");
		for(auto& q : parts) EXPECT(&p == &q || !overlap(p, q), "two parts overlap");
	}
	EXPECT(std::fabs(vol - (1 - shared)) < 1e-12L, "the parts are ", vol, " of a instead of ", 1 - shared);
	if(shared == 0) EXPECT(parts.size() == 1, parts.size(), " parts though the interiors do not intersect");
}

} // namespace

#define DIMS(F, T) \
	switch(c.draw(3)) { \
		case 0: F<2, T>(c); break; \
		case 1: F<1, T>(c); break; \
		case 2: F<3, T>(c); break; \
		case 3: F<4, T>(c); break; \
	}

#if PBT_PART == 0
FACET(ints, 80000) { DIMS(cut, int) }
#elif PBT_PART == 1
FACET(doubles, 50000) { DIMS(cut, double) }
#elif PBT_PART == 2
FACET(floats, 50000) { DIMS(cut, float) }
#elif PBT_PART == 3
FACET(unsignedInts, 30000) { DIMS(cut, unsigned) }
#elif PBT_PART == 4
FACET(highDimensions, 6000) {
	switch(c.draw(2)) {
		case 0: cut<5, int>(c); break;
		case 1: cut<5, double>(c); break;
		case 2: cut<6, int>(c); break;
	}
}
FACET(veryHighDimensions, 300) {
	switch(c.draw(2)) {
		case 0: cut<7, int>(c); break;
		case 1: cut<8, int>(c); break;
		case 2: cut<9, double>(c); break;
	}
}
#elif PBT_PART == 5
FACET(manyDimensions, 6000) {
	switch(c.draw(2)) {
		case 0: many<300, int>(c); break;
		case 1: many<257, double>(c); break;
		case 2: many<40, std::int64_t>(c); break;
	}
}
FACET(longInts, 40000) { DIMS(cut, std::int64_t) }
FACET(longUnsigned, 20000) {
	switch(c.draw(1)) {
		case 0: cut<2, std::uint64_t>(c); break;
		case 1: cut<3, long double>(c); break;
	}
}
#endif
