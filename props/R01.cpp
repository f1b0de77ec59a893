// R01: containment and intersection of Rects.
#include "rectgen.hpp"

namespace {

using namespace gen;
using LD = long double;

template<std::size_t D, typename T> struct Box {
	LD lo[D], hi[D];
	explicit Box(const Rect<D, T>& r) { for(auto i = 0u; i < D; ++i) { lo[i] = r.position[i]; hi[i] = lo[i] + LD(r.size[i]); } }
	template<typename P> bool has(const P& p) const { for(auto i = 0u; i < D; ++i) if(!(lo[i] <= p[i] && p[i] <= hi[i])) return false; return true; }
	template<typename P> bool inside(const P& p) const { for(auto i = 0u; i < D; ++i) if(!(lo[i] < p[i] && p[i] < hi[i])) return false; return true; }
};

template<std::size_t D, typename T> void containment(pbt::Ctx& c) {
	Rect<D, T> r, o;
	rectPair(c, r, o, false);
	// corners, outline and inner points, and neighbours of them
	nytl::Vec<D, T> p {};
	bool border = false;
	for(auto i = 0u; i < D; ++i) {
		switch(c.draw(5)) {
			case 0: p[i] = r.position[i]; border = true; break;
			case 1: p[i] = r.position[i] + r.size[i]; border = true; break;
			case 2: p[i] = T(r.position[i] + r.size[i] / 2); break;
			case 3: p[i] = o.position[i]; break;
			case 4: p[i] = r.position[i] > std::numeric_limits<T>::lowest() + T(1) ? T(r.position[i] - T(1)) : r.position[i]; break;
			case 5: p[i] = r.position[i] + r.size[i]; if(p[i] < std::numeric_limits<T>::max() - T(1)) p[i] = p[i] + T(1); break;
		}
	}
	c.note(show(r), " point ", show(p));
	Box<D, T> b(r);
	c.nontrivial(border && b.has(p));
	EXPECT(nytl::contains(r, p) == b.has(p), "contains is ", nytl::contains(r, p));
	EXPECT(nytl::containsReal(r, p) == b.inside(p), "containsReal is ", nytl::containsReal(r, p));
}

// points of another type than the Rect
template<std::size_t D> void mixed(pbt::Ctx& c) {
	Rect<D, int> r, o;
	rectPair(c, r, o, false);
	nytl::Vec<D, double> p {};
	Rect<D, double> f {};
	for(auto i = 0u; i < D; ++i) {
		p[i] = (c.boolean() ? r.position[i] : double(r.position[i]) + r.size[i]) + 0.25 * double(c.sym(4));
		f.position[i] = o.position[i] + 0.5 * double(c.sym(2));
		f.size[i] = o.size[i] + 0.25 * double(c.draw(3));
	}
	c.note(show(r), " point ", show(p), " other ", show(f));
	Box<D, int> b(r);
	Box<D, double> bf(f);
	c.nontrivial(b.has(p));
	EXPECT(nytl::contains(r, p) == b.has(p), "contains is ", nytl::contains(r, p));
	EXPECT(nytl::containsReal(r, p) == b.inside(p), "containsReal is ", nytl::containsReal(r, p));
	bool touch = true, real = true;
	for(auto i = 0u; i < D; ++i) {
		auto l = std::max(b.lo[i], bf.lo[i]), h = std::min(b.hi[i], bf.hi[i]);
		touch &= l <= h;
		real &= l < h && f.size[i] > 0 && r.size[i] > 0;
	}
	EXPECT(nytl::intersects(r, f) == touch && nytl::intersects(f, r) == touch, "intersects is ", nytl::intersects(r, f), " ", nytl::intersects(f, r));
	for(auto i = 0u; i < D; ++i) if(f.size[i] <= 0 || r.size[i] <= 0) return;
	EXPECT(nytl::intersectsReal(r, f) == real && nytl::intersectsReal(f, r) == real, "intersectsReal is ", nytl::intersectsReal(r, f), " ", nytl::intersectsReal(f, r));
}

template<std::size_t D, typename T> void overlap(pbt::Ctx& c) {
	Rect<D, T> a, b;
	auto positive = c.boolean();
	rectPair(c, a, b, positive);
	c.note("a ", show(a), " b ", show(b));
	Box<D, T> x(a), y(b);
	bool touch = true, real = true, aInB = true, bInA = true, corner = false, outline = false;
	for(auto i = 0u; i < D; ++i) {
		auto l = std::max(x.lo[i], y.lo[i]), h = std::min(x.hi[i], y.hi[i]);
		touch &= l <= h;
		real &= l < h;
		outline |= l == h;
		aInB &= y.lo[i] <= x.lo[i] && x.hi[i] <= y.hi[i];
		bInA &= x.lo[i] <= y.lo[i] && y.hi[i] <= x.hi[i];
	}
	for(auto m = 0u; m < (1u << D); ++m) {
		LD pa[D], pb[D];
		for(auto i = 0u; i < D; ++i) { pa[i] = m & (1u << i) ? x.hi[i] : x.lo[i]; pb[i] = m & (1u << i) ? y.hi[i] : y.lo[i]; }
		corner |= x.has(pb) || y.has(pa);
	}
	c.nontrivial(touch && (!corner || aInB || bInA || outline));
	c.label(touch && !corner, "cross");
	c.label(touch && outline, "touch");
	c.label(touch && (aInB || bInA), "one contains the other");

	EXPECT(nytl::intersects(a, b) == touch, "intersects(a, b) is ", nytl::intersects(a, b));
	EXPECT(nytl::intersects(b, a) == touch, "intersects(b, a) is ", nytl::intersects(b, a));
	if(positive) {
		EXPECT(nytl::intersectsReal(a, b) == real, "intersectsReal(a, b) is ", nytl::intersectsReal(a, b));
		EXPECT(nytl::intersectsReal(b, a) == real, "intersectsReal(b, a) is ", nytl::intersectsReal(b, a));
	}

	auto check = [&](const Rect<D, T>& r) {
		if(!touch) {
			for(auto i = 0u; i < D; ++i) EXPECT(r.position[i] == T(0) && r.size[i] == T(0), "no shared point, but the intersection is ", show(r));
			return;
		}
		for(auto i = 0u; i < D; ++i) {
			auto l = std::max(x.lo[i], y.lo[i]), h = std::min(x.hi[i], y.hi[i]);
			EXPECT(LD(r.position[i]) == l && LD(r.size[i]) == h - l, "intersection is ", show(r));
		}
	};
	check(nytl::intersection(a, b));
	check(nytl::intersection(b, a));
}

// Rects and points of wider integer or floating point types
template<std::size_t D, typename A, typename B> void wideMixed(pbt::Ctx& c) {
	Rect<D, A> r, o;
	rectPair(c, r, o, true);
	Rect<D, B> f {};
	nytl::Vec<D, B> p {};
	auto limit = LD(std::numeric_limits<B>::max()) < 1e18L ? LD(std::numeric_limits<B>::max()) / 4 : 1e15L;
	auto whole = [&](LD x) { return B(std::max(-limit, std::min(limit, std::floor(x)))); };
	for(auto i = 0u; i < D; ++i) {
		auto at = [&] { return LD(r.position[i]) + (c.boolean() ? LD(r.size[i]) : 0) + LD(c.sym(2)); };
		p[i] = c.chance(1, 4) ? whole(LD(c.sym((long long) 1e14))) : whole(at());
		f.position[i] = c.chance(1, 4) ? whole(LD(c.sym((long long) 1e14))) : whole(at());
		f.size[i] = whole(c.chance(1, 4) ? LD(c.draw((unsigned long long) 1e14)) : LD(c.draw(3))) + 1;
	}
	c.note(show(r), " point ", show(p), " other ", show(f));
	Box<D, A> b(r);
	Box<D, B> bf(f);
	bool touch = true, real = true;
	for(auto i = 0u; i < D; ++i) {
		auto l = std::max(b.lo[i], bf.lo[i]), h = std::min(b.hi[i], bf.hi[i]);
		touch &= l <= h;
		real &= l < h;
	}
	c.nontrivial(b.has(p) || touch);
	EXPECT(nytl::contains(r, p) == b.has(p), "contains is ", nytl::contains(r, p));
	EXPECT(nytl::containsReal(r, p) == b.inside(p), "containsReal is ", nytl::containsReal(r, p));
	EXPECT(nytl::intersects(r, f) == touch && nytl::intersects(f, r) == touch, "intersects is ", nytl::intersects(r, f), " ", nytl::intersects(f, r));
	EXPECT(nytl::intersectsReal(r, f) == real && nytl::intersectsReal(f, r) == real, "intersectsReal is ", nytl::intersectsReal(r, f), " ", nytl::intersectsReal(f, r));
}

template<std::size_t D, typename T> void many(pbt::Ctx& c) {
	static Rect<D, T> a, b; // (too large for the stack of some sanitizers)
	manyDims(c, a, b);
	static nytl::Vec<D, T> p;
	for(auto i = 0u; i < D; ++i) p[i] = a.position[i] + T(1);
	auto moved = c.draw(2);
	for(auto n = moved; n > 0; --n) {
		auto i = c.boolean() ? D - 1 - c.draw(39) : c.draw(D - 1);
		p[i] = c.pick<T>({a.position[i], T(a.position[i] + a.size[i]), T(a.position[i] + a.size[i] + T(1)), T(a.position[i] - T(1))});
		c.note("point [", i, "] = ", p[i], " in ", a.position[i], " + ", a.size[i]);
	}
	Box<D, T> x(a), y(b);
	auto touch = true, real = true;
	for(auto i = 0u; i < D; ++i) {
		auto l = std::max(x.lo[i], y.lo[i]), h = std::min(x.hi[i], y.hi[i]);
		touch &= l <= h;
		real &= l < h;
		if(x.lo[i] != y.lo[i] || x.hi[i] != y.hi[i])
			c.note("dimension ", i, ": ", x.lo[i], " to ", x.hi[i], " and ", y.lo[i], " to ", y.hi[i]);
	}
	c.nontrivial(!real || moved);
	c.label(!touch, "apart");
	EXPECT(nytl::contains(a, p) == x.has(p), "contains is ", nytl::contains(a, p));
	EXPECT(nytl::containsReal(a, p) == x.inside(p), "containsReal is ", nytl::containsReal(a, p));
	EXPECT(nytl::intersects(a, b) == touch && nytl::intersects(b, a) == touch, "intersects is ", nytl::intersects(a, b));
	EXPECT(nytl::intersectsReal(a, b) == real && nytl::intersectsReal(b, a) == real, "intersectsReal is ", nytl::intersectsReal(a, b));
	auto r = nytl::intersection(a, b);
	for(auto i = 0u; i < D; ++i) {
		auto l = touch ? std::max(x.lo[i], y.lo[i]) : 0, h = touch ? std::min(x.hi[i], y.hi[i]) : 0;
		EXPECT(LD(r.position[i]) == l && LD(r.size[i]) == h - l, "intersection[", i, "] is ", r.position[i], " + ", r.size[i]);
	}
}

// the definition: existence of shared points, by enumeration
template<std::size_t D> void enumerated(pbt::Ctx& c) {
	Rect<D, int> a, b;
	for(auto i = 0u; i < D; ++i) {
		a.position[i] = int(c.draw(5)) * 2; a.size[i] = int(1 + c.draw(4)) * 2;
		b.position[i] = int(c.draw(5)) * 2; b.size[i] = int(1 + c.draw(4)) * 2;
	}
	c.note("a ", show(a), " b ", show(b));
	auto is = nytl::intersection(a, b);
	bool touch = false, real = false;
	nytl::Vec<D, int> p {};
	for(auto& x : p) x = -1;
	for(;;) {
		auto ca = nytl::contains(a, p), cb = nytl::contains(b, p);
		touch |= ca && cb;
		real |= nytl::containsReal(a, p) && nytl::containsReal(b, p);
		if(ca && cb) EXPECT(nytl::contains(is, p), "shared point ", show(p), " is not in the intersection ", show(is));
		else if(nytl::intersects(a, b)) EXPECT(!nytl::contains(is, p), "point ", show(p), " of the intersection ", show(is), " is not shared");
		auto i = 0u;
		for(; i < D && p[i] == 20; ++i) p[i] = -1;
		if(i == D) break;
		++p[i];
	}
	c.nontrivial(touch && real != touch);
	EXPECT(nytl::intersects(a, b) == touch, "intersects is ", nytl::intersects(a, b));
	EXPECT(nytl::intersectsReal(a, b) == real, "intersectsReal is ", nytl::intersectsReal(a, b));
}

} // namespace

#define DIMS(F, T) \
	switch(c.draw(3)) { \
		case 0: F<2, T>(c); break; \
		case 1: F<1, T>(c); break; \
		case 2: F<3, T>(c); break; \
		case 3: F<4, T>(c); break; \
	}

#if PBT_PART == 0
FACET(overlapInt, 300000) { DIMS(overlap, int) }
FACET(overlapFloat, 150000) { DIMS(overlap, float) }
#elif PBT_PART == 1
FACET(overlapDouble, 150000) { DIMS(overlap, double) }
FACET(overlapLong, 100000) { DIMS(overlap, std::int64_t) }
FACET(enumerated1, 3000) { enumerated<1>(c); }
FACET(enumerated2, 10000) { enumerated<2>(c); }
FACET(enumerated3, 300) { enumerated<3>(c); }
#elif PBT_PART == 2
FACET(overlapUnsigned, 100000) { DIMS(overlap, unsigned) }
FACET(containsInt, 150000) { DIMS(containment, int) }
FACET(containsUnsigned, 80000) { DIMS(containment, unsigned) }
#elif PBT_PART == 3
FACET(containsFloat, 100000) { DIMS(containment, float) }
FACET(containsDouble, 100000) { DIMS(containment, double) }
FACET(mixedTypes, 100000) {
	switch(c.draw(2)) {
		case 0: mixed<2>(c); break;
		case 1: mixed<1>(c); break;
		case 2: mixed<3>(c); break;
	}
}
#elif PBT_PART == 4
FACET(overlapHighDimensions, 150000) {
	switch(c.draw(6)) {
		case 0: overlap<5, int>(c); break;
		case 1: overlap<6, double>(c); break;
		case 2: overlap<8, int>(c); break;
		case 3: overlap<5, float>(c); break;
		case 4: overlap<9, std::int64_t>(c); break;
		case 5: overlap<3, long double>(c); break;
		case 6: overlap<2, std::uint64_t>(c); break;
	}
}
FACET(containsHighDimensions, 80000) {
	switch(c.draw(7)) {
		case 0: containment<5, int>(c); break;
		case 1: containment<6, double>(c); break;
		case 2: containment<9, float>(c); break;
		case 3: containment<17, int>(c); break;
		case 4: containment<2, short>(c); break;
		case 5: containment<3, std::uint8_t>(c); break;
		case 6: containment<2, std::int64_t>(c); break;
		case 7: containment<3, long double>(c); break;
	}
}
FACET(manyDimensions, 20000) {
	switch(c.draw(2)) {
		case 0: many<300, int>(c); break;
		case 1: many<257, double>(c); break;
		case 2: many<40, std::int64_t>(c); break;
	}
}
FACET(mixedWide, 100000) {
	switch(c.draw(4)) {
		case 0: wideMixed<2, int, long long>(c); break;
		case 1: wideMixed<3, int, double>(c); break;
		case 2: wideMixed<1, unsigned, std::uint64_t>(c); break;
		case 3: wideMixed<2, float, double>(c); break;
		case 4: wideMixed<5, int, long long>(c); break;
	}
}
#endif
