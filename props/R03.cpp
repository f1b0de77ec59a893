// R03: conversions, size, center and equality of Rects and Simplices.
#include "rectgen.hpp"
#include <nytl/simplex.hpp>

namespace {

using namespace gen;

template<typename T> T item(pbt::Ctx& c) {
	if constexpr(std::is_unsigned_v<T>) return T(c.range(0, 1000));
	else if constexpr(std::is_integral_v<T>) return T(c.sym(1000));
	else return T(c.sym(4000)) / T(8);
}

// target can hold the source
template<typename O, typename T> T itemFor(pbt::Ctx& c) {
	auto x = item<T>(c);
	if(c.chance(1, 4)) {
		// everything when the target is the same or a floating point type, otherwise what fits
		if constexpr(std::is_same_v<T, O> || (std::is_integral_v<T> && std::is_floating_point_v<O>)) x = wide<T>(c);
		else if constexpr(std::is_floating_point_v<T> && std::is_floating_point_v<O>) x = T(c.real(-3e7, 3e7));
		else x = T(c.sym(std::numeric_limits<int>::max() - 1));
	}
	return std::is_unsigned_v<O> && x < T(0) ? T(-x) : x;
}

template<std::size_t D, typename T, std::size_t OD, typename O> void convert(pbt::Ctx& c) {
	static_assert(Rect<D, T>::dim == D && std::is_same_v<typename Rect<D, T>::VecType, nytl::Vec<D, T>> && std::is_same_v<typename Rect<D, T>::Value, T>);
	Rect<D, T> r;
	for(auto i = 0u; i < D; ++i) { r.position[i] = itemFor<O, T>(c); r.size[i] = itemFor<O, T>(c); }
	c.note(show(r), " to dimension ", OD);
	c.nontrivial(D != OD || !std::is_same_v<T, O>);
	const auto& cr = r;
	auto o = static_cast<Rect<OD, O>>(cr);
	static_assert(!std::is_convertible_v<Rect<D, T>, Rect<OD, O>> || std::is_same_v<Rect<D, T>, Rect<OD, O>>);
	for(auto i = 0u; i < OD; ++i) {
		auto p = i < D ? O(r.position[i < D ? i : 0]) : O(0), s = i < D ? O(r.size[i < D ? i : 0]) : O(0);
		EXPECT(identical(o.position[i], p) && identical(o.size[i], s), "converted Rect is ", show(o));
	}
}

template<std::size_t D, typename T, std::size_t A> std::string showS(const nytl::Simplex<D, T, A>& s) {
	std::string r;
	for(auto i = 0u; i <= A; ++i) r += gen::show(s.points()[i]) + " ";
	return r;
}

template<std::size_t D, typename T, std::size_t A, std::size_t OD, typename O> void simplex(pbt::Ctx& c) {
	using S = nytl::Simplex<D, T, A>;
	static_assert(S::pointCount == A + 1 && S::spaceDim == D && S::simplexDim == A);
	S s {};
	for(auto k = 0u; k <= A; ++k) for(auto i = 0u; i < D; ++i)
		EXPECT(s.points()[k][i] == T(0), "value initialized Simplex is ", showS(s));
	nytl::Vec<D, T> pts[A + 1] {};
	// through the pointer, in any order
	auto off = c.draw(A);
	for(auto k = 0u; k <= A; ++k) {
		auto n = (k + off) % (A + 1);
		for(auto i = 0u; i < D; ++i) pts[n][i] = itemFor<O, T>(c);
		s.points()[n] = pts[n];
	}
	c.note(showS(s), " to dimension ", OD);
	c.nontrivial(D != OD || !std::is_same_v<T, O>);
	const auto& cs = s;
	for(auto k = 0u; k <= A; ++k) {
		EXPECT(same(cs.points()[k], pts[k]), "point ", k, " of ", showS(s));
		EXPECT(cs.points() + k == &s.points()[k], "const and non-const points() differ");
	}
	auto copy = s;
	for(auto k = 0u; k <= A; ++k) EXPECT(same(copy.points()[k], pts[k]), "copy is ", showS(copy));
	s.points()[0][0] = T(c.draw(9));
	EXPECT(same(copy.points()[0], pts[0]), "copy changed with the original");
	const auto& cc = copy;
	auto o = static_cast<nytl::Simplex<OD, O, A>>(cc);
	for(auto k = 0u; k <= A; ++k) for(auto i = 0u; i < OD; ++i) {
		auto e = i < D ? O(pts[k][i < D ? i : 0]) : O(0);
		EXPECT(identical(o.points()[k][i], e), "converted Simplex is ", showS(o));
	}
}

template<std::size_t D, typename T> void measures(pbt::Ctx& c) {
	Rect<D, T> r;
	LD vol = 1;
	bool zero = false;
	for(auto i = 0u; i < D; ++i) {
		r.position[i] = item<T>(c);
		r.size[i] = T(c.draw(30));
		if(!std::is_integral_v<T> && c.boolean()) r.size[i] = r.size[i] / T(4);
		vol *= LD(r.size[i]);
		zero |= r.size[i] == T(0);
	}
	c.note(show(r));
	c.nontrivial(!zero && D > 1);
	const auto& cr = r;
	auto s = nytl::size(cr);
	EXPECT(LD(s) == vol, "size is ", s, " instead of ", vol); // exact
	auto m = nytl::center(cr);
	for(auto i = 0u; i < D; ++i) EXPECT(LD(m[i]) == LD(r.position[i]) + LD(r.size[i]) / 2, "center is ", gen::show(m));
	nytl::Rect deduced {r.position, r.size};
	static_assert(std::is_same_v<decltype(deduced), Rect<D, T>>);
	EXPECT(same(deduced.position, r.position) && same(deduced.size, r.size), "Rect made from two vectors is ", show(deduced));
	// same distance to all sides
	EXPECT(nytl::contains(r, m), "center ", gen::show(m), " is not contained");
}

template<std::size_t D, typename T, typename O> void equality(pbt::Ctx& c) {
	Rect<D, T> a;
	Rect<D, O> b;
	for(auto i = 0u; i < D; ++i) {
		a.position[i] = T(c.draw(3)); a.size[i] = T(c.draw(3));
		if(sizeof(T) == 8 && sizeof(O) == 8 && c.chance(1, 4)) a.position[i] = T((1ll << 40) + (long long)(c.draw(3)));
		if(std::is_same_v<T, double> && std::is_same_v<O, double> && c.chance(1, 4)) a.size[i] = T(1 + std::ldexp(double(c.draw(3)), -40));
		b.position[i] = O(a.position[i]); b.size[i] = O(a.size[i]);
	}
	if(c.chance(1, 4)) { // same numbers, other places
		auto p = b.position;
		b.position = b.size;
		b.size = p;
	}
	for(auto n = c.draw(2); n > 0; --n) {
		auto i = c.draw(D - 1);
		if(c.boolean()) b.position[i] = O(c.draw(3));
		else b.size[i] = O(c.draw(3));
	}
	bool eq = true;
	for(auto i = 0u; i < D; ++i) eq &= LD(a.position[i]) == LD(b.position[i]) && LD(a.size[i]) == LD(b.size[i]);
	c.note(gen::show(a), " ", gen::show(b));
	c.nontrivial(!eq);
	EXPECT((a == b) == eq && (b == a) == eq, "== is ", a == b, " ", b == a);
	EXPECT((a != b) == !eq && (b != a) == !eq, "!= is ", a != b, " ", b != a);
}

} // namespace

FACET(rectConversion, 100000) {
	switch(c.draw(19)) {
		case 12: convert<2, double, 2, double>(c); break;
		case 13: convert<3, long long, 2, long long>(c); break;
		case 14: convert<2, long long, 3, double>(c); break;
		case 15: convert<5, unsigned, 4, unsigned>(c); break;
		case 16: convert<2, int, 2, long long>(c); break;
		case 17: convert<7, double, 6, long double>(c); break;
		case 18: if(c.chance(1, 60)) convert<300, int, 299, double>(c); else convert<5, double, 5, double>(c); break;
		case 19: if(c.chance(1, 60)) convert<3, float, 260, float>(c); else convert<3, float, 7, float>(c); break;
		case 0: convert<2, int, 2, int>(c); break;
		case 1: convert<2, int, 2, float>(c); break;
		case 2: convert<3, double, 2, double>(c); break;
		case 3: convert<2, float, 3, float>(c); break;
		case 4: convert<4, double, 2, int>(c); break;
		case 5: convert<1, int, 4, double>(c); break;
		case 6: convert<3, float, 3, unsigned>(c); break;
		case 7: convert<2, unsigned, 4, int>(c); break;
		case 8: convert<4, int, 5, float>(c); break;
		case 9: convert<5, double, 3, float>(c); break;
		case 10: convert<3, int, 1, int>(c); break;
		case 11: convert<2, double, 4, float>(c); break;
	}
}

FACET(simplices, 100000) {
	switch(c.draw(19)) {
		case 12: simplex<3, double, 2, 4, double>(c); break;
		case 13: simplex<2, long long, 1, 3, long long>(c); break;
		case 14: simplex<4, long long, 2, 3, double>(c); break;
		case 15: simplex<6, unsigned, 5, 5, unsigned>(c); break;
		case 16: simplex<2, float, 0, 2, double>(c); break;
		case 17: simplex<9, double, 8, 9, float>(c); break;
		case 18: if(c.chance(1, 60)) simplex<300, int, 1, 299, double>(c); else simplex<4, int, 1, 2, double>(c); break;
		case 19: if(c.chance(1, 200)) simplex<260, short, 259, 261, int>(c); else simplex<3, short, 1, 4, int>(c); break;
		case 0: simplex<2, int, 1, 2, int>(c); break;
		case 1: simplex<2, double, 2, 3, double>(c); break;
		case 2: simplex<3, double, 2, 2, float>(c); break;
		case 3: simplex<3, float, 3, 3, double>(c); break;
		case 4: simplex<3, double, 2, 3, int>(c); break;
		case 5: simplex<4, float, 1, 1, double>(c); break;
		case 6: simplex<1, int, 1, 4, double>(c); break;
		case 7: simplex<4, double, 3, 3, unsigned>(c); break;
		case 8: simplex<5, int, 4, 4, int>(c); break;
		case 9: simplex<3, float, 1, 5, float>(c); break;
		case 10: simplex<2, double, 2, 4, float>(c); break;
		case 11: simplex<2, int, 2, 2, double>(c); break;
	}
}

FACET(sizeAndCenter, 60000) {
	switch(c.draw(11)) {
		case 7: measures<2, long long>(c); break;
		case 8: measures<5, double>(c); break;
		case 9: measures<6, int>(c); break;
		case 10: measures<1, short>(c); break;
		case 11: measures<2, long double>(c); break;
		case 0: measures<2, int>(c); break;
		case 1: measures<2, double>(c); break;
		case 2: measures<3, float>(c); break;
		case 3: measures<1, int>(c); break;
		case 4: measures<4, double>(c); break;
		case 5: measures<3, int>(c); break;
		case 6: measures<2, unsigned>(c); break;
	}
}

FACET(equalRects, 60000) {
	switch(c.draw(8)) {
		case 5: equality<2, long long, long long>(c); break;
		case 6: equality<5, int, int>(c); break;
		case 7: equality<2, long long, double>(c); break;
		case 8: equality<9, float, float>(c); break;
		case 0: equality<2, int, int>(c); break;
		case 1: equality<2, int, double>(c); break;
		case 2: equality<3, float, double>(c); break;
		case 3: equality<4, double, double>(c); break;
		case 4: equality<1, double, int>(c); break;
	}
}
