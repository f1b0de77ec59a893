// L02: structural matrix operations against nested arrays.
#include "matgen.hpp"

#include <cmath>
#include <stdexcept>

namespace {

using namespace gen;

template<typename F> bool outOfRange(F f) {
	try { f(); } catch(const std::out_of_range&) { return true; }
	return false;
}

// all elements the same, down to the sign of zeros
template<std::size_t R, std::size_t C, typename T> bool exactly(const Mat<R, C, T>& m, const Model<T>& e) {
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) if(!identical(m[i][j], e[i][j])) return false;
	return true;
}

// an index outside of [0, n), also ones that would be valid in a narrower type
std::size_t outside(pbt::Ctx& c, std::size_t n) {
	switch(c.draw(5)) {
		case 0: return n;
		case 1: return n + c.draw(20);
		case 2: return std::size_t(-1) - c.draw(2);
		case 3: return (std::size_t(1) << 32) + c.draw(3);
		case 4: return (std::size_t(1) << 31) + c.draw(3);
		default: return 65536 + c.draw(n);
	}
}

template<std::size_t R, std::size_t C, typename T> void shape(pbt::Ctx& c) {
	auto extreme = c.chance(1, 3);
	auto element = [&] { return extreme ? wide<T>(c) : small<T>(c, 12); };
	auto m = smallMat<R, C, T>(c);
	if(extreme) for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) m[i][j] = element();
	auto e = toModel(m);
	c.nontrivial(interesting(m));
	static_assert(Mat<R, C, T>::rows() == R && Mat<R, C, T>::cols() == C);
	c.note(show(m));
	for(auto n = c.range(1, 5); n > 0 && !c.failed(); --n) {
		const auto& cm = m;
		auto i = c.draw(R - 1), k = c.draw(R - 1), j = c.draw(C - 1), l = c.draw(C - 1);
		const char* what = "";
		switch(c.draw(9)) {
			case 0: {
				what = "transpose";
				auto t = nytl::transpose(cm);
				static_assert(std::is_same_v<decltype(t), Mat<C, R, T>>);
				for(std::size_t a = 0; a < R; ++a) for(std::size_t b = 0; b < C; ++b)
					EXPECT(identical(t[b][a], e[a][b]), "transpose at ", b, ",", a, " is ", t[b][a]);
				EXPECT(nytl::transpose(t) == cm, "transpose twice");
				break;
			}
			case 1: {
				what = "col";
				auto v = nytl::col(cm, j);
				static_assert(std::is_same_v<decltype(v), Vec<R, T>>);
				for(std::size_t a = 0; a < R; ++a) EXPECT(identical(v[a], e[a][j]), "col(", j, ")[", a, "] is ", v[a]);
				break;
			}
			case 2: {
				what = "setting a column";
				Vec<R, T> v {};
				for(std::size_t a = 0; a < R; ++a) e[a][j] = v[a] = element();
				nytl::col(m, j, v);
				break;
			}
			case 3: what = "swapRow"; nytl::swapRow(m, i, k); std::swap(e[i], e[k]); break;
			case 4: what = "swapCol"; nytl::swapCol(m, j, l); for(auto& r : e) std::swap(r[j], r[l]); break;
			case 5: {
				what = "element write";
				auto v = element();
				e[i][j] = v;
				switch(c.draw(3)) {
					case 0: m[i][j] = v; break;
					case 1: m.at(i)[j] = v; break;
					case 2: m.at(i, j) = v; break;
					case 3: { auto row = m[i]; row[j] = v; m[i] = row; break; }
				}
				break;
			}
			case 6: {
				what = "at";
				EXPECT(m.at(i, j) == e[i][j] && cm.at(i, j) == e[i][j], "at(", i, ", ", j, ")");
				EXPECT(&m.at(i, j) == &m[i][j] && &cm.at(i, j) == &m[i][j], "at is another element");
				EXPECT(&m.at(i) == &m[i] && &cm.at(i) == &m[i], "at(row) is another row");
				for(std::size_t b = 0; b < C; ++b) EXPECT(cm[i][b] == e[i][b], "row");
				auto badR = outside(c, R), badC = outside(c, C);
				EXPECT(outOfRange([&] { (void) m.at(badR); }), "at(", badR, ") did not throw");
				EXPECT(outOfRange([&] { (void) cm.at(badR); }), "const at(", badR, ") did not throw");
				EXPECT(outOfRange([&] { (void) m.at(badR, j); }), "at(", badR, ", ", j, ") did not throw");
				EXPECT(outOfRange([&] { (void) cm.at(badR, j); }), "const at(", badR, ", ", j, ") did not throw");
				EXPECT(outOfRange([&] { (void) m.at(i, badC); }), "at(", i, ", ", badC, ") did not throw");
				EXPECT(outOfRange([&] { (void) m.at(badR, badC); }), "at(", badR, ", ", badC, ") did not throw");
				EXPECT(outOfRange([&] { (void) cm.at(i, badC); }), "const at(", i, ", ", badC, ") did not throw");
				break;
			}
			case 7: if constexpr(std::is_signed_v<T>) {
				what = "pivot";
				auto after = c.boolean();
				auto start = after ? i : 0;
				T max {};
				for(std::size_t a = start; a < R; ++a) if(std::abs(e[a][j]) > max) max = std::abs(e[a][j]);
				auto ret = nytl::pivot(m, i, j, after);
				EXPECT(ret == m[i][j], "pivot returned ", ret, " but ", m[i][j], " is there");
				EXPECT(std::abs(ret) == max, "pivot found ", ret, ", largest is ", max, " row ", i, " col ", j, " after ", after);
				// unchanged or one swap with a row in range
				bool ok = exactly(m, e);
				for(std::size_t a = start; a < R && !ok; ++a) {
					std::swap(e[i], e[a]);
					ok = exactly(m, e);
					if(!ok) std::swap(e[i], e[a]);
				}
				EXPECT(ok, "pivot(", i, ", ", j, ", ", after, ") gives ", show(m), " from ", show(e));
				break;
			}
			case 8: {
				what = "one";
				auto o = m;
				nytl::one(o);
				for(std::size_t a = 0; a < R; ++a) for(std::size_t b = 0; b < C; ++b)
					EXPECT(o[a][b] == T(1), "one at ", a, ",", b);
				break;
			}
			case 9: {
				what = "copy";
				auto o = cm;
				o[i][j] += 1;
				break;
			}
		}
		EXPECT(exactly(m, e), what, " gives ", show(m), " instead of ", show(e));
	}
}

template<std::size_t D, typename T> void square(pbt::Ctx& c) {
	auto m = smallMat<D, D, T>(c, 6);
	if(c.boolean()) for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < i; ++j) m[i][j] = m[j][i];
	if(D > 1 && c.boolean()) {
		auto i = c.draw(D - 1), j = c.draw(D - 1);
		m[i][j] += 1;
	}
	const auto cm = m;
	auto e = toModel(cm);
	c.note(show(m));
	c.nontrivial(interesting(m));
	T tr {}, pr = T(1);
	bool sym = true;
	for(std::size_t i = 0; i < D; ++i) {
		tr += e[i][i];
		pr *= e[i][i];
		for(std::size_t j = 0; j < D; ++j) sym &= e[i][j] == e[j][i];
	}
	EXPECT(nytl::trace(cm) == tr, "trace is ", nytl::trace(cm), " instead of ", tr);
	EXPECT(nytl::multiplyDiagonal(cm) == pr, "multiplyDiagonal is ", nytl::multiplyDiagonal(cm), " instead of ", pr);
	EXPECT(nytl::symmetric(cm) == sym, "symmetric is ", nytl::symmetric(cm));
	EXPECT(nytl::symmetric(nytl::transpose(cm)) == sym, "symmetric of the transposed");
	nytl::identity(m);
	auto id = nytl::identity<D, T>();
	for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j) {
		EXPECT(m[i][j] == T(i == j), "identity(m) at ", i, ",", j, " is ", m[i][j]);
		EXPECT(id[i][j] == T(i == j), "identity() at ", i, ",", j, " is ", id[i][j]);
	}
}

template<std::size_t R, std::size_t C, std::size_t OR, std::size_t OC, typename T, typename OT> void convert(pbt::Ctx& c) {
	Mat<R, C, T> m {};
	// everything in the same type or when it fits
	auto extreme = (std::is_same_v<T, OT> || (std::is_integral_v<T> && !std::is_same_v<OT, bool>)) && c.boolean();
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) m[i][j] = extreme ? wide<T>(c) : value<T>(c);
	const auto cm = m;
	c.note(show(m));
	c.nontrivial(interesting(m));
	auto o = static_cast<Mat<OR, OC, OT>>(cm);
	for(std::size_t i = 0; i < OR; ++i) for(std::size_t j = 0; j < OC; ++j) {
		auto e = i < R && j < C ? static_cast<OT>(cm[i][j]) : OT {};
		EXPECT(identical(o[i][j], e), "element ", i, ",", j, " is ", o[i][j], " instead of ", e);
	}
}
template<std::size_t R, std::size_t C, typename T, typename OT> void convertFrom(pbt::Ctx& c) {
	switch(c.draw(6)) {
		case 0: convert<R, C, 2, 2, T, OT>(c); break;
		case 1: convert<R, C, 3, 3, T, OT>(c); break;
		case 2: convert<R, C, 4, 4, T, OT>(c); break;
		case 3: convert<R, C, 2, 5, T, OT>(c); break;
		case 4: convert<R, C, 5, 2, T, OT>(c); break;
		case 5: convert<R, C, 1, 3, T, OT>(c); break;
		case 6: convert<R, C, 3, 4, T, OT>(c); break;
	}
}
template<typename T, typename OT> void conversions(pbt::Ctx& c) {
	switch(c.draw(5)) {
		case 0: convertFrom<2, 2, T, OT>(c); break;
		case 1: convertFrom<3, 3, T, OT>(c); break;
		case 2: convertFrom<4, 4, T, OT>(c); break;
		case 3: convertFrom<2, 4, T, OT>(c); break;
		case 4: convertFrom<5, 3, T, OT>(c); break;
		case 5: convertFrom<3, 1, T, OT>(c); break;
	}
}

} // namespace

#if PBT_PART == 0
FACET(elementsInt, 150000) {
	SHAPES(shape, int);
}
#elif PBT_PART == 1
FACET(elementsReal, 150000) {
	SHAPES(shape, double);
}
#elif PBT_PART == 2
FACET(elementsFloat, 50000) {
	switch(c.draw(2)) {
		case 0: shape<2, 3, float>(c); break;
		case 1: shape<4, 4, float>(c); break;
		case 2: shape<3, 6, float>(c); break;
	}
}
FACET(squares, 200000) {
	switch(c.draw(2)) {
		case 0: SQUARES(square, int); break;
		case 1: SQUARES(square, double); break;
		case 2: SQUARES(square, float); break;
	}
}
#elif PBT_PART == 3
FACET(conversion, 200000) {
	switch(c.draw(2)) {
		case 0: conversions<int, int>(c); break;
		case 1: conversions<double, float>(c); break;
		case 2: conversions<double, int>(c); break;
	}
}
#elif PBT_PART == 4
FACET(conversionTypes, 150000) {
	switch(c.draw(7)) {
		case 0: convertFrom<3, 3, double, double>(c); break;
		case 1: convertFrom<4, 3, long long, long long>(c); break;
		case 2: convertFrom<3, 4, long long, double>(c); break;
		case 3: convertFrom<2, 3, int, bool>(c); break;
		case 4: convertFrom<3, 2, int, long long>(c); break;
		case 5: convertFrom<4, 4, float, double>(c); break;
		case 6: convertFrom<7, 6, double, float>(c); break;
		case 7: convert<4, 4, 9, 8, double, double>(c); break;
	}
}
FACET(elementsTypes, 120000) {
	switch(c.draw(9)) {
		case 0: shape<3, 3, long long>(c); break;
		case 1: shape<4, 2, long double>(c); break;
		case 2: shape<2, 4, unsigned>(c); break;
		case 3: shape<3, 5, short>(c); break;
		case 4: shape<7, 6, int>(c); break;
		case 5: shape<6, 9, double>(c); break;
		case 6: shape<9, 9, int>(c); break;
		case 7: shape<17, 1, double>(c); break;
		case 8: shape<1, 17, float>(c); break;
		case 9: shape<2, 2, std::uint8_t>(c); break;
	}
}
FACET(squareTypes, 100000) {
	switch(c.draw(6)) {
		case 0: square<3, long long>(c); break;
		case 1: square<4, unsigned>(c); break;
		case 2: square<3, long double>(c); break;
		case 3: square<6, int>(c); break;
		case 4: square<9, double>(c); break;
		case 5: square<7, float>(c); break;
		case 6: square<2, std::complex<double>>(c); break;
	}
}
#elif PBT_PART == 5
FACET(high, 4000) {
	switch(c.draw(4)) {
		case 0: shape<3, 300, int>(c); break;
		case 1: shape<300, 2, int>(c); break;
		case 2: shape<2, 260, double>(c); break;
		case 3: shape<260, 3, double>(c); break;
		case 4: convert<2, 300, 3, 270, int, double>(c); break;
	}
}
FACET(highSquares, 60) {
	square<260, unsigned>(c);
}
#endif
