// V01: vector arithmetic against scalar arithmetic.
#include "vecgen.hpp"

namespace {

using namespace gen;
using nytl::Vec;

static_assert((nytl::Vec2i {1, 2} + nytl::Vec2i {3, 4})[1] == 6);
static_assert((2 * nytl::Vec3i {1, 2, 3})[2] == 6);

template<std::size_t D, typename A, typename B> void run(pbt::Ctx& c) {
	// the wide variant uses extreme values and only factors that cannot overflow
	// (assigning extreme real values to integers is undefined)
	const auto big = std::is_integral_v<A> == std::is_integral_v<B> && c.chance(1, 3);
	Vec<D, A> va {};
	Vec<D, B> vb {};
	for(std::size_t i = 0; i < D; ++i) {
		va[i] = big ? wide<A>(c) : value<A>(c);
		vb[i] = big ? wide<B>(c) : value<B>(c);
	}
	const auto a = va;
	const auto b = vb;
	const auto f = big ? B(c.draw(2)) : value<B>(c);
	const auto a0 = a;
	const auto b0 = b;
	c.note("a ", show(a), " b ", show(b), " f ", +f);
	c.nontrivial(varied(a) && varied(b));
	c.label(big, "extreme values");

	using R = decltype(A() + B());
	auto sum = a + b;
	auto diff = a - b;
	auto prod = f * a;
	static_assert(std::is_same_v<decltype(sum), Vec<D, R>>);
	static_assert(std::is_same_v<decltype(diff), Vec<D, decltype(A() - B())>>);
	static_assert(std::is_same_v<decltype(prod), Vec<D, decltype(B() * A())>>);
	auto neg = -a;
	auto pos = +a;
	for(std::size_t i = 0; i < D; ++i) {
		EXPECT(identical<R>(sum[i], a0[i] + b0[i]), "component ", i, " of a + b is ", sum[i]);
		EXPECT(identical<R>(diff[i], a0[i] - b0[i]), "component ", i, " of a - b is ", diff[i]);
		EXPECT(identical<R>(prod[i], f * a0[i]), "component ", i, " of f * a is ", prod[i]);
		EXPECT(identical<A>(neg[i], A(-a0[i])), "component ", i, " of -a is ", +neg[i]);
		EXPECT(identical<A>(pos[i], a0[i]), "component ", i, " of +a is ", +pos[i]);
	}
	EXPECT(same(a, a0) && same(b, b0), "operand changed");

	// assignment, possibly several in a row
	auto x = a;
	auto m = a;
	auto y = b;
	for(auto n = c.range(1, 4); n > 0; --n) {
		switch(c.draw(big ? 1 : 2)) {
			case 0: {
				auto& r = (x += y);
				EXPECT(&r == &x, "+= returns another object");
				for(std::size_t i = 0; i < D; ++i) m[i] += y[i];
				break;
			}
			case 1: {
				auto& r = (x -= y);
				EXPECT(&r == &x, "-= returns another object");
				for(std::size_t i = 0; i < D; ++i) m[i] -= y[i];
				break;
			}
			case 2: {
				auto s = small<B>(c, 7);
				auto& r = (x *= s);
				EXPECT(&r == &x, "*= returns another object");
				for(std::size_t i = 0; i < D; ++i) m[i] *= s;
				break;
			}
		}
		auto equal = true;
		for(std::size_t i = 0; i < D; ++i) equal &= identical(x[i], m[i]);
		EXPECT(equal, "assignment gives ", show(x), " instead of ", show(m));
		EXPECT(same(y, b0), "right operand changed");
	}
}

// right operand is the vector itself or one of its components
template<std::size_t D, typename T> void alias(pbt::Ctx& c) {
	Vec<D, T> v {};
	for(std::size_t i = 0; i < D; ++i) v[i] = small<T>(c, 30);
	const auto o = v;
	auto i = c.draw(D - 1);
	c.note("v ", show(v), " component ", i);
	c.nontrivial(varied(v));
	T e[D] {};
	switch(c.draw(6)) {
		case 0: v += v; for(std::size_t k = 0; k < D; ++k) e[k] = o[k] + o[k]; break;
		case 1: v -= v; for(std::size_t k = 0; k < D; ++k) e[k] = T(0); break;
		case 2: v *= v[i]; for(std::size_t k = 0; k < D; ++k) e[k] = o[k] * o[i]; break;
		case 3: v = v + v; for(std::size_t k = 0; k < D; ++k) e[k] = o[k] + o[k]; break;
		case 4: v = v[i] * v; for(std::size_t k = 0; k < D; ++k) e[k] = o[i] * o[k]; break;
		case 5: v = v - v; for(std::size_t k = 0; k < D; ++k) e[k] = T(0); break;
		case 6: v = -v; for(std::size_t k = 0; k < D; ++k) e[k] = T(-o[k]); break;
	}
	for(std::size_t k = 0; k < D; ++k) EXPECT(v[k] == e[k], "component ", k, " is ", v[k], " instead of ", e[k]);
}

template<typename A, typename B> void dims(pbt::Ctx& c) {
	switch(c.draw(8)) {
		case 0: run<2, A, B>(c); break;
		case 1: run<3, A, B>(c); break;
		case 2: run<1, A, B>(c); break;
		case 3: run<4, A, B>(c); break;
		case 4: run<5, A, B>(c); break;
		case 5: run<6, A, B>(c); break;
		case 6: run<7, A, B>(c); break;
		case 7: run<9, A, B>(c); break;
		case 8: run<18, A, B>(c); break;
	}
}
template<typename T> void aliasDims(pbt::Ctx& c) {
	switch(c.draw(6)) {
		case 0: alias<2, T>(c); break;
		case 1: alias<3, T>(c); break;
		case 2: alias<1, T>(c); break;
		case 3: alias<4, T>(c); break;
		case 4: alias<5, T>(c); break;
		case 5: alias<7, T>(c); break;
		case 6: alias<17, T>(c); break;
	}
}

} // namespace

#if PBT_PART == 0
FACET(arithmetic, 200000) {
	switch(c.draw(2)) {
		case 0: dims<int, int>(c); break;
		case 1: dims<double, double>(c); break;
		case 2: dims<float, float>(c); break;
	}
}
#elif PBT_PART == 1
FACET(arithmeticMixed, 150000) {
	switch(c.draw(2)) {
		case 0: dims<int, double>(c); break;
		case 1: dims<double, int>(c); break;
		case 2: dims<float, double>(c); break;
	}
}
#elif PBT_PART == 2
FACET(arithmeticMixed2, 150000) {
	switch(c.draw(3)) {
		case 0: dims<unsigned, unsigned>(c); break;
		case 1: dims<double, float>(c); break;
		case 2: dims<std::int64_t, int>(c); break;
		case 3: dims<std::int64_t, std::int64_t>(c); break;
	}
}
#elif PBT_PART == 4
FACET(arithmeticNarrow, 150000) {
	switch(c.draw(3)) {
		case 0: dims<short, short>(c); break;
		case 1: dims<std::uint8_t, std::uint8_t>(c); break;
		case 2: dims<std::int8_t, short>(c); break;
		case 3: dims<int, std::int8_t>(c); break;
	}
}
#elif PBT_PART == 5
FACET(arithmeticOther, 100000) {
	switch(c.draw(2)) {
		case 0: dims<long double, long double>(c); break;
		case 1: dims<long double, float>(c); break;
		case 2: dims<std::complex<double>, std::complex<double>>(c); break;
	}
}
#elif PBT_PART == 3
FACET(aliasing, 300000) {
	switch(c.draw(3)) {
		case 0: aliasDims<int>(c); break;
		case 1: aliasDims<double>(c); break;
		case 2: aliasDims<float>(c); break;
		case 3: aliasDims<unsigned>(c); break;
	}
}
FACET(highDims, 3000) {
	switch(c.draw(4)) {
		case 0: run<300, int, int>(c); break;
		case 1: run<257, double, float>(c); break;
		case 2: run<300, std::uint8_t, std::uint8_t>(c); break;
		case 3: alias<300, int>(c); break;
		case 4: alias<260, double>(c); break;
	}
}
#endif
