// P01: spans and chains of subviews against (offset, length) arithmetic on a buffer.
#include "pbt.hpp"
#include <nytl/span.hpp>

#include <array>
#include <string>
#include <utility>
#include <vector>

namespace {

constexpr auto dyn = nytl::dynamic_extent;

template<typename T> T value(int i) { return static_cast<T>(i); }
template<> std::string value<std::string>(int i) { return "element number " + std::to_string(i); }

template<typename T> struct Model {
	std::vector<T>* buf;
	std::size_t off;
	std::size_t len;
	int* counter; // for new values
	int chain;
};

template<std::size_t N> using Num = std::integral_constant<std::size_t, N>;
template<typename F, std::size_t... I>
void dispatch(std::size_t v, F&& f, std::index_sequence<I...>) {
	((v == I ? f(Num<I> {}) : void()), ...);
}

// v in [0, Max]
template<std::size_t Max, typename F> void dispatch(std::size_t v, F&& f) {
	dispatch(v, f, std::make_index_sequence<Max + 1> {});
}

template<typename T, typename E, std::size_t N>
void check(pbt::Ctx& c, nytl::span<E, N> s, const Model<T>& m) {
	static_assert(decltype(s)::extent == N);
	EXPECT(N == dyn || N == m.len, "extent ", N, " for length ", m.len);
	EXPECT(s.size() == m.len, "size ", s.size(), ", expected ", m.len);
	EXPECT(s.size_bytes() == m.len * sizeof(T), "size_bytes ", s.size_bytes());
	EXPECT(s.empty() == (m.len == 0), "empty");
	EXPECT(static_cast<std::size_t>(s.end() - s.begin()) == m.len, "end - begin");
	if(c.failed() || m.len == 0) return;
	auto base = m.buf->data() + m.off;
	EXPECT(s.data() == base, "data() is off by ", s.data() - base);
	EXPECT(&s.front() == base && &s.back() == base + m.len - 1, "front or back");
	if(c.failed()) return;
	std::size_t i = 0;
	for(auto& e : s) EXPECT(&e == base + i++, "iteration");
	EXPECT(i == m.len, "iterated over ", i);
	i = 0;
	for(auto it = s.cbegin(); it != s.cend(); ++it) EXPECT(&*it == base + i++, "const iteration");
	EXPECT(i == m.len, "const iterated over ", i);
	i = m.len;
	for(auto it = s.rbegin(); it != s.rend() && i > 0; ++it) EXPECT(&*it == base + --i, "reverse iteration");
	EXPECT(i == 0 && static_cast<std::size_t>(s.rend() - s.rbegin()) == m.len, "reverse iterated");
	i = m.len;
	for(auto it = s.crbegin(); it != s.crend() && i > 0; ++it) EXPECT(&*it == base + --i, "const reverse iteration");
	EXPECT(i == 0, "const reverse iterated");
	for(i = 0; i < m.len; ++i) EXPECT(&s[i] == base + i && &s(i) == base + i, "index ", i);
	// write through
	if constexpr(!std::is_const_v<E>) {
		auto copy = *m.buf;
		auto at = c.draw(m.len - 1);
		auto v = value<T>(++*m.counter);
		switch(c.draw(3)) {
			case 0: s[at] = v; break;
			case 1: *(s.begin() + at) = v; break;
			case 2: *(s.rbegin() + (m.len - 1 - at)) = v; break;
			case 3: at = m.len - 1; s.back() = v; break;
		}
		copy[m.off + at] = v;
		EXPECT(copy == *m.buf, "writing through element ", at, " changed something else");
	}
}

template<typename T, typename E, std::size_t N>
void step(pbt::Ctx& c, nytl::span<E, N> s, Model<T> m, int depth) {
	check(c, s, m);
	if(depth == 0 || c.failed()) return;
	++m.chain;
	auto len = m.len;
	constexpr std::size_t maxStatic = N == dyn ? 4 : N;
	auto staticMax = std::min(maxStatic, len);
	auto sub = [&](std::size_t off, std::size_t count) {
		auto r = m;
		r.off += off;
		r.len = count;
		return r;
	};
	switch(c.draw(N == dyn ? 9 : 10)) {
		case 0: {
			auto n = c.draw(len);
			c.note(".first(", n, ")");
			step(c, s.first(n), sub(0, n), depth - 1);
			break;
		}
		case 1: {
			auto n = c.draw(len);
			c.note(".last(", n, ")");
			step(c, s.last(n), sub(len - n, n), depth - 1);
			break;
		}
		case 2: {
			auto o = c.draw(len);
			c.note(".subspan(", o, ")");
			step(c, s.subspan(o), sub(o, len - o), depth - 1);
			break;
		}
		case 3: {
			auto o = c.draw(len);
			auto n = c.draw(len - o);
			c.note(".subspan(", o, ", ", n, ")");
			step(c, s.subspan(o, n), sub(o, n), depth - 1);
			break;
		}
		case 4: {
			auto n = c.draw(staticMax);
			c.note(".first<", n, ">()");
			dispatch<maxStatic>(n, [&](auto k) {
				constexpr std::size_t K = decltype(k)::value;
				step(c, s.template first<K>(), sub(0, K), depth - 1);
			});
			break;
		}
		case 5: {
			auto n = c.draw(staticMax);
			c.note(".last<", n, ">()");
			dispatch<maxStatic>(n, [&](auto k) {
				constexpr std::size_t K = decltype(k)::value;
				step(c, s.template last<K>(), sub(len - K, K), depth - 1);
			});
			break;
		}
		case 6: {
			auto n = c.draw(staticMax);
			c.note(".subspan<", n, ">()");
			dispatch<maxStatic>(n, [&](auto k) {
				constexpr std::size_t K = decltype(k)::value;
				auto r = s.template subspan<K>();
				static_assert(decltype(r)::extent == (N == dyn ? dyn : N - K));
				step(c, r, sub(K, len - K), depth - 1);
			});
			break;
		}
		case 7: {
			auto o = c.draw(staticMax);
			auto n = c.draw(staticMax - o);
			c.note(".subspan<", o, ", ", n, ">()");
			dispatch<maxStatic>(o, [&](auto ok) {
				constexpr std::size_t O = decltype(ok)::value;
				dispatch<maxStatic - O>(n, [&](auto nk) {
					constexpr std::size_t K = decltype(nk)::value;
					step(c, s.template subspan<O, K>(), sub(O, K), depth - 1);
				});
			});
			break;
		}
		case 8: {
			c.note(".copy");
			auto copy = s;
			nytl::span<E, N> other = s.size() ? copy : s;
			other = copy;
			step(c, other, m, depth - 1);
			break;
		}
		case 9: {
			c.note(".const");
			nytl::span<const T, N> cs = s;
			if constexpr(!std::is_const_v<E>) check(c, cs, m);
			else step(c, nytl::span<const T>(s), m, depth - 1);
			break;
		}
		case 10: { // static -> dynamic -> static
			c.note(".dynamic");
			nytl::span<E> d = s;
			check(c, d, m);
			if constexpr(N != dyn) {
				nytl::span<E, N> back = d;
				check(c, back, m);
			}
			step(c, d, m, depth - 1);
			break;
		}
	}
}

template<typename T, bool constElem>
void chains(pbt::Ctx& c) {
	auto n = c.range(0, c.chance(1, 4) ? 40 : 10);
	auto head = c.range(0, 3); // elements around it that are not part of the span
	auto tail = c.range(0, 3);
	std::vector<T> buf;
	int counter = 0;
	for(auto i = 0; i < n + head + tail; ++i) buf.push_back(value<T>(++counter));
	Model<T> m {&buf, std::size_t(head), std::size_t(n), &counter, 0};
	auto p = buf.data() + head;
	auto depth = static_cast<int>(c.range(1, 6));
	c.note(sizeof(T), " byte elements [", head, ", ", head + n, ")");
	if constexpr(constElem) {
		const T* cp = p;
		if(c.boolean()) step(c, nytl::span<const T>(cp, std::size_t(n)), m, depth);
		else step(c, nytl::span<const T>(cp, cp + n), m, depth);
	} else {
		switch(c.draw(3)) {
			case 0: step(c, nytl::span<T>(p, std::size_t(n)), m, depth); break;
			case 1: step(c, nytl::span<T>(p, p + n), m, depth); break;
			case 2: step(c, nytl::make_span(p, std::size_t(n)), m, depth); break;
			case 3: step(c, nytl::make_span(p, p + n), m, depth); break;
		}
	}
	c.nontrivial(depth >= 2 && n > 1);
	c.label(n == 0, "empty");
}

// spans of fixed extent on top of a buffer
template<typename T, std::size_t N>
void fixedChain(pbt::Ctx& c) {
	auto head = c.range(0, 3);
	std::vector<T> buf;
	int counter = 0;
	for(auto i = 0u; i < N + head + 2; ++i) buf.push_back(value<T>(++counter));
	Model<T> m {&buf, std::size_t(head), N, &counter, 0};
	auto p = buf.data() + head;
	auto depth = static_cast<int>(c.range(1, 6));
	c.note("extent ", N, " ", sizeof(T), " byte elements at ", head);
	if(c.boolean()) step(c, nytl::span<T, N>(p, N), m, depth);
	else step(c, nytl::span<T, N>(p, p + N), m, depth);
	c.nontrivial(depth >= 2);
}

// every way to make a span of something
template<typename S, typename P> void viewOf(pbt::Ctx& c, S s, P* data, std::size_t n, const char* how) {
	EXPECT(s.size() == n, how, ": size ", s.size(), ", expected ", n);
	EXPECT(s.data() == data, how, ": other elements");
	EXPECT(s.size_bytes() == n * sizeof(P), how, ": size_bytes");
}

template<typename T>
void sources(pbt::Ctx& c) {
	std::vector<T> v;
	auto n = c.range(1, 12);
	for(auto i = 0; i < n; ++i) v.push_back(value<T>(static_cast<int>(c.draw(100))));
	const auto& cv = v;
	c.note(n, " elements");
	auto un = std::size_t(n);
	viewOf(c, nytl::span<T>(v), v.data(), un, "span<T>(vector)");
	viewOf(c, nytl::span<const T>(v), cv.data(), un, "span<const T>(vector)");
	viewOf(c, nytl::span<const T>(cv), cv.data(), un, "span<const T>(const vector)");
	viewOf(c, nytl::span(v), v.data(), un, "span(vector)");
	viewOf(c, nytl::span(cv), cv.data(), un, "span(const vector)");
	viewOf(c, nytl::make_span(v), v.data(), un, "make_span(vector)");
	viewOf(c, nytl::make_span(cv), cv.data(), un, "make_span(const vector)");
	static_assert(std::is_same_v<decltype(nytl::span(v)), nytl::span<T>>);
	static_assert(std::is_same_v<decltype(nytl::span(cv)), nytl::span<const T>>);
	static_assert(std::is_same_v<decltype(nytl::make_span(cv)), nytl::span<const T>>);
	auto param = [&](nytl::span<const T> s) { viewOf(c, s, cv.data(), un, "parameter"); };
	param(v);
	param(cv);
	param(nytl::span<T>(v));
	param({v.data(), un});
	nytl::span<T> empty;
	EXPECT(empty.size() == 0 && empty.empty() && empty.begin() == empty.end(), "default constructed");
	std::vector<T> none;
	EXPECT(nytl::span<T>(none).empty(), "empty vector");

	std::array<T, 5> a;
	for(auto& e : a) e = value<T>(static_cast<int>(c.draw(100)));
	const auto& ca = a;
	viewOf(c, nytl::span<T>(a), a.data(), 5, "span<T>(array)");
	viewOf(c, nytl::span<T, 5>(a), a.data(), 5, "span<T, 5>(array)");
	viewOf(c, nytl::span<const T>(a), ca.data(), 5, "span<const T>(array)");
	viewOf(c, nytl::span<const T, 5>(ca), ca.data(), 5, "span<const T, 5>(const array)");
	viewOf(c, nytl::span(a), a.data(), 5, "span(array)");
	viewOf(c, nytl::span(ca), ca.data(), 5, "span(const array)");
	static_assert(std::is_same_v<decltype(nytl::span(a)), nytl::span<T, 5>>);
	static_assert(std::is_same_v<decltype(nytl::span(ca)), nytl::span<const T, 5>>);

	T arr[4];
	for(auto& e : arr) e = value<T>(static_cast<int>(c.draw(100)));
	viewOf(c, nytl::span<T>(arr), +arr, 4, "span<T>(C array)");
	viewOf(c, nytl::span<T, 4>(arr), +arr, 4, "span<T, 4>(C array)");
	viewOf(c, nytl::span<const T>(arr), static_cast<const T*>(arr), 4, "span<const T>(C array)");
	viewOf(c, nytl::span(arr), +arr, 4, "span(C array)");
	viewOf(c, nytl::make_span(arr), +arr, 4, "make_span(C array)");
	static_assert(std::is_same_v<decltype(nytl::span(arr)), nytl::span<T, 4>>);
	static_assert(decltype(nytl::make_span(arr))::extent == 4);

	// a span is a view: rebinding one does not touch the elements
	auto before = v;
	nytl::span<T> s(v), t(arr);
	s = t;
	EXPECT(v == before, "assigning a span changed the elements");
	viewOf(c, s, +arr, 4, "assigned span");
	c.nontrivial(n > 1);
}

} // namespace

#ifndef P01_PART2
FACET(chain_int, 120000) { chains<int, false>(c); }
FACET(chain_const, 80000) { chains<double, true>(c); }
FACET(fixed5, 80000) { fixedChain<int, 5>(c); }
FACET(sources_int, 30000) { sources<int>(c); }
FACET(text, 30000) {
	std::string s;
	for(auto n = c.range(0, 30); n > 0; --n) s += static_cast<char>('a' + c.draw(25));
	const auto& cs = s;
	auto a = nytl::span<const char>(cs);
	auto b = nytl::span<char>(s);
	EXPECT(std::string(a.begin(), a.end()) == s && std::string(b.begin(), b.end()) == s, "characters");
	EXPECT(a.size() == s.size() && b.size() == s.size(), "size");
	auto rev = std::string(b.rbegin(), b.rend());
	EXPECT(rev == std::string(s.rbegin(), s.rend()), "reversed");
	if(!s.empty()) {
		b[c.draw(s.size() - 1)] = 'X';
		EXPECT(std::string(a.begin(), a.end()) == s, "change not visible");
	}
	c.note(s);
	c.nontrivial(s.size() > 1);
}
// not everything can be viewed as elements of another type: this decides overloads
struct Base { int a {}; };
struct Derived : public Base { int b {}; };
struct PtrLike { // not a class pointer, but make_span takes it
	using element_type = int;
	int* p {};
	operator int*() const { return p; }
};
template<typename S, typename... Args> constexpr bool makes = std::is_constructible_v<S, Args...>;
template<typename S, typename... From> constexpr bool converts = (std::is_convertible_v<From, S> && ...);
int overloaded(nytl::span<const int>) { return 1; }
int overloaded(nytl::span<const double>) { return 2; }
int overloaded(const std::string&) { return 3; }
int overloaded(double) { return 4; }
FACET(conversions, 2000) {
	using nytl::span;
	using VI = std::vector<int>;
	EXPECT((converts<span<int>, VI&, std::array<int, 3>&, int(&)[3], span<int, 3>>), "mutable elements");
	EXPECT((converts<span<const int>, VI&, const VI&, std::array<int, 3>&, const std::array<int, 3>&, int(&)[3], const int(&)[3], span<int>, span<int, 3>>), "constant elements");
	EXPECT((!makes<span<int>, const VI&> && !makes<span<int>, const std::array<int, 3>&> && !makes<span<int>, std::array<const int, 3>&> && !makes<span<int>, const int(&)[3]> && !makes<span<int>, span<const int>>), "constant elements as mutable ones");
	EXPECT((!makes<span<int>, std::vector<double>&> && !makes<span<int>, std::array<double, 3>&> && !makes<span<const int>, std::array<double, 3>&> && !makes<span<const int>, const std::array<double, 3>&> && !makes<span<int>, std::vector<unsigned>&> && !makes<span<int>, span<unsigned>> && !makes<span<const int>, const std::vector<double>&> && !makes<span<const int>, const std::vector<unsigned>&> && !makes<span<const int>, span<const double>>), "other elements");
	EXPECT((!makes<span<Base>, std::vector<Derived>&> && !makes<span<const Base>, const std::vector<Derived>&> && !makes<span<const Base>, std::array<Derived, 2>&> && !makes<span<const Base>, const std::array<Derived, 2>&> && !makes<span<const Base>, span<Derived>>), "derived elements");
	EXPECT((!makes<span<int>, int> && !makes<span<const int>, std::string> && !makes<span<int>, PtrLike&>), "no elements");
	EXPECT((!makes<span<int, 3>, span<int, 4>>), "another extent");
	VI v(c.chance(1, 4) ? 65536 + c.draw(9000) : c.range(1, 700));
	const auto& cv = v;
	EXPECT(overloaded(v) == 1 && overloaded(cv) == 1 && overloaded(span<int>(v)) == 1, "overload for vector<int>");
	std::array<double, 3> da {};
	std::array<const int, 3> ca {};
	EXPECT(overloaded(da) == 2 && overloaded(std::as_const(da)) == 2 && overloaded(ca) == 1 && overloaded(std::vector<double>(2)) == 2 && overloaded(std::string("a")) == 3 && overloaded(1.0) == 4, "other overloads");
	PtrLike p {v.data()};
	auto n = c.draw(v.size());
	auto s = nytl::make_span(p, n);
	c.note(v.size(), " ", n);
	c.nontrivial(n > 0);
	EXPECT(s.size() == n && (n == 0 || s.data() == v.data()), "make_span(pointer, ", n, ") has size ", s.size());
}

// many elements: sizes and offsets beyond any small integer type
FACET(large, 3000) {
	auto n = c.chance(1, 3) ? 60000 + c.draw(200000) : c.size(300000);
	std::vector<char> buf(n + 8);
	auto p = buf.data() + 4;
	const char* cp = p;
	auto check = [&](auto s, std::size_t off, std::size_t len, const char* how) {
		EXPECT(s.size() == len, how, ": size ", s.size(), ", expected ", len);
		EXPECT(s.size_bytes() == len && s.empty() == (len == 0), how, ": size_bytes or empty");
		EXPECT(len == 0 || s.data() == p + off, how, ": other begin");
		EXPECT(static_cast<std::size_t>(s.end() - s.begin()) == len && static_cast<std::size_t>(s.rend() - s.rbegin()) == len, how, ": iterators");
		if(len == 0 || c.failed()) return;
		auto i = c.draw(len - 1);
		EXPECT(&s[i] == p + off + i && &s(i) == p + off + i, how, ": element ", i);
		EXPECT(&s.back() == p + off + len - 1 && &s.front() == p + off, how, ": front or back");
	};
	nytl::span<char> s(p, n);
	check(s, 0, n, "pointer and size");
	check(nytl::span<char>(p, p + n), 0, n, "pointers");
	check(nytl::make_span(p, n), 0, n, "make_span");
	check(nytl::span<const char>(cp, n), 0, n, "const");
	check(nytl::span<const char>(s), 0, n, "converted");
	auto off = c.draw(n);
	auto count = c.draw(n - off);
	c.note(n, " elements, offset ", off, ", count ", count);
	check(s.first(count), 0, count, "first");
	check(s.last(count), n - count, count, "last");
	check(s.subspan(off), off, n - off, "subspan");
	auto sub = s.subspan(off, count);
	check(sub, off, count, "subspan with count");
	auto o2 = c.draw(count);
	check(sub.subspan(o2), off + o2, count - o2, "subspan of subspan");
	check(sub.last(o2), off + count - o2, o2, "last of subspan");
	if(n >= 70000) {
		nytl::span<char, 70000> f(p, 70000);
		check(f, 0, 70000, "fixed extent");
		check(nytl::span<char>(f), 0, 70000, "fixed to dynamic");
		check(f.template first<66000>(), 0, 66000, "first<>");
		check(f.template last<66000>(), 4000, 66000, "last<>");
		check(f.template subspan<300>(), 300, 69700, "subspan<>");
		check(f.template subspan<300, 67000>(), 300, 67000, "subspan<,>");
		auto o3 = c.draw(70000);
		check(f.subspan(o3), o3, 70000 - o3, "subspan of fixed extent");
		check(f.last(o3), 70000 - o3, o3, "last of fixed extent");
		check(f.first(o3), 0, o3, "first of fixed extent");
	}
	c.nontrivial(n > 255 && off > 0);
}
#else // compiled from P01b.cpp
FACET(chain_string, 40000) { chains<std::string, false>(c); }
FACET(fixed3, 60000) { fixedChain<std::string, 3>(c); }
FACET(fixed1, 20000) { fixedChain<std::string, 1>(c); }
FACET(sources_string, 30000) { sources<std::string>(c); }
#endif
