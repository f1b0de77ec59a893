// P02: comparison and byte views of spans
#include "pbt.hpp"
#include <nytl/span.hpp>

#include <array>
#include <limits>
#include <type_traits>
#include <cstring>
#include <string>
#include <vector>

namespace {

// compared by key only; other holds anything, and there are padding bytes
struct Keyed {
	char key;
	int other;
	friend bool operator==(const Keyed& a, const Keyed& b) { return a.key == b.key; }
	friend bool operator!=(const Keyed& a, const Keyed& b) { return a.key != b.key; }
	friend bool operator<(const Keyed& a, const Keyed& b) { return a.key < b.key; }
	friend bool operator>(const Keyed& a, const Keyed& b) { return a.key > b.key; }
	friend bool operator<=(const Keyed& a, const Keyed& b) { return a.key <= b.key; }
	friend bool operator>=(const Keyed& a, const Keyed& b) { return a.key >= b.key; }
};

// integers: small ones, and those at the limits whose difference overflows
template<typename T, typename = void> struct Element {
	static T make(pbt::Ctx& c) {
		using L = std::numeric_limits<T>;
		switch(c.weighted({3, 2, 2, 2})) {
			case 0: return static_cast<T>(c.sym(2));
			case 1: return static_cast<T>(c.sym(100));
			case 2: return c.pick<T>({T(0), L::max(), L::min(), static_cast<T>(L::max() - 1), static_cast<T>(L::min() + 1),
				static_cast<T>(L::max() / 2 + 1), static_cast<T>(256), static_cast<T>(1), static_cast<T>(1 << 24), static_cast<T>(-1)});
			default: return static_cast<T>(c.draw(~0ull));
		}
	}
};
template<typename T> struct Element<T, std::enable_if_t<std::is_floating_point_v<T>>> {
	static T make(pbt::Ctx& c) {
		using L = std::numeric_limits<T>;
		switch(c.weighted({3, 2, 2})) {
			case 0: return static_cast<T>(c.sym(2));
			case 1: return static_cast<T>(c.real(-3, 3));
			default: return c.pick<T>({T(0), -T(0), L::infinity(), -L::infinity(), L::denorm_min(), -L::denorm_min(), L::max(), L::lowest()});
		}
	}
};
template<> struct Element<bool> { static bool make(pbt::Ctx& c) { return c.boolean(); } };
template<> struct Element<Keyed> {
	static Keyed make(pbt::Ctx& c) {
		Keyed k;
		auto p = c.pattern(sizeof(k)); // also the padding
		std::memcpy(static_cast<void*>(&k), p.data(), sizeof(k));
		k.key = static_cast<char>(c.sym(2));
		return k;
	}
};

template<typename T> T element(pbt::Ctx& c) { return Element<T>::make(c); }
template<> std::string element<std::string>(pbt::Ctx& c) {
	std::string s;
	for(auto n = c.range(0, 3); n > 0; --n) s += static_cast<char>('a' + c.draw(1));
	return s;
}

// own definition of the order, -1, 0, 1
template<typename T> int order(const std::vector<T>& a, const std::vector<T>& b) {
	for(std::size_t i = 0; ; ++i) {
		if(i == a.size() || i == b.size()) return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
		if(a[i] < b[i]) return -1;
		if(b[i] < a[i]) return 1;
	}
}

template<typename S, typename T>
void checkAll(pbt::Ctx& c, S l, S r, int o, const std::vector<T>&) {
	EXPECT((l == r) == (o == 0), "== is ", l == r);
	EXPECT((l != r) == (o != 0), "!= is ", l != r);
	EXPECT((l < r) == (o < 0), "< is ", l < r);
	EXPECT((l <= r) == (o <= 0), "<= is ", l <= r);
	EXPECT((l > r) == (o > 0), "> is ", l > r);
	EXPECT((l >= r) == (o >= 0), ">= is ", l >= r);
}

template<typename T>
void pairs(pbt::Ctx& c) {
	std::vector<T> a, b;
	if(c.chance(1, 50)) { // long common prefix
		auto e = element<T>(c), e2 = element<T>(c);
		for(auto x : c.pattern(c.size(600))) a.push_back(x % 2 ? e : e2);
	}
	for(auto n = c.range(0, 8); n > 0; --n) a.push_back(element<T>(c));
	auto kind = c.weighted({2, 2, 2, 3, 1});
	switch(kind) {
		case 0: b = a; break;
		case 1: b.assign(a.begin(), a.begin() + c.range(0, a.size())); break; // prefix
		case 2: b = a; b.push_back(element<T>(c)); break;
		case 3: b = a; if(!b.empty()) b[c.draw(b.size() - 1)] = element<T>(c); break;
		case 4: for(auto n = c.range(0, 8); n > 0; --n) b.push_back(element<T>(c)); break;
	}
	if(c.boolean()) std::swap(a, b);
	std::size_t common = 0;
	while(common < a.size() && common < b.size() && a[common] == b[common]) ++common;
	c.note("sizes ", a.size(), " and ", b.size(), ", common prefix ", common);
	auto o = order(a, b);
	const auto& ca = a;
	const auto& cb = b;
	checkAll(c, nytl::span<T>(a), nytl::span<T>(b), o, a);
	checkAll(c, nytl::span<const T>(ca), nytl::span<const T>(cb), o, a);
	checkAll(c, nytl::span<T>(a), nytl::span<T>(a), 0, a);
	if(a.size() == 3) {
		EXPECT((nytl::span<T, 3>(a.data(), 3) == nytl::span<T>(b)) == (o == 0), "static == dynamic");
		EXPECT((nytl::span<T>(b) == nytl::span<T, 3>(a.data(), 3)) == (o == 0), "dynamic == static");
	}
	if(a.size() >= 2 && b.size() >= 2) {
		std::vector<T> a2(a.begin(), a.begin() + 2), b2(b.begin(), b.begin() + 2);
		checkAll(c, nytl::span<T, 2>(a2.data(), 2), nytl::span<T, 2>(b2.data(), 2), order(a2, b2), a);
		checkAll(c, nytl::span<T>(a).template first<2>(), nytl::span<T>(b).template first<2>(), order(a2, b2), a);
	}
	// elements behind the viewed range do not matter
	auto n = std::min(a.size(), b.size());
	n = n ? c.draw(n) : 0;
	std::vector<T> an(a.begin(), a.begin() + n), bn(b.begin(), b.begin() + n);
	checkAll(c, nytl::span<T>(a).first(n), nytl::span<T>(b).first(n), order(an, bn), a);
	// two views into the same storage
	auto view = [&] { auto from = c.draw(a.size()); return std::pair<std::size_t, std::size_t>(from, c.draw(a.size() - from)); };
	auto v1 = view(), v2 = view();
	switch(c.draw(2)) {
		case 0: break;
		case 1: v2.first = v1.first; v2.second = c.draw(a.size() - v1.first); break; // the same begin
		case 2: { // the same end
			auto end = v1.first + v1.second;
			v2.first = c.draw(end);
			v2.second = end - v2.first;
			break;
		}
	}
	std::vector<T> av(a.begin() + v1.first, a.begin() + v1.first + v1.second), bv(a.begin() + v2.first, a.begin() + v2.first + v2.second);
	checkAll(c, nytl::span<T>(a).subspan(v1.first, v1.second), nytl::span<T>(a).subspan(v2.first, v2.second), order(av, bv), a);
	checkAll(c, nytl::span<const T>(a).subspan(v1.first, v1.second), nytl::span<const T>(a).subspan(v2.first, v2.second), order(av, bv), a);
	if(v1.second == 2 && v2.second != 2) {
		auto fixed = nytl::span<T>(a).subspan(v1.first, 2).template first<2>();
		auto dynamic = nytl::span<T>(a).subspan(v2.first, v2.second);
		EXPECT(!(fixed == dynamic) && !(dynamic == fixed), "spans of different length are equal");
	}
	c.label(v1.first == v2.first && v1.second != v2.second && v1.second && v2.second, "same begin, other length");

	c.nontrivial(common > 0 && kind != 0);
	c.label(o == 0, "equal");
	c.label(common == n && a.size() != b.size(), "prefix");
}

// the relation is a strict weak order over triples
FACET(triples, 40000) {
	std::vector<std::vector<int>> v(3);
	for(auto& x : v) for(auto n = c.range(0, 3); n > 0; --n) x.push_back(static_cast<int>(c.draw(2)));
	auto s = [&](int i) { return nytl::span<int>(v[i]); };
	if(s(0) < s(1) && s(1) < s(2)) EXPECT(s(0) < s(2), "< is not transitive");
	if(s(0) <= s(1) && s(1) <= s(2)) EXPECT(s(0) <= s(2), "<= is not transitive");
	if(s(0) == s(1) && s(1) == s(2)) EXPECT(s(0) == s(2), "== is not transitive");
	EXPECT(!(s(0) < s(0)), "< is reflexive");
	EXPECT((s(0) < s(1)) + (s(1) < s(0)) + (s(0) == s(1)) == 1, "no trichotomy");
	c.note(v[0].size(), " ", v[1].size(), " ", v[2].size());
	c.nontrivial(s(0) < s(1) && s(1) < s(2));
}

template<typename T>
void byteViews(pbt::Ctx& c) {
	auto head = static_cast<std::size_t>(c.range(0, 2));
	auto n = static_cast<std::size_t>(c.range(0, 9));
	std::vector<T> v(head + n + 1);
	auto raw = reinterpret_cast<unsigned char*>(v.data());
	for(std::size_t i = 0; i < v.size() * sizeof(T); ++i) raw[i] = static_cast<unsigned char>(c.draw(255));
	c.note(n, " elements of ", sizeof(T), " bytes at ", head);
	std::vector<unsigned char> copy(raw, raw + v.size() * sizeof(T));
	auto begin = raw + head * sizeof(T);

	nytl::span<T> s(v.data() + head, n);
	auto b = nytl::as_bytes(s);
	static_assert(std::is_same_v<decltype(b), nytl::span<const std::byte>>);
	EXPECT(b.size() == n * sizeof(T), "as_bytes: size ", b.size());
	for(std::size_t i = 0; i < b.size() && i < n * sizeof(T); ++i)
		EXPECT(static_cast<unsigned char>(b[i]) == begin[i], "as_bytes: byte ", i);
	EXPECT(b.empty() || static_cast<const void*>(b.data()) == begin, "as_bytes: other address");
	nytl::span<const T> cs = s;
	auto cb = nytl::as_bytes(cs);
	EXPECT(cb.size() == n * sizeof(T) && (cb.empty() || static_cast<const void*>(cb.data()) == begin), "as_bytes(const)");

	auto w = nytl::as_writeable_bytes(s);
	static_assert(std::is_same_v<decltype(w), nytl::span<std::byte>>);
	EXPECT(w.size() == n * sizeof(T), "as_writeable_bytes: size ", w.size());
	EXPECT(w.empty() || static_cast<void*>(w.data()) == begin, "as_writeable_bytes: other address");
	if(!w.empty() && !c.failed()) {
		auto at = c.draw(w.size() - 1);
		auto val = static_cast<unsigned char>(c.draw(255));
		w[at] = static_cast<std::byte>(val);
		copy[head * sizeof(T) + at] = val;
	}
	EXPECT(std::memcmp(copy.data(), raw, copy.size()) == 0, "writing a byte changed other bytes");
	if(n >= 3) {
		auto f = nytl::as_bytes(s.template first<3>());
		static_assert(decltype(f)::extent == 3 * sizeof(T));
		EXPECT(f.size() == 3 * sizeof(T) && static_cast<const void*>(f.data()) == begin, "as_bytes of fixed extent");
		auto fw = nytl::as_writeable_bytes(s.template last<2>());
		static_assert(decltype(fw)::extent == 2 * sizeof(T));
		EXPECT(fw.size() == 2 * sizeof(T) &&
			static_cast<const void*>(fw.data()) == begin + (n - 2) * sizeof(T), "as_writeable_bytes of fixed extent");
	}
	c.nontrivial(n > 0);
}

// many elements, in fixed and dynamic extent
template<typename T, std::size_t N> void largeBytes(pbt::Ctx& c, std::vector<T>& v) {
	auto off = c.draw(v.size() - N);
	auto data = v.data() + off;
	c.note(v.size(), " elements of ", sizeof(T), " bytes, ", N, " at ", off);
	nytl::span<T, N> s(data, N);
	nytl::span<const T, N> cs = s;
	auto b = nytl::as_bytes(s);
	static_assert(decltype(b)::extent == N * sizeof(T));
	auto cb = nytl::as_bytes(cs);
	static_assert(decltype(cb)::extent == N * sizeof(T));
	auto w = nytl::as_writeable_bytes(s);
	static_assert(decltype(w)::extent == N * sizeof(T));
	auto is = [&](auto x, const void* p, std::size_t n) {
		return x.size() == n && x.size_bytes() == n && static_cast<const void*>(x.data()) == p &&
			static_cast<std::size_t>(x.end() - x.begin()) == n;
	};
	EXPECT(is(b, data, N * sizeof(T)) && is(cb, data, N * sizeof(T)), "as_bytes of ", N, ": ", b.size());
	EXPECT(is(w, data, N * sizeof(T)), "as_writeable_bytes of ", N, ": ", w.size());
	auto n = v.size() - off;
	nytl::span<T> d(data, n);
	EXPECT(is(nytl::as_bytes(d), data, n * sizeof(T)), "as_bytes of ", n, ": ", nytl::as_bytes(d).size());
	EXPECT(is(nytl::as_writeable_bytes(d), data, n * sizeof(T)), "as_writeable_bytes of ", n);
	c.nontrivial(n > 255);
}
template<typename T> void largeBytes(pbt::Ctx& c) {
	std::vector<T> v(70000 + c.draw(300));
	switch(c.draw(3)) {
		case 0: largeBytes<T, 300>(c, v); break;
		case 1: largeBytes<T, 256>(c, v); break;
		case 2: largeBytes<T, 65536>(c, v); break;
		case 3: largeBytes<T, 70000>(c, v); break;
	}
}

struct Odd { char x[5]; };

} // namespace

FACET(int_pairs, 150000) { pairs<int>(c); }
FACET(char_pairs, 80000) { pairs<char>(c); }
FACET(byte_pairs, 80000) { pairs<unsigned char>(c); }
FACET(double_pairs, 80000) { pairs<double>(c); }
FACET(float_pairs, 40000) { pairs<float>(c); }
FACET(unsigned_pairs, 60000) { pairs<unsigned>(c); }
FACET(int64_pairs, 40000) { pairs<std::int64_t>(c); }
FACET(uint64_pairs, 40000) { pairs<std::uint64_t>(c); }
FACET(short_pairs, 40000) { pairs<short>(c); }
FACET(keyed_pairs, 60000) { pairs<Keyed>(c); }
FACET(string_pairs, 50000) { pairs<std::string>(c); }
FACET(bytes_int, 60000) { byteViews<int>(c); }
FACET(bytes_odd, 40000) { byteViews<Odd>(c); }
FACET(bytes_double, 40000) { byteViews<std::uint64_t>(c); }
FACET(bytes_char, 40000) { byteViews<unsigned char>(c); }
FACET(bytes_large, 4000) { if(c.boolean()) largeBytes<char>(c); else largeBytes<int>(c); }
