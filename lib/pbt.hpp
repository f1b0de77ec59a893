// Small property-based testing engine (see pbt.cpp for the runner).
//
// Every random decision of a property goes through Ctx::draw and is recorded as
// a sequence of integers ("choices"). Replaying such a sequence reproduces the case
// exactly; shrinking works on the sequence (an exhausted sequence yields 0, and all
// generators are written so that 0 is the simplest alternative).
#pragma once

#include <cstdint>
#include <cstddef>
#include <cmath>
#include <initializer_list>
#include <limits>
#include <sstream>
#include <type_traits>
#include <string>
#include <vector>

namespace pbt {

struct Abort {}; // thrown by REQUIRE, never derived from std::exception

// Message building with little code at the place of use
struct Arg {
	const void* p;
	void (*print)(std::ostream&, const void*);
	Arg(const char* s) : p(s), print([](std::ostream& os, const void* p) { os << static_cast<const char*>(p); }) {}
	template<typename T, typename = std::enable_if_t<!std::is_convertible_v<const T&, const char*>>>
	Arg(const T& t) : p(&t), print([](std::ostream& os, const void* p) { os << *static_cast<const T*>(p); }) {}
};
std::string join(const Arg* args, std::size_t n);

template<typename... A> [[gnu::noinline, gnu::cold]] std::string str(const A&... a) {
	const Arg args[] = {Arg(a)..., Arg("")};
	return join(args, sizeof...(A));
}

class Ctx {
public:
	// - engine side (used by pbt.cpp only) -
	std::uint64_t rng {};              // random state, generation mode
	const std::uint64_t* replay {};    // choices to replay
	std::size_t replayLen {};
	const unsigned char* bytes {};     // byte source (fuzzer mode)
	std::size_t bytesLen {};
	int mode {0};                      // 0 generate, 1 replay, 2 bytes
	std::size_t pos {};                // position in the source
	std::uint64_t* rec {};             // recorded choices (may be shared memory)
	volatile std::uint64_t* recLen {}; // number of recorded choices
	std::size_t recCap {};
	std::uint64_t hash {1469598103934665603ull};

	bool failedFlag {};
	bool nontrivialFlag {};
	bool verbose {};
	char* sink {};                     // notes go here as well, to survive a crash
	std::size_t sinkCap {};
	std::string message;
	std::string notes;
	std::vector<const char*> labels;

	// - drawing -
	// uniform in [0, bound]; 0 is the simplest value
	std::uint64_t draw(std::uint64_t bound);

	// uniform integer in [lo, hi], lo simplest
	long long range(long long lo, long long hi) {
		return static_cast<long long>(static_cast<std::uint64_t>(lo) +
			draw(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo)));
	}
	// uniform integer in [-m, m], 0 simplest
	long long sym(long long m) {
		auto v = draw(2 * static_cast<std::uint64_t>(m));
		auto a = static_cast<long long>(v / 2 + (v & 1));
		return (v & 1) ? -a : a;
	}
	bool boolean() { return draw(1); }
	// true with probability num/den, false simplest
	bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
	// length of a sequence: use as while(c.more(n, max)) with n counted by the caller
	bool more(std::size_t have, std::size_t max, unsigned num = 7, unsigned den = 8) {
		return have < max && chance(num, den);
	}
	// index with the given weights; index 0 simplest
	unsigned weighted(std::initializer_list<unsigned> w) {
		unsigned sum = 0;
		for(auto x : w) sum += x;
		auto v = draw(sum - 1);
		unsigned i = 0;
		for(auto x : w) {
			if(v < x) return i;
			v -= x;
			++i;
		}
		return 0;
	}
	template<typename T> T pick(std::initializer_list<T> l) {
		return *(l.begin() + draw(l.size() - 1));
	}
	template<typename V> auto& pickFrom(V& v) { return v[draw(v.size() - 1)]; }

	// size in [0, max], log-uniform: all orders of magnitude are equally likely
	std::size_t size(std::size_t max) {
		unsigned bits = 0;
		while((max >> bits) > 1) ++bits;
		auto top = (std::size_t(1) << draw(bits + 1)) - 1; // 0, 1, 3, 7, ...
		auto lo = top / 2 + (top > 1);
		top = top < max ? top : max;
		return lo >= top ? top : static_cast<std::size_t>(range(static_cast<long long>(lo), static_cast<long long>(top)));
	}

	// bytes determined by a single draw (0: all zero), for large data
	std::vector<unsigned char> pattern(std::size_t n) {
		std::vector<unsigned char> r(n);
		auto s = draw(0xFFFFFFFF) * 0x9E3779B97F4A7C15ull;
		for(auto& b : r) {
			s ^= s >> 12; s ^= s << 25; s ^= s >> 27;
			b = static_cast<unsigned char>((s * 0x2545F4914F6CDD1Dull) >> 56);
		}
		return r;
	}

	// number in [0, 1), 0 simplest. 53 bit resolution
	double unit() { return static_cast<double>(draw((1ull << 53) - 1)) * 0x1p-53; }
	double real(double lo, double hi) { return lo + unit() * (hi - lo); }

	// - verdicts -
	bool failed() const { return failedFlag; }
	void fail(const char* file, int line, const std::string& msg);
	template<typename... A> [[gnu::noinline, gnu::cold]]
	void fail(const char* file, int line, const char* first, const A&... a) {
		const Arg args[] = {Arg(first), Arg(a)...};
		fail(file, line, join(args, sizeof...(A) + 1));
	}
	void nontrivial(bool v = true) { if(v) nontrivialFlag = true; }
	void label(const char* l);
	void label(bool cond, const char* l) { if(cond) label(l); }

	template<typename... A> void note(A&&... a) {
		if(!verbose) return;
		addNote(str(a...));
	}
	void addNote(const std::string& s);
};

using Fn = void(*)(Ctx&);
struct Facet {
	const char* name;
	unsigned long count; // cases in the quick tier
	Fn fn;
	void (*reset)() {};
};

bool addFacet(const char* name, unsigned long count, Fn fn);

} // namespace pbt

// Defines one facet of the property: a function of generated inputs.
#define FACET(NAME, COUNT) \
	static void facet_##NAME(pbt::Ctx& c); \
	static const bool facetReg_##NAME = pbt::addFacet(#NAME, COUNT, facet_##NAME); \
	static void facet_##NAME([[maybe_unused]] pbt::Ctx& c)

// Records a failure (only the first one counts) and continues.
#define EXPECT(cond, ...) \
	do { if(!(cond)) c.fail(__FILE__, __LINE__, "failed: " #cond ": ", __VA_ARGS__); } while(0)

// Records a failure and leaves the property; only outside of code under test.
#define REQUIRE(cond, ...) \
	do { if(!(cond)) { c.fail(__FILE__, __LINE__, "failed: " #cond ": ", __VA_ARGS__); \
		throw pbt::Abort{}; } } while(0)
