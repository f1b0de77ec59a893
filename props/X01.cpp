// X01: printing.
#include "matgen.hpp"
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>
#include <cstdlib>
#include <sstream>

namespace {

using namespace gen;

// a stream with arbitrary but sane formatting
struct Stream {
	std::ostringstream os;
	std::ios_base::fmtflags flags;
	std::streamsize precision;
	char fill;
	explicit Stream(pbt::Ctx& c) {
		os << "before ";
		switch(c.draw(3)) {
			case 1: os.precision(17); break;
			case 2: os.precision(std::streamsize(9 + c.draw(6))); break;
			default: break;
		}
		if(c.chance(1, 8)) os << std::showpos;
		if(c.chance(1, 8)) os << std::left;
		flags = os.flags(); precision = os.precision(); fill = os.fill();
	}
	std::string text() const { return os.str().substr(7); }
	template<typename T> std::string plain(const T& x) const {
		std::ostringstream s;
		s.flags(flags);
		s.precision(precision);
		s << x;
		return s.str();
	}
	void check(pbt::Ctx& c) const {
		EXPECT(os.good(), "the stream is not good");
		EXPECT(os.str().substr(0, 7) == "before ", "earlier output changed");
		EXPECT(os.flags() == flags && os.precision() == precision && os.fill() == fill && os.width() == 0,
			"state of the stream changed: precision ", os.precision(), " instead of ", precision, ", width ", os.width());
	}
};

template<typename T> T number(pbt::Ctx& c) {
	if constexpr(std::is_same_v<T, bool>) return c.boolean();
	else if constexpr(std::is_unsigned_v<T>) return T(c.boolean() ? c.range(0, 9) : c.range(0, std::numeric_limits<T>::max()));
	else if constexpr(std::is_integral_v<T>) return T(c.boolean() ? c.sym(9) : c.sym(std::numeric_limits<T>::max()));
	else switch(c.draw(2)) {
		case 0: return T(c.sym(999));
		case 1: return T(c.sym(9999)) / T(8);
		default: return T(c.real(-2, 2) * std::ldexp(1.0, int(c.sym(20))));
	}
}

const char* delimiter(pbt::Ctx& c) { return c.pick<const char*>({"(", ")", ", ", "", "[", "]", "; ", "<<", " ", "0"}); }

template<std::size_t D, typename T> void vectors(pbt::Ctx& c) {
	nytl::Vec<D, T> v {};
	for(auto& x : v) x = number<T>(c);
	c.note(show(v));
	c.nontrivial(D > 1);
	auto expected = [&](const Stream& s, std::string start, std::string end, std::string sep) {
		for(std::size_t i = 0; i < D; ++i) start += (i ? sep : "") + s.plain(v[i]);
		return start + end;
	};
	const auto cv = v;
	{
		Stream s(c);
		auto& r = (s.os << cv);
		EXPECT(&r == &s.os, "operator<< returns another stream");
		EXPECT(s.text() == expected(s, "(", ")", ", "), "operator<< writes ", s.text());
		s.check(c);
	}
	{
		Stream s(c);
		std::string e;
		std::ostream* r {};
		auto a = delimiter(c), b = delimiter(c), d = delimiter(c);
		switch(c.draw(3)) {
			case 0: r = &nytl::print(s.os, cv); e = expected(s, "(", ")", ", "); break;
			case 1: r = &nytl::print(s.os, cv, a); e = expected(s, a, ")", ", "); break;
			case 2: r = &nytl::print(s.os, cv, a, b); e = expected(s, a, b, ", "); break;
			case 3: r = &nytl::print(s.os, cv, a, b, d); e = expected(s, a, b, d); break;
		}
		EXPECT(r == &s.os, "print returns another stream");
		EXPECT(s.text() == e, "print writes ", s.text(), " instead of ", e);
		s.check(c);
	}
}

std::vector<std::string> split(const std::string& s, const std::string& at) {
	std::vector<std::string> r;
	for(std::size_t p = 0;;) {
		auto n = s.find(at, p);
		r.push_back(s.substr(p, n - p));
		if(n == std::string::npos) return r;
		p = n + at.size();
	}
}

unsigned anyWidth(pbt::Ctx& c) {
	switch(c.draw(3)) {
		case 0: return 0;
		case 1: return unsigned(c.range(1, 4));
		case 2: return unsigned(c.range(5, 14));
		default: return unsigned(c.range(15, 40));
	}
}

template<std::size_t R, std::size_t C, typename T> void matrices(pbt::Ctx& c) {
	nytl::Mat<R, C, T> m {};
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) m[i][j] = number<T>(c);
	c.note(show(m));
	c.nontrivial(R * C > 1);
	Stream s(c);
	unsigned width = 8;
	std::string spacing = "    ";
	bool brk = true;
	std::ostream* r {};
	const auto cm = m;
	switch(c.draw(4)) {
		case 0: r = &(s.os << cm); break;
		case 1: r = &nytl::print(s.os, cm); break;
		case 2: width = anyWidth(c); r = &nytl::print(s.os, cm, width); break;
		case 3: width = c.chance(1, 3) ? 8 : anyWidth(c); spacing = c.pick<const char*>({"", " ", "    ", "--", "\t", "a long spacing "}); r = &nytl::print(s.os, cm, width, spacing.c_str()); break;
		case 4: width = c.chance(1, 3) ? 8 : anyWidth(c); spacing = c.pick<const char*>({"", " ", "    ", "--", "\t", "a long spacing "}); brk = c.boolean(); r = &nytl::print(s.os, cm, width, spacing.c_str(), brk); break;
	}
	EXPECT(r == &s.os, "print returns another stream");
	s.check(c);
	auto text = s.text();
	auto lines = split(text, "\n");
	if(brk) {
		REQUIRE(!lines.empty() && lines.back().empty(), "no line break in the end: ", text);
		lines.pop_back();
	}
	REQUIRE(lines.size() == R + 2, R, " rows are printed as ", text);
	EXPECT(lines.front() == "{" && lines.back() == "}", "braces: ", text);
	for(std::size_t i = 0; i < R; ++i) {
		auto& l = lines[i + 1];
		REQUIRE(l.substr(0, spacing.size() + 1) == spacing + "(" && l.back() == ')', "row ", i, " is ", l);
		auto items = split(l.substr(spacing.size() + 1, l.size() - spacing.size() - 2), ", ");
		REQUIRE(items.size() == C, "row ", i, " is ", l);
		for(std::size_t j = 0; j < C; ++j) {
			auto item = items[j];
			EXPECT(item.size() >= width, "element ", i, ",", j, " is narrower than ", width, ": ", text);
			while(!item.empty() && item.back() == ' ') item.pop_back();
			auto begin = item.find_first_not_of(' ');
			REQUIRE(begin != std::string::npos, "element ", i, ",", j, " is missing: ", text);
			item = item.substr(begin);
			char* end;
			auto x = std::strtold(item.c_str(), &end);
			REQUIRE(*end == 0, "element ", i, ",", j, " is not a number: ", text);
			auto e = LD(m[i][j]);
			if(std::is_integral_v<T>) { EXPECT(x == e, "element ", i, ",", j, " is ", item, " instead of ", e); continue; }
			if(std::fabs(e) < 100 && e == std::floor(e) && (width == 0 || width >= 8)) EXPECT(x == e, "element ", i, ",", j, " is ", item, " instead of ", e);
			// digits that are shown
			LD unit = 1;
			{
				auto ex = item.find('e');
				auto mant = item.substr(0, ex);
				auto dot = mant.find('.');
				auto digits = dot == std::string::npos ? 0 : int(mant.size() - dot - 1);
				auto exponent = ex == std::string::npos ? 0 : std::atoi(item.c_str() + ex + 1);
				unit = std::pow(10.0L, LD(exponent - digits));
				// a plain number may have lost trailing zeros, but then its digits are exact
			}
			EXPECT(std::fabs(x - e) <= 0.5001L * unit + 1e-18L * std::fabs(e), "element ", i, ",", j, " is ", item, " instead of ", e);
			if((width == 0 || width >= 8) && std::fabs(e) < 100) EXPECT(std::fabs(x - e) <= 1e-2L * std::fabs(e), "element ", i, ",", j, " is ", item, " instead of ", e);
		}
	}
}

template<std::size_t D, typename T> void rects(pbt::Ctx& c) {
	nytl::Rect<D, T> r {};
	for(auto& x : r.position) x = number<T>(c);
	for(auto& x : r.size) x = number<T>(c);
	c.note(show(r.position), show(r.size));
	c.nontrivial(D > 1);
	Stream s(c);
	const auto cr = r;
	auto& o = c.boolean() ? (s.os << cr) : nytl::print(s.os, cr);
	EXPECT(&o == &s.os, "print returns another stream");
	auto item = [&](auto& v) {
		std::string t;
		for(std::size_t i = 0; i < D; ++i) t += (i ? ", " : "(") + s.plain(v[i]);
		return t + ")";
	};
	auto text = s.text();
	auto p = text.find(item(r.position)), q = text.rfind(item(r.size));
	EXPECT(p != std::string::npos && q != std::string::npos && q >= p + item(r.position).size(), "position and size are printed as ", text);
	std::size_t numbers = 0;
	for(std::size_t i = 0; i < text.size();) {
		if(std::isdigit(static_cast<unsigned char>(text[i]))) {
			++numbers;
			while(i < text.size() && text[i] != ',' && text[i] != ')') ++i;
		} else ++i;
	}
	EXPECT(numbers == 2 * D, "more or less than position and size are printed: ", text);
	s.check(c);
}

template<typename T> void approximations(pbt::Ctx& c) {
	using namespace nytl::approxOps;
	Stream s(c);
	auto x = number<T>(c);
	s.os << nytl::approx(x);
	auto e = "Approx(" + s.plain(x) + ")";
	EXPECT(s.text() == e, "Approx is printed as ", s.text(), " instead of ", e);
	s.check(c);
	Stream t(c);
	nytl::Vec<3, T> v {number<T>(c), number<T>(c), number<T>(c)};
	t.os << nytl::approx(v);
	std::string items;
	for(int i = 0; i < 3; ++i) items += (i ? ", " : "") + t.plain(v[i]);
	e = "Approx((" + items + "))";
	EXPECT(t.text() == e, "Approx is printed as ", t.text(), " instead of ", e);
	t.check(c);
	c.nontrivial(x != T(0));
}

} // namespace

#define VECTORS(T) switch(c.draw(5)) { \
	case 0: vectors<2, T>(c); break; \
	case 1: vectors<3, T>(c); break; \
	case 2: vectors<1, T>(c); break; \
	case 3: vectors<4, T>(c); break; \
	case 4: vectors<6, T>(c); break; \
	case 5: vectors<9, T>(c); break; }
#define MATRICES(T) switch(c.draw(7)) { \
	case 0: matrices<2, 2, T>(c); break; \
	case 1: matrices<3, 3, T>(c); break; \
	case 2: matrices<1, 1, T>(c); break; \
	case 3: matrices<2, 3, T>(c); break; \
	case 4: matrices<4, 2, T>(c); break; \
	case 5: matrices<1, 4, T>(c); break; \
	case 6: matrices<7, 3, T>(c); break; \
	case 7: matrices<2, 8, T>(c); break; }

#if PBT_PART == 0
FACET(intVectors, 40000) { VECTORS(int) }
FACET(doubleVectors, 40000) { VECTORS(double) }
FACET(unsignedVectors, 20000) { VECTORS(unsigned) }
#elif PBT_PART == 1
FACET(intMatrices, 40000) { MATRICES(int) }
FACET(otherMatrices, 30000) {
	switch(c.draw(3)) {
		case 0: matrices<2, 3, long long>(c); break;
		case 1: matrices<3, 2, short>(c); break;
		case 2: matrices<2, 2, unsigned>(c); break;
		case 3: matrices<2, 2, bool>(c); break;
	}
}
FACET(otherVectors, 30000) {
	switch(c.draw(4)) {
		case 0: vectors<3, long long>(c); break;
		case 1: vectors<2, short>(c); break;
		case 2: vectors<4, std::uint64_t>(c); break;
		case 3: vectors<3, bool>(c); break;
		case 4: vectors<2, long double>(c); break;
	}
}
FACET(doubleMatrices, 60000) { MATRICES(double) }
#elif PBT_PART == 2
FACET(floatMatrices, 40000) { MATRICES(float) }
FACET(floatVectors, 20000) { VECTORS(float) }
FACET(rectsInt, 20000) {
	switch(c.draw(5)) {
		case 0: rects<2, int>(c); break;
		case 1: rects<3, int>(c); break;
		case 2: rects<1, int>(c); break;
		case 3: rects<2, unsigned>(c); break;
		case 4: rects<5, short>(c); break;
		case 5: rects<2, long long>(c); break;
	}
}
FACET(rectsFloat, 20000) {
	switch(c.draw(2)) {
		case 0: rects<2, float>(c); break;
		case 1: rects<2, double>(c); break;
		case 2: rects<4, double>(c); break;
	}
}
FACET(approxValues, 20000) {
	if(c.boolean()) approximations<double>(c);
	else approximations<float>(c);
}
#endif
