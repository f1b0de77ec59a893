// N01: StringParam
#include "pbt.hpp"
#include <nytl/stringParam.hpp>

#include <vector>

namespace {

template<typename Char> std::basic_string<Char> text(pbt::Ctx& c, unsigned max) {
	std::basic_string<Char> s;
	constexpr auto top = sizeof(Char) == 1 ? 0xFEu : sizeof(Char) == 2 ? 0xFFFEu : 0x10FFFEu;
	while(c.more(s.size(), max, 15, 16))
		s += static_cast<Char>(c.boolean() ? 'a' + c.draw(25) : 1 + c.draw(top));
	return s;
}

template<typename Char> std::size_t len(const Char* p) {
	std::size_t n = 0;
	while(p[n]) ++n;
	return n;
}

template<typename Char>
struct Probe {
	using Param = nytl::BasicStringParam<Char>;
	using String = std::basic_string<Char>;
	using View = std::basic_string_view<Char>;

	// how it is used: by-value parameter
	static void check(pbt::Ctx& c, Param p, const Char* original, const String& expected, const char* how) {
		EXPECT(p.size() == expected.size(), how, ": size is ", p.size(), ", expected ", expected.size());
		REQUIRE(p.c_str() != nullptr, how, ": c_str() is null");
		EXPECT(p.c_str()[p.size()] == Char(0), how, ": not null-terminated");
		EXPECT(len(p.c_str()) == expected.size(), how, ": c string has length ", len(p.c_str()));
		EXPECT(String(p.c_str()) == expected, how, ": other characters in c_str()");
		EXPECT(View(p) == View(expected), how, ": other characters");
		EXPECT(String(p.begin(), p.end()) == expected, how, ": other characters by iteration");
		EXPECT(p.empty() == expected.empty(), how, ": empty");
		if(original) EXPECT(p.c_str() == original && p.data() == original, how, ": was copied");
	}

	static void run(pbt::Ctx& c) {
		auto s = text<Char>(c, c.chance(1, 4) ? 200 : 20);
		if(c.chance(1, 60)) { // long
			s.clear();
			for(auto b : c.pattern(c.size(70000))) s += static_cast<Char>(b ? b : 1);
		}
		if(c.chance(1, 8)) s.reserve(s.size() + c.size(5000)); // unused capacity
		c.note(s.size(), " characters");
		// exact heap buffer: reads beyond the terminator are reported
		std::vector<Char> buf(s.begin(), s.end());
		buf.push_back(Char(0));
		const Char* cstr = buf.data();
		check(c, cstr, cstr, s, "from C string");
		check(c, s, s.c_str(), s, "from std::string");
		const String cs = s;
		check(c, cs, cs.c_str(), s, "from const std::string");
		Param p = cstr;
		Param copy = p;
		check(c, copy, cstr, s, "copy");
		Param other = s;
		other = p;
		check(c, other, cstr, s, "assigned");
		other = s;
		check(c, other, s.c_str(), s, "assigned std::string");
		check(c, std::move(other), s.c_str(), s, "moved");
		check(c, Param {}, nullptr, String {}, "default constructed");
		Param def;
		check(c, def, nullptr, String {}, "default initialized");
		def = cstr;
		check(c, def, cstr, s, "assigned to default");
		View v = p;
		EXPECT(v == View(s) && v.data() == cstr, "as string_view");
		const std::basic_string_view<Char>& ref = p;
		EXPECT(ref == View(s), "as string_view reference");
		if(!s.empty()) {
			auto i = c.draw(s.size() - 1);
			EXPECT(p[i] == s[i], "character ", i);
			// a null-terminated tail
			check(c, cstr + i, cstr + i, s.substr(i), "tail");
		}
		c.nontrivial(!s.empty());
	}
};

} // namespace

FACET(chars, 200000) { Probe<char>::run(c); }
FACET(chars16, 200000) { Probe<char16_t>::run(c); }
FACET(chars32, 200000) { Probe<char32_t>::run(c); }
FACET(literals, 100) {
	static constexpr nytl::StringParam empty {};
	static constexpr nytl::StringParam lit = "abc";
	EXPECT(empty.size() == 0 && lit.size() == 3 && lit.c_str()[3] == 0, "constant expressions");
	auto f = [](nytl::StringParam p) { return std::string(p.c_str()); };
	auto f16 = [](nytl::StringParam16 p) { return std::u16string(p.c_str()); };
	auto f32 = [](nytl::StringParam32 p) { return std::u32string(p.c_str()); };
	auto k = c.draw(3);
	EXPECT(f("some text" + k) == std::string("some text" + k), "literal");
	EXPECT(f16(u"some text" + k) == std::u16string(u"some text" + k), "literal16");
	EXPECT(f32(U"some text" + k) == std::u32string(U"some text" + k), "literal32");
	c.nontrivial();
}
