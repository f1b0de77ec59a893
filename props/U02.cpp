// U02: character access in valid UTF-8 strings.
#include "unicode.hpp"
#include <nytl/utf.hpp>

namespace {

template<typename F> bool throwsRange(F&& f) {
	try { f(); } catch(const std::out_of_range&) { return true; }
	return false;
}

} // namespace

FACET(characters, 400000) {
	auto s32 = uni::codePoints(c, c.chance(1, 8) ? 80 : 12);
	c.note(uni::show(s32));
	// the string has exactly its bytes, reading behind it is reported
	auto full = uni::utf8(s32);
	std::vector<char> exact(full.begin(), full.end());
	std::string_view s(exact.data(), exact.size());

	auto n = s32.size();
	EXPECT(nytl::charCount(s) == n, "charCount is ", nytl::charCount(s), ", expected ", n);
	std::string concat, concatArray;
	std::size_t offset = 0;
	for(auto i = 0u; i < n && !c.failed(); ++i) {
		auto expected = uni::utf8(s32[i]);
		auto arr = nytl::nth(s, i);
		std::array<char, 5> exp {};
		std::copy(expected.begin(), expected.end(), exp.begin());
		EXPECT(arr == exp, "nth(", i, ") has wrong bytes");
		if(s32[i]) concatArray += arr.data();
		else concatArray += '\0';

		std::uint8_t size = 99;
		auto& ref = nytl::nth(s, i, size);
		EXPECT(size == expected.size(), "nth(", i, ", size) is ", int(size));
		EXPECT(&ref == s.data() + offset, "nth(", i, ", size) refers to another place");
		concat.append(&ref, size);
		offset += expected.size();
	}
	EXPECT(concat == full, "concatenation of the references differs");
	EXPECT(concatArray == full, "concatenation of the arrays differs");
	auto beyond = n + c.weighted({4, 2, 1}) * c.draw(1000);
	if(c.chance(1, 20)) beyond = ~std::size_t(0) - c.draw(3);
	else if(c.chance(1, 20)) beyond = (std::size_t(1) << 32) + c.draw(n);
	EXPECT(throwsRange([&] { nytl::nth(s, beyond); }), "nth(", beyond, ") did not throw");
	std::uint8_t size;
	EXPECT(throwsRange([&] { nytl::nth(s, beyond, size); }), "nth(", beyond, ", size) did not throw");
	c.nontrivial(uni::mixed(s32));
	c.label(n == 0, "empty");
}

FACET(mutable_strings, 400000) {
	auto s32 = uni::codePoints(c, 12);
	c.note(uni::show(s32), ": ");
	auto s = uni::utf8(s32);
	auto changes = c.range(1, 5);
	for(auto i = 0; i < changes && !c.failed(); ++i) {
		auto n = s32.size();
		auto at = n ? c.draw(n - 1) : 0;
		std::uint8_t size = 99;
		if(n == 0 || c.chance(1, 4)) {
			EXPECT(throwsRange([&] { nytl::nth(s, n, size); }), "nth(", n, ", size) did not throw");
			continue;
		}
		auto& ref = nytl::nth(s, at, size);
		std::size_t offset = 0;
		for(auto k = 0u; k < at; ++k) offset += uni::utf8(s32[k]).size();
		auto expected = uni::utf8(s32[at]);
		EXPECT(&ref == &s[offset], "refers to another place");
		EXPECT(size == expected.size(), "size is ", int(size));
		if(c.failed()) break;
		// overwrite the character by one of the same length
		for(auto tries = 0; tries < 5; ++tries) {
			auto cp = uni::codePoint(c);
			auto repl = uni::utf8(cp);
			if(repl.size() != size) continue;
			c.note(at, "=", uni::show(std::u32string(1, cp)));
			std::copy(repl.begin(), repl.end(), &ref);
			s32[at] = cp;
			break;
		}
		EXPECT(s == uni::utf8(s32), "wrong string after changing a character");
		EXPECT(nytl::charCount(s) == s32.size(), "wrong number of characters");
	}
	c.nontrivial(uni::mixed(s32));
}

FACET(long_strings, 10000) {
	auto s32 = uni::longString(c, c.chance(1, 4) ? 70000 : 3000);
	auto str = uni::utf8(s32);
	std::string_view s = str;
	auto n = s32.size();
	c.note(n, " characters: ", uni::show(s32.substr(0, 8)), " ");
	EXPECT(nytl::charCount(s) == n, "charCount is ", nytl::charCount(s), ", expected ", n);
	std::vector<std::size_t> offsets;
	std::size_t o = 0;
	for(auto cp : s32) { offsets.push_back(o); o += uni::utf8(cp).size(); }
	auto queries = n ? c.range(1, 3) : 0;
	for(auto q = 0; q < queries; ++q) {
		auto i = c.boolean() ? c.draw(n - 1) : n - 1 - c.size(n - 1);
		auto expected = uni::utf8(s32[i]);
		c.note("nth ", i, " ");
		std::array<char, 5> exp {};
		std::copy(expected.begin(), expected.end(), exp.begin());
		std::uint8_t size = 99, size2 = 99;
		try {
			EXPECT(nytl::nth(s, i) == exp, "nth(", i, ") has wrong bytes");
			EXPECT(&nytl::nth(s, i, size) == s.data() + offsets[i], "nth(", i, ", size) refers to another place");
			EXPECT(&nytl::nth(str, i, size2) == str.data() + offsets[i], "mutable nth(", i, ", size) refers to another place");
		} catch(const std::out_of_range&) {
			EXPECT(false, "nth(", i, ") of ", n, " characters threw");
		}
		EXPECT(c.failed() || (size == expected.size() && size2 == size), "size of character ", i, " is ", int(size), " or ", int(size2));
	}
	std::uint8_t size;
	EXPECT(throwsRange([&] { nytl::nth(s, n); }), "nth(", n, ") did not throw");
	EXPECT(throwsRange([&] { nytl::nth(s, n, size); }), "nth(", n, ", size) did not throw");
	EXPECT(throwsRange([&] { nytl::nth(str, n, size); }), "mutable nth(", n, ", size) did not throw");
	c.nontrivial(n > 255 && uni::mixed(s32));
}
