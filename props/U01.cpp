// U01: conversions against an independent encoder, and chains of conversions.
#include "unicode.hpp"
#include <nytl/utf.hpp>

FACET(direct, 450000) {
	auto s32 = uni::codePoints(c, c.chance(1, 8) ? 120 : 12);
	c.note(uni::show(s32));
	auto s8 = uni::utf8(s32);
	auto s16 = uni::utf16(s32);
	EXPECT(nytl::toUtf8(s16) == s8, "utf16 -> utf8");
	EXPECT(nytl::toUtf8(s32) == s8, "utf32 -> utf8");
	EXPECT(nytl::toUtf16(s8) == s16, "utf8 -> utf16");
	EXPECT(nytl::toUtf16(s32) == s16, "utf32 -> utf16");
	EXPECT(nytl::toUtf32(s8) == s32, "utf8 -> utf32");
	EXPECT(nytl::toUtf32(s16) == s32, "utf16 -> utf32");
	c.nontrivial(uni::mixed(s32));
	bool bmp = true, nul = false, bom = false;
	for(auto cp : s32) {
		if(cp > 0xFFFF) bmp = false;
		if(cp == 0) nul = true;
		if(cp == 0xFEFF) bom = true;
	}
	c.label(!bmp, "beyond the BMP");
	c.label(nul, "contains U+0000");
	c.label(bom, "contains U+FEFF");
}

// string views that are not null-terminated and sit inside of a larger buffer
FACET(views, 150000) {
	auto before = uni::codePoints(c, 4), mid = uni::codePoints(c, 8), after = uni::codePoints(c, 4);
	c.note(uni::show(before), "| ", uni::show(mid), "| ", uni::show(after));
	auto b8 = uni::utf8(before), m8 = uni::utf8(mid), a8 = uni::utf8(after);
	auto b16 = uni::utf16(before), m16 = uni::utf16(mid), a16 = uni::utf16(after);
	auto all8 = b8 + m8 + a8;
	auto all16 = b16 + m16 + a16;
	auto all32 = before + mid + after;
	auto v8 = std::string_view(all8).substr(b8.size(), m8.size());
	auto v16 = std::u16string_view(all16).substr(b16.size(), m16.size());
	auto v32 = std::u32string_view(all32).substr(before.size(), mid.size());
	EXPECT(nytl::toUtf8(v16) == m8, "utf16 -> utf8");
	EXPECT(nytl::toUtf8(v32) == m8, "utf32 -> utf8");
	EXPECT(nytl::toUtf16(v8) == m16, "utf8 -> utf16");
	EXPECT(nytl::toUtf16(v32) == m16, "utf32 -> utf16");
	EXPECT(nytl::toUtf32(v8) == mid, "utf8 -> utf32");
	EXPECT(nytl::toUtf32(v16) == mid, "utf16 -> utf32");
	c.nontrivial(uni::mixed(mid) && !after.empty());
}

FACET(chains, 200000) {
	auto s32 = uni::codePoints(c, 20);
	c.note(uni::show(s32), ": ");
	auto s8 = uni::utf8(s32);
	auto s16 = uni::utf16(s32);
	auto steps = c.range(1, 8);
	int at = static_cast<int>(c.draw(2)); // 0: utf8, 1: utf16, 2: utf32
	const auto start8 = s8;
	const auto start16 = s16;
	const auto start32 = s32;
	for(auto i = 0; i < steps; ++i) {
		auto to = (at + 1 + static_cast<int>(c.draw(1))) % 3;
		c.note(at, "->", to, " ");
		if(to == 0) s8 = at == 1 ? nytl::toUtf8(s16) : nytl::toUtf8(s32);
		else if(to == 1) s16 = at == 0 ? nytl::toUtf16(s8) : nytl::toUtf16(s32);
		else s32 = at == 0 ? nytl::toUtf32(s8) : nytl::toUtf32(s16);
		at = to;
		EXPECT(at != 0 || s8 == start8, "utf8 changed");
		EXPECT(at != 1 || s16 == start16, "utf16 changed");
		EXPECT(at != 2 || s32 == start32, "utf32 changed");
	}
	c.nontrivial(uni::mixed(start32) && steps > 1);
}

FACET(long_strings, 6000) {
	auto s32 = uni::longString(c, 9000);
	c.note(s32.size(), " characters: ", uni::show(s32.substr(0, 8)));
	auto s8 = uni::utf8(s32);
	auto s16 = uni::utf16(s32);
	EXPECT(nytl::toUtf8(s16) == s8, "utf16 -> utf8");
	EXPECT(nytl::toUtf8(s32) == s8, "utf32 -> utf8");
	EXPECT(nytl::toUtf16(s8) == s16, "utf8 -> utf16");
	EXPECT(nytl::toUtf16(s32) == s16, "utf32 -> utf16");
	EXPECT(nytl::toUtf32(s8) == s32, "utf8 -> utf32");
	EXPECT(nytl::toUtf32(s16) == s32, "utf16 -> utf32");
	c.nontrivial(s32.size() > 100 && uni::mixed(s32));
}
