// Generator for code point sequences and an independent encoder.
#pragma once
#include "pbt.hpp"
#include <string>

namespace uni {

inline char32_t codePoint(pbt::Ctx& c) {
	static const char32_t edges[] = {0x0, 0x1, 0x20, 0x41, 0x7E, 0x7F, 0x80, 0x81, 0xA4, 0xBF, 0xC0, 0xE4, 0xFF,
		0x100, 0x3FF, 0x400, 0x7BF, 0x7FE, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0x1FFF, 0x2000, 0x20AC, 0x3FFF, 0x4000,
		0x7FFF, 0x8000, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xFEFE, 0xFEFF, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001,
		0x103FF, 0x10400, 0x1F600, 0x1FFFF, 0x20000, 0x2FFFF, 0x3FFFF, 0x40000, 0x7FFFF, 0x80000, 0xBFFFF, 0xFFFFF,
		0x100000, 0x10F800, 0x10FBFF, 0x10FC00, 0x10FFFE, 0x10FFFF};
	switch(c.weighted({3, 3, 3, 4, 3, 3})) {
		case 0: return 'a' + static_cast<char32_t>(c.draw(25));
		case 1: return static_cast<char32_t>(c.draw(0x7F));
		case 2: return 0x80 + static_cast<char32_t>(c.draw(0x7FF - 0x80));
		case 3: return edges[c.draw(sizeof(edges) / sizeof(edges[0]) - 1)];
		case 4: {
			auto v = 0x800 + static_cast<char32_t>(c.draw(0xFFFF - 0x800 - 0x800));
			return v >= 0xD800 ? v + 0x800 : v;
		}
		default: return 0x10000 + static_cast<char32_t>(c.draw(0x10FFFF - 0x10000));
	}
}

inline std::u32string codePoints(pbt::Ctx& c, unsigned max) {
	std::u32string s;
	while(c.more(s.size(), max, 11, 12)) s += codePoint(c);
	return s;
}

// long strings: a few code points repeated irregularly
inline std::u32string longString(pbt::Ctx& c, std::size_t max) {
	std::u32string pool;
	for(auto n = c.range(1, 6); n > 0; --n) pool += codePoint(c);
	std::u32string s;
	for(auto b : c.pattern(c.size(max))) s += pool[b % pool.size()];
	return s;
}

inline std::string utf8(char32_t cp) {
	std::string s;
	auto put = [&](unsigned v) { s += static_cast<char>(static_cast<unsigned char>(v)); };
	if(cp < 0x80) put(cp);
	else if(cp < 0x800) { put(0xC0 + cp / 64); put(0x80 + cp % 64); }
	else if(cp < 0x10000) { put(0xE0 + cp / 4096); put(0x80 + cp / 64 % 64); put(0x80 + cp % 64); }
	else { put(0xF0 + cp / 262144); put(0x80 + cp / 4096 % 64); put(0x80 + cp / 64 % 64); put(0x80 + cp % 64); }
	return s;
}

inline std::string utf8(const std::u32string& s) {
	std::string r;
	for(auto cp : s) r += utf8(cp);
	return r;
}

inline std::u16string utf16(const std::u32string& s) {
	std::u16string r;
	for(auto cp : s) {
		if(cp < 0x10000) r += static_cast<char16_t>(cp);
		else {
			r += static_cast<char16_t>(0xD800 + (cp - 0x10000) / 1024);
			r += static_cast<char16_t>(0xDC00 + (cp - 0x10000) % 1024);
		}
	}
	return r;
}

inline std::string show(const std::u32string& s) {
	std::ostringstream os;
	os << std::hex;
	for(auto cp : s) os << "U+" << static_cast<unsigned long>(cp) << " ";
	return os.str();
}

inline bool mixed(const std::u32string& s) { // two or more utf-8 lengths
	for(auto cp : s) if(utf8(cp).size() != utf8(s[0]).size()) return true;
	return false;
}

} // namespace uni
