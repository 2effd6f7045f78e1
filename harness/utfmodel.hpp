// Own encoder of code points, the reference for all utf checks.
#pragma once
#include "common.hpp"

inline void enc8(std::string& s, char32_t c) {
	if(c < 0x80) s += char(c);
	else if(c < 0x800) { s += char(0xc0 | (c >> 6)); s += char(0x80 | (c & 0x3f)); }
	else if(c < 0x10000) { s += char(0xe0 | (c >> 12)); s += char(0x80 | ((c >> 6) & 0x3f)); s += char(0x80 | (c & 0x3f)); }
	else { s += char(0xf0 | (c >> 18)); s += char(0x80 | ((c >> 12) & 0x3f)); s += char(0x80 | ((c >> 6) & 0x3f)); s += char(0x80 | (c & 0x3f)); }
}

inline void enc16(std::u16string& s, char32_t c) {
	if(c < 0x10000) s += char16_t(c);
	else { c -= 0x10000; s += char16_t(0xd800 + (c >> 10)); s += char16_t(0xdc00 + (c & 0x3ff)); }
}

// Random code point, cls 0..3: number of utf8 bytes - 1
inline char32_t randomCp(vh::Rng& rng, unsigned cls) {
	static const char32_t lo[] = {0, 0x80, 0x800, 0x10000}, hi[] = {0x7f, 0x7ff, 0xffff, 0x10ffff};
	char32_t c;
	switch(rng.below(8)) {
		case 0: c = lo[cls] + rng.below(3); break;
		case 1: c = hi[cls] - rng.below(3); break;
		default: c = lo[cls] + rng.below(hi[cls] - lo[cls] + 1);
	}
	if(c >= 0xd800 && c < 0xe000) c = rng.chance(1, 2) ? 0xd7ff : 0xe000;
	return c;
}

inline char32_t randomCp(vh::Rng& rng) {
	static const char32_t special[] = {0, 'a', 0xfeff, 0xfffe, 0xffff, 0xfffd, 0xd7ff, 0xe000, 0x10000, 0x1f600, 0x10ffff, 0x10fffe, 0x1ffff, 0xfdd0,
		0xbbbf, 0xbbef, 0xff, 0xfe, 0x7f, 0x80, 0x7ff, 0x800, 0x2028, 0xa, 0xd, 0x103ff, 0x10400, 0xfffff, 0x100000};
	if(rng.chance(1, 6)) return rng.pick(special);
	return randomCp(rng, rng.below(4));
}
