// C16: utf conversions against an own encoder.
#include "common.hpp"
#include "utfmodel.hpp"
#include <nytl/utf.hpp>
#include <memory>

template<typename C> struct Exact { // exactly sized memory, not terminated
	std::unique_ptr<C[]> p;
	std::size_t n;
	explicit Exact(const std::basic_string<C>& s) : p(new C[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
	std::basic_string_view<C> view() const { return {p.get(), n}; }
};

template<typename C> std::string diff(const std::basic_string<C>& got, const std::basic_string<C>& want) {
	std::ostringstream os;
	os << got.size() << " units instead of " << want.size();
	for(std::size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
		if(i < got.size() && i < want.size() && got[i] == want[i]) continue;
		os << ", first difference at " << i << ": " << std::hex;
		if(i < got.size()) os << std::uint32_t(got[i]) << " instead of "; else os << "end instead of ";
		if(i < want.size()) os << std::uint32_t(want[i]); else os << "end";
		break;
	}
	return os.str();
}

void checkStr(const std::vector<char32_t>& cps) {
	std::string s8;
	std::u16string s16;
	std::u32string s32;
	for(auto c : cps) { enc8(s8, c); enc16(s16, c); s32 += c; }
	Exact<char> e8(s8);
	Exact<char16_t> e16(s16);
	Exact<char32_t> e32(s32);
	vh::count("code_points", cps.size());

#define CONV(name, expr, want) { \
		auto got = expr; \
		VH_CHECK(got == want, name, "conversion of " << cps.size() << " code points, " << diff(got, want)); \
	}
	CONV("utf8-utf16", nytl::toUtf16(e8.view()), s16);
	CONV("utf8-utf32", nytl::toUtf32(e8.view()), s32);
	CONV("utf16-utf8", nytl::toUtf8(e16.view()), s8);
	CONV("utf16-utf32", nytl::toUtf32(e16.view()), s32);
	CONV("utf32-utf8", nytl::toUtf8(e32.view()), s8);
	CONV("utf32-utf16", nytl::toUtf16(e32.view()), s16);
	// round trips of what the functions returned
	CONV("round-trip", nytl::toUtf8(nytl::toUtf16(s8)), s8);
	CONV("round-trip", nytl::toUtf8(nytl::toUtf32(s8)), s8);
	CONV("round-trip", nytl::toUtf16(nytl::toUtf8(s16)), s16);
	CONV("round-trip", nytl::toUtf16(nytl::toUtf32(s16)), s16);
	CONV("round-trip", nytl::toUtf32(nytl::toUtf8(s32)), s32);
	CONV("round-trip", nytl::toUtf32(nytl::toUtf16(s32)), s32);
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
#if PART == 0
	vh::section("every-code-point", 0x110, 0x110, [](vh::Rng& rng, std::uint64_t hi) {
		std::vector<char32_t> cps;
		for(char32_t c = hi << 12; c < ((hi + 1) << 12); ++c) {
			if(c >= 0xd800 && c < 0xe000) continue;
			cps.push_back(c);
		}
		checkStr(cps); // in order
		std::reverse(cps.begin(), cps.end());
		checkStr(cps);
		for(auto i = cps.size(); i > 1; --i) std::swap(cps[i - 1], cps[rng.below(i)]);
		for(std::size_t i = 0; i < cps.size(); i += 64) checkStr({cps.begin() + i, cps.begin() + std::min(cps.size(), i + 64)});
		vh::nontrivial(hi);
	});
	vh::section("single", 3000, 0x110000, [](vh::Rng& rng, std::uint64_t i) {
		char32_t c = vh::run().thorough ? char32_t(i) : randomCp(rng);
		if(c >= 0xd800 && c < 0xe000) return;
		checkStr({c}); // may be first and last of the string
		vh::nontrivial(c);
	});
	vh::section("empty", 1, 1, [](vh::Rng&, std::uint64_t) {
		checkStr({});
		VH_CHECK(nytl::toUtf8(std::u16string_view{}).empty() && nytl::toUtf8(std::u32string_view{}).empty() &&
			nytl::toUtf16(std::string_view{}).empty() && nytl::toUtf16(std::u32string_view{}).empty() &&
			nytl::toUtf32(std::string_view{}).empty() && nytl::toUtf32(std::u16string_view{}).empty(), "empty", "default views");
		vh::nontrivial(1);
	});
#else
	vh::section("random", 6000, 600000, [](vh::Rng& rng, std::uint64_t) {
		auto n = rng.below(rng.chance(1, 10) ? 1200 : 50);
		unsigned cls = rng.below(6);
		std::vector<char32_t> cps;
		vh::Hash h;
		for(std::size_t i = 0; i < n; ++i) { cps.push_back(cls < 4 && !rng.chance(1, 10) ? randomCp(rng, cls) : randomCp(rng)); h.add(cps.back()); }
		if(rng.chance(1, 10)) cps.insert(cps.begin(), 0xfeff);
		if(rng.chance(1, 10)) cps.push_back(rng.chance(1, 2) ? 0 : 0x10000);
		checkStr(cps);
		if(n > 1) vh::nontrivial(h.v);
		if(n > 1 && n < 12 && rng.chance(1, 20)) { std::string t; char b[20]; for(auto c : cps) { std::snprintf(b, sizeof(b), " U+%04X", unsigned(c)); t += b; } vh::sample("characters" + t, 5); }
	});
	vh::section("long", 10, 200, [](vh::Rng& rng, std::uint64_t k) {
		std::size_t lens[] = {65535, 65536, 65537, 16384, 32768, 43691, 21845};
		auto n = k < 7 ? lens[k] : rng.below(100000);
		unsigned cls = rng.below(6);
		std::vector<char32_t> cps;
		for(std::size_t i = 0; i < n; ++i) cps.push_back(cls < 4 ? randomCp(rng, cls) : randomCp(rng));
		checkStr(cps);
		vh::nontrivial(vh::Hash().add(n).add(cls).v);
	});
#endif
	return vh::finish();
}
