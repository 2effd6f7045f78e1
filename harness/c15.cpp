// C15: charCount and nth against an own utf8 encoder.
#include "common.hpp"
#include "utfmodel.hpp"
#include <nytl/utf.hpp>
#include <memory>

// view on exactly sized, not null-terminated memory
struct Exact {
	std::unique_ptr<char[]> p;
	std::size_t n;
	explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
	std::string_view view() const { return {p.get(), n}; }
};

struct Str {
	std::vector<char32_t> cps;
	std::vector<std::size_t> offs; // byte offset of each character, and the size
	std::string bytes;
	void add(char32_t c) { cps.push_back(c); offs.push_back(bytes.size()); enc8(bytes, c); }
	std::size_t len(std::size_t k) const { return (k + 1 < offs.size() ? offs[k + 1] : bytes.size()) - offs[k]; }
};

template<typename F> bool throwsRange(F&& f) {
	try { f(); } catch(const std::out_of_range&) { return true; }
	return false;
}

void checkAt(const Str& s, const Exact& ex, std::string& str, std::size_t n) {
	vh::count("accesses");
	auto v = ex.view();
	auto len = s.len(n), off = s.offs[n];
	auto a = nytl::nth(v, n);
	bool ok = std::equal(a.begin(), a.begin() + len, s.bytes.begin() + off);
	VH_CHECK(ok, "nth-array", "character " << n << " of " << s.cps.size() << " (U+" << std::hex << std::uint32_t(s.cps[n]) << ")");
	for(auto i = len; i < a.size(); ++i) VH_CHECK(a[i] == 0, "nth-array-termination", "byte " << i << " of character " << n << " with " << len << " bytes");
	auto b = nytl::nth(std::string_view(str), n);
	VH_CHECK(a == b, "nth-array", "string and exact view");
	std::uint8_t size = 77;
	const char& c = nytl::nth(v, n, size);
	VH_CHECK(&c == v.data() + off, "nth-const-ref", "character " << n << ": offset " << (&c - v.data()) << " instead of " << off);
	VH_CHECK(size == len, "nth-const-ref-size", "character " << n << ": " << unsigned(size) << " instead of " << len);
	size = 77;
	char& m = nytl::nth(str, n, size);
	VH_CHECK(&m == str.data() + off, "nth-ref", "character " << n << ": offset " << (&m - str.data()) << " instead of " << off);
	VH_CHECK(size == len, "nth-ref-size", "character " << n << ": " << unsigned(size) << " instead of " << len);
	const std::string& cstr = str;
	const char& d = nytl::nth(cstr, n, size = 77);
	VH_CHECK(&d == str.data() + off && size == len, "nth-const-ref", "const std::string, character " << n);
}

void checkOut(const Exact& ex, std::string& str, std::size_t n) {
	auto v = ex.view();
	std::uint8_t size = 0;
	VH_CHECK(throwsRange([&] { nytl::nth(v, n); }), "out-of-range", "array overload with n = " << n << " for " << v.size() << " bytes");
	VH_CHECK(throwsRange([&] { nytl::nth(v, n, size); }), "out-of-range", "const reference overload with n = " << n << " for " << v.size() << " bytes");
	VH_CHECK(throwsRange([&] { nytl::nth(str, n, size); }), "out-of-range", "reference overload with n = " << n << " for " << v.size() << " bytes");
}

void checkStr(const Str& s, vh::Rng& rng, bool all) {
	Exact ex(s.bytes);
	std::string str = s.bytes;
	str.shrink_to_fit();
	auto n = s.cps.size();
	VH_CHECK(nytl::charCount(ex.view()) == n, "charCount", nytl::charCount(ex.view()) << " instead of " << n << " for " << s.bytes.size() << " bytes");
	VH_CHECK(nytl::charCount(str) == n, "charCount", "of std::string: " << nytl::charCount(str));
	if(all) for(std::size_t i = 0; i < n; ++i) checkAt(s, ex, str, i);
	else {
		for(std::size_t i : {std::size_t(0), std::size_t(1), n / 2, n - 1, n - 2, std::size_t(127), std::size_t(128), std::size_t(255), std::size_t(256),
			std::size_t(257), std::size_t(65535), std::size_t(65536), std::size_t(65537), rng.below(n), rng.below(n)}) {
			if(i < n) checkAt(s, ex, str, i);
		}
	}
	for(auto i : {n, n + 1, s.bytes.size(), s.bytes.size() + 5, n + 256, n + 65536, n + (std::size_t(1) << 32), std::size_t(1) << 32, (std::size_t(1) << 32) + n / 2,
		std::size_t(1) << 63, std::size_t(-1), std::size_t(-1) - n, std::size_t(n + rng.below(1000))}) {
		if(i >= n && (i == n || rng.chance(1, 6))) checkOut(ex, str, i);
	}
	// the reference overload allows to change the character
	if(n) {
		auto i = rng.below(n);
		std::uint8_t size;
		auto changed = str;
		char& c = nytl::nth(changed, i, size);
		if(size == 1) {
			c = '#';
			auto want = s.bytes;
			want[s.offs[i]] = '#';
			VH_CHECK(changed == want, "nth-ref", "writing through the reference");
		}
	}
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
#if PART == 0
	vh::section("single", 0x110, 0x110, [](vh::Rng& rng, std::uint64_t hi) { // every code point
		for(char32_t c = hi << 12; c < ((hi + 1) << 12); ++c) {
			if(c >= 0xd800 && c < 0xe000) continue;
			Str s; s.add(c);
			Exact ex(s.bytes);
			auto v = ex.view();
			VH_CHECK(nytl::charCount(v) == 1, "charCount", "U+" << std::hex << std::uint32_t(c));
			auto a = nytl::nth(v, 0);
			VH_CHECK(std::string(a.data(), v.size()) == s.bytes && a[v.size()] == 0 && a[4] == 0, "nth-array", "U+" << std::hex << std::uint32_t(c));
			std::uint8_t size;
			VH_CHECK(&nytl::nth(v, 0, size) == v.data() && size == v.size(), "nth-const-ref", "U+" << std::hex << std::uint32_t(c));
			std::string str = s.bytes;
			VH_CHECK(&nytl::nth(str, 0, size) == str.data() && size == v.size(), "nth-ref", "U+" << std::hex << std::uint32_t(c));
			if(c % 64 == 0) {
				Str t;
				t.add(randomCp(rng)); t.add(c); t.add(randomCp(rng));
				checkStr(t, rng, true);
			}
		}
		vh::nontrivial(hi);
	});
	vh::section("empty", 1, 1, [](vh::Rng& rng, std::uint64_t) {
		Str s;
		checkStr(s, rng, true);
		VH_CHECK(nytl::charCount({}) == 0, "charCount", "default view");
		std::uint8_t size;
		VH_CHECK(throwsRange([&] { nytl::nth({}, 0); }), "out-of-range", "default view");
		VH_CHECK(throwsRange([&] { nytl::nth(std::string_view{}, 0, size); }), "out-of-range", "default view");
		vh::nontrivial(1);
	});
#elif PART == 1
	vh::section("random", 8000, 1000000, [](vh::Rng& rng, std::uint64_t) {
		Str s;
		auto n = rng.below(rng.chance(1, 20) ? 400 : 40);
		unsigned cls = rng.below(6);
		vh::Hash h;
		for(std::size_t i = 0; i < n; ++i) { auto c = cls < 4 ? randomCp(rng, cls) : randomCp(rng); s.add(c); h.add(c); }
		checkStr(s, rng, n < 60);
		if(n > 1) vh::nontrivial(h.v);
		if(n > 1 && n < 12 && rng.chance(1, 20)) vh::sample(std::to_string(n) + " characters: " + [&] { std::string t; char b[4]; for(auto c : s.bytes) { std::snprintf(b, sizeof(b), "%02x ", (unsigned char)(c)); t += b; } return t; }(), 5);
	});
	vh::section("long", 12, 300, [](vh::Rng& rng, std::uint64_t k) {
		Str s;
		std::size_t lens[] = {255, 256, 257, 65535, 65536, 65537, 66000, 70000, 131072, 131073, 100000, 200000};
		auto n = k < 12 ? lens[k] : rng.below(300000);
		unsigned cls = rng.below(6);
		for(std::size_t i = 0; i < n; ++i) s.add(cls < 4 ? randomCp(rng, cls) : randomCp(rng));
		checkStr(s, rng, false);
		vh::nontrivial(vh::Hash().add(n).add(cls).v);
	});
#elif PART == 2 // more characters than fit into 32 bits
	vh::section("huge", 1, 1, [](vh::Rng& rng, std::uint64_t) {
		std::size_t n = (std::size_t(1) << 32) + 100, bytes = n + 1;
		void* p = ::mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(p == MAP_FAILED) { vh::count("huge_not_possible"); return; }
		auto c = static_cast<char*>(p);
		c[0] = 'a';
		c[5] = 'b';
		c[bytes - 4] = 'x';
		c[bytes - 3] = char(0xc3);
		c[bytes - 2] = char(0xbc);
		c[bytes - 1] = 'e';
		std::string_view v(c, bytes);
		auto big = std::size_t(1) << 32;
		VH_CHECK(nytl::charCount(v) == n, "charCount", nytl::charCount(v));
		auto a = nytl::nth(v, n - 2);
		VH_CHECK(a[0] == char(0xc3) && a[1] == char(0xbc) && a[2] == 0, "nth-array", "n = " << n - 2);
		std::uint8_t size;
		auto off = &nytl::nth(v, n - 1, size) - c;
		VH_CHECK(std::size_t(off) == bytes - 1 && size == 1, "nth-const-ref", off);
		off = &nytl::nth(v, big + 5, size) - c;
		VH_CHECK(std::size_t(off) == big + 5 && size == 1, "nth-const-ref", off);
		VH_CHECK(throwsRange([&] { nytl::nth(v, n); }), "out-of-range", "huge");
		::munmap(p, bytes);
		vh::nontrivial(1);
	});
#elif PART == 3
	vh::section("huge-string", 1, 1, [](vh::Rng& rng, std::uint64_t) {
		std::string str;
		std::size_t n = (std::size_t(1) << 32) + 20;
		try { str.resize(n, 'a'); } catch(const std::bad_alloc&) { vh::count("huge_not_possible"); return; }
		std::uint8_t size;
		auto off = &nytl::nth(str, n - 3, size) - str.data();
		VH_CHECK(std::size_t(off) == n - 3 && size == 1, "nth-ref", off);
		VH_CHECK(throwsRange([&] { nytl::nth(str, n, size); }), "out-of-range", "huge");
		vh::nontrivial(1);
	});
#endif
	return vh::finish();
}
