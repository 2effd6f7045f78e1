// C14: accesses outside of byte buffers are always caught by the assert handler.
#include <cstddef>
struct AssertHit {};
static unsigned long hits = 0;
// Like the documented custom handlers: evaluates the condition and leaves
// the function when it does not hold.
#define NYTL_BYTES_ASSERT(x) if(!(x)) { ++hits; throw AssertHit(); }
#include <nytl/bytes.hpp>
#include "common.hpp"
#include <array>
#include <memory>
#include <functional>

using nytl::ReadBuf;
using nytl::WriteBuf;
using nytl::span;

struct P3 { char a[3]; };
struct P12 { std::uint32_t a, b, c; };
template<std::size_t N> struct Blob { unsigned char b[N]; };

// Runs op and returns whether the handler was called.
template<typename F> bool fails(F&& op) {
	auto before = hits;
	bool thrown = false;
	try { op(); } catch(const AssertHit&) { thrown = true; }
	VH_CHECK(thrown == (hits == before + 1), "handler", "handler was called " << (hits - before) << " times");
	return hits != before;
}

struct Mem {
	std::size_t n;
	std::unique_ptr<std::byte[]> p; // exactly sized, ASan sees each access outside
	std::vector<std::byte> model;
	Mem(std::size_t n, vh::Rng& rng) : n(n), p(new std::byte[n]), model(n) {
		for(std::size_t i = 0; i < n; ++i) p[i] = model[i] = std::byte(rng.next());
	}
	bool same() const { return std::equal(model.begin(), model.end(), p.get()); }
	ReadBuf r() const { return {p.get(), n}; }
	WriteBuf w() { return {p.get(), n}; }
};

template<typename B> bool is(const B& b, const std::byte* p, std::size_t n) { return b.data() == p && b.size() == n; }

#define EXPECT(failed, should, name, have, need) \
	VH_CHECK((failed) == (should), name, (should ? "not caught: " : "false alarm: ") << need << " bytes with a buffer of " << have)

// buffer of n bytes, operation on m bytes
void ranges(std::size_t n, std::size_t m, vh::Rng& rng) {
	bool bad = m > n;
	{ // write
		Mem dst(n, rng), src(m, rng);
		auto b = dst.w();
		bool f = fails([&] { nytl::write(b, src.r()); });
		EXPECT(f, bad, "write", n, m);
		if(!bad) std::copy(src.model.begin(), src.model.end(), dst.model.begin());
		VH_CHECK(dst.same() && src.same(), "write", "memory after writing " << m << " to " << n);
		VH_CHECK(bad ? is(b, dst.p.get(), n) : is(b, dst.p.get() + m, n - m), "write", "buffer after writing " << m << " to " << n);
	}
	{ // write of ranges
		Mem dst(n, rng);
		std::vector<std::uint8_t> v(m, 0x42);
		v.shrink_to_fit();
		for(int k = 0; k < 2; ++k) {
			auto b = dst.w();
			bool f = fails([&] { if(k) nytl::write(b, v); else nytl::write(b, span<std::uint8_t>(v)); });
			EXPECT(f, bad, k ? "write-vector" : "write-span", n, m);
			if(!bad) std::fill(dst.model.begin(), dst.model.begin() + m, std::byte(0x42));
			VH_CHECK(dst.same(), "write-vector", "memory after writing " << m << " to " << n);
			VH_CHECK(bad ? is(b, dst.p.get(), n) : is(b, dst.p.get() + m, n - m), "write-vector", "buffer");
		}
		if(m % 4 == 0) {
			std::vector<std::uint32_t> w(m / 4, 0x01020304);
			auto b = dst.w();
			bool f = fails([&] { nytl::write(b, w); });
			EXPECT(f, bad, "write-vector", n, m);
			VH_CHECK(bad ? is(b, dst.p.get(), n) && dst.same() : is(b, dst.p.get() + m, n - m), "write-vector", "buffer");
		}
	}
	{ // read
		Mem src(n, rng), dst(m, rng);
		auto b = src.r();
		bool f = fails([&] { nytl::read(b, dst.w()); });
		EXPECT(f, bad, "read", n, m);
		if(!bad) std::copy(src.model.begin(), src.model.begin() + m, dst.model.begin());
		VH_CHECK(dst.same() && src.same(), "read", "memory after reading " << m << " of " << n);
		VH_CHECK(bad ? is(b, src.p.get(), n) : is(b, src.p.get() + m, n - m), "read", "buffer after reading " << m << " of " << n);
	}
	{ // read of ranges
		Mem src(n, rng);
		std::vector<std::uint8_t> v(m, 0x42);
		v.shrink_to_fit();
		auto b = src.r();
		bool f = fails([&] { nytl::read(b, v); });
		EXPECT(f, bad, "read-vector", n, m);
		VH_CHECK(bad ? v == std::vector<std::uint8_t>(m, 0x42) : (m == 0 || std::memcmp(v.data(), src.p.get(), m) == 0), "read-vector", "content");
		VH_CHECK(bad ? is(b, src.p.get(), n) : is(b, src.p.get() + m, n - m), "read-vector", "buffer");
		b = src.r();
		span<std::uint8_t> s(v);
		f = fails([&] { nytl::read(b, s); });
		EXPECT(f, bad, "read-span", n, m);
		VH_CHECK(bad ? is(b, src.p.get(), n) : is(b, src.p.get() + m, n - m), "read-span", "buffer");
		if(m % 2 == 0) {
			std::vector<std::uint16_t> w(m / 2, 0x4242);
			b = src.r();
			f = fails([&] { nytl::read(b, w); });
			EXPECT(f, bad, "read-vector", n, m);
			VH_CHECK(bad ? is(b, src.p.get(), n) && w == std::vector<std::uint16_t>(m / 2, 0x4242) : is(b, src.p.get() + m, n - m), "read-vector", "buffer");
		}
	}
	{ // skip
		Mem mem(n, rng);
		auto r = mem.r();
		auto w = mem.w();
		bool f = fails([&] { nytl::skip(r, m); });
		EXPECT(f, bad, "skip", n, m);
		VH_CHECK(bad ? is(r, mem.p.get(), n) : is(r, mem.p.get() + m, n - m), "skip", "read buffer");
		f = fails([&] { nytl::skip(w, m); });
		EXPECT(f, bad, "skip", n, m);
		VH_CHECK(bad ? is(w, mem.p.get(), n) : is(w, mem.p.get() + m, n - m), "skip", "write buffer");
		VH_CHECK(mem.same(), "skip", "memory changed");
	}
	{ // copy
		Mem src(n, rng), dst(m, rng);
		bool f = fails([&] { nytl::copy(src.r(), dst.w()); });
		EXPECT(f, n != m, "copy", n, m);
		if(n == m) dst.model = src.model;
		VH_CHECK(dst.same() && src.same(), "copy", "memory after copying " << n << " to " << m);
	}
	vh::nontrivial(vh::Hash().add(n).add(m).v);
}

template<typename T> void values(std::size_t n, vh::Rng& rng) {
	constexpr auto m = sizeof(T);
	bool bad = m > n;
	auto fill = [](T& t, int c) { std::memset(static_cast<void*>(&t), c, sizeof(t)); };
	auto filled = [](const T& t, int c) { auto p = reinterpret_cast<const unsigned char*>(&t); for(std::size_t i = 0; i < m; ++i) if(p[i] != c) return false; return true; };
	Mem mem(n, rng);
	auto eq = [&](const T& t) { return std::memcmp(&t, mem.p.get(), m) == 0; };
	auto kept = [&](const ReadBuf& b) { return is(b, mem.p.get(), n) && mem.same(); };
	auto adv = [&](const ReadBuf& b) { return is(b, mem.p.get() + m, n - m) && mem.same(); };
	T t;
	auto b = mem.r();
	fill(t, 0x5c);
	EXPECT(fails([&] { t = nytl::read<T>(b); }), bad, "read-value", n, m);
	VH_CHECK(bad ? kept(b) && filled(t, 0x5c) : adv(b) && eq(t), "read-value", "buffer or value, reading " << m << " of " << n);
	b = mem.r();
	fill(t, 0x5c);
	EXPECT(fails([&] { nytl::read(b, t); }), bad, "read-ref", n, m);
	VH_CHECK(bad ? kept(b) && filled(t, 0x5c) : adv(b) && eq(t), "read-ref", "buffer or value, reading " << m << " of " << n);
	b = mem.r();
	fill(t, 0x5c);
	EXPECT(fails([&] { nytl::read(b, nytl::bytes(t)); }), bad, "read-bytes", n, m);
	VH_CHECK(bad ? kept(b) && filled(t, 0x5c) : adv(b) && eq(t), "read-bytes", "buffer or value, reading " << m << " of " << n);
	b = mem.r();
	fill(t, 0x5c);
	EXPECT(fails([&] { t = nytl::copy<T>(b); }), bad, "copy-value", n, m);
	VH_CHECK(bad ? kept(b) && filled(t, 0x5c) : kept(b) && eq(t), "copy-value", "buffer or value");
	fill(t, 0x5c);
	EXPECT(fails([&] { t = nytl::copyExact<T>(b); }), m != n, "copyExact", n, m);
	VH_CHECK(m != n ? kept(b) && filled(t, 0x5c) : kept(b) && eq(t), "copyExact", "buffer or value");
	fill(t, 0x5c);
	EXPECT(fails([&] { nytl::copy(b, nytl::bytes(t)); }), m != n, "copy-bytes", n, m);
	VH_CHECK(m != n ? kept(b) && filled(t, 0x5c) : kept(b) && eq(t), "copy-bytes", "buffer or value");

	auto w = mem.w();
	fill(t, 0x77);
	EXPECT(fails([&] { nytl::write(w, t); }), bad, "write-value", n, m);
	if(!bad) std::memset(mem.model.data(), 0x77, m);
	VH_CHECK(mem.same() && (bad ? is(w, mem.p.get(), n) : is(w, mem.p.get() + m, n - m)), "write-value", "buffer or memory, writing " << m << " to " << n);
	vh::nontrivial(vh::Hash().add(n).add(m).add(1).v);
}

// sizes that do not fit by far: the ranges can not really exist, but nothing
// may be accessed
void huge(std::size_t n, vh::Rng& rng) {
	const std::size_t sizes[] = {std::size_t(1) << 31, (std::size_t(1) << 31) - 1, std::size_t(1) << 32, (std::size_t(1) << 32) + n,
		(std::size_t(1) << 32) - 1, (std::size_t(1) << 33) + n / 2, std::size_t(1) << 40, std::size_t(-1), std::size_t(-2), std::size_t(-1) - n, std::size_t(0) - n,
		std::size_t(1) << 63, (std::size_t(1) << 63) - 1, (std::size_t(1) << 63) + n, (std::size_t(1) << 16) + n, n + 1 + rng.below(1000000000), rng.next() | (std::size_t(1) << 35)};
	for(auto m : sizes) {
		if(m <= n) continue;
		Mem mem(n, rng);
		auto fake = mem.p.get();
		auto r = mem.r();
		auto w = mem.w();
		auto ok = [&] { return is(r, mem.p.get(), n) && is(w, mem.p.get(), n) && mem.same(); };
		EXPECT(fails([&] { nytl::skip(r, m); }), true, "skip", n, m);
		EXPECT(fails([&] { nytl::skip(w, m); }), true, "skip", n, m);
		VH_CHECK(ok(), "skip", "huge skip changed the buffer");
		EXPECT(fails([&] { nytl::write(w, ReadBuf(fake, m)); }), true, "write", n, m);
		EXPECT(fails([&] { nytl::read(r, WriteBuf(fake, m)); }), true, "read", n, m);
		EXPECT(fails([&] { nytl::copy(ReadBuf(fake, m), w); }), true, "copy", m, n);
		EXPECT(fails([&] { nytl::copy(r, WriteBuf(fake, m)); }), true, "copy", n, m);
		if(n == 5) {
			EXPECT(fails([&] { nytl::copyExact<Blob<5>>(ReadBuf(fake, m)); }), true, "copyExact", m, 5);
		} else if(n == 8) {
			EXPECT(fails([&] { nytl::copyExact<std::uint64_t>(ReadBuf(fake, m)); }), true, "copyExact", m, 8);
		}
		if(n >= 8 && m < (std::size_t(1) << 62)) { // large buffers do fit
			auto big = ReadBuf(fake, m);
			EXPECT(fails([&] { VH_CHECK(nytl::copy<std::uint64_t>(big) == nytl::copy<std::uint64_t>(r), "copy-value", ""); }), false, "copy-value", m, 8);
			auto b2 = big;
			EXPECT(fails([&] { nytl::read<std::uint64_t>(b2); }), false, "read-value", m, 8);
			VH_CHECK(is(b2, fake + 8, m - 8), "read-value", "huge buffer after reading: " << b2.size());
			EXPECT(fails([&] { nytl::skip(big, m); }), false, "skip", m, m);
			VH_CHECK(is(big, fake + m, 0), "skip", "huge skip");
		}
		VH_CHECK(ok(), "huge", "failed operation changed something");
		vh::nontrivial(vh::Hash().add(n).add(m).v);
	}
}

// sequences: operations that fail change nothing, all others advance
void sequence(vh::Rng& rng) {
	auto n = rng.below(200);
	Mem mem(n, rng);
	auto w = mem.w();
	auto r = mem.r();
	std::size_t wo = 0, ro = 0;
	vh::Hash h;
	for(int k = 0; k < 60; ++k) {
		auto left = rng.chance(1, 2) ? n - wo : n - ro;
		auto m = rng.chance(1, 3) ? left + rng.below(5) - std::min<std::size_t>(left, 2) : rng.below(20);
		h.add(m);
		switch(rng.below(4)) {
			case 0: {
				Mem src(m, rng);
				EXPECT(fails([&] { nytl::write(w, src.r()); }), m > n - wo, "write", n - wo, m);
				if(m <= n - wo) { std::copy(src.model.begin(), src.model.end(), mem.model.begin() + wo); wo += m; }
				break;
			}
			case 1: EXPECT(fails([&] { nytl::skip(w, m); }), m > n - wo, "skip", n - wo, m); if(m <= n - wo) wo += m; break;
			case 2: EXPECT(fails([&] { nytl::skip(r, m); }), m > n - ro, "skip", n - ro, m); if(m <= n - ro) ro += m; break;
			case 3: {
				Mem dst(m, rng);
				EXPECT(fails([&] { nytl::read(r, dst.w()); }), m > n - ro, "read", n - ro, m);
				if(m <= n - ro) { std::copy(mem.model.begin() + ro, mem.model.begin() + ro + m, dst.model.begin()); ro += m; }
				VH_CHECK(dst.same(), "read", "destination");
				break;
			}
		}
		bool ok = is(w, mem.p.get() + wo, n - wo) && is(r, mem.p.get() + ro, n - ro) && mem.same();
		VH_CHECK(ok, "state", "buffers after operation " << k);
		if(!ok) return;
	}
	vh::nontrivial(h.v);
	if(rng.chance(1, 100)) vh::sample("sequence of operations on buffers of " + std::to_string(n) + " bytes, stopped at read offset " + std::to_string(ro) + ", write offset " + std::to_string(wo), 4);
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
#if PART == 0
	vh::section("exhaustive", 1, 20, [](vh::Rng& rng, std::uint64_t) {
		for(std::size_t n = 0; n <= 40; ++n) for(std::size_t m = 0; m <= 48; ++m) ranges(n, m, rng);
	});
	vh::section("larger", 600, 30000, [](vh::Rng& rng, std::uint64_t) {
		std::size_t n = rng.below(rng.chance(1, 4) ? 70000 : 600);
		std::size_t m = rng.chance(1, 2) ? rng.below(700) : rng.chance(1, 4) ? n + 256 : rng.chance(1, 4) ? n + 65536 : n + rng.below(5) - std::min<std::size_t>(n, 2);
		ranges(n, m, rng);
	});
#elif PART == 1
	vh::section("values", 20, 1000, [](vh::Rng& rng, std::uint64_t) {
		for(std::size_t n = 0; n <= 40; ++n) {
			values<std::uint8_t>(n, rng); values<std::uint16_t>(n, rng); values<P3>(n, rng); values<float>(n, rng);
			values<Blob<5>>(n, rng); values<std::uint64_t>(n, rng); values<P12>(n, rng); values<Blob<16>>(n, rng); values<Blob<33>>(n, rng);
		}
		for(std::size_t n : {0, 1, 255, 256, 298, 299, 300, 301, 302, 512, 556, 600}) values<Blob<300>>(n, rng);
		for(std::size_t n : {0, 1, 65535, 65536, 69999, 70000, 70001, 135536}) values<Blob<70000>>(n, rng);
	});
#elif PART == 2
	vh::section("huge", 10, 400, [](vh::Rng& rng, std::uint64_t) {
		for(std::size_t n = 0; n <= 40; ++n) huge(n, rng);
	});
#elif PART == 3
	vh::section("sequence", 800, 300000, [](vh::Rng& rng, std::uint64_t) { sequence(rng); });
#endif
	vh::count("handler_calls", hits);
	return vh::finish();
}
