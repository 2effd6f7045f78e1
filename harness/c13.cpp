// C13: everything written to byte buffers is read back identically.
#include "common.hpp"
#include <nytl/bytes.hpp>
#include <nytl/vec.hpp>
#include <nytl/mat.hpp>
#include <nytl/rect.hpp>
#include <nytl/quaternion.hpp>
#include <array>
#include <memory>

using nytl::ReadBuf;
using nytl::WriteBuf;
using nytl::DynWriteBuf;
using nytl::span;
using Bytes = std::vector<std::byte>;

enum class E8 : std::uint8_t { a, b = 200 };
enum class E16 : std::int16_t {};
enum E32 : std::uint32_t { e32 };
struct Padded { char c; double d; short s; int i; char e; };
struct Empty {};
struct Nested { Padded p; std::array<std::uint16_t, 3> a; void* ptr; };
struct Big { std::array<std::uint32_t, 300> v; };
#pragma pack(push, 1)
struct Packed { char c; std::uint64_t u; std::uint16_t s; };
#pragma pack(pop)
union Uni { std::uint32_t u; float f; unsigned char b[6]; };
struct Bits { unsigned a : 3; unsigned b : 13; std::uint8_t c; };
using IntArr = int[4];
using ByteArr = std::uint8_t[7];
using Arr2 = std::uint16_t[2][3];

template<typename T> bool sameValue(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
inline bool sameValue(const Padded& a, const Padded& b) {
	return a.c == b.c && std::memcmp(&a.d, &b.d, 8) == 0 && a.s == b.s && a.i == b.i && a.e == b.e;
}
inline bool sameValue(const Nested& a, const Nested& b) { return sameValue(a.p, b.p) && a.a == b.a && a.ptr == b.ptr; }
inline bool sameValue(const Empty&, const Empty&) { return true; }
inline bool sameValue(const Bits& a, const Bits& b) { return a.a == b.a && a.b == b.b && a.c == b.c; }
inline bool sameValue(const long double& a, const long double& b) { return std::memcmp(&a, &b, 10) == 0; }

// random representation
template<typename T> void randomize(T& t, vh::Rng& rng) {
	auto p = reinterpret_cast<unsigned char*>(&t);
	unsigned mode = rng.below(4);
	for(std::size_t i = 0; i < sizeof(T); ++i) p[i] = mode == 0 ? 0 : mode == 1 ? 0xff : (unsigned char) rng.next();
}
inline void randomize(bool& b, vh::Rng& rng) { b = rng.below(2); }
inline void randomize(long double& b, vh::Rng& rng) { b = rng.normal() * 1e300L; }

struct Item {
	Bytes expect; // the bytes that have to appear in the buffer
	virtual ~Item() = default;
	virtual void write(WriteBuf&) = 0;
	virtual void write(DynWriteBuf&) = 0;
	virtual void read(ReadBuf&, vh::Rng&) = 0;
	virtual const char* what() const = 0;
};

template<typename A, typename B> bool same(const A* a, const B* b, std::size_t n) {
	return n == 0 || std::memcmp(a, b, n) == 0;
}

inline bool at(const ReadBuf& b, const std::byte* p, std::size_t n) { return b.data() == p && b.size() == n; }

template<typename T> struct Scalar : Item {
	std::unique_ptr<T> obj {new T};
	Scalar(vh::Rng& rng) {
		randomize(*obj, rng);
		auto p = reinterpret_cast<std::byte*>(&*obj);
		expect.assign(p, p + sizeof(T));
		auto& ref = *obj;
		const auto& cref = ref;
		WriteBuf w = nytl::bytes(ref);
		ReadBuf r = nytl::bytes(cref);
		VH_CHECK(w.data() == p && w.size() == sizeof(T), "bytes", "of mutable object: " << w.size() << " bytes for " << sizeof(T));
		VH_CHECK(r.data() == p && r.size() == sizeof(T), "bytes", "of const object: " << r.size() << " bytes for " << sizeof(T));
	}
	void write(WriteBuf& b) override { nytl::write(b, *obj); }
	void write(DynWriteBuf& b) override { nytl::write(b, *obj); }
	const char* what() const override { return "object"; }
	void read(ReadBuf& src, vh::Rng& rng) override {
		auto s = sizeof(T);
		auto p = src.data();
		auto n = src.size();
		auto cmp = [&](const T& t, const char* how) { VH_CHECK(sameValue(t, *obj), "value", how << " of an object of size " << s << " differs"); };
		// does not advance
		T dummy;
		nytl::copy(src.first(s), nytl::bytes(dummy));
		cmp(dummy, "copy(src, dst)");
		if constexpr(!std::is_array_v<T>) {
			cmp(nytl::copy<T>(src), "copy<T>");
			cmp(nytl::copy<T>(src.first(s)), "copy<T>");
			cmp(nytl::copyExact<T>(src.first(s)), "copyExact<T>");
		}
		VH_CHECK(at(src, p, n), "advance", "copy advanced the buffer by " << (src.data() - p));
		switch(rng.below(5)) {
			case 0:
				if constexpr(!std::is_array_v<T>) { cmp(nytl::read<T>(src), "read<T>"); break; }
			case 1: { // surrounded by other memory
				struct { unsigned char before[32]; T t; unsigned char after[32]; } x;
				std::memset(static_cast<void*>(&x), 0xa7, sizeof(x));
				nytl::read(src, x.t);
				cmp(x.t, "read(src, T&)");
				bool ok = true;
				for(auto c : x.before) ok &= c == 0xa7;
				for(auto c : x.after) ok &= c == 0xa7;
				VH_CHECK(ok, "untouched", "read modified bytes outside of the object");
				break;
			}
			case 2: {
				std::unique_ptr<T> t(new T);
				nytl::read(src, nytl::bytes(*t));
				cmp(*t, "read(src, bytes)");
				break;
			}
			case 3: { // byte-wise
				std::unique_ptr<T> t(new T);
				auto w = nytl::bytes(*t);
				auto k = rng.below(s + 1);
				nytl::read(src, w.first(k));
				VH_CHECK(at(src, p + k, n - k), "advance", "read of " << k << " bytes advanced by " << (src.data() - p));
				nytl::read(src, w.subspan(k));
				cmp(*t, "read in two parts");
				break;
			}
			case 4: nytl::skip(src, s); break;
		}
	}
};


// arrays as class members so that new works
template<typename A> struct ArrItem : Item {
	struct W { A a; };
	std::unique_ptr<W> obj {new W};
	ArrItem(vh::Rng& rng) {
		randomize(*obj, rng);
		auto p = reinterpret_cast<std::byte*>(&obj->a);
		expect.assign(p, p + sizeof(A));
	}
	void write(WriteBuf& b) override { nytl::write(b, obj->a); }
	void write(DynWriteBuf& b) override { nytl::write(b, obj->a); }
	const char* what() const override { return "array"; }
	void read(ReadBuf& src, vh::Rng& rng) override {
		auto w = std::make_unique<W>();
		if(rng.chance(1, 2)) nytl::read(src, w->a);
		else nytl::read(src, nytl::bytes(w->a));
		VH_CHECK(same(&w->a, &obj->a, sizeof(A)), "value", "read of an array of size " << sizeof(A) << " differs");
	}
};

template<typename T> struct Range : Item {
	std::vector<T> vec;
	unsigned mode;
	Range(vh::Rng& rng) : mode(rng.below(9)) {
		std::size_t n = rng.chance(1, 6) ? 0 : rng.chance(1, 30) ? rng.below(9000) : rng.below(20);
		n = std::min<std::size_t>(n, 36000 / sizeof(T));
		constexpr bool padded = std::is_same_v<T, Padded> || std::is_same_v<T, Nested> || std::is_same_v<T, Bits>
			|| std::is_same_v<T, Empty> || std::is_same_v<T, long double>;
		if(mode == 6 && padded) mode = 0; // copies of the elements do not keep padding
		if(mode == 6) n = 3;
		if(mode == 7) n = 5;
		vec.resize(n);
		vec.shrink_to_fit();
		for(auto& v : vec) randomize(v, rng);
		auto p = reinterpret_cast<std::byte*>(vec.data());
		if(n) expect.assign(p, p + n * sizeof(T));
		const auto& cvec = vec;
		WriteBuf w = nytl::bytes(vec);
		ReadBuf r = nytl::bytes(cvec);
		WriteBuf ws = nytl::bytes(span<T>(vec));
		ReadBuf rs = nytl::bytes(span<const T>(vec));
		VH_CHECK(w.data() == p && w.size() == n * sizeof(T), "bytes", "of vector: " << w.size());
		VH_CHECK(r.data() == p && r.size() == n * sizeof(T), "bytes", "of const vector: " << r.size());
		VH_CHECK(ws.data() == p && ws.size() == n * sizeof(T), "bytes", "of span: " << ws.size());
		VH_CHECK(rs.data() == p && rs.size() == n * sizeof(T), "bytes", "of const span: " << rs.size());
		if(n >= 5) {
			WriteBuf wf = nytl::bytes(span<T, 5>(vec.data(), 5));
			ReadBuf rf = nytl::bytes(span<const T, 5>(vec.data(), 5));
			VH_CHECK(wf.data() == p && wf.size() == 5 * sizeof(T), "bytes", "of fixed span: " << wf.size());
			VH_CHECK(rf.data() == p && rf.size() == 5 * sizeof(T), "bytes", "of const fixed span: " << rf.size());
		}
	}
	template<typename B> void writeTo(B& b) {
		switch(mode) {
			case 0: nytl::write(b, vec); break;
			case 1: nytl::write(b, std::as_const(vec)); break;
			case 2: nytl::write(b, span<T>(vec)); break;
			case 3: nytl::write(b, span<const T>(vec)); break;
			case 4: { span<T> s(vec); nytl::write(b, s); break; }
			case 5: nytl::write(b, nytl::bytes(vec)); break;
			case 6: { std::initializer_list<T> il = {vec[0], vec[1], vec[2]}; nytl::write(b, il); break; }
			case 7: { span<T, 5> s(vec.data(), 5); nytl::write(b, s); break; }
			case 8: { const span<const T> s(vec); nytl::write(b, s); break; }
		}
	}
	void write(WriteBuf& b) override { writeTo(b); }
	void write(DynWriteBuf& b) override { writeTo(b); }
	const char* what() const override { return mode == 6 ? "initializer_list" : mode <= 1 || mode == 5 ? "vector" : "span"; }
	void read(ReadBuf& src, vh::Rng& rng) override {
		auto n = vec.size();
		auto s = n * sizeof(T);
		auto p = src.data();
		auto sz = src.size();
		auto cmp = [&](const std::vector<T>& v, const char* how) {
			VH_CHECK(v.size() == n, "value", how << ": size changed");
			bool ok = true;
			for(std::size_t i = 0; i < std::min(n, v.size()); ++i) ok &= sameValue(v[i], vec[i]);
			VH_CHECK(ok, "value", how << " of " << n << " elements of size " << sizeof(T) << " differs");
		};
		{
			std::vector<T> v(n);
			nytl::copy(src.first(s), nytl::bytes(v));
			cmp(v, "copy");
			VH_CHECK(at(src, p, sz), "advance", "copy advanced");
		}
		std::vector<T> v(n);
		v.shrink_to_fit();
		switch(rng.below(7)) {
			case 0: nytl::read(src, v); cmp(v, "read(src, vector)"); break;
			case 1: nytl::read(src, nytl::bytes(v)); cmp(v, "read(src, bytes(vector))"); break;
			case 2: { span<T> x(v); nytl::read(src, x); cmp(v, "read(src, span)"); break; }
			case 3: {
				for(std::size_t i = 0; i < n; ++i) {
					if(i % 2) v[i] = nytl::read<T>(src);
					else nytl::read(src, v[i]);
				}
				cmp(v, "read of single elements");
				break;
			}
			case 4: nytl::skip(src, s); break;
			case 5:
				if(n >= 5) { span<T, 5> x(v.data(), 5); nytl::read(src, x); }
				else nytl::read(src, nytl::bytes(span<T>(v.data(), std::min<std::size_t>(n, 5))));
				nytl::read(src, nytl::bytes(span<T>(v).subspan(std::min<std::size_t>(n, 5))));
				cmp(v, "read of a fixed span");
				break;
			case 6: { // read surrounded
				std::vector<T> big(n + 2);
				if(n + 2) std::memset(static_cast<void*>(big.data()), 0, big.size() * sizeof(T));
				nytl::read(src, nytl::bytes(span<T>(big).subspan(1, n)));
				std::copy(big.begin() + 1, big.end() - 1, v.begin());
				cmp(v, "read of a sub span");
				const unsigned char zero[sizeof(T)] {};
				VH_CHECK(same(&big[0], zero, sizeof(T)) && same(&big[n + 1], zero, sizeof(T)), "untouched", "read modified the neighbours");
				break;
			}
		}
	}
};

template<typename... Ts> struct Gen {
	static std::unique_ptr<Item> make(vh::Rng& rng) {
		using F = std::unique_ptr<Item>(*)(vh::Rng&);
		static const F fs[] = {
			[](vh::Rng& r) -> std::unique_ptr<Item> { return std::make_unique<Scalar<Ts>>(r); }...,
			[](vh::Rng& r) -> std::unique_ptr<Item> { return std::make_unique<Range<Ts>>(r); }...};
		return fs[rng.below(2 * sizeof...(Ts))](rng);
	}
};

#if PART == 0
using G = Gen<char, std::uint8_t, std::int16_t, std::uint32_t, std::int64_t, float, double, E8, E32, std::byte, char32_t>;
#elif PART == 1
using G = Gen<Padded, Empty, Nested, Packed, Uni, Bits, E16, void*, long double, std::uint64_t>;
#else
using G = Gen<nytl::Vec2f, nytl::Vec3f, nytl::Vec3i, nytl::Vec4ui, nytl::Vec<5, double>, nytl::Mat3f, nytl::Mat<2, 3, double>,
	nytl::Quaternion, std::array<int, 3>, std::array<std::array<std::uint8_t, 3>, 2>, Big>;
#endif

inline std::size_t vh_pick(vh::Rng& rng, std::initializer_list<std::size_t> l) { return l.begin()[rng.below(l.size())]; }

// the sequence of items that is written and read again
void sequence(vh::Rng& rng, std::uint64_t i) {
	std::size_t n = i % 50 == 0 ? 300 : rng.below(25);
	std::vector<std::unique_ptr<Item>> items;
	std::size_t total = 0;
	vh::Hash h;
	for(std::size_t k = 0; k < n; ++k) {
		if(rng.chance(1, 8)) {
			switch(rng.below(3)) {
				case 0: items.push_back(std::make_unique<ArrItem<IntArr>>(rng)); break;
				case 1: items.push_back(std::make_unique<ArrItem<ByteArr>>(rng)); break;
				case 2: items.push_back(std::make_unique<ArrItem<Arr2>>(rng)); break;
			}
		} else items.push_back(G::make(rng));
		total += items.back()->expect.size();
		for(auto b : items.back()->expect) h.v = (h.v ^ std::uint64_t(b)) * 1099511628211ull;
		h.add(items.back()->expect.size());
	}
	vh::count("items", n);

	// fixed size buffer, slack bytes have to keep their value
	std::size_t slack = rng.chance(1, 2) ? 0 : rng.below(40);
	auto seedByte = rng.next();
	auto guard = [&](std::size_t k) { return std::byte((k * 131 + seedByte) & 0xff); };
	std::unique_ptr<std::byte[]> mem(new std::byte[total + slack]);
	Bytes model(total + slack);
	for(std::size_t k = 0; k < model.size(); ++k) mem[k] = model[k] = guard(k);
	WriteBuf w(mem.get(), total + slack);
	std::size_t off = 0;
	bool full = total < 5000;
	for(auto& item : items) {
		if(rng.chance(1, 20) && off + 3 <= total + slack) { // a hole is left as it is
			auto copy = w;
			nytl::skip(copy, std::min<std::size_t>(3, w.size()));
			VH_CHECK(copy.data() == w.data() + 3 && copy.size() == w.size() - 3, "advance", "skip on write buffer");
		}
		item->write(w);
		auto s = item->expect.size();
		if(s) std::memcpy(model.data() + off, item->expect.data(), s);
		off += s;
		VH_CHECK(w.data() == mem.get() + off && w.size() == total + slack - off, "advance", "write of " << item->what()
			<< " with " << s << " bytes advanced to " << (w.data() - mem.get()) << " instead of " << off);
		if(w.data() != mem.get() + off || w.size() != total + slack - off) return;
		if(full) VH_CHECK(same(mem.get(), model.data(), model.size()), "written", "wrong buffer content after writing " << item->what() << " with " << s << " bytes at " << (off - s));
	}
	VH_CHECK(same(mem.get(), model.data(), model.size()), "written", "wrong buffer content at the end");

	// dynamic buffer
	DynWriteBuf dyn;
	std::size_t prior = rng.chance(1, 2) ? 0 : rng.below(50);
	for(std::size_t k = 0; k < prior; ++k) dyn.push_back(guard(k + 7));
	if(rng.chance(1, 3)) dyn.reserve(rng.below(total + prior + 10));
	off = 0;
	auto dynOk = [&](const char* what) {
		bool ok = dyn.size() == prior + off;
		VH_CHECK(ok, "growth", "after writing " << what << ": " << dyn.size() << " bytes instead of " << (prior + off));
		if(ok && (full || off == total)) {
			bool keep = true;
			for(std::size_t k = 0; k < prior; ++k) keep &= dyn[k] == guard(k + 7);
			VH_CHECK(keep, "previous-content", "changed by writing " << what);
			VH_CHECK(same(dyn.data() + prior, model.data(), off), "written", "wrong dynamic buffer content after writing " << what);
		}
		return ok;
	};
	for(auto& item : items) {
		item->write(dyn);
		off += item->expect.size();
		if(!dynOk(item->what())) return;
	}

	// read everything back, multiple times, from both
	for(int round = 0; round < 3; ++round) {
		// exactly sized memory
		ReadBuf src, orig;
		std::unique_ptr<std::byte[]> exact;
		if(round == 0) { dyn.shrink_to_fit(); src = dyn; nytl::skip(src, prior); }
		else if(round == 1) src = WriteBuf(mem.get(), total);
		else { exact.reset(new std::byte[total]); std::copy(mem.get(), mem.get() + total, exact.get()); src = {exact.get(), total}; }
		orig = src;
		VH_CHECK(src.size() == total, "advance", "skip of " << prior << " bytes");
		off = 0;
		for(auto& item : items) {
			item->read(src, rng);
			off += item->expect.size();
			VH_CHECK(src.data() == orig.data() + off && src.size() == total - off, "advance", "read of " << item->what() << " with "
				<< item->expect.size() << " bytes advanced to " << (src.data() - orig.data()) << " instead of " << off);
			if(src.data() != orig.data() + off || src.size() != total - off) return;
			vh::count("reads");
		}
		VH_CHECK(src.empty(), "advance", "buffer not consumed");
		VH_CHECK(same(orig.data(), model.data(), total), "source", "reading changed the buffer");
	}
	if(n > 1) vh::nontrivial(h.v);
	if(n > 1 && rng.chance(1, 100)) {
		std::string s = std::to_string(total) + " bytes:";
		for(auto& item : items) { if(s.size() > 150) break; s += std::string(" ") + item->what() + "=" + std::to_string(item->expect.size()); }
		vh::sample(s, 4);
	}
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::section("sequence", 2500, 200000, [&](vh::Rng& r, std::uint64_t i) { sequence(r, i); });
	vh::section("large", 3, 20, [&](vh::Rng& rng, std::uint64_t i) {
		std::vector<std::uint32_t> big((3u << 20) + rng.below(1000));
		for(std::size_t k = 0; k < big.size(); ++k) big[k] = std::uint32_t(k * 2654435761u);
		DynWriteBuf dyn;
		nytl::write(dyn, std::uint8_t(42));
		nytl::write(dyn, big);
		nytl::write(dyn, std::uint16_t(0xbeef));
		VH_CHECK(dyn.size() == big.size() * 4 + 3, "growth", dyn.size());
		ReadBuf src = dyn;
		VH_CHECK(nytl::read<std::uint8_t>(src) == 42, "value", "first");
		std::vector<std::uint32_t> back(big.size());
		nytl::read(src, back);
		VH_CHECK(back == big, "value", "large vector");
		VH_CHECK(nytl::copyExact<std::uint16_t>(src) == 0xbeef && nytl::read<std::uint16_t>(src) == 0xbeef && src.empty(), "value", "last");
		std::vector<std::byte> fixed(dyn.size());
		WriteBuf w = fixed;
		nytl::write(w, std::uint8_t(42));
		nytl::write(w, big);
		nytl::write(w, std::uint16_t(0xbeef));
		VH_CHECK(w.empty() && fixed == dyn, "written", "large");
		vh::nontrivial(i);
	});
	vh::section("huge", 20, 500, [&](vh::Rng& rng, std::uint64_t) { // offsets above 4 GiB, sparse memory
		std::size_t bytes = std::size_t(10) << 30;
		void* p = ::mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(p == MAP_FAILED) { vh::count("huge_not_possible"); return; }
		auto base = static_cast<std::byte*>(p);
		WriteBuf w(base, bytes);
		ReadBuf r(base, bytes);
		std::size_t off = 0;
		for(int k = 0; k < 4; ++k) {
			std::size_t s = vh_pick(rng, {rng.below(bytes / 5), (std::size_t(1) << 32) / 2 + rng.below(5), std::size_t(1) << 31, rng.below(50)});
			s = std::min(s, bytes - off - 100);
			nytl::skip(w, s);
			off += s;
			VH_CHECK(w.data() == base + off && w.size() == bytes - off, "advance", "skip of " << s << " bytes");
			if(w.data() != base + off) break;
			auto v = rng.next();
			nytl::write(w, v);
			nytl::skip(r, s);
			VH_CHECK(r.data() == base + off && r.size() == bytes - off, "advance", "skip of " << s << " bytes when reading");
			if(r.data() != base + off) break;
			VH_CHECK(nytl::copy<std::uint64_t>(r) == v && nytl::read<std::uint64_t>(r) == v, "value", "at offset " << off);
			off += 8;
			VH_CHECK(w.data() == base + off && r.data() == base + off, "advance", "at offset " << off);
			vh::nontrivial(vh::Hash().add(off).v);
		}
		::munmap(p, bytes);
	});
	return vh::finish();
}
