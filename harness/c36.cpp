// C36: null-terminated string parameters.
#include "common.hpp"
#include <nytl/stringParam.hpp>
#include <memory>

template<typename C> using Str = std::basic_string<C>;
template<typename C> Str<C> (*forward)(nytl::BasicStringParam<C>, const C*&, std::size_t&);
template<typename C> __attribute__((noinline)) Str<C> taken(nytl::BasicStringParam<C> p, const C*& ptr, std::size_t& size) { ptr = p.c_str(); size = p.size(); return Str<C>(p); }
template<typename C> __attribute__((noinline)) Str<C> takenRef(const nytl::BasicStringParam<C>& p, const C*& ptr, std::size_t& size) { ptr = p.c_str(); size = p.size(); return Str<C>(p.c_str()); }

template<typename C> void judge(const nytl::BasicStringParam<C>& p, const C* src, const Str<C>& content, const char* key) {
	auto info = [&] { return "length " + std::to_string(content.size()) + ", got size " + std::to_string(p.size()); };
	VH_CHECK(p.size() == content.size() && p.length() == content.size() && p.empty() == content.empty(), key, info());
	VH_CHECK(p.c_str() == src && p.data() == src, key, "copied or moved: " << info());
	VH_CHECK(p.c_str()[p.size()] == C(0), key, "not null-terminated: " << info());
	VH_CHECK(std::char_traits<C>::length(p.c_str()) == p.size(), key, "null before the end: " << info());
	VH_CHECK(p == content && content == p && !(p != content), key, "not equal to the source: " << info());
	VH_CHECK(p == std::basic_string_view<C>(content), key, "not equal to a view: " << info());
	VH_CHECK(std::equal(p.begin(), p.end(), content.begin(), content.end()), key, "other characters: " << info());
	if(p.size() == content.size()) for(std::size_t i = 0; i < content.size(); i += 1 + content.size() / 50) VH_CHECK(p[i] == content[i] && p.at(i) == content[i], key, "character " << i);
}

template<typename C> void strings(vh::Rng& r) {
	std::size_t n = r.chance(1, 4) ? r.below(4) : r.chance(1, 20) ? r.below(20000) : r.below(60);
	Str<C> s(n, C(0));
	vh::Hash h;
	for(auto& c : s) {
		switch(r.below(4)) { case 0: c = C(1 + r.below(3)); break; case 1: c = std::numeric_limits<C>::max(); break; case 2: c = C(r.next()); break; default: c = C(32 + r.below(96)); }
		if(c == C(0)) c = C(-1);
		h.add(std::uint64_t(c));
	}
	// exactly sized heap array: reading behind the terminator is seen
	std::unique_ptr<C[]> mem(new C[n + 1]);
	std::copy(s.begin(), s.end(), mem.get());
	mem[n] = C(0);
	using P = nytl::BasicStringParam<C>;
	judge<C>(P(mem.get()), mem.get(), s, "pointer");
	judge<C>(P(s), s.c_str(), s, "string");
	P p = mem.get();
	P copy = p;
	P assigned;
	assigned = p;
	judge<C>(copy, mem.get(), s, "copy");
	judge<C>(assigned, mem.get(), s, "assign");
	assigned = s; // another source
	judge<C>(assigned, s.c_str(), s, "assign");
	// as parameters
	const C* ptr = nullptr;
	std::size_t size = ~std::size_t(0);
	VH_CHECK(taken<C>(mem.get(), ptr, size) == s && ptr == mem.get() && size == n, "param", "pointer");
	VH_CHECK(taken<C>(s, ptr, size) == s && ptr == s.c_str() && size == n, "param", "string");
	VH_CHECK(takenRef<C>(mem.get(), ptr, size) == s && ptr == mem.get() && size == n, "param-ref", "pointer");
	VH_CHECK(takenRef<C>(s, ptr, size) == s && ptr == s.c_str() && size == n, "param-ref", "string");
	C* mut = mem.get();
	VH_CHECK(taken<C>(mut, ptr, size) == s && ptr == mut && size == n, "param", "mutable pointer");
	VH_CHECK(taken<C>(Str<C>(s), ptr, size) == s && size == n, "param", "temporary string");
	// the source is referenced, not copied
	if(n) { auto k = r.below(n); auto c = mem[k]; mem[k] = C(c == C('x') ? 'y' : 'x'); VH_CHECK(p[k] == mem[k], "reference", "content was copied"); mem[k] = c; }
	// arrays with characters behind the terminator
	C arr[16];
	std::size_t len = r.below(15);
	for(std::size_t i = 0; i < 16; ++i) arr[i] = i == len ? C(0) : C('a' + i);
	judge<C>(P(arr), arr, Str<C>(arr, len), "array");
	// inequality
	auto other = s;
	if(n && r.chance(2, 3)) other[r.below(n)] ^= C(1); else other += C('z');
	if(other.find(C(0)) == Str<C>::npos) VH_CHECK(P(s) != other && P(other) != P(s) && !(P(s) == P(other)) && (P(s) < P(other)) == (s < other), "inequality", n);
	// embedded null characters: a null-terminated part of the source
	if(n && r.chance(1, 4)) {
		auto e = s;
		e[r.below(n)] = C(0);
		P q(e);
		VH_CHECK(q.data() == e.data() && q.size() <= e.size() && q.c_str()[q.size()] == C(0) && std::equal(q.begin(), q.end(), e.begin()), "embedded-null", q.size());
		vh::count("embedded_null");
	}
	vh::nontrivial(h.v);
	vh::count(n ? "strings" : "empty_strings");
	if(r.chance(1, 3000)) vh::sample("string of length " + std::to_string(n));
}

template<typename C> void lengthOnly(std::size_t n, C c) {
	Str<C> s(n, c);
	nytl::BasicStringParam<C> p(s), q(s.c_str()), copy = p;
	for(auto* x : {&p, &q, &copy}) {
		if(n > (1u << 30) && x != &q) { VH_CHECK(x->size() == n && x->c_str() == s.c_str(), "long", "size " << x->size() << " instead of " << n); continue; }
		VH_CHECK(x->size() == n && x->c_str() == s.c_str() && x->c_str()[x->size()] == C(0), "long", "size " << x->size() << " instead of " << n);
		VH_CHECK(*x == s, "long", "not equal to the source of size " << n);
	}
	vh::nontrivial(n);
	vh::count("long_strings");
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::section("char", 6000, 400000, [](vh::Rng& r, std::uint64_t) { strings<char>(r); });
	vh::section("char16", 6000, 400000, [](vh::Rng& r, std::uint64_t) { strings<char16_t>(r); });
	vh::section("char32", 6000, 400000, [](vh::Rng& r, std::uint64_t) { strings<char32_t>(r); });
	vh::section("long", 8, 60, [](vh::Rng& r, std::uint64_t k) { // around the limits of 16 bit sizes and more
		std::size_t lens[] = {255, 256, 65535, 65536, 65537, 131072, 1u << 20, (1u << 24) + 1};
		auto n = k < 8 ? lens[k] : r.below(3000000);
		auto c = char(33 + r.below(90));
		lengthOnly<char>(n, c);
		if(n < 10000000) { lengthOnly<char16_t>(n, char16_t(c)); lengthOnly<char32_t>(n, char32_t(c)); }
	});
	vh::section("huge", 1, 1, [](vh::Rng&, std::uint64_t) { lengthOnly<char>((std::size_t(1) << 32) + 5, 'h'); }); // sizes of more than 32 bits
	vh::section("literals", 1, 1, [](vh::Rng&, std::uint64_t) {
		nytl::StringParam a = "", b = "abc", c = std::string("xyz").c_str() ? "abc" : "";
		nytl::StringParam16 d = u"abc\u20ac"; nytl::StringParam32 e = U"\U0001f600b";
		VH_CHECK(a.empty() && a.c_str() && *a.c_str() == 0, "literal", "empty");
		VH_CHECK(b == "abc" && b.size() == 3 && c == b && d == u"abc\u20ac" && d.size() == 4 && e == U"\U0001f600b" && e.size() == 2, "literal", "content");
		const char* ptr; std::size_t size;
		VH_CHECK(taken<char>("literal", ptr, size) == "literal" && size == 7 && taken<char>("", ptr, size) == "" && size == 0, "literal", "parameter");
	});
	return vh::finish();
}
