// C12: spans against the ranges they were made from.
#include "common.hpp"
#include <nytl/span.hpp>
#include <array>
#include <memory>
#include <deque>
#include <string_view>

using nytl::span;
using nytl::dynamic_extent;

struct Rec { // 12 bytes
	std::int32_t a; char c; std::int32_t b;
	bool operator==(const Rec& o) const { return a == o.a && c == o.c && b == o.b; }
	bool operator<(const Rec& o) const { return a < o.a; }
};

template<typename T> struct Make;
template<> struct Make<char> { static char v(vh::Rng& r, unsigned m) { return char(r.below(m)); } };
template<> struct Make<std::uint8_t> { static std::uint8_t v(vh::Rng& r, unsigned m) { return std::uint8_t(r.below(m)); } };
template<> struct Make<int> { static int v(vh::Rng& r, unsigned m) { return int(r.below(m)) - 2; } };
template<> struct Make<std::int64_t> { static std::int64_t v(vh::Rng& r, unsigned m) { return std::int64_t(r.below(m)) << 40; } };
template<> struct Make<double> { static double v(vh::Rng& r, unsigned m) { return double(r.below(m)) - 0.5; } };
template<> struct Make<Rec> { static Rec v(vh::Rng& r, unsigned m) { return {int(r.below(m)), 'x', 3}; } };
template<> struct Make<std::string> { static std::string v(vh::Rng& r, unsigned m) { return std::string(r.below(m) % 40, char('a' + r.below(3))); } };

// exactly sized memory, so that ASan sees every access outside
template<typename T> struct Mem {
	std::unique_ptr<T[]> p;
	std::size_t n;
	Mem(vh::Rng& r, std::size_t count, unsigned m = 250) : p(new T[count]), n(count) { for(auto i = 0u; i < n; ++i) p[i] = Make<T>::v(r, m); }
};

// Everything observable of a span that has to refer to [ptr, ptr + n).
template<typename T, std::size_t E>
void refers(const span<T, E>& s, const typename std::remove_const<T>::type* ptr, std::size_t n, const char* what) {
	using V = std::remove_const_t<T>;
	vh::count("spans_checked");
	VH_CHECK(s.size() == n, "size", what << ": size " << s.size() << " instead of " << n);
	VH_CHECK(s.size_bytes() == n * sizeof(V), "size_bytes", what << ": " << s.size_bytes());
	VH_CHECK(s.empty() == (n == 0), "empty", what);
	VH_CHECK(s.data() == ptr, "data", what << ": data differs by " << (s.data() - ptr));
	VH_CHECK(s.begin() == s.data() && s.cbegin() == s.data(), "begin", what);
	VH_CHECK(std::size_t(s.end() - s.begin()) == n && s.cend() == s.end(), "end", what);
	VH_CHECK(std::size_t(s.rend() - s.rbegin()) == n && std::size_t(s.crend() - s.crbegin()) == n, "reverse", what);
	if(s.size() != n || s.data() != ptr || n > 100000) return;
	std::size_t i = 0;
	bool ok = true;
	for(auto& x : s) { ok &= (&x == ptr + i); ++i; }
	VH_CHECK(ok && i == n, "iteration", what << ": forward iteration, " << i << " of " << n);
	i = 0;
	for(auto it = s.cbegin(); it != s.cend(); ++it, ++i) ok &= (&*it == ptr + i);
	VH_CHECK(ok && i == n, "iteration", what << ": const iteration");
	i = n;
	for(auto it = s.rbegin(); it != s.rend(); ++it) { --i; ok &= (&*it == ptr + i); }
	VH_CHECK(ok && i == 0, "iteration", what << ": reverse iteration");
	i = n;
	for(auto it = s.crbegin(); it != s.crend(); ++it) { --i; ok &= (&*it == ptr + i); }
	VH_CHECK(ok && i == 0, "iteration", what << ": const reverse iteration");
	for(i = 0; i < n; ++i) ok &= (&s[i] == ptr + i) && (&s(i) == ptr + i) && (s[i] == ptr[i]);
	VH_CHECK(ok, "index", what << ": indexing");
	if(n) VH_CHECK(&s.front() == ptr && &s.back() == ptr + n - 1, "front-back", what);
	if constexpr(E != dynamic_extent) VH_CHECK((span<T, E>::extent == n), "extent", what);
}

template<typename T, std::size_t E> void bytesOf(const span<T, E>& s, const char* what) {
	auto b = nytl::as_bytes(s);
	VH_CHECK(b.size() == s.size() * sizeof(T) && (const void*) b.data() == (const void*) s.data(), "as_bytes", what << ": " << b.size());
	VH_CHECK(decltype(b)::extent == (E == dynamic_extent ? dynamic_extent : E * sizeof(T)), "as_bytes", what << ": extent");
	if(b.size() == s.size() * sizeof(T) && !s.empty()) {
		VH_CHECK(std::memcmp(b.data(), s.data(), b.size()) == 0, "as_bytes", what << ": content");
	}
	if constexpr(!std::is_const_v<T>) {
		auto w = nytl::as_writeable_bytes(s);
		VH_CHECK(w.size() == s.size() * sizeof(T) && (void*) w.data() == (void*) s.data(), "as_writeable_bytes", what << ": " << w.size());
		if(std::is_trivially_copyable_v<T> && !w.empty() && w.size() == b.size()) {
			auto old = w[w.size() - 1];
			w[w.size() - 1] = ~old;
			VH_CHECK(b[b.size() - 1] == ~old, "as_writeable_bytes", what << ": write not visible");
			w[w.size() - 1] = old;
		}
	}
}

// all sub-spans with runtime offsets
template<typename T, std::size_t E> void dynSubs(const span<T, E>& s, vh::Rng& rng, bool all) {
	auto n = s.size();
	auto p = s.data();
	auto check = [&](std::size_t off, std::size_t cnt) {
		refers(s.subspan(off, cnt), p + off, cnt, "subspan(offset, count)");
	};
	for(std::size_t k = 0; k <= n; ++k) {
		if(!all && k > 3 && k + 3 < n && !rng.chance(1, 8)) continue;
		refers(s.first(k), p, k, "first(count)");
		refers(s.last(k), p + n - k, k, "last(count)");
		refers(s.subspan(k), p + k, n - k, "subspan(offset)");
		if(all) for(std::size_t c = 0; k + c <= n; ++c) check(k, c);
		else { check(k, 0); check(k, n - k); check(k, rng.below(n - k + 1)); }
	}
}

template<std::size_t K, typename T, std::size_t E> void staticAt(const span<T, E>& s) {
	if(K > s.size()) return;
	auto p = s.data();
	auto n = s.size();
	auto f = s.template first<K>();
	VH_CHECK((std::is_same_v<decltype(f), span<T, K>>), "static-type", "first<" << K << ">");
	refers(f, p, K, "first<Count>");
	auto l = s.template last<K>();
	refers(l, p + n - K, K, "last<Count>");
	auto o = s.template subspan<K>();
	VH_CHECK(decltype(o)::extent == (E == dynamic_extent ? dynamic_extent : E - K), "static-type", "subspan<" << K << "> extent");
	refers(o, p + K, n - K, "subspan<Offset>");
	auto check = [&](auto cnt) {
		constexpr std::size_t C = decltype(cnt)::value;
		if(K + C > n) return;
		if constexpr(E == dynamic_extent || K + C <= E) {
			auto x = s.template subspan<K, C>();
			VH_CHECK(decltype(x)::extent == C, "static-type", "subspan<" << K << ", " << C << ">");
			refers(x, p + K, C, "subspan<Offset, Count>");
		}
	};
	check(std::integral_constant<std::size_t, 0>{});
	check(std::integral_constant<std::size_t, 1>{});
	check(std::integral_constant<std::size_t, 2>{});
	check(std::integral_constant<std::size_t, 5>{});
}

template<typename T, std::size_t E, std::size_t... K> void staticSubs(const span<T, E>& s, std::index_sequence<K...>) {
	(staticAt<K>(s), ...);
}

// fixed extent spans of N elements of T
template<typename T, std::size_t N> void fixed(vh::Rng& rng) {
	Mem<T> mem(rng, N);
	span<T, N> s(mem.p.get(), N);
	refers(s, mem.p.get(), N, "fixed(ptr, count)");
	refers(span<T, N>(mem.p.get(), mem.p.get() + N), mem.p.get(), N, "fixed(first, last)");
	bytesOf(s, "fixed");
	dynSubs(s, rng, N <= 6);
	constexpr auto M = N < 6 ? N : std::size_t(6);
	staticSubs(s, std::make_index_sequence<M + 1>{});
	staticAt<N>(s);

	// conversions
	span<T> d = s;
	refers(d, mem.p.get(), N, "dynamic from fixed");
	span<const T, N> c = s;
	refers(c, mem.p.get(), N, "const fixed from fixed");
	span<const T> cd = s;
	refers(cd, mem.p.get(), N, "const dynamic from fixed");
	span<const T> cd2 = d;
	refers(cd2, mem.p.get(), N, "const dynamic from dynamic");
	span<T, N> back(d);
	refers(back, mem.p.get(), N, "fixed from dynamic");
	bytesOf(c, "const fixed");
	staticSubs(c, std::make_index_sequence<M + 1>{});
	dynSubs(c, rng, false);
	d = span<T>();
	VH_CHECK(d.empty() && d.data() == nullptr, "default", "");
	d = back;
	refers(d, mem.p.get(), N, "assigned");

	// arrays
	if constexpr(N > 0) {
		struct Holder { T before; T arr[N]; T after; };
		auto h = std::make_unique<Holder>();
		for(auto& x : h->arr) x = Make<T>::v(rng, 200);
		span<T, N> a(h->arr);
		refers(a, h->arr, N, "array");
		span<const T, N> ca(h->arr);
		refers(ca, h->arr, N, "const from array");
		span<T> da(h->arr);
		refers(da, h->arr, N, "dynamic from array");
		refers(nytl::make_span(h->arr), h->arr, N, "make_span(array)");
		span ded(h->arr);
		VH_CHECK((std::is_same_v<decltype(ded), span<T, N>>), "deduction", "array");
		refers(ded, h->arr, N, "deduced from array");
	}
	auto arr = std::make_unique<std::array<T, N>>();
	for(auto& x : *arr) x = Make<T>::v(rng, 200);
	auto ap = arr->data();
	refers(span<T, N>(*arr), ap, N, "std::array");
	refers(span<const T, N>(*arr), ap, N, "const from std::array");
	refers(span<T>(*arr), ap, N, "dynamic from std::array");
	refers(span<const T>(std::as_const(*arr)), ap, N, "const dynamic from const std::array");
	refers(span<const T, N>(std::as_const(*arr)), ap, N, "const fixed from const std::array");
	span ded(*arr);
	refers(ded, ap, N, "deduced from std::array");
	span cded(std::as_const(*arr));
	refers(cded, ap, N, "deduced from const std::array");

	// comparison of fixed extents
	Mem<T> other(rng, N, 3), one(rng, N, 3);
	span<T, N> x(other.p.get(), N), y(one.p.get(), N);
	bool eq = std::equal(x.data(), x.data() + N, y.data());
	bool lt = std::lexicographical_compare(x.data(), x.data() + N, y.data(), y.data() + N);
	bool gt = std::lexicographical_compare(y.data(), y.data() + N, x.data(), x.data() + N);
	VH_CHECK((x == y) == eq && (x != y) == !eq, "compare", "fixed ==");
	VH_CHECK((x < y) == lt && (x > y) == gt && (x <= y) == !gt && (x >= y) == !lt, "compare", "fixed order");
	VH_CHECK(x == x && !(x != x) && x <= x && x >= x && !(x < x), "compare", "fixed self");
	vh::nontrivial(rng.next());
}

// dynamic spans
template<typename T> void dynamic(vh::Rng& rng, std::uint64_t i) {
	std::size_t n = i < 24 ? i : rng.chance(1, 20) ? 200 + rng.below(200) : rng.below(40);
	Mem<T> mem(rng, n);
	auto p = mem.p.get();
	span<T> s(p, n);
	refers(s, p, n, "(ptr, count)");
	refers(span<T>(p, p + n), p, n, "(first, last)");
	refers(span<const T>(p, n), p, n, "const (ptr, count)");
	refers(nytl::make_span(p, n), p, n, "make_span(ptr, count)");
	refers(nytl::make_span(p, p + n), p, n, "make_span(first, last)");
	bytesOf(s, "dynamic");
	bytesOf(span<const T>(s), "const dynamic");
	dynSubs(s, rng, n <= 8);
	dynSubs(span<const T>(s), rng, false);
	staticSubs(s, std::make_index_sequence<9>{});
	// sub-spans of sub-spans
	auto off = rng.below(n + 1), cnt = rng.below(n - off + 1);
	auto sub = s.subspan(off, cnt);
	dynSubs(sub, rng, false);
	staticSubs(sub, std::make_index_sequence<5>{});
	if constexpr(!std::is_same_v<T, bool>) {
		if(n) { // writing goes to the range
			auto k = rng.below(n);
			auto v = Make<T>::v(rng, 100);
			s[k] = v;
			VH_CHECK(p[k] == v, "write", "element " << k);
		}
	}

	// containers
	std::vector<T> vec(n);
	for(auto& x : vec) x = Make<T>::v(rng, 100);
	const auto& cvec = vec;
	refers(span<T>(vec), vec.data(), n, "vector");
	refers(span<const T>(vec), vec.data(), n, "const from vector");
	refers(span<const T>(cvec), vec.data(), n, "const vector");
	refers(nytl::make_span(vec), vec.data(), n, "make_span(vector)");
	refers(nytl::make_span(cvec), (const T*) vec.data(), n, "make_span(const vector)");
	span ded(vec);
	VH_CHECK((std::is_same_v<decltype(ded), span<T>>), "deduction", "vector");
	refers(ded, vec.data(), n, "deduced from vector");
	span cded(cvec);
	VH_CHECK((std::is_same_v<decltype(cded), span<const T>>), "deduction", "const vector");
	refers(cded, vec.data(), n, "deduced from const vector");
	[&](span<const T> param) { refers(param, vec.data(), n, "implicit parameter"); }(vec);
	auto il = {Make<T>::v(rng, 9), Make<T>::v(rng, 9), Make<T>::v(rng, 9)};
	refers(span<const T>(il), il.begin(), 3, "initializer_list");

	// comparison
	bool special = rng.chance(1, 2); // values that are equal with different bytes, or unordered
	auto val = [&](unsigned m) {
		if constexpr(std::is_floating_point_v<T>) if(special && rng.chance(1, 3)) {
			const T values[] = {T(0), -T(0), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity()};
			return values[rng.below(4)];
		}
		return Make<T>::v(rng, m);
	};
	auto rnd = [&](std::vector<T>& v) { v.resize(rng.below(7)); for(std::size_t i = 0; i < v.size(); ++i) v[i] = val(2); };
	for(int k = 0; k < 6; ++k) {
		std::vector<T> a, b;
		rnd(a); rnd(b);
		if(rng.chance(1, 3)) { b = a; if(rng.chance(1, 2) && !b.empty()) b[rng.below(b.size())] = val(3); if(rng.chance(1, 3)) b.push_back(val(2)); }
		auto cmp = [&](span<T> x, span<T> y, const char* what) {
			bool unordered = false;
			auto xb = x.data(), xe = xb + x.size(), yb = y.data(), ye = yb + y.size();
			if constexpr(std::is_floating_point_v<T>) { for(auto p = xb; p != xe; ++p) unordered |= *p != *p; for(auto p = yb; p != ye; ++p) unordered |= *p != *p; }
			bool eq = x.size() == y.size() && std::equal(xb, xe, yb);
			bool lt = std::lexicographical_compare(xb, xe, yb, ye);
			bool gt = std::lexicographical_compare(yb, ye, xb, xe);
			VH_CHECK((x == y) == eq && (x != y) == !eq, "compare", "== of " << x.size() << " and " << y.size() << " elements" << what);
			VH_CHECK((x < y) == lt && (x > y) == gt, "compare", "order of " << x.size() << " and " << y.size() << " elements" << what);
			if(!unordered) VH_CHECK((x <= y) == !gt && (x >= y) == !lt, "compare", "order of " << x.size() << " and " << y.size() << " elements" << what);
			return eq;
		};
		span<T> x(a), y(b);
		bool eq = cmp(x, y, "");
		cmp(x, x, ", the same");
		{ // ranges of the same memory
			auto o = rng.below(a.size() + 1), q = rng.below(a.size() + 1);
			cmp(x.subspan(o, rng.below(a.size() - o + 1)), x.subspan(q, rng.below(a.size() - q + 1)), ", overlapping");
			cmp(x.subspan(o), x.subspan(o), ", the same part");
		}
		if(a.size() == 3) {
			span<T, 3> f(a.data(), 3);
			VH_CHECK((f == y) == eq && (y == f) == eq, "compare", "fixed == dynamic");
		}
	}
	if(n) vh::nontrivial(vh::Hash().add(n).add(rng.next()).v);
	if(n && rng.chance(1, 100)) vh::sample("dynamic span of " + std::to_string(n) + " elements of " + std::to_string(sizeof(T)) + " bytes", 4);
}

template<typename T> void huge(void* base, std::size_t bytes, vh::Rng& rng) {
	auto p = static_cast<T*>(base);
	std::size_t n = bytes / sizeof(T);
	span<T> s(p, n);
	refers(s, p, n, "huge");
	refers(span<T>(p, p + n), p, n, "huge (first, last)");
	for(int i = 0; i < 50; ++i) {
		auto off = i % 3 == 0 ? n - rng.below(1000) : rng.below(n + 1), cnt = rng.below(n - off + 1);
		if(i % 5 == 0) cnt = n - off;
		refers(s.first(off), p, off, "huge first");
		refers(s.last(off), p + n - off, off, "huge last");
		refers(s.subspan(off), p + off, n - off, "huge subspan");
		refers(s.subspan(off, cnt), p + off, cnt, "huge subspan");
		auto b = nytl::as_bytes(s.subspan(off, cnt));
		VH_CHECK(b.size() == cnt * sizeof(T) && (const void*) b.data() == p + off, "as_bytes", "huge: " << b.size());
		vh::nontrivial(vh::Hash().add(off).add(cnt).v);
		if(i == 7) vh::sample("subspan of " + std::to_string(cnt) + " at " + std::to_string(off) + " in " + std::to_string(n) + " elements", 8);
	}
	for(std::size_t i : {std::size_t(0), n / 2, n - 1, std::size_t(1) << 31, std::size_t(1) << 32}) {
		if(i < n) VH_CHECK(&s[i] == p + i && &s(i) == p + i, "index", "huge index " << i);
	}
	VH_CHECK(&s.back() == p + n - 1, "front-back", "huge back");
	constexpr std::size_t big = (std::size_t(1) << 32) + 7;
	if(n > big) {
		refers(s.template first<big>(), p, big, "huge first<>");
		refers(s.template last<big>(), p + n - big, big, "huge last<>");
		refers(s.template subspan<big>(), p + big, n - big, "huge subspan<>");
		span<T, big> f(p, big);
		refers(f.last(big - 3), p + 3, big - 3, "huge fixed");
	}
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	auto fix = [&](auto tag, const char* name) {
		using T = decltype(tag);
		vh::section(std::string("fixed-") + name, 12, 2000, [&](vh::Rng& r, std::uint64_t) {
			fixed<T, 0>(r); fixed<T, 1>(r); fixed<T, 2>(r); fixed<T, 3>(r); fixed<T, 7>(r); fixed<T, 64>(r);
			if constexpr(sizeof(T) == 1) fixed<T, 300>(r);
		});
		vh::section(std::string("dynamic-") + name, 120, 12000, [&](vh::Rng& r, std::uint64_t i) { dynamic<T>(r, i); });
	};
#if PART == 0
	fix(char(), "char");
	vh::section("strings", 300, 20000, [&](vh::Rng& rng, std::uint64_t) {
		std::string str(rng.below(60), 'x');
		for(auto& c : str) c = char(rng.next());
		refers(span<char>(str), str.data(), str.size(), "string");
		refers(span<const char>(std::as_const(str)), str.data(), str.size(), "const string");
		std::string_view v(str);
		v = v.substr(rng.below(str.size() + 1));
		refers(span<const char>(v), v.data(), v.size(), "string_view");
		vh::nontrivial(vh::hashStr(str.c_str()));
	});
	vh::section("huge", 3, 50, [&](vh::Rng& rng, std::uint64_t) {
		std::size_t bytes = std::size_t(12) << 30;
		void* p = ::mmap(nullptr, bytes, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(p == MAP_FAILED) { vh::count("huge_not_possible"); return; }
		huge<char>(p, bytes, rng); huge<int>(p, bytes, rng); huge<double>(p, bytes, rng); huge<const std::uint16_t>(p, bytes, rng);
		::munmap(p, bytes);
	});
#elif PART == 1
	fix(int(), "int");
#elif PART == 2
	fix(std::string(), "string");
#elif PART == 3
	fix(Rec(), "struct");
#elif PART == 4
	fix(double(), "double");
#endif
	return vh::finish();
}
