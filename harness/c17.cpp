// C17: vector arithmetic against the scalar operations on each component.
#include "numeric.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <memory>
#include <chrono>
#include <string>

using nytl::Vec;

template<std::size_t D, typename T> std::string str(const Vec<D, T>& v) {
	std::ostringstream os;
	os.precision(20);
	for(std::size_t i = 0; i < std::min<std::size_t>(D, 8); ++i) os << (i ? " " : "(") << show(v[i]);
	os << (D > 8 ? "...)" : ")");
	return os.str();
}

template<typename V> void fill(V& v, vh::Rng& r, bool small) {
	using T = std::decay_t<decltype(v[0])>;
	for(std::size_t i = 0; i < v.size(); ++i) v[i] = small ? smallValue<T>(r) : anyValue<T>(r);
}

template<std::size_t D, typename T> bool equal(const Vec<D, T>& a, const Vec<D, T>& b) {
	for(std::size_t i = 0; i < D; ++i) if(!sameNum(a[i], b[i])) return false;
	return true;
}

// compares every component of the vector with the function of the index
template<std::size_t D, typename T, typename F> void each(const Vec<D, T>& v, F&& f, const char* key, const char* what) {
	for(std::size_t i = 0; i < D; ++i) {
		auto want = f(i);
		VH_CHECK(sameNum(v[i], want), key, what << ", dimension " << D << " component " << i << ": " << show(v[i]) << " instead of " << show(want));
	}
}

template<std::size_t D, typename T1, typename T2> void binary(vh::Rng& rng) {
	bool small = rng.chance(1, 4);
	Vec<D, T1> a; Vec<D, T2> b;
	fill(a, rng, small); fill(b, rng, small);
	if(rng.chance(1, 5)) for(std::size_t i = 0; i < D; ++i) if(okConv<T2>(a[i])) b[i] = T2(a[i]);
	if(rng.chance(1, 8)) { auto k = rng.below(D); b[k] = anyValue<T2>(rng); }
	const auto ca = a; const auto cb = b;
	vh::count("vectors", 2);
	auto all = [&](auto f) { for(std::size_t i = 0; i < D; ++i) if(!f(i)) return false; return true; };
	vh::Hash h;
	for(std::size_t i = 0; i < std::min<std::size_t>(D, 8); ++i) { unsigned char x[sizeof(T1)]; std::memcpy(x, &a[i], sizeof(x)); for(auto c : x) h.add(c); }

	// components for which the operation is not defined get harmless values
	auto safe = [&](auto ok) { auto r = std::make_pair(ca, cb); for(std::size_t i = 0; i < D; ++i) if(!ok(r.first[i], r.second[i])) { r.first[i] = smallValue<T1>(rng); r.second[i] = smallValue<T2>(rng); } return r; };
	{
		auto [x, y] = safe([](auto p, auto q) { return okAdd(p, q) && okConv<T1>(p + q); });
		const auto x0 = x; const auto y0 = y;
		auto sum = x + y;
		each(sum, [&, &x0 = x0, &y0 = y0](auto i) { return x0[i] + y0[i]; }, "add", "a + b");
		VH_CHECK(equal(x, x0) && equal(y, y0), "arguments", "+ changed its arguments");
		auto& ref = (x += y);
		VH_CHECK((void*) &ref == (void*) &x, "reference", "+=");
		each(x, [&, &x0 = x0, &y0 = y0](auto i) { T1 t = x0[i]; t += y0[i]; return t; }, "add-assign", "a += b");
		VH_CHECK(equal(y, y0), "arguments", "+= changed its argument");
	}
	{
		auto [x, y] = safe([](auto p, auto q) { return okSub(p, q) && okConv<T1>(p - q); });
		const auto x0 = x; const auto y0 = y;
		each(x - y, [&, &x0 = x0, &y0 = y0](auto i) { return x0[i] - y0[i]; }, "sub", "a - b");
		VH_CHECK(equal(x, x0) && equal(y, y0), "arguments", "- changed its arguments");
		auto& ref = (x -= y);
		VH_CHECK((void*) &ref == (void*) &x, "reference", "-=");
		each(x, [&, &x0 = x0, &y0 = y0](auto i) { T1 t = x0[i]; t -= y0[i]; return t; }, "sub-assign", "a -= b");
		VH_CHECK(equal(y, y0), "arguments", "-= changed its argument");
	}
	{ // scalar from the second type
		T2 f = small ? smallValue<T2>(rng) : anyValue<T2>(rng);
		auto x = ca;
		for(std::size_t i = 0; i < D; ++i) if(!okMul(f, x[i]) || !okConv<T1>(x[i] * f)) x[i] = T1(0);
		for(std::size_t i = 0; i < D; ++i) if(!okMul(f, x[i]) || !okConv<T1>(x[i] * f)) f = smallValue<T2>(rng);
		const auto x0 = x;
		each(f * x, [&](auto i) { return f * x0[i]; }, "scale", "f * a");
		VH_CHECK(equal(x, x0), "arguments", "f * a changed its argument");
		auto& ref = (x *= f);
		VH_CHECK((void*) &ref == (void*) &x, "reference", "*=");
		each(x, [&](auto i) { T1 t = x0[i]; t *= f; return t; }, "scale-assign", "a *= f");
	}
	{ // comparison
		bool eq = all([&](auto i) { return !(ca[i] != cb[i]); });
		VH_CHECK((ca == cb) == eq && (cb == ca) == eq, "equal", str(ca) << " == " << str(cb));
		VH_CHECK((ca != cb) == !eq && (cb != ca) == !eq, "not-equal", str(ca) << " != " << str(cb));
		auto x = ca;
		bool selfEq = all([&](auto i) { return !(x[i] != x[i]); });
		VH_CHECK((x == ca) == selfEq && (x != ca) == !selfEq, "equal", "copy of " << str(ca));
		VH_CHECK((ca == ca) == selfEq && (ca != ca) == !selfEq, "equal", str(ca) << " with itself");
		// a single different component
		fill(x, rng, true);
		auto y = x;
		auto k = rng.below(D);
		y[k] = x[k] == T1(1) ? T1(0) : T1(1);
		VH_CHECK(!(x == y) && (x != y), "equal", "difference in component " << k << " of " << D);
		Vec<D, T2> z;
		for(std::size_t i = 0; i < D; ++i) if constexpr(std::is_unsigned_v<T1> || std::is_unsigned_v<T2>) x[i] = T1(i % 2); else x[i] = T1(int(i % 5) - 2);
		for(std::size_t i = 0; i < D; ++i) if constexpr(std::is_unsigned_v<T1> || std::is_unsigned_v<T2>) z[i] = T2(i % 2); else z[i] = T2(int(i % 5) - 2);
		VH_CHECK((x == z) && !(x != z) && (z == x), "equal", "same values of different types");
		z[k] = z[k] == T2(1) ? T2(0) : T2(1);
		VH_CHECK(!(x == z) && (x != z), "equal", "difference in component " << k << " of " << D);
	}
	vh::nontrivial(h.v);
	if(D > 1 && D < 5 && rng.chance(1, 300)) vh::sample("a = " + str(ca) + ", b = " + str(cb), 4);
}

template<std::size_t D, typename T> void unary(vh::Rng& rng) {
	bool small = rng.chance(1, 4);
	Vec<D, T> a;
	fill(a, rng, small);
	if constexpr(!std::is_same_v<T, bool>) {
		auto x = a;
		for(std::size_t i = 0; i < D; ++i) if(!okNeg(x[i])) x[i] = T(1);
		const auto x0 = x;
		auto n = -x;
		VH_CHECK((std::is_same_v<decltype(n), Vec<D, T>>), "neg", "type");
		each(n, [&](auto i) { return T(-x0[i]); }, "neg", "-a");
		each(+x, [&](auto i) { return x0[i]; }, "pos", "+a");
		VH_CHECK(equal(x, x0), "arguments", "unary operator changed its argument");

		// aliasing
		for(std::size_t k = 0; k < std::min<std::size_t>(D, 20); ++k) {
			Vec<D, T> v;
			fill(v, rng, true);
			const auto v0 = v;
			v *= v[k];
			each(v, [&](auto i) { T t = v0[i]; t *= v0[k]; return t; }, "alias-scale", "a *= a[k]");
			v = v0;
			each(v[k] * v, [&](auto i) { return v0[k] * v0[i]; }, "alias-scale", "a[k] * a");
			if(D > 20) k += D / 20;
		}
		Vec<D, T> v;
		fill(v, rng, true);
		const auto v0 = v;
		v += v;
		each(v, [&](auto i) { T t = v0[i]; t += v0[i]; return t; }, "alias-add", "a += a");
		v = v0;
		v -= v;
		each(v, [&](auto i) { T t = v0[i]; t -= v0[i]; return t; }, "alias-sub", "a -= a");
		v = v0;
		((v += v) -= v0) *= T(1);
		each(v, [&](auto i) { return v0[i]; }, "chain", "chained assignments");
		if constexpr(!std::is_same_v<T, NC>) {
			// exact for small values in every order
			Vec<D, T> s;
			for(std::size_t i = 0; i < D; ++i) s[i] = smallValue<T>(rng, 9);
			const auto s0 = s;
			auto sum = nytl::sum(s);
			decltype(s[0] + s[0]) want {};
			for(std::size_t i = 0; i < D; ++i) want += s[i];
			VH_CHECK((std::is_same_v<decltype(sum), decltype(want)>) && sum == want, "sum", "of " << str(s) << ": " << show(sum) << " instead of " << show(want));
			for(std::size_t i = 0; i < D; ++i) s[i] = D <= 8 ? smallValue<T>(rng, 3) : i % (D / 4) == 0 ? smallValue<T>(rng, 3) : T(1);
			if(rng.chance(1, 2)) for(std::size_t i = 0; i < D; ++i) if(s[i] == T(0)) s[i] = T(2);
			decltype(s[0] * s[0]) prod(1);
			for(std::size_t i = 0; i < D; ++i) prod *= s[i];
			auto p = nytl::multiply(s);
			VH_CHECK((std::is_same_v<decltype(p), decltype(prod)>) && p == prod, "multiply", "of " << str(s) << ": " << show(p) << " instead of " << show(prod));
			if constexpr(std::is_unsigned_v<decltype(s[0] + s[0])> || std::is_integral_v<T>) {
				// full range as long as nothing overflows
				fill(s, rng, false);
				__int128 w = 0;
				bool ok = true;
				using R = decltype(s[0] + s[0]);
				for(std::size_t i = 0; i < D; ++i) { w += s[i]; ok &= w >= std::numeric_limits<R>::min() && w <= std::numeric_limits<R>::max(); }
				if(ok || std::is_unsigned_v<R>) VH_CHECK(nytl::sum(s) == R(w), "sum", "of " << str(s));
			}
			(void) s0;
		}
		if constexpr(std::is_floating_point_v<T>) { // any values up to rounding
			Vec<D, T> s;
			long double want = 0, mag = 0, prod = 1;
			for(std::size_t i = 0; i < D; ++i) { s[i] = T(rng.normal()); want += s[i]; mag += std::fabs(s[i]); prod *= s[i]; }
			auto eps = std::numeric_limits<T>::epsilon() * (D + 1);
			VH_CHECK(std::fabs(nytl::sum(s) - want) <= mag * eps, "sum", "of " << str(s));
			if(D <= 16) VH_CHECK(std::fabs(nytl::multiply(s) - prod) <= std::fabs(prod) * eps, "multiply", "of " << str(s));
		}
	}

	// access
	const auto& ca = a;
	VH_CHECK(a.size() == D && ca.size() == D && (Vec<D, T>::size() == D), "size", a.size());
	VH_CHECK(sizeof(a) == D * sizeof(T), "size", "sizeof");
	auto p = reinterpret_cast<T*>(&a);
	VH_CHECK(a.data() == p && ca.data() == p && a.begin() == p && ca.begin() == p, "begin", "");
	VH_CHECK(a.end() - a.begin() == D && ca.end() - ca.begin() == D, "end", a.end() - a.begin());
	VH_CHECK(&a.front() == p && &ca.front() == p && &a.back() == p + D - 1 && &ca.back() == p + D - 1, "front-back", "");
	std::size_t i = 0;
	for(auto& x : a) { VH_CHECK(&x == &a[i] && &x == p + i, "iteration", "component " << i); ++i; }
	VH_CHECK(i == D, "iteration", i << " components");
	i = 0;
	for(auto& x : ca) { VH_CHECK(&x == &ca[i], "iteration", "const component " << i); ++i; }
	VH_CHECK(i == D, "iteration", i << " components");
	auto w = a;
	auto k = rng.below(D);
	auto nv = smallValue<T>(rng);
	w[k] = nv;
	each(w, [&](auto j) { return j == k ? nv : ca[j]; }, "index-write", "v[k] = x");
	if constexpr(D == 2 || D == 3) {
		VH_CHECK(&a[0] == &a.x && &a[1] == &a.y && &ca[0] == &ca.x && &ca[1] == &ca.y, "index", "");
		if constexpr(D == 3) VH_CHECK(&a[2] == &a.z && &ca[2] == &ca.z, "index", "z");
		for(std::size_t bad : {D, D + 1, std::size_t(3), std::size_t(4), std::size_t(255), std::size_t(256), std::size_t(257), std::size_t(65536), std::size_t(1) << 31,
			std::size_t(1) << 32, (std::size_t(1) << 32) + 1, std::size_t(1) << 63, std::size_t(-1), std::size_t(-2), std::size_t(rng.next() | 4)}) {
			if(bad < D || !rng.chance(1, 4)) continue;
			bool t1 = false, t2 = false;
			try { a[bad] = T(1); } catch(const std::out_of_range&) { t1 = true; }
			try { (void) ca[bad]; } catch(const std::out_of_range&) { t2 = true; }
			VH_CHECK(t1, "out-of-range", "index " << bad);
			VH_CHECK(t2, "out-of-range", "const, index " << bad);
		}
	}
	vh::nontrivial(rng.next());
}

template<std::size_t D, typename T, std::size_t OD, typename OT> void convert(vh::Rng& rng) {
	Vec<D, T> a;
	for(std::size_t i = 0; i < D; ++i) { a[i] = anyValue<T>(rng); if(!okConv<OT>(a[i])) a[i] = T(rng.below(9)) / 2; }
	const auto c = a;
	// fresh memory is not zero
	alignas(64) unsigned char mem[sizeof(Vec<OD, OT>)];
	std::memset(mem, 0x5a, sizeof(mem));
	auto& r = *new(mem) Vec<OD, OT>(c);
	auto s = static_cast<Vec<OD, OT>>(c);
	Vec<OD, OT> t(a);
	each(r, [&](auto i) { OT x {}; if(i < D) x = c[i]; return x; }, "convert", "conversion to another dimension");
	VH_CHECK(equal(r, s) && equal(r, t), "convert", "different results");
	VH_CHECK(equal(a, c), "arguments", "conversion changed its source");
	vh::count("conversions");
	vh::nontrivial(rng.next());
}

template<std::size_t D, typename T, typename... OTs> void convertAll(vh::Rng& rng) {
	(convert<D, T, 1, OTs>(rng), ...); (convert<D, T, 2, OTs>(rng), ...); (convert<D, T, 3, OTs>(rng), ...);
	(convert<D, T, 4, OTs>(rng), ...); (convert<D, T, 6, OTs>(rng), ...);
}

template<typename T1, typename T2> void dims(vh::Rng& r) {
	binary<1, T1, T2>(r); binary<2, T1, T2>(r); binary<3, T1, T2>(r); binary<4, T1, T2>(r); binary<5, T1, T2>(r); binary<8, T1, T2>(r);
}
template<typename T> void udims(vh::Rng& r) {
	unary<1, T>(r); unary<2, T>(r); unary<3, T>(r); unary<4, T>(r); unary<5, T>(r); unary<7, T>(r); unary<16, T>(r);
}
template<typename T, typename... OTs> void conv(vh::Rng& r) {
	convertAll<1, T, OTs...>(r); convertAll<2, T, OTs...>(r); convertAll<3, T, OTs...>(r); convertAll<4, T, OTs...>(r); convertAll<5, T, OTs...>(r);
}

// Class types, pointers and vectors as value types: whatever the operators of the value type do.
template<std::size_t D, typename V, typename F> void same(const V& v, F&& f, const char* key, const char* what) {
	VH_CHECK(v.size() == D, key, what);
	for(std::size_t i = 0; i < D; ++i) {
		VH_CHECK((std::is_same_v<std::decay_t<decltype(v[i])>, std::decay_t<decltype(f(i))>>), "type", what);
		VH_CHECK(v[i] == f(i), key, what << ", dimension " << D << " component " << i << " differs from the operation of the value type");
	}
}
template<std::size_t D> void classTypes(vh::Rng& rng) {
	auto gen = [&](auto tag, auto&& g) { Vec<D, typename decltype(tag)::type> v; for(std::size_t i = 0; i < D; ++i) v[i] = g(i); return v; };
	auto k = rng.below(D);
	{ // strings: + does not commute
		using S = std::string;
		auto g = [&](auto) { S s; for(auto n = rng.below(rng.chance(1, 4) ? 40 : 3); n; --n) s += char('a' + rng.below(3)); return s; };
		const auto a = gen(vh::Tag<S>{}, g), b = gen(vh::Tag<S>{}, g);
		same<D>(a + b, [&](auto i) { return a[i] + b[i]; }, "class-types", "strings: a + b");
		same<D>(a + a, [&](auto i) { return a[i] + a[i]; }, "class-types", "strings: a + a");
		auto x = a;
		x += b;
		same<D>(x, [&](auto i) { return a[i] + b[i]; }, "class-types", "strings: a += b");
		x += x;
		same<D>(x, [&](auto i) { return a[i] + b[i] + a[i] + b[i]; }, "class-types", "strings: a += a");
		x = a;
		VH_CHECK(x == a && !(x != a), "class-types", "strings: comparison");
		x[k] += "z";
		VH_CHECK(x != a && !(x == a), "class-types", "strings: comparison");
		auto y = static_cast<Vec<D + 2, S>>(a);
		auto z = static_cast<Vec<2, S>>(a);
		for(std::size_t i = 0; i < D + 2; ++i) VH_CHECK(y[i] == (i < D ? a[i] : S()), "convert", "strings");
		for(std::size_t i = 0; i < 2; ++i) VH_CHECK(z[i] == (i < D ? a[i] : S()), "convert", "strings");
	}
	{ // durations: mixed units have a common type
		using M = std::chrono::milliseconds; using S = std::chrono::seconds;
		const auto a = gen(vh::Tag<M>{}, [&](auto) { return M(rng.range(-100000, 100000)); });
		const auto b = gen(vh::Tag<S>{}, [&](auto i) { return rng.chance(1, 3) && a[i] % S(1) == M(0) ? std::chrono::duration_cast<S>(a[i]) : S(rng.range(-100, 100)); });
		int f = rng.range(-20, 20);
		same<D>(a + b, [&](auto i) { return a[i] + b[i]; }, "class-types", "durations: a + b");
		same<D>(b - a, [&](auto i) { return b[i] - a[i]; }, "class-types", "durations: a - b");
		same<D>(f * a, [&](auto i) { return f * a[i]; }, "class-types", "durations: f * a");
		same<D>(f * b, [&](auto i) { return f * b[i]; }, "class-types", "durations: f * a");
		same<D>(-a, [&](auto i) { return -a[i]; }, "class-types", "durations: -a");
		auto x = a;
		x += b;
		same<D>(x, [&](auto i) { return M(a[i] + b[i]); }, "class-types", "durations: a += b");
		x -= a;
		same<D>(x, [&](auto i) { return M(b[i]); }, "class-types", "durations: a -= b");
		VH_CHECK(x == b && b == x && !(x != b), "class-types", "durations: comparison of different units");
		x[k] += M(1);
		VH_CHECK(x != b && b != x && !(x == b), "class-types", "durations: comparison of different units");
		x = a;
		x *= f;
		same<D>(x, [&](auto i) { return a[i] * f; }, "class-types", "durations: a *= f");
		M want {};
		for(std::size_t i = 0; i < D; ++i) want += a[i];
		VH_CHECK(sum(a) == want, "class-types", "durations: sum");
		auto y = static_cast<Vec<D + 1, M>>(b);
		for(std::size_t i = 0; i < D + 1; ++i) VH_CHECK(y[i] == (i < D ? M(b[i]) : M(0)), "convert", "durations");
	}
	{ // vectors of vectors
		using V = Vec<3, int>; using W = Vec<3, double>;
		const auto a = gen(vh::Tag<V>{}, [&](auto) { return V {int(rng.range(-9, 9)), int(rng.range(-9, 9)), int(rng.range(-9, 9))}; });
		const auto b = gen(vh::Tag<W>{}, [&](auto i) { return rng.chance(1, 2) ? static_cast<W>(a[i]) : W {rng.normal(), rng.normal(), 1}; });
		same<D>(a + b, [&](auto i) { return a[i] + b[i]; }, "class-types", "vectors: a + b");
		same<D>(b - a, [&](auto i) { return b[i] - a[i]; }, "class-types", "vectors: a - b");
		same<D>(-b, [&](auto i) { return -b[i]; }, "class-types", "vectors: -a");
		auto x = b;
		x += a;
		same<D>(x, [&](auto i) { return b[i] + a[i]; }, "class-types", "vectors: a += b");
		x = b;
		x *= 2.5;
		same<D>(x, [&](auto i) { return 2.5 * b[i]; }, "class-types", "vectors: a *= f");
		bool eq = true;
		for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < 3; ++j) eq &= a[i][j] == b[i][j];
		VH_CHECK((a == b) == eq && (a != b) == !eq, "class-types", "vectors: comparison");
		auto s = sum(a); V want {};
		for(std::size_t i = 0; i < D; ++i) want += a[i];
		VH_CHECK(s == want, "class-types", "vectors: sum");
	}
	{ // pointers
		static const char mem[256] {};
		const auto p = gen(vh::Tag<const char*>{}, [&](auto) { return mem + rng.range(100, 150); });
		const auto q = gen(vh::Tag<const char*>{}, [&](auto i) { return rng.chance(1, 2) ? p[i] : mem + rng.range(100, 150); });
		const auto o = gen(vh::Tag<int>{}, [&](auto) { return int(rng.range(-90, 90)); });
		same<D>(p + o, [&](auto i) { return p[i] + o[i]; }, "class-types", "pointers: a + b");
		same<D>(o + p, [&](auto i) { return o[i] + p[i]; }, "class-types", "pointers: a + b");
		same<D>(p - o, [&](auto i) { return p[i] - o[i]; }, "class-types", "pointers: a - b");
		same<D>(p - q, [&](auto i) { return p[i] - q[i]; }, "class-types", "pointers: a - b");
		auto x = p;
		x += o;
		same<D>(x, [&](auto i) { return p[i] + o[i]; }, "class-types", "pointers: a += b");
		x -= o;
		same<D>(x, [&](auto i) { return p[i]; }, "class-types", "pointers: a -= b");
	}
	vh::count("class_types");
	vh::nontrivial(rng.next());
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
#define BIN(A, B) vh::section("binary-" #A "-" #B, 3000, 200000, [](vh::Rng& r, std::uint64_t) { dims<A, B>(r); });
#define UN(A) vh::section("unary-" #A, 1000, 60000, [](vh::Rng& r, std::uint64_t) { udims<A>(r); });
#define CONV(name, ...) vh::section("convert-" name, 600, 60000, [](vh::Rng& r, std::uint64_t) { conv<__VA_ARGS__>(r); });
#if PART == 0
	BIN(int, int) BIN(float, float) BIN(double, double) BIN(unsigned, unsigned)
#elif PART == 1
	BIN(int, double) BIN(float, double) BIN(float, int) BIN(double, float) BIN(int, unsigned)
#elif PART == 2
	BIN(int8_t, int8_t) BIN(uint8_t, uint8_t) BIN(int16_t, uint8_t) BIN(int64_t, int) BIN(uint64_t, uint32_t)
#elif PART == 3
	using cd = std::complex<double>; using cf = std::complex<float>; using ld = long double;
	BIN(cd, cd) BIN(cf, cf) BIN(ld, double) BIN(NC, NC) BIN(int, int64_t)
#elif PART == 4
	UN(int) UN(float) UN(double) UN(unsigned) UN(int8_t)
#elif PART == 5
	using cd = std::complex<double>; using ld = long double;
	UN(uint8_t) UN(int64_t) UN(uint64_t) UN(cd) UN(NC) UN(ld) UN(bool)
#elif PART == 8
	vh::section("class-types", 2000, 60000, [](vh::Rng& r, std::uint64_t) { classTypes<1>(r); classTypes<2>(r); classTypes<3>(r); classTypes<4>(r); classTypes<5>(r); classTypes<9>(r); });
#elif PART == 6
	CONV("int", int, int, float, double, std::int8_t, std::uint64_t)
	CONV("float", float, int, float, double, std::int8_t, std::complex<float>)
#elif PART == 7
	CONV("double", double, int, float, double, std::uint64_t, bool)
	CONV("uint8", std::uint8_t, std::uint8_t, int, float)
	CONV("int64", std::int64_t, int, double, std::int64_t)
	vh::section("large", 60, 3000, [](vh::Rng& r, std::uint64_t) {
		binary<70, int, int>(r); binary<300, float, double>(r); unary<64, int>(r); unary<300, double>(r); unary<257, unsigned>(r);
		convert<300, int, 299, double>(r); convert<3, int, 300, int>(r); convert<300, float, 2, double>(r); convert<260, int, 300, int>(r);
	});
	vh::section("deduction", 100, 3000, [](vh::Rng& r, std::uint64_t) {
		int a = r.range(-9, 9), b = r.range(-9, 9), c = r.range(-9, 9);
		double d = r.normal();
		Vec v2 {a, b}; Vec v4 {a, b, c, a}; Vec v5 {d, d, 1.0, 2.0, d};
		VH_CHECK((std::is_same_v<decltype(v2), Vec<2, int>>) && v2[0] == a && v2[1] == b, "deduction", "2");
		VH_CHECK((std::is_same_v<decltype(v4), Vec<4, int>>) && v4[0] == a && v4[1] == b && v4[2] == c && v4[3] == a, "deduction", "4");
		VH_CHECK((std::is_same_v<decltype(v5), Vec<5, double>>) && v5[0] == d && v5[2] == 1 && v5[3] == 2 && v5[4] == d, "deduction", "5");
		Vec<3, int> agg {a, b, c}, part {a, b}, zero {};
		VH_CHECK(agg.x == a && agg.y == b && agg.z == c && part.x == a && part.y == b && part.z == 0 && zero.x == 0 && zero.z == 0, "aggregate", "");
		vh::nontrivial(r.next());
	});
#endif
	return vh::finish();
}
