// C32: scalar math helpers.
#include "numeric.hpp"
#include <nytl/math.hpp>
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>

using LD = long double;
constexpr LD PI = 3.14159265358979323846264338327950288L;

template<typename P> P finite(vh::Rng& r) {
	if constexpr(std::is_integral_v<P>) return r.chance(1, 3) ? P(r.range(-360, 360)) : P(anyValue<P>(r));
	else switch(r.below(6)) {
		case 0: return P(r.range(-720, 720));
		case 1: return P(r.normal() * std::ldexp(1., int(r.range(-100, 100))));
		case 2: return 0;
		default: return P(r.uniform(-400, 400));
	}
}

template<typename P> void angles(vh::Rng& r) {
	auto x = finite<P>(r);
	LD eps = 2e-12L + (std::is_same_v<P, float> ? 0 : 0);
	auto d = nytl::degrees(x);
	auto a = nytl::radians(x);
	static_assert(std::is_floating_point_v<decltype(d)> && std::is_floating_point_v<decltype(a)>);
	static_assert(sizeof(d) >= 8 && sizeof(a) >= 8);
	LD wd = LD(x) * 180 / PI, wa = LD(x) * PI / 180;
	VH_CHECK(std::fabs(LD(d) - wd) <= eps * std::fabs(wd), "degrees", d << " instead of " << wd << " for " << show(x));
	VH_CHECK(std::fabs(LD(a) - wa) <= eps * std::fabs(wa), "radians", a << " instead of " << wa << " for " << show(x));
	VH_CHECK(std::fabs(LD(nytl::radians(d)) - LD(x)) <= 1e-15L * std::fabs(LD(x)), "inverse", "radians(degrees(" << show(x) << ")) is " << nytl::radians(d));
	VH_CHECK(std::fabs(LD(nytl::degrees(a)) - LD(x)) <= 1e-15L * std::fabs(LD(x)), "inverse", "degrees(radians(" << show(x) << ")) is " << nytl::degrees(a));
	vh::nontrivial(vh::Hash().addf(double(x)).v);
	vh::count("angles");
	if(r.chance(1, 20000)) vh::sample("degrees(" + std::to_string(x) + ") is " + std::to_string(d));
}

template<typename P, typename T> void mixes(vh::Rng& r) {
	P x, y;
	if constexpr(std::is_integral_v<P>) { x = P(r.range(-1000000, 1000000)); y = P(r.range(-1000000, 1000000)); }
	else { x = finite<P>(r); y = r.chance(1, 3) ? P(x * P(1 + r.normal() * 1e-3)) : finite<P>(r); }
	if(r.chance(1, 10)) y = x;
	auto at0 = nytl::mix(x, y, T(0)), at1 = nytl::mix(x, y, T(1));
	VH_CHECK(LD(at0) == LD(x), "mix-0", at0 << " instead of " << x << " (" << y << ")");
	VH_CHECK(LD(at1) == LD(y), "mix-1", at1 << " instead of " << y << " (" << x << ")");
	if constexpr(std::is_floating_point_v<T>) for(int i = 0; i < 4; ++i) {
		T a = i == 0 ? T(0.5) : i == 1 ? T(r.range(0, 64)) / 64 : T(r.unit());
		if(i == 3) a = T(r.uniform(-2, 3)); // extrapolation
		auto m = nytl::mix(x, y, a);
		LD want = (1 - LD(a)) * LD(x) + LD(a) * LD(y);
		LD eps = std::is_same_v<T, float> || std::is_same_v<decltype(m), float> ? 1.2e-7L : 2.3e-16L;
		VH_CHECK(std::fabs(LD(m) - want) <= 4 * eps * (std::fabs((1 + std::fabs(LD(a))) * LD(x)) + std::fabs(LD(a) * LD(y))), "mix", m << " instead of " << want << " for " << x << ", " << y << ", " << a);
	}
	vh::nontrivial(vh::Hash().addf(double(x)).addf(double(y)).v);
	vh::count("mixes");
}

template<typename P> void smooth(vh::Rng& r) {
	P lo, hi;
	do {
		int e = r.chance(1, 3) ? 60 : 10; // edges close to each other or far apart
		lo = P(r.chance(1, 3) ? (e > 10 ? 0 : r.range(-3, 3)) : r.normal() * std::ldexp(1., int(r.range(-e, e))));
		hi = P(lo + (r.chance(1, 3) ? LD(r.range(1, 5)) : std::ldexp(r.uniform(1, 2), int(r.range(-e, e)))));
	} while(!(hi > lo));
	LD eps = std::numeric_limits<P>::epsilon();
	std::vector<P> xs {lo, hi, P(lo - 1), P(hi + 1), P(lo - (hi - lo)), P(hi + (hi - lo)), P((lo + hi) / 2)};
	for(int i = 0; i < 12; ++i) xs.push_back(P(lo + (LD(hi) - lo) * LD(r.uniform(-0.5, 1.5))));
	for(int i = 0; i < 6; ++i) xs.push_back(P(lo + (LD(hi) - lo) * LD(r.unit())));
	if(r.chance(1, 4)) { xs.push_back(std::numeric_limits<P>::max() / 4); xs.push_back(std::numeric_limits<P>::lowest() / 4); }
	std::sort(xs.begin(), xs.end());
	LD last = 0;
	bool first = true;
	for(P x : xs) {
		auto s = nytl::smoothstep(lo, hi, x);
		static_assert(std::is_same_v<decltype(s), P>);
		LD t = (LD(x) - lo) / (LD(hi) - lo);
		LD want = t <= 0 ? 0 : t >= 1 ? 1 : t * t * (3 - 2 * t);
		// x - lo and hi - lo may be rounded
		LD dt = 4 * eps * (1 + 1);
		VH_CHECK(std::fabs(LD(s) - want) <= 2 * dt, "smoothstep", s << " instead of " << want << " for " << x << " in " << lo << ", " << hi);
		VH_CHECK(LD(s) >= -2 * eps && LD(s) <= 1 + 2 * eps, "smoothstep-range", s << " for " << x << " in " << lo << ", " << hi);
		if(x <= lo) VH_CHECK(s == 0, "smoothstep-clamp", s << " for " << x << " in " << lo << ", " << hi);
		if(x >= hi) VH_CHECK(s == 1, "smoothstep-clamp", s << " for " << x << " in " << lo << ", " << hi);
		if(!first) VH_CHECK(LD(s) >= last - 4 * eps, "smoothstep-monotonic", s << " after " << last << " for " << x << " in " << lo << ", " << hi);
		last = s;
		first = false;
	}
	vh::nontrivial(vh::Hash().addf(double(lo)).addf(double(hi)).v);
	vh::count("smoothsteps");
}

void factorials(vh::Rng&, std::uint64_t) {
	unsigned __int128 f = 1;
	for(unsigned n = 0; n <= 20; ++n) {
		if(n > 1) f *= n;
		VH_CHECK(nytl::factorial(n) == static_cast<unsigned long>(f), "factorial", nytl::factorial(n) << " for " << n);
		vh::nontrivial(n);
	}
	static_assert(nytl::factorial(20) == 2432902008176640000ul);
}

void clamps(vh::Rng& r) {
	auto val = [&]() -> float { switch(r.below(8)) { case 0: return std::numeric_limits<float>::infinity(); case 1: return -std::numeric_limits<float>::infinity(); case 2: return float(r.range(-2, 2)); case 3: return std::numeric_limits<float>::max(); case 4: return std::numeric_limits<float>::denorm_min() * float(r.sign()); case 5: return float(r.normal() * std::ldexp(1., int(r.range(-60, 60)))); default: return float(r.normal()); } };
	float v = val(), a = val(), b = val();
	if(a > b) std::swap(a, b);
	switch(r.below(6)) { case 0: v = a; break; case 1: v = b; break; case 2: v = std::nextafter(a, r.chance(1, 2) ? -INFINITY : INFINITY); break; case 3: v = std::nextafter(b, r.chance(1, 2) ? -INFINITY : INFINITY); break; default: break; }
	if(r.chance(1, 10)) b = a;
	int store = int(r.range(-5, 5));
	auto got = nytl::clampStore(v, a, b, store);
	static_assert(std::is_same_v<decltype(got), float>);
	float want = v < a ? a : v > b ? b : v;
	VH_CHECK(got == want, "clampStore", got << " instead of " << want << " for " << v << " in " << a << ", " << b);
	bool ok = v < a ? store == -1 : v > b ? store == 1 : (store == 0 || (v == a && store == -1) || (v == b && store == 1));
	VH_CHECK(ok, "clampStore-sign", store << " for " << v << " in " << a << ", " << b);
	vh::count(v < a ? "clamped_min" : v > b ? "clamped_max" : "not_clamped");
	vh::nontrivial(vh::Hash().addf(v).addf(a).addf(b).v);
}

void mapOne(int x) {
	auto u = nytl::mapUnsigned(x);
	std::uint64_t want = x < 0 ? std::uint64_t(-(std::int64_t(x))) * 2 - 1 : std::uint64_t(x) * 2;
	VH_CHECK(u == want, "mapUnsigned", u << " instead of " << want << " for " << x);
	VH_CHECK(nytl::unmapUnsigned(unsigned(want)) == x, "unmapUnsigned", nytl::unmapUnsigned(unsigned(want)) << " instead of " << x << " for " << want);
}
void pairOne(std::uint64_t x, std::uint64_t y) {
	unsigned __int128 s = x + y, p = s * (s + 1) / 2 + y;
	if(x > 0xffffffffu || y > 0xffffffffu || p > 0xffffffffu) return;
	auto got = nytl::pair(unsigned(x), unsigned(y));
	VH_CHECK(got == std::uint64_t(p), "pair", got << " instead of " << std::uint64_t(p) << " for " << x << ", " << y);
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	using i64 = std::int64_t; using ld = long double;
	(void) sizeof(i64); (void) sizeof(ld);
#if PART == 0
#define AN(P) vh::section("angles-" #P, 30000, 2000000, [](vh::Rng& r, std::uint64_t) { angles<P>(r); });
#define MX(P, T) vh::section("mix-" #P #T, 30000, 2000000, [](vh::Rng& r, std::uint64_t) { mixes<P, T>(r); });
#define SM(P) vh::section("smoothstep-" #P, 10000, 1000000, [](vh::Rng& r, std::uint64_t) { smooth<P>(r); });
	AN(float) AN(double) AN(int) AN(i64) AN(ld)
	MX(float, float) MX(double, double) MX(float, double) MX(double, float) MX(int, double) MX(int, int) MX(double, int) MX(int, float)
	SM(float) SM(double)
	vh::section("mix-vectors", 10000, 500000, [](vh::Rng& r, std::uint64_t) {
		nytl::Vec3d x, y;
		for(int i = 0; i < 3; ++i) { x[i] = finite<double>(r); y[i] = finite<double>(r); }
		double a = r.chance(1, 4) ? double(r.below(2)) : r.unit();
		auto m = nytl::mix(x, y, a);
		for(int i = 0; i < 3; ++i) VH_CHECK(m[i] == nytl::mix(x[i], y[i], a), "mix-vector", "component " << i);
	});
	vh::section("factorial", 1, 1, factorials);
	vh::section("clampStore", 150000, 10000000, [](vh::Rng& r, std::uint64_t) { clamps(r); });
#else
	vh::section("map-boundaries", 1, 1, [](vh::Rng&, std::uint64_t) {
		for(int k = 0; k < 31; ++k) for(std::int64_t d = -300; d <= 300; ++d) for(int s : {1, -1}) { std::int64_t v = (std::int64_t(1) << k) * s + d; if(v >= INT32_MIN && v <= INT32_MAX) mapOne(int(v)); }
		for(std::int64_t d = 0; d < 70000; ++d) { mapOne(int(INT32_MIN + d)); mapOne(int(INT32_MAX - d)); mapOne(int(d)); mapOne(int(-d)); }
	});
	vh::section("map", 64, 1024, [](vh::Rng& r, std::uint64_t i) { // strided over the whole range, complete when thorough
		std::uint64_t block = std::uint64_t(1) << 32, n = vh::run().thorough ? 1024 : 64, b = block / n * i, e = block / n * (i + 1);
		std::uint64_t step = vh::run().thorough ? 1 : 997;
		for(auto x = b + r.below(step); x < e; x += step) mapOne(int(std::int64_t(x) + INT32_MIN));
		vh::count("mapped", (e - b) / step);
		for(int k = 0; k < 100; ++k) vh::nontrivial(r.next());
	});
	vh::section("pair-small", 1, 1, [](vh::Rng&, std::uint64_t) {
		std::vector<bool> seen(1 << 21);
		for(unsigned x = 0; x < 1024; ++x) for(unsigned y = 0; x + y < 1024; ++y) { pairOne(x, y); auto p = nytl::pair(x, y); VH_CHECK(p < seen.size() && !seen[p], "pair-injective", p << " for " << x << ", " << y); if(p < seen.size()) seen[p] = true; }
	});
	vh::section("pair", 92682, 92682, [](vh::Rng& r, std::uint64_t s) { // all pairs with sum s, strided when quick
		std::uint64_t step = vh::run().thorough ? 1 : 1 + s / 10;
		for(std::uint64_t y = step > 1 ? r.below(std::min(step, s + 1)) : 0; y <= s; y += step) pairOne(s - y, y);
		pairOne(s, 0); pairOne(0, s); pairOne(s / 2, s - s / 2);
		if(s > 92000) for(std::uint64_t y = 0; y <= 200; ++y) { pairOne(s - y, y); pairOne(y, s - y); }
		vh::count("pairs", s / step);
		vh::nontrivial(s);
		if(s % 30000 == 9) vh::sample("pair numbers of all pairs with sum " + std::to_string(s));
	});
#endif
	return vh::finish();
}
