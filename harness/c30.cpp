// C30: rect predicates and intersection.
#include "rectmodel.hpp"

template<std::size_t D, typename T, typename TP> void checkPoint(const Rect<D, T>& r, const Vec<D, TP>& p) {
	bool closed = true, open = true;
	for(std::size_t i = 0; i < D; ++i) {
		LD lo = LD(r.position[i]), hi = lo + LD(r.size[i]), x = LD(p[i]);
		closed &= lo <= x && x <= hi;
		open &= lo < x && x < hi;
	}
	std::ostringstream os;
	bool c = nytl::contains(r, p), o = nytl::containsReal(r, p);
	auto info = [&] { std::ostringstream os; os.precision(17); os << str(r) << ", point"; for(auto x : p) os << " " << show(x); return os.str(); };
	VH_CHECK(c == closed, "contains", c << " for " << info());
	VH_CHECK(o == open, "containsReal", o << " for " << info());
	static_assert(std::is_same_v<decltype(nytl::contains(r, p)), bool> && std::is_same_v<decltype(nytl::containsReal(r, p)), bool>);
}

template<std::size_t D, typename T, typename U> void checkPredicates(const Rect<D, T>& a, const Rect<D, U>& b) {
	bool closed = true, open = true, solid = true;
	for(std::size_t i = 0; i < D; ++i) {
		LD alo = LD(a.position[i]), ahi = alo + LD(a.size[i]), blo = LD(b.position[i]), bhi = blo + LD(b.size[i]);
		LD lo = std::max(alo, blo), hi = std::min(ahi, bhi);
		closed &= lo <= hi;
		open &= lo < hi;
		solid &= a.size[i] > 0 && b.size[i] > 0;
	}
	VH_CHECK(nytl::intersects(a, b) == closed, "intersects", !closed << " for " << str(a) << " and " << str(b));
	VH_CHECK(nytl::intersects(b, a) == closed, "intersects", !closed << " for " << str(b) << " and " << str(a));
	if(solid) { // open boxes of rects without volume are empty, not specified
		VH_CHECK(nytl::intersectsReal(a, b) == open, "intersectsReal", !open << " for " << str(a) << " and " << str(b));
		VH_CHECK(nytl::intersectsReal(b, a) == open, "intersectsReal", !open << " for " << str(b) << " and " << str(a));
		vh::count(open ? "overlapping" : closed ? "touching" : "separate");
	}
}

template<std::size_t D, typename T> void checkPair(const Rect<D, T>& a, const Rect<D, T>& b) {
	checkPredicates(a, b);
	const auto ca = a, cb = b;
	if constexpr(sizeof(T) >= 4) { // intersection of smaller integers does not compile
	auto i = nytl::intersection(a, b);
	static_assert(std::is_same_v<decltype(i), Rect<D, T>>);
	bool common = true;
	for(std::size_t k = 0; k < D; ++k) common &= std::max(LD(a.position[k]), LD(b.position[k])) <= std::min(LD(a.position[k]) + LD(a.size[k]), LD(b.position[k]) + LD(b.size[k]));
	for(std::size_t k = 0; k < D; ++k) {
		LD lo = common ? std::max(LD(a.position[k]), LD(b.position[k])) : 0, hi = common ? std::min(LD(a.position[k]) + LD(a.size[k]), LD(b.position[k]) + LD(b.size[k])) : 0;
		VH_CHECK(LD(i.position[k]) == lo && LD(i.size[k]) == hi - lo, "intersection", str(i) << " for " << str(a) << " and " << str(b));
	}
	auto j = nytl::intersection(b, a);
	VH_CHECK(i == j, "intersection-symmetric", str(i) << ", " << str(j) << " for " << str(a) << " and " << str(b));
	VH_CHECK(nytl::intersection(a, a) == a, "intersection-self", str(a));
	vh::count(common ? "intersections" : "no_intersection");
	}
	VH_CHECK(ca == a && cb == b, "argument", "changed");
	bool eq = true;
	for(std::size_t k = 0; k < D; ++k) eq &= a.position[k] == b.position[k] && a.size[k] == b.size[k];
	VH_CHECK((a == b) == eq && (a != b) == !eq && (b == a) == eq, "equality", str(a) << " and " << str(b));
	vh::nontrivial(hashRect(a) ^ vh::mix64(hashRect(b)));
}

template<std::size_t D, typename T> void checkOne(vh::Rng& r, const Rect<D, T>& a) {
	VH_CHECK((a == a) && !(a != a), "equality", str(a));
	if constexpr(std::is_floating_point_v<T>) { // equality is that of the components, also for values that differ from themselves
		const T specials[] = {std::numeric_limits<T>::quiet_NaN(), T(0), -T(0), std::numeric_limits<T>::infinity()};
		for(int n = 0; n < 3; ++n) {
			auto b = a, c = a;
			auto k = r.below(2 * D), l = r.below(2) ? k : r.below(2 * D);
			(k < D ? b.position[k] : b.size[k - D]) = specials[r.below(4)];
			(l < D ? c.position[l] : c.size[l - D]) = specials[r.below(4)];
			bool bc = true, bb = true;
			for(std::size_t m = 0; m < D; ++m) {
				bc &= b.position[m] == c.position[m] && b.size[m] == c.size[m];
				bb &= b.position[m] == b.position[m] && b.size[m] == b.size[m];
			}
			VH_CHECK((b == c) == bc && (b != c) == !bc, "equality-special", str(b) << " and " << str(c));
			VH_CHECK((b == b) == bb && (b != b) == !bb, "equality-special", str(b) << " and itself");
			vh::count("special_equality");
		}
	}
	for(std::size_t k = 0; k < D; ++k) {
		auto b = a;
		if(std::is_floating_point_v<T> && b.position[k] == 0) b.position[k] = 1;
		else b.position[k] = T(b.position[k] > 0 || std::is_floating_point_v<T> ? b.position[k] / 2 : b.position[k] == 0 ? 1 : b.position[k] + 1);
		VH_CHECK(!(a == b) && (a != b), "equality", "position " << k << " of " << str(a));
		b = a;
		b.size[k] = T(b.size[k] / 2);
		if(b.size[k] == a.size[k]) b.size[k] = 1;
		VH_CHECK(!(a == b) && (a != b), "equality", "size " << k << " of " << str(a));
	}
	// points relative to the box: before, on the outline, inside, behind
	for(int n = 0; n < 12; ++n) {
		Vec<D, T> p;
		bool outside = r.chance(1, 2);
		auto odd = r.below(D);
		for(std::size_t k = 0; k < D; ++k) {
			LD lo = LD(a.position[k]), s = LD(a.size[k]);
			LD step = std::is_integral_v<T> ? 1 : std::max<LD>(s, std::fabs(lo)) * 0x1p-12L;
			LD v;
			switch((outside && k != odd) ? 2 + r.below(2) : r.below(7)) {
				case 0: v = lo; break;
				case 1: v = lo + s; break;
				case 2: v = lo + (std::is_integral_v<T> ? std::floor(s / 2) : s / 2); break;
				case 3: v = lo + (s > step ? step : s); break;
				case 4: v = lo - step; break;
				case 5: v = lo + s + step; break;
				default: v = lo + s - (s > step ? step : s);
			}
			if(std::is_integral_v<T>) v = std::min(std::max(v, LD(std::numeric_limits<T>::min())), LD(std::numeric_limits<T>::max()));
			p[k] = T(v);
		}
		checkPoint(a, p);
		Vec<D, double> pd;
		bool same = true;
		for(std::size_t k = 0; k < D; ++k) { pd[k] = double(p[k]); same &= LD(pd[k]) == LD(p[k]) && LD(double(a.position[k])) == LD(a.position[k]) && std::fabs(LD(a.position[k])) < 1e15L && LD(a.size[k]) < 1e15L; }
		if(same) {
			if(sizeof(T) <= 4 && std::is_integral_v<T>) { for(auto& x : pd) x += r.pick({0., 0.5, -0.5}); checkPoint(a, pd); }
		}
	}
	vh::count("rects");
	// volume and center
	LD vol = 1, part = 1; // the product of the leading sizes must not overflow even if a later size is 0
	for(std::size_t k = 0; k < D; ++k) { vol *= LD(a.size[k]); part = std::max(part, vol); }
	if(part < (std::is_integral_v<T> ? LD(std::numeric_limits<T>::max()) : 1e30L)) {
		LD got = LD(nytl::size(a));
		VH_CHECK(std::is_integral_v<T> ? got == vol : std::fabs(got - vol) <= D * 1.2e-7L * vol, "size", got << " instead of " << vol << " for " << str(a));
	}
	auto c = nytl::center(a);
	for(std::size_t k = 0; k < D; ++k) {
		LD want = LD(a.position[k]) + LD(a.size[k]) / 2;
		VH_CHECK(std::fabs(LD(c[k]) - want) <= 4 * LD(std::numeric_limits<double>::epsilon()) * (std::fabs(LD(a.position[k])) + LD(a.size[k])), "center", c[k] << " instead of " << want << " for " << str(a));
	}
}

template<std::size_t D, typename T, std::size_t D2, typename T2> void conversion(vh::Rng& r) {
	Rect<D, T> a, b;
	randomPair(r, a, b, false);
	for(std::size_t k = 0; k < D; ++k) if(!okConv<T2>(a.position[k]) || !okConv<T2>(a.size[k])) return;
	auto c = static_cast<Rect<D2, T2>>(a);
	for(std::size_t k = 0; k < D2; ++k) {
		T2 p {}, s {};
		if(k < D) { p = T2(a.position[k]); s = T2(a.size[k]); }
		VH_CHECK(sameNum(c.position[k], p) && sameNum(c.size[k], s), "conversion", "axis " << k << " of " << str(a) << " became " << str(c));
	}
	vh::count("conversions");
}

template<typename T> void randoms(vh::Rng& r) {
	auto run = [&](auto dim) {
		constexpr std::size_t D = decltype(dim)::value;
		Rect<D, T> a, b;
		randomPair(r, a, b, r.chance(3, 4));
		checkPair(a, b);
		if(r.chance(1, 3)) checkOne(r, a);
		if(D == 2 && r.chance(1, 3000)) vh::sample(str(a) + " and " + str(b), 4);
	};
	run(std::integral_constant<std::size_t, 1>()); run(std::integral_constant<std::size_t, 2>()); run(std::integral_constant<std::size_t, 3>()); run(std::integral_constant<std::size_t, 4>()); run(std::integral_constant<std::size_t, 6>());
}

// different value types of the rects
template<typename T, typename U> void mixed(vh::Rng& r) {
	auto run = [&](auto dim) {
		constexpr std::size_t D = decltype(dim)::value;
		Rect<D, T> a;
		Rect<D, U> b;
		for(std::size_t i = 0; i < D; ++i) {
			auto val = [&](auto t, bool size) { using X = decltype(t); LD v = r.range(size ? 0 : -6, 6); if(std::is_unsigned_v<T> || std::is_unsigned_v<U>) v = std::fabs(v); if(std::is_floating_point_v<X>) v += r.below(4) / 4.L; return X(v); };
			a.position[i] = val(T(), false); a.size[i] = val(T(), true); b.position[i] = val(U(), false); b.size[i] = val(U(), true);
		}
		checkPredicates(a, b);
		bool eq = true;
		for(std::size_t k = 0; k < D; ++k) eq &= LD(a.position[k]) == LD(b.position[k]) && LD(a.size[k]) == LD(b.size[k]);
		VH_CHECK((a == b) == eq && (a != b) == !eq, "equality-mixed", str(a) << " and " << str(b));
		Rect<D, U> same;
		bool exact = true;
		for(std::size_t k = 0; k < D; ++k) { if(!okConv<U>(a.position[k]) || !okConv<U>(a.size[k])) return; same.position[k] = U(a.position[k]); same.size[k] = U(a.size[k]); exact &= LD(same.position[k]) == LD(a.position[k]) && LD(same.size[k]) == LD(a.size[k]); }
		VH_CHECK((a == same) == exact && (same != a) == !exact, "equality-mixed", str(a) << " and " << str(same));
		Vec<D, U> p;
		for(std::size_t k = 0; k < D; ++k) p[k] = r.chance(1, 2) ? b.position[k] : U(b.position[k] + b.size[k]);
		checkPoint(a, p);
	};
	run(std::integral_constant<std::size_t, 1>()); run(std::integral_constant<std::size_t, 2>()); run(std::integral_constant<std::size_t, 3>());
}

// random floating point values: decisions with some distance to the rounding boundary
template<typename T> void general(vh::Rng& r) {
	constexpr std::size_t D = 3;
	Rect<D, T> a, b;
	for(std::size_t i = 0; i < D; ++i) { a.position[i] = T(r.normal()); b.position[i] = T(r.normal()); a.size[i] = T(std::fabs(r.normal()) * 2); b.size[i] = T(std::fabs(r.normal()) * 2); }
	Vec<D, T> p;
	for(auto& x : p) x = T(r.normal());
	auto A = boxOf(a), B = boxOf(b);
	LD m = 1;
	for(std::size_t i = 0; i < D; ++i) for(LD d : {A.hi[i] - B.lo[i], B.hi[i] - A.lo[i], A.lo[i] - LD(p[i]), A.hi[i] - LD(p[i])}) m = std::min(m, std::fabs(d));
	if(m < 1e-5L) return;
	checkPredicates(a, b);
	checkPoint(a, p);
	auto i = nytl::intersection(a, b);
	bool inter = nytl::intersects(a, b);
	for(std::size_t k = 0; k < D; ++k) {
		LD lo = inter ? std::max(A.lo[k], B.lo[k]) : 0, hi = inter ? std::min(A.hi[k], B.hi[k]) : 0;
		LD tol = 8 * std::numeric_limits<T>::epsilon() * 4;
		VH_CHECK(std::fabs(LD(i.position[k]) - lo) <= tol && std::fabs(LD(i.position[k]) + LD(i.size[k]) - hi) <= tol, "intersection-general", str(i) << " for " << str(a) << " and " << str(b));
	}
	vh::nontrivial(hashRect(a) ^ hashRect(b));
}

template<std::size_t D, typename T> void exhaustive(int n, int minSize, double scale = 1, double offset = 0) {
	auto all = allRects<D, T>(n, minSize, scale, offset);
	for(auto& a : all) for(auto& b : all) checkPair(a, b);
	for(auto& a : all) { // all points of the half grid
		std::size_t c = 1;
		for(std::size_t i = 0; i < D; ++i) c *= 2 * n + 3;
		for(std::size_t k = 0; k < c; ++k) { auto x = k; Vec<D, double> p; Vec<D, T> q; bool exact = true; for(std::size_t i = 0; i < D; ++i) { p[i] = (double(x % (2 * n + 3)) - 1) / 2 * scale + offset; exact &= p[i] == std::floor(p[i]) && (p[i] >= 0 || std::is_signed_v<T>); x /= 2 * n + 3; if(exact) q[i] = T(p[i]); } checkPoint(a, p); if(exact) checkPoint(a, q); }
	}
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	using u8 = std::uint8_t; using i16 = std::int16_t; using i64 = std::int64_t; using ld = long double;
	(void) sizeof(u8); (void) sizeof(i16); (void) sizeof(i64); (void) sizeof(ld);
#define RA(T) vh::section("random-" #T, 8000, 500000, [](vh::Rng& r, std::uint64_t) { randoms<T>(r); });
#define MI(T, U) vh::section("mixed-" #T #U, 4000, 300000, [](vh::Rng& r, std::uint64_t) { mixed<T, U>(r); });
#if PART == 0
	vh::section("exhaustive", 1, 1, [](vh::Rng&, std::uint64_t) { exhaustive<1, int>(9, 0); exhaustive<1, float>(9, 0, 0.25, -1); exhaustive<2, int>(4, 0); exhaustive<2, double>(3, 0, 0.5, -1); exhaustive<3, int>(2, 0); exhaustive<3, int>(3, 1); exhaustive<2, unsigned>(3, 0); });
	RA(int)
#elif PART == 1
	RA(float) RA(double) RA(i64)
	vh::section("general-float", 30000, 2000000, [](vh::Rng& r, std::uint64_t) { general<float>(r); });
	vh::section("general-double", 30000, 2000000, [](vh::Rng& r, std::uint64_t) { general<double>(r); });
#elif PART == 2
	RA(unsigned) RA(u8) RA(i16) RA(ld)
#elif PART == 3
	MI(int, double) MI(float, double) MI(int, float) MI(int, i64) MI(u8, int) MI(unsigned, i64)
	vh::section("conversion", 10000, 500000, [](vh::Rng& r, std::uint64_t) {
		conversion<1, int, 1, double>(r); conversion<2, float, 2, int>(r); conversion<2, double, 3, float>(r); conversion<3, int, 2, i64>(r); conversion<4, double, 4, float>(r); conversion<1, float, 4, double>(r); conversion<4, int, 1, i16>(r); conversion<3, double, 3, double>(r);
		Vec<2, double> p {r.normal(), r.normal()}, s {r.normal(), r.normal()};
		nytl::Rect x {p, s};
		static_assert(std::is_same_v<decltype(x), Rect<2, double>>);
		vh::nontrivial(vh::Hash().addf(p[0]).addf(s[1]).v);
		if(r.chance(1, 2000)) vh::sample("conversions of " + str(x));
		VH_CHECK(x.position[0] == p[0] && x.position[1] == p[1] && x.size[0] == s[0] && x.size[1] == s[1], "deduction", str(x));
	});
#endif
	return vh::finish();
}
