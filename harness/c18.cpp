// C18: metric vector operations against extended precision definitions.
#include "numeric.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>

using nytl::Vec;
using L = long double;
template<typename T> constexpr L eps = std::is_integral_v<T> ? L(2.3e-16) : L(std::numeric_limits<T>::epsilon());
template<typename A, typename B> constexpr L eps2 = eps<A> > eps<B> ? eps<A> : eps<B>;
const L PI = 3.14159265358979323846264338327950288L;

template<std::size_t D, typename T> std::string str(const Vec<D, T>& v) {
	std::ostringstream os;
	os.precision(20);
	for(std::size_t i = 0; i < D; ++i) os << (i ? " " : "(") << show(v[i]);
	os << ")";
	return os.str();
}

// non-degenerate vector with a random magnitude
template<std::size_t D, typename T> Vec<D, T> vec(vh::Rng& r, int maxExp = 20) {
	Vec<D, T> v;
	auto zero = [&] { for(auto& x : v) if(x != T(0)) return false; return true; };
	do {
		if constexpr(std::is_integral_v<T>) {
			int range = r.chance(1, 2) ? 5 : 8000;
			for(auto& x : v) x = std::is_unsigned_v<T> ? T(r.below(range)) : T(r.range(-range, range));
		} else {
			double s = std::ldexp(1.0, int(r.range(-maxExp, maxExp)));
			unsigned mode = r.below(4);
			for(auto& x : v) x = mode == 0 ? T(r.range(-3, 3)) : mode == 1 ? T(r.normal()) : mode == 2 ? T(s * r.normal()) : T(r.chance(1, 2) ? 0 : s * r.normal());
		}
		if(r.chance(1, 8)) for(auto& x : v) x = T(0), v[r.below(D)] = T(1 + r.below(3)); // axis
	} while(zero());
	return v;
}

template<std::size_t D, typename A, typename B> L refDot(const Vec<D, A>& a, const Vec<D, B>& b) { L s = 0; for(std::size_t i = 0; i < D; ++i) s += L(a[i]) * L(b[i]); return s; }
template<std::size_t D, typename A, typename B> L refDotAbs(const Vec<D, A>& a, const Vec<D, B>& b) { L s = 0; for(std::size_t i = 0; i < D; ++i) s += std::fabs(L(a[i]) * L(b[i])); return s; }
template<std::size_t D, typename A> L refLen(const Vec<D, A>& a) { return std::sqrt(refDot(a, a)); }
template<std::size_t D, typename A, typename B> L refAngle(const Vec<D, A>& a, const Vec<D, B>& b) {
	L la = refLen(a), lb = refLen(b), s = 0, d = 0;
	for(std::size_t i = 0; i < D; ++i) { L x = a[i] / la, y = b[i] / lb; d += (x - y) * (x - y); s += (x + y) * (x + y); }
	return 2 * std::atan2(std::sqrt(d), std::sqrt(s));
}
// acos is ill conditioned close to 0 and pi
inline L angleTol(L ref, L err) { return 4 * err / std::max(std::sin(std::min(ref, PI)), std::sqrt(err)) + 8 * err; }

template<std::size_t D, typename A, typename B> void angles(const Vec<D, A>& a, const Vec<D, B>& b, const char* what) {
	vh::count("angles");
	auto v = nytl::angle(a, b);
	L e = eps<decltype(v)>;
	if constexpr(std::is_floating_point_v<A> || std::is_floating_point_v<B>) e = std::max(e, eps2<A, B>);
	L err = (D + 8) * e, ref = refAngle(a, b);
	VH_CHECK(!std::isnan(v), "angle-nan", what << ": angle of " << str(a) << " and " << str(b));
	VH_CHECK(v >= 0 && v <= PI + 4 * e, "angle-range", what << ": " << v << " for " << str(a) << " and " << str(b));
	VH_CHECK(std::fabs(v - ref) <= angleTol(ref, err), "angle", what << ": " << v << " instead of " << ref << " for " << str(a) << " and " << str(b));
	L w = nytl::angle(b, a);
	VH_CHECK(std::fabs(v - w) <= angleTol(ref, err), "angle-symmetric", what << ": " << v << " and " << w);
}

template<std::size_t D, typename A, typename B> void pair(vh::Rng& rng) {
	constexpr L e2 = eps2<A, B>;
	auto a = vec<D, A>(rng); auto b = vec<D, B>(rng);
	const auto a0 = a; const auto b0 = b;
	vh::nontrivial(vh::Hash().addf(a[0]).addf(b[0]).addf(double(a[D - 1])).addf(double(b[D - 1])).add(D).v);
	if(D > 1 && D < 5 && rng.chance(1, 300)) vh::sample("a = " + str(a) + ", b = " + str(b), 4);
	auto d = nytl::dot(a, b);
	VH_CHECK((std::is_same_v<decltype(d), decltype(a[0] * b[0] + a[0] * b[0])>), "dot", "type");
	if constexpr(std::is_integral_v<A> && std::is_integral_v<B>) VH_CHECK(L(d) == refDot(a, b), "dot", d << " for " << str(a) << " and " << str(b));
	else VH_CHECK(std::fabs(L(d) - refDot(a, b)) <= (D + 1) * e2 * refDotAbs(a, b), "dot", d << " for " << str(a) << " and " << str(b));
	VH_CHECK(nytl::dot(b, a) == d || std::fabs(L(nytl::dot(b, a) - d)) <= (D + 1) * e2 * refDotAbs(a, b), "dot", "symmetry");

	auto l = nytl::length(a);
	L rl = refLen(a);
	VH_CHECK(std::fabs(l - rl) <= (D + 3) * eps<decltype(l)> * rl, "length", l << " instead of " << rl << " for " << str(a));
	if constexpr(!std::is_unsigned_v<A> && !std::is_unsigned_v<B>) {
		auto dist = nytl::distance(a, b);
		L rd = 0, scale = 0;
		for(std::size_t i = 0; i < D; ++i) { L x = L(a[i]) - L(b[i]); rd += x * x; scale = std::max({scale, std::fabs(L(a[i])), std::fabs(L(b[i]))}); }
		rd = std::sqrt(rd);
		VH_CHECK(std::fabs(dist - rd) <= (D + 5) * std::max(eps<decltype(dist)>, e2) * (rd + scale), "distance", dist << " instead of " << rd << " for " << str(a) << " and " << str(b));
		VH_CHECK(nytl::distance(a, a) == 0, "distance", "to itself");
	}
	angles(a, b, "random");
	angles(a, a, "same");
	if constexpr(D >= 2) VH_CHECK(a == a0 && b == b0, "arguments", "changed");

	if constexpr(D == 2 || D == 3) {
		auto c = nytl::cross(a, b);
		auto check = [&](auto got, L x, L y, int i) {
			L ref = x - y, tol = std::is_integral_v<A> && std::is_integral_v<B> ? L(0) : 3 * e2 * (std::fabs(x) + std::fabs(y));
			VH_CHECK(std::fabs(L(got) - ref) <= tol, "cross", "component " << i << ": " << got << " instead of " << ref << " for " << str(a) << " and " << str(b));
		};
		if constexpr(D == 2 && !(std::is_unsigned_v<A> || std::is_unsigned_v<B>)) check(c, L(a[0]) * b[1], L(a[1]) * b[0], 0);
		if constexpr(D == 3 && !(std::is_unsigned_v<A> || std::is_unsigned_v<B>)) {
			check(c[0], L(a[1]) * b[2], L(a[2]) * b[1], 0);
			check(c[1], L(a[2]) * b[0], L(a[0]) * b[2], 1);
			check(c[2], L(a[0]) * b[1], L(a[1]) * b[0], 2);
		}
	}
}

template<std::size_t D, typename T> void real(vh::Rng& rng) {
	auto a = vec<D, T>(rng, std::is_same_v<T, float> ? 28 : 100);
	const auto a0 = a;
	auto n = nytl::normalized(a);
	L len = refLen(a), nl = refLen(n);
	VH_CHECK(std::fabs(nl - 1) <= (D + 8) * eps<T>, "normalized-length", nl << " for " << str(a));
	for(std::size_t i = 0; i < D; ++i) {
		L want = a0[i] / len;
		VH_CHECK(std::fabs(n[i] - want) <= (D + 8) * eps<T> * std::fabs(want) + L(std::numeric_limits<T>::min()), "normalized", "component " << i << ": " << n[i] << " instead of " << want << " for " << str(a0));
		VH_CHECK(a[i] == a0[i], "arguments", "normalized changed its argument");
	}
	nytl::normalize(a);
	for(std::size_t i = 0; i < D; ++i) {
		L want = a0[i] / len;
		VH_CHECK(std::fabs(a[i] - want) <= (D + 8) * eps<T> * std::fabs(want) + L(std::numeric_limits<T>::min()), "normalize", "component " << i << ": " << a[i] << " instead of " << want << " for " << str(a0));
	}
	// parallel and opposite
	auto v = vec<D, T>(rng);
	for(int k = 0; k < 4; ++k) {
		T s = T(k < 2 ? rng.range(1, 9) : std::fabs(rng.normal()) + 0.001);
		auto p = v, o = v;
		for(std::size_t i = 0; i < D; ++i) { p[i] = s * v[i]; o[i] = -s * v[i]; }
		angles(v, p, "parallel");
		angles(v, o, "opposite");
		// almost parallel
		auto q = p;
		q[rng.below(D)] *= T(1 + std::ldexp(rng.unit(), -int(rng.below(30))));
		if(refLen(q) > 0) { angles(v, q, "almost parallel"); angles(o, q, "almost opposite"); }
		auto n1 = nytl::normalized(v);
		for(auto& w : {p, o, q, vec<D, T>(rng)}) {
			auto n2 = nytl::normalized(w);
			auto x = nytl::angleNormed(n1, n2);
			L ref = refAngle(n1, n2), err = (D + 12) * eps<T>;
			VH_CHECK(!std::isnan(x), "angleNormed-nan", str(n1) << " and " << str(n2));
			VH_CHECK(x >= 0 && x <= PI + 4 * eps<T>, "angleNormed-range", x);
			VH_CHECK(std::fabs(x - ref) <= angleTol(ref, err), "angleNormed", x << " instead of " << ref << " for " << str(n1) << " and " << str(n2));
			VH_CHECK(std::fabs(nytl::angleNormed(n2, n1) - x) <= angleTol(ref, err), "angleNormed-symmetric", "");
			vh::count("angles");
		}
	}
	vh::nontrivial(rng.next());
}

template<std::size_t D, typename T> void mirrored(vh::Rng& rng) {
	auto m = vec<D, T>(rng), p = vec<D, T>(rng);
	const auto m0 = m, p0 = p;
	auto r = nytl::mirror(m, p);
	auto back = nytl::mirror(m, r), alias = m;
	alias = nytl::mirror(alias, alias);
	for(std::size_t i = 0; i < D; ++i) {
		L want = 2 * L(m0[i]) - L(p0[i]), mag = 2 * std::fabs(L(m0[i])) + std::fabs(L(p0[i]));
		L tol = std::is_integral_v<T> ? L(0) : 3 * eps<T> * mag;
		VH_CHECK(std::fabs(L(r[i]) - want) <= tol, "mirror", "component " << i << ": " << r[i] << " instead of " << want);
		VH_CHECK(std::fabs(L(back[i]) - L(p0[i])) <= 4 * tol, "mirror", "not an involution");
		VH_CHECK(alias[i] == m0[i], "mirror", "point mirrored on itself");
		VH_CHECK(m[i] == m0[i] && p[i] == p0[i], "arguments", "mirror changed its arguments");
	}
	vh::nontrivial(rng.next());
}

// the two coordinate systems differ in the direction of y
template<typename T> void normals(vh::Rng& rng) {
	auto v = vec<2, T>(rng);
	if constexpr(std::is_integral_v<T>) for(auto& c : v) if(c == std::numeric_limits<T>::min()) c = 0;
	auto rl = nytl::rho::lnormal(v), rr = nytl::rho::rnormal(v), ll = nytl::lho::lnormal(v), lr = nytl::lho::rnormal(v);
	// quarter turns: to the left in a right handed system is counter clockwise
	VH_CHECK(rl[0] == -v[1] && rl[1] == v[0], "normals", "rho::lnormal" << str(v) << " is " << str(rl));
	VH_CHECK(rr[0] == v[1] && rr[1] == -v[0], "normals", "rho::rnormal" << str(v) << " is " << str(rr));
	VH_CHECK(ll[0] == v[1] && ll[1] == -v[0], "normals", "lho::lnormal" << str(v) << " is " << str(ll));
	VH_CHECK(lr[0] == -v[1] && lr[1] == v[0], "normals", "lho::rnormal" << str(v) << " is " << str(lr));
	vh::nontrivial(rng.next());
}

template<typename A, typename B> void pairs(vh::Rng& r) { pair<1, A, B>(r); pair<2, A, B>(r); pair<3, A, B>(r); pair<4, A, B>(r); pair<6, A, B>(r); pair<17, A, B>(r); }
template<typename A> void reals(vh::Rng& r) { real<1, A>(r); real<2, A>(r); real<3, A>(r); real<4, A>(r); real<6, A>(r); real<17, A>(r); }
template<typename A> void mirrors(vh::Rng& r) { mirrored<1, A>(r); mirrored<2, A>(r); mirrored<3, A>(r); mirrored<4, A>(r); mirrored<7, A>(r); }

int main(int argc, char** argv) {
	vh::init(argc, argv);
#define P(A, B) vh::section("pair-" #A "-" #B, 4000, 500000, [](vh::Rng& r, std::uint64_t) { pairs<A, B>(r); });
#define R(A) vh::section("real-" #A, 1500, 200000, [](vh::Rng& r, std::uint64_t) { reals<A>(r); });
#define M(A) vh::section("mirror-" #A, 2000, 200000, [](vh::Rng& r, std::uint64_t) { mirrors<A>(r); });
#if PART == 0
	P(float, float) P(double, double)
#elif PART == 1
	P(int, int) P(float, double) P(int64_t, int) P(int16_t, int8_t)
#elif PART == 2
	P(int, double) P(double, int) P(unsigned, unsigned) P(int, float) P(int16_t, int16_t) P(int8_t, int8_t)
#elif PART == 3
	R(float) R(double)
	M(float) M(double) M(int) M(int64_t)
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#define N(A) vh::section("normals-" #A, 2000, 100000, [](vh::Rng& r, std::uint64_t) { normals<A>(r); });
	N(float) N(double) N(int) N(int64_t)
	vh::section("cross-exhaustive", 1, 1, [](vh::Rng&, std::uint64_t) {
		for(int n = 0; n < 15625; ++n) { // all of {-2..2}^6
			int x = n, v[6];
			for(auto& c : v) { c = x % 5 - 2; x /= 5; }
			Vec<3, int> a {v[0], v[1], v[2]}, b {v[3], v[4], v[5]};
			auto c = nytl::cross(a, b);
			VH_CHECK(c[0] == a.y * b.z - a.z * b.y && c[1] == a.z * b.x - a.x * b.z && c[2] == a.x * b.y - a.y * b.x, "cross", str(a) << " x " << str(b));
			a = nytl::cross(a, b); // aliased
			VH_CHECK(a == c, "cross", "aliased");
			Vec<2, int> p {v[0], v[1]}, q {v[2], v[3]};
			VH_CHECK(nytl::cross(p, q) == v[0] * v[3] - v[1] * v[2], "cross", "2D " << str(p) << " x " << str(q));
			vh::nontrivial(n);
		}
	});
#endif
	return vh::finish();
}
