// C23: solving linear systems and inverses.
#include "lumat.hpp"

constexpr LD EPS = std::numeric_limits<double>::epsilon();
template<std::size_t D> LD growth() { return std::ldexp(LD(1), int(D)); }
template<std::size_t D, typename T> std::string str(const Vec<D, T>& v) { std::ostringstream os; os.precision(17); os << "("; for(std::size_t i = 0; i < D; ++i) os << (i ? " " : "") << show(v[i]); os << ")"; return os.str(); }
template<std::size_t D> using Grid = std::array<std::array<LD, D>, D>;

// Inverse with full pivoting in extended precision, false if (almost) singular.
template<std::size_t D, typename T> bool reference(const Mat<D, D, T>& a, Grid<D>& inv) {
	Grid<D> m;
	std::array<std::size_t, D> cols;
	for(std::size_t r = 0; r < D; ++r) { cols[r] = r; for(std::size_t c = 0; c < D; ++c) { m[r][c] = LD(a[r][c]); inv[r][c] = r == c; } }
	for(std::size_t k = 0; k < D; ++k) {
		std::size_t pr = k, pc = k;
		for(std::size_t r = k; r < D; ++r) for(std::size_t c = k; c < D; ++c) if(std::fabs(m[r][c]) > std::fabs(m[pr][pc])) { pr = r; pc = c; }
		if(std::fabs(m[pr][pc]) <= 1e-13L * maxAbs(a)) return false;
		std::swap(m[pr], m[k]);
		std::swap(inv[pr], inv[k]);
		for(std::size_t r = 0; r < D; ++r) std::swap(m[r][pc], m[r][k]);
		std::swap(cols[pc], cols[k]);
		LD f = m[k][k];
		for(std::size_t c = 0; c < D; ++c) { m[k][c] /= f; inv[k][c] /= f; }
		for(std::size_t r = 0; r < D; ++r) if(r != k) {
			LD g = m[r][k];
			if(g != 0) for(std::size_t c = 0; c < D; ++c) { m[r][c] -= g * m[k][c]; inv[r][c] -= g * inv[k][c]; }
		}
	}
	Grid<D> ret;
	for(std::size_t k = 0; k < D; ++k) ret[cols[k]] = inv[k];
	inv = ret;
	return true;
}

template<std::size_t D> LD maxAbs(const Grid<D>& g) { LD x = 0; for(auto& r : g) for(auto v : r) x = std::max(x, std::fabs(v)); return x; }

template<std::size_t D, typename T, typename TX, typename TB> void residual(const Mat<D, D, T>& a, const Vec<D, TX>& x, const Vec<D, TB>& b, LD factor, const char* what) {
	LD xs = 0, bs = 0;
	for(auto v : x) xs = std::max(xs, std::fabs(LD(v)));
	for(auto v : b) bs = std::max(bs, std::fabs(LD(v)));
	LD tol = factor * 8 * D * D * growth<D>() * EPS * (maxAbs(a) * xs + bs);
	for(std::size_t r = 0; r < D; ++r) {
		LD s = 0;
		for(std::size_t c = 0; c < D; ++c) s += LD(a[r][c]) * LD(x[c]);
		VH_CHECK(std::fabs(s - LD(b[r])) <= tol, what, "Ax = " << s << " instead of " << LD(b[r]) << " in row " << r << " for x = " << str(x) << ", b = " << str(b) << ", A = " << str(a));
	}
	vh::count("systems");
}

template<typename T> T nextB(vh::Rng& rng) {
	if constexpr(std::is_unsigned_v<T>) return T(rng.range(0, 9));
	else if constexpr(std::is_integral_v<T>) return T(rng.range(-9, 9));
	else return rng.chance(1, 4) ? T(rng.range(-2, 2)) : T(rng.normal() * (rng.chance(1, 4) ? 1000 : 1));
}
template<std::size_t D, typename T> Vec<D, T> rhs(vh::Rng& rng) {
	Vec<D, T> b {};
	switch(rng.below(5)) {
		case 0: b[rng.below(D)] = 1; break;
		case 1: if(rng.chance(1, 4)) break; [[fallthrough]];
		default: for(auto& x : b) x = nextB<T>(rng);
	}
	return b;
}

template<std::size_t D, typename T> void checkMat(vh::Rng& rng, const Mat<D, D, T>& a) {
	Grid<D> ref;
	if(!reference(a, ref)) { vh::count("singular_skipped"); return; }
	LD cond = D * maxAbs(a) * maxAbs<D>(ref) * D;
	vh::nontrivial(hashMat(a) ^ D);
	if(D == 4 && rng.chance(1, 200)) vh::sample("regular " + str(a), 5);
	const auto copy = a;
	const auto lu = nytl::luDecomp(a);
	// solve
	auto solve = [&](auto b) {
		auto b0 = b;
		auto x = nytl::luEvaluate(lu, b);
		static_assert(std::is_same_v<decltype(x), Vec<D, double>>);
		residual(a, x, b, 1, "residual");
		auto pb = lu.perm * b;
		auto y = nytl::luEvaluate(lu.lower, lu.upper, pb);
		residual(a, y, b, 1, "residual-of-parts");
		LD tol = 16 * D * D * growth<D>() * EPS * cond;
		LD big = 0;
		std::array<LD, D> want;
		for(std::size_t r = 0; r < D; ++r) { LD s = 0; for(std::size_t c = 0; c < D; ++c) s += ref[r][c] * LD(b[c]); want[r] = s; big = std::max(big, std::fabs(s)); }
		if(tol < 0.01L) for(std::size_t r = 0; r < D; ++r) VH_CHECK(std::fabs(want[r] - LD(x[r])) <= 4 * tol * big, "solution", "x = " << str(x) << ", component " << r << " should be " << want[r] << " for b = " << str(b) << ", A = " << str(a));
		VH_CHECK(b == b0, "argument", "b changed");
	};
	solve(rhs<D, double>(rng));
	solve(rhs<D, double>(rng));
	if(rng.chance(1, 2)) solve(rhs<D, float>(rng));
	if(rng.chance(1, 2)) solve(rhs<D, int>(rng));
	if(rng.chance(1, 4)) solve(rhs<D, unsigned char>(rng));
	// inverse
	auto checkInverse = [&](const auto& inv, const char* what) {
		static_assert(std::is_same_v<std::decay_t<decltype(inv)>, Mat<D, D, double>>);
		LD tol = 32 * D * D * growth<D>() * EPS * cond;
		if(tol > 0.01L) return;
		for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c) {
			VH_CHECK(std::fabs(LD(inv[r][c]) - ref[r][c]) <= tol * maxAbs<D>(ref), "inverse", what << " at " << r << ", " << c << ": " << inv[r][c] << " instead of " << ref[r][c] << " for " << str(a));
			LD s = 0, t = 0;
			for(std::size_t k = 0; k < D; ++k) { s += LD(a[r][k]) * LD(inv[k][c]); t += LD(inv[r][k]) * LD(a[k][c]); }
			VH_CHECK(std::fabs(s - (r == c)) <= tol * cond && std::fabs(t - (r == c)) <= tol * cond, "identity", what << " at " << r << ", " << c << ": AB = " << s << ", BA = " << t << " for " << str(a));
		}
		vh::count("inverses");
	};
	checkInverse(nytl::inverse(a), "inverse");
	checkInverse(nytl::inverse(lu), "inverse of the decomposition");
	VH_CHECK(copy == a, "argument", "matrix changed");
	// identity for right inverses also for bad conditions
	auto inv = nytl::inverse(a);
	for(std::size_t c = 0; c < D; ++c) {
		Vec<D, double> x, e {};
		for(std::size_t r = 0; r < D; ++r) x[r] = inv[r][c];
		e[c] = 1;
		residual(a, x, e, 1, "inverse-column");
	}
}

// regular integer matrices
template<std::size_t D, typename T> void ints(vh::Rng& rng, std::int64_t limit) {
	auto i = randomInts<D>(rng, limit, std::is_unsigned_v<T>);
	auto det = bareiss(i);
	if(det == 0) { if(rng.chance(1, 2)) { for(std::size_t k = 0; k < D; ++k) i[k][rng.chance(1, 2) ? k : D - 1 - k] += limit; det = bareiss(i); } if(det == 0) return; }
	auto a = toMat<D, T>(i);
	checkMat(rng, a);
	if constexpr(D <= 5) {
		auto adj = adjugate(i);
		auto inv = nytl::inverse(a);
		LD m = 0;
		for(auto& r : adj) for(auto v : r) m = std::max(m, std::fabs(LD(v)));
		LD cond = D * D * maxAbs(a) * m / std::fabs(LD(det));
		LD tol = 32 * D * D * growth<D>() * EPS * cond;
		if(tol < 0.01L) for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c)
			VH_CHECK(std::fabs(LD(inv[r][c]) * LD(det) - LD(adj[r][c])) <= tol * m, "adjugate", "at " << r << ", " << c << ": " << inv[r][c] << " instead of " << LD(adj[r][c]) << " / " << LD(det) << " for " << str(a));
		vh::count("adjugates");
	}
}

// scaled permutations: everything is exact
template<std::size_t D, typename T> void perm(vh::Rng& rng, const std::vector<std::size_t>& p) {
	Mat<D, D, T> a {};
	Mat<D, D, double> want {};
	for(std::size_t r = 0; r < D; ++r) {
		int v = (std::is_unsigned_v<T> || rng.chance(1, 2) ? 1 : -1) * (1 << rng.below(4));
		a[r][p[r]] = T(v);
		want[p[r]][r] = 1.0 / v;
	}
	auto lu = nytl::luDecomp(a);
	auto i1 = nytl::inverse(a), i2 = nytl::inverse(lu);
	VH_CHECK(i1 == want && i2 == want, "permutation-inverse", str(i1) << ", " << str(i2) << " for " << str(a));
	auto b = rhs<D, int>(rng);
	auto x = nytl::luEvaluate(lu, b);
	for(std::size_t r = 0; r < D; ++r) VH_CHECK(x[p[r]] == b[r] * want[p[r]][r], "permutation-solve", "x = " << str(x) << " for b = " << str(b) << ", A = " << str(a));
	vh::nontrivial(hashMat(a) ^ D);
	vh::count("permutations");
}
template<std::size_t D, typename T> void perms(vh::Rng& r) {
	std::vector<std::size_t> p(D);
	for(std::size_t i = 0; i < D; ++i) p[i] = i;
	do perm<D, T>(r, p); while(std::next_permutation(p.begin(), p.end()));
}

// given triangular matrices, exact by construction
template<std::size_t D, typename TL, typename TU, typename TB> void triangular(vh::Rng& rng) {
	Mat<D, D, TL> l {};
	Mat<D, D, TU> u {};
	std::array<LD, D> x, y, b;
	bool unit = rng.chance(1, 2);
	bool ints = std::is_integral_v<TL> || std::is_integral_v<TU>;
	auto entry = [&](bool in) { return in ? rng.range(-2, 2) : rng.range(-8, 8) / 4.; };
	for(std::size_t r = 0; r < D; ++r) {
		for(std::size_t c = 0; c < r; ++c) l[r][c] = TL(entry(std::is_integral_v<TL>));
		l[r][r] = TL(unit ? 1 : rng.sign() * (1 << rng.below(3)));
		u[r][r] = TU(rng.sign() * (1 << rng.below(3)));
		for(std::size_t c = r + 1; c < D; ++c) u[r][c] = TU(entry(std::is_integral_v<TU>));
		x[r] = ints ? rng.range(-3, 3) : rng.range(-12, 12) / 4.L;
	}
	Vec<D, TB> bv;
	for(std::size_t r = 0; r < D; ++r) { y[r] = 0; for(std::size_t c = r; c < D; ++c) y[r] += LD(u[r][c]) * x[c]; }
	for(std::size_t r = 0; r < D; ++r) { b[r] = 0; for(std::size_t c = 0; c <= r; ++c) b[r] += LD(l[r][c]) * y[c]; if(!okConv<TB>(b[r]) || LD(TB(b[r])) != b[r]) { vh::count("not_representable"); return; } bv[r] = TB(b[r]); }
	auto got = nytl::luEvaluate(l, u, bv);
	static_assert(std::is_same_v<decltype(got), Vec<D, double>>);
	for(std::size_t r = 0; r < D; ++r) VH_CHECK(LD(got[r]) == x[r], "triangular", "x = " << str(got) << ", component " << r << " should be " << x[r] << " for b = " << str(bv) << ", L = " << str(l) << ", U = " << str(u));
	nytl::LUDecomposition<D, double> lu {};
	vh::nontrivial(hashMat(l) ^ hashMat(u));
	vh::count("triangular");
	if constexpr(std::is_same_v<TL, double> && std::is_same_v<TU, double>) {
		// a decomposition built by hand: P A = L U with another P
		auto p = randomPerm(rng, D);
		lu.lower = l; lu.upper = u; lu.sign = 1;
		Vec<D, TB> ab;
		for(std::size_t r = 0; r < D; ++r) { lu.perm[r][p[r]] = 1; ab[p[r]] = bv[r]; }
		auto z = nytl::luEvaluate(lu, ab);
		for(std::size_t r = 0; r < D; ++r) VH_CHECK(LD(z[r]) == x[r], "triangular-permuted", "x = " << str(z) << ", component " << r << " should be " << x[r]);
		// its inverse
		auto inv = nytl::inverse(lu);
		for(std::size_t k = 0; k < 2; ++k) { // inv * ab = x, exactly apart from the rounding of inv
			for(std::size_t r = 0; r < D; ++r) { LD s = 0, m = 0; for(std::size_t c = 0; c < D; ++c) { s += LD(inv[r][c]) * LD(ab[c]); m += std::fabs(LD(inv[r][c]) * LD(ab[c])); } VH_CHECK(std::fabs(s - x[r]) <= 1e-12L * (1 + m), "inverse-of-parts", s << " instead of " << x[r]); }
		}
	}
}

// any triangular matrices: small relative to |L||U||x| (backward error of two substitutions)
template<std::size_t D, typename TL, typename TU, typename TB> void triangularResidual(vh::Rng& rng) {
	Mat<D, D, TL> l {};
	Mat<D, D, TU> u {};
	Vec<D, TB> b = rhs<D, TB>(rng);
	auto entry = [&](auto t) { using T = decltype(t); return std::is_integral_v<T> ? T(rng.range(std::is_unsigned_v<T> ? 0 : -9, 9)) : T(rng.chance(1, 5) ? 0 : rng.normal()); };
	auto diag = [&](auto t) { decltype(t) v; do v = entry(t); while(std::fabs(LD(v)) < 0.1L); return v; };
	for(std::size_t r = 0; r < D; ++r) {
		for(std::size_t c = 0; c < D; ++c) { if(c < r) l[r][c] = entry(TL {}); if(c > r) u[r][c] = entry(TU {}); }
		l[r][r] = diag(TL {});
		u[r][r] = diag(TU {});
	}
	const auto x = nytl::luEvaluate(l, u, b);
	static_assert(std::is_same_v<std::decay_t<decltype(x)>, Vec<D, double>>);
	std::array<LD, D> y {}, ya {};
	for(std::size_t r = 0; r < D; ++r) for(std::size_t c = r; c < D; ++c) { y[r] += LD(u[r][c]) * LD(x[c]); ya[r] += std::fabs(LD(u[r][c]) * LD(x[c])); }
	for(std::size_t r = 0; r < D; ++r) {
		LD s = 0, m = 0;
		for(std::size_t c = 0; c <= r; ++c) { s += LD(l[r][c]) * y[c]; m += std::fabs(LD(l[r][c])) * ya[c]; }
		VH_CHECK(std::fabs(s - LD(b[r])) <= 8 * (D + 2) * EPS * m, "triangular-residual", "LUx = " << s << " instead of " << LD(b[r]) << " in row " << r << " for x = " << str(x) << ", b = " << str(b) << ", L = " << str(l) << ", U = " << str(u));
	}
	vh::nontrivial(hashMat(l) ^ hashMat(u));
	vh::count("triangular_general");
}

template<std::size_t D, typename T> void reals(vh::Rng& rng) { checkMat(rng, randomReal<D, T>(rng)); }

template<typename T> void intsAll(vh::Rng& r) {
	LD mx = std::is_integral_v<T> ? LD(std::numeric_limits<T>::max()) / 2 : 1e5L;
	auto lim = [&](std::int64_t l) { return std::int64_t(std::min<LD>(l, mx)); };
	ints<1, T>(r, lim(100000)); ints<2, T>(r, lim(r.chance(1, 2) ? 9 : 3000)); ints<3, T>(r, lim(r.chance(1, 2) ? 5 : 300)); ints<4, T>(r, lim(r.chance(1, 2) ? 3 : 100));
	ints<5, T>(r, lim(r.chance(1, 2) ? 2 : 50)); ints<6, T>(r, lim(9)); if(r.chance(1, 3)) ints<8, T>(r, lim(5));
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	using u8 = std::uint8_t; using i64 = std::int64_t; using ld = long double;
	(void) sizeof(u8); (void) sizeof(i64); (void) sizeof(ld);
#define IN(T) vh::section("ints-" #T, 4000, 100000, [](vh::Rng& r, std::uint64_t) { intsAll<T>(r); });
#define PE(T) vh::section("permutations-" #T, 2, 40, [](vh::Rng& r, std::uint64_t) { perms<1, T>(r); perms<2, T>(r); perms<3, T>(r); perms<4, T>(r); perms<5, T>(r); perms<6, T>(r); });
#define RE(T) vh::section("reals-" #T, 4000, 100000, [](vh::Rng& r, std::uint64_t) { reals<1, T>(r); reals<2, T>(r); reals<3, T>(r); reals<4, T>(r); reals<5, T>(r); reals<6, T>(r); if(r.chance(1, 3)) reals<8, T>(r); });
#define TR(L, U, B) vh::section("triangular-" #L #U #B, 3000, 300000, [](vh::Rng& r, std::uint64_t) { triangular<1, L, U, B>(r); triangular<2, L, U, B>(r); triangular<3, L, U, B>(r); triangular<4, L, U, B>(r); triangular<6, L, U, B>(r); triangular<9, L, U, B>(r); });
#define TG(L, U, B) vh::section("triangular-general-" #L #U #B, 2000, 100000, [](vh::Rng& r, std::uint64_t) { triangularResidual<1, L, U, B>(r); triangularResidual<2, L, U, B>(r); triangularResidual<3, L, U, B>(r); triangularResidual<5, L, U, B>(r); triangularResidual<8, L, U, B>(r); });
#if PART == 0
	IN(int) PE(int)
#elif PART == 1
	IN(i64) IN(u8)
#elif PART == 2
	IN(double) PE(double) RE(double)
#elif PART == 3
	IN(float) RE(float) PE(unsigned)
	vh::section("large", 5, 300, [](vh::Rng& r, std::uint64_t) { perm<40, double>(r, randomPerm(r, 40)); perm<70, double>(r, randomPerm(r, 70)); });
#elif PART == 4
	TG(double, double, double) TG(int, int, int) TG(float, float, float) TG(float, float, int) TG(int, int, float) TG(double, double, u8) TG(i64, i64, double) TG(u8, u8, i64) TG(ld, ld, ld) TG(int, int, i64)
	TR(double, double, double) TR(float, float, int) TR(int, int, i64) TR(double, double, int) TR(float, float, double) TR(ld, ld, float) TR(double, double, u8)
#endif
	return vh::finish();
}
