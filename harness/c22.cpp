// C22: LU decomposition and determinant.
#include "lumat.hpp"

constexpr LD EPS = std::numeric_limits<double>::epsilon();

template<std::size_t D> LD growth() { return std::ldexp(LD(1), int(D)); }

// Checks all promises about the decomposition, returns it.
template<std::size_t D, typename T> auto checkLU(const Mat<D, D, T>& a) {
	const auto copy = a;
	auto lu = nytl::luDecomp(a);
	auto& [l, u, p, s] = lu;
	static_assert(std::is_same_v<std::decay_t<decltype(l)>, Mat<D, D, double>>);
	VH_CHECK(copy == a, "argument", "changed " << str(a));
	LD scale = maxAbs(a);
	LD tol = 4 * D * growth<D>() * EPS * scale;
	// permutation and its parity
	std::array<std::size_t, D> perm;
	std::array<bool, D> used {};
	for(std::size_t r = 0; r < D; ++r) {
		std::size_t at = D;
		bool ok = true;
		for(std::size_t c = 0; c < D; ++c) {
			if(p[r][c] == 1.0 && at == D) at = c;
			else ok &= p[r][c] == 0.0;
		}
		if(!VH_CHECK(ok && at < D && !used[at], "permutation", str(p) << " for " << str(a))) return lu;
		used[at] = true;
		perm[r] = at;
	}
	int parity = 1;
	for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < i; ++j) if(perm[j] > perm[i]) parity = -parity;
	VH_CHECK(s == parity, "sign", s << " instead of " << parity << " for " << str(a));
	vh::count(parity < 0 ? "odd_permutations" : "even_permutations");
	// triangular
	for(std::size_t r = 0; r < D; ++r) {
		VH_CHECK(l[r][r] == 1.0, "unit-diagonal", str(l) << " for " << str(a));
		for(std::size_t c = r + 1; c < D; ++c) VH_CHECK(l[r][c] == 0.0, "lower", str(l) << " for " << str(a));
		for(std::size_t c = 0; c < r; ++c) VH_CHECK(std::fabs(LD(u[r][c])) <= tol, "upper", str(u) << " for " << str(a));
	}
	// product
	for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c) {
		LD sum = 0;
		for(std::size_t k = 0; k < D; ++k) sum += LD(l[r][k]) * LD(u[k][c]);
		LD want = LD(a[perm[r]][c]);
		VH_CHECK(std::fabs(sum - want) <= tol, "product", "LU at " << r << ", " << c << ": " << sum << " instead of " << want << " (tolerance " << tol << ") for " << str(a));
	}
	vh::nontrivial(hashMat(a) ^ D);
	if constexpr(D >= 3) if(hashMat(a) % 2000 == 0) vh::sample(str(a) + ": L = " + str(l) + ", U = " + str(u) + ", P = " + str(p), 5);
	return lu;
}

template<std::size_t D, typename T> void checkInts(const Ints<D>& i) {
	auto a = toMat<D, T>(i);
	LD det = LD(bareiss(i));
	auto lu = checkLU(a);
	LD hadamard = 1; // bounds the absolute error of the determinant
	for(auto& row : i) { LD n = 0; for(auto x : row) n += LD(x) * x; hadamard *= std::sqrt(n); }
	LD err = 16 * D * D * growth<D>() * EPS * hadamard;
	if(err < 0.25L) {
		if constexpr(std::is_integral_v<T>) VH_CHECK(LD(nytl::determinant(a)) == det, "determinant", LD(nytl::determinant(a)) << " instead of " << det << " for " << str(a));
		else VH_CHECK(std::fabs(LD(nytl::determinant(a)) - det) <= err + (std::is_same_v<T, float> ? 1e-6L * std::fabs(det) : 0), "determinant", LD(nytl::determinant(a)) << " instead of " << det << " for " << str(a));
		if constexpr(std::is_integral_v<T>) VH_CHECK(nytl::invertible(a) == (det != 0), "invertible", nytl::invertible(a) << " but the determinant is " << det << " for " << str(a));
		else if(det != 0) VH_CHECK(nytl::invertible(a), "invertible", "false but the determinant is " << det << " for " << str(a));
		vh::count(det == 0 ? "singular" : det < 0 ? "negative_determinants" : "positive_determinants");
	}
	VH_CHECK(std::fabs(LD(nytl::determinant(lu)) - det) <= err, "determinant-lu", LD(nytl::determinant(lu)) << " instead of " << det << " for " << str(a));
	static_assert(std::is_same_v<decltype(nytl::invertible(a)), bool>);
}

// signed permutation matrices and triangular matrices: every operation is exact
template<std::size_t D, typename T> void checkPerm(const std::vector<std::size_t>& p, vh::Rng& rng) {
	Ints<D> i {};
	LD det = 1;
	for(std::size_t r = 0; r < D; ++r) {
		std::int64_t v = std::is_unsigned_v<T> ? 1 << rng.below(3) : (rng.chance(1, 2) ? 1 : -1) * (std::int64_t(1) << rng.below(3));
		i[r][p[r]] = v;
		det *= v;
		for(std::size_t q = 0; q < r; ++q) if(p[q] > p[r]) det = -det;
	}
	auto a = toMat<D, T>(i);
	auto lu = checkLU(a);
	VH_CHECK(LD(nytl::determinant(a)) == det && LD(nytl::determinant(lu)) == det && nytl::invertible(a), "permutation-determinant", LD(nytl::determinant(a)) << " instead of " << det << " for " << str(a));
	for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c) VH_CHECK(lu.lower[r][c] == (r == c) && (r == c || lu.upper[r][c] == 0), "permutation-lu", str(lu.lower) << ", " << str(lu.upper) << " for " << str(a));
	// singular with one entry less
	auto z = rng.below(D);
	a[z][p[z]] = 0;
	lu = checkLU(a);
	VH_CHECK(LD(nytl::determinant(a)) == 0 && LD(nytl::determinant(lu)) == 0 && !nytl::invertible(a), "permutation-singular", LD(nytl::determinant(a)) << " for " << str(a));
	vh::count("permutations");
}

// P * L * U with small dyadic factors: exact for partial pivoting
template<std::size_t D, typename T> void dyadic(vh::Rng& rng) {
	Mat<D, D, T> a {};
	std::array<std::array<LD, D>, D> l {}, u {};
	auto p = randomPerm(rng, D);
	bool singular = rng.chance(1, 3);
	LD det = 1;
	constexpr int far = sizeof(T) == 4 ? 100 : 900 / int(D) > 450 ? 450 : 900 / int(D);
	int scale = rng.chance(1, 2) ? int(rng.chance(1, 2) ? rng.range(-100, 100) : rng.range(-far, far)) : 0;
	auto zero = rng.below(D);
	for(std::size_t r = 0; r < D; ++r) {
		l[r][r] = 1;
		for(std::size_t c = 0; c < r; ++c) l[r][c] = LD(rng.range(-3, 3)) / 4;
		for(std::size_t c = r; c < D; ++c) u[r][c] = std::ldexp(LD(c == r ? rng.sign() * std::ldexp(1., int(rng.range(-2, 2))) : rng.range(-2, 2)), scale);
		if(singular && r == zero) u[r][r] = 0;
		det *= u[r][r];
		for(std::size_t q = 0; q < r; ++q) if(p[q] > p[r]) det = -det;
	}
	// below a zero pivot nothing may be left for the elimination: the row of the zero pivot is zero
	if(singular) for(std::size_t c = 0; c < D; ++c) u[zero][c] = 0;
	for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c) {
		LD s = 0;
		for(std::size_t k = 0; k < D; ++k) s += l[r][k] * u[k][c];
		a[p[r]][c] = T(s);
	}
	auto lu = checkLU(a);
	LD got = nytl::determinant(a), got2 = nytl::determinant(lu);
	LD tol = 64 * D * growth<D>() * EPS * std::fabs(det) * D;
	if(!singular) {
		VH_CHECK(std::fabs(got - det) <= tol && std::fabs(got2 - det) <= tol, "dyadic-determinant", got << ", " << got2 << " instead of " << det << " for " << str(a));
		VH_CHECK(nytl::invertible(a), "dyadic-invertible", str(a));
	} else {
		LD m = maxAbs(a), lim = 1;
		for(std::size_t i = 0; i < D; ++i) lim *= m * growth<D>();
		VH_CHECK(std::fabs(got) <= 16 * D * EPS * lim, "dyadic-determinant", got << " for the singular " << str(a));
	}
	vh::count("dyadic");
}

template<std::size_t D, typename T> void reals(vh::Rng& rng) {
	auto a = randomReal<D, T>(rng);
	auto lu = checkLU(a);
	if constexpr(D <= 5) { // cofactor expansion
		LD det = 0, mag = 0;
		auto p = std::array<std::size_t, D>();
		for(std::size_t i = 0; i < D; ++i) p[i] = i;
		do {
			LD t = 1;
			for(std::size_t i = 0; i < D; ++i) { t *= LD(a[i][p[i]]); for(std::size_t j = 0; j < i; ++j) if(p[j] > p[i]) t = -t; }
			det += t;
		} while(std::next_permutation(p.begin(), p.end()));
		mag = 1;
		for(std::size_t r = 0; r < D; ++r) { LD n = 0; for(std::size_t c = 0; c < D; ++c) n += LD(a[r][c]) * a[r][c]; mag *= std::sqrt(n); }
		// perturbations are relative to the largest entry of the matrix
		LD tol = 0, m = maxAbs(a), other = 1;
		std::vector<LD> norms;
		for(std::size_t r = 0; r < D; ++r) { LD n = 0; for(std::size_t c = 0; c < D; ++c) n += LD(a[r][c]) * a[r][c]; norms.push_back(std::sqrt(n) + 1e-12L * m); }
		std::sort(norms.rbegin(), norms.rend());
		for(std::size_t r = 0; r + 1 < D; ++r) other *= norms[r];
		tol = 32 * D * D * growth<D>() * EPS * m * other;
		auto typeErr = std::is_same_v<T, float> ? 1e-6L * std::fabs(det) : 0;
		VH_CHECK(std::fabs(LD(nytl::determinant(a)) - det) <= tol + typeErr, "determinant-real", LD(nytl::determinant(a)) << " instead of " << det << " for " << str(a));
		VH_CHECK(std::fabs(LD(nytl::determinant(lu)) - det) <= tol, "determinant-real-lu", LD(nytl::determinant(lu)) << " instead of " << det << " for " << str(a));
		if(std::fabs(det) > tol * 2) VH_CHECK(nytl::invertible(a), "invertible-real", "false for " << str(a));
		if(std::fabs(det) > tol * 10) vh::count("determinants_resolved");
	}
}

template<typename T> void intsAll(vh::Rng& r) {
	bool nn = std::is_unsigned_v<T>;
	auto lim = [&](std::int64_t l) { return std::min<std::int64_t>(l, std::int64_t(std::min<LD>(100000, std::is_integral_v<T> ? LD(std::numeric_limits<T>::max()) : 1e5L)) - 1); };
	checkInts<1, T>(randomInts<1>(r, lim(100000), nn));
	checkInts<2, T>(randomInts<2>(r, lim(r.chance(1, 2) ? 9 : 3000), nn));
	checkInts<3, T>(randomInts<3>(r, lim(r.chance(1, 2) ? 5 : 300), nn));
	checkInts<4, T>(randomInts<4>(r, lim(r.chance(1, 2) ? 3 : 100), nn));
	checkInts<5, T>(randomInts<5>(r, lim(r.chance(1, 2) ? 2 : 50), nn));
	checkInts<6, T>(randomInts<6>(r, lim(r.chance(1, 2) ? 2 : 20), nn));
	if(r.chance(1, 3)) checkInts<7, T>(randomInts<7>(r, lim(5), nn));
	if(r.chance(1, 3)) checkInts<8, T>(randomInts<8>(r, lim(3), nn));
}

template<std::size_t D, typename T> void perms(vh::Rng& r) {
	std::vector<std::size_t> p(D);
	for(std::size_t i = 0; i < D; ++i) p[i] = i;
	do checkPerm<D, T>(p, r); while(std::next_permutation(p.begin(), p.end()));
}

// all matrices over a small set
template<std::size_t D, typename T> void exhaustive(int values, int low) {
	std::uint64_t n = 1;
	for(std::size_t i = 0; i < D * D; ++i) n *= values;
	for(std::uint64_t k = 0; k < n; ++k) {
		Ints<D> a;
		auto x = k;
		for(auto& row : a) for(auto& v : row) { v = int(x % values) + low; x /= values; }
		checkInts<D, T>(a);
	}
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	using u8 = std::uint8_t; using i8 = std::int8_t; using i64 = std::int64_t; using ld = long double;
	(void) sizeof(u8); (void) sizeof(i8); (void) sizeof(i64); (void) sizeof(ld);
#define IN(T) vh::section("ints-" #T, 6000, 200000, [](vh::Rng& r, std::uint64_t) { intsAll<T>(r); });
#define PE(T) vh::section("permutations-" #T, 1, 40, [](vh::Rng& r, std::uint64_t) { perms<1, T>(r); perms<2, T>(r); perms<3, T>(r); perms<4, T>(r); perms<5, T>(r); perms<6, T>(r); });
#define DY(T) vh::section("dyadic-" #T, 5000, 200000, [](vh::Rng& r, std::uint64_t) { dyadic<1, T>(r); dyadic<2, T>(r); dyadic<3, T>(r); dyadic<4, T>(r); dyadic<5, T>(r); dyadic<6, T>(r); });
#define RE(T) vh::section("reals-" #T, 4000, 100000, [](vh::Rng& r, std::uint64_t) { reals<1, T>(r); reals<2, T>(r); reals<3, T>(r); reals<4, T>(r); reals<5, T>(r); reals<6, T>(r); reals<8, T>(r); });
#if PART == 0
	IN(int) PE(int)
	vh::section("exhaustive-int", 1, 1, [](vh::Rng&, std::uint64_t) { exhaustive<2, int>(5, -2); exhaustive<3, int>(2, 0); exhaustive<4, int>(2, 0); });
#elif PART == 1
	IN(i64) IN(u8)
#elif PART == 2
	IN(double) PE(double) DY(double) RE(double)
#elif PART == 3
	IN(float) DY(float) RE(float)
	vh::section("large", 3, 200, [](vh::Rng& r, std::uint64_t) { reals<20, double>(r); reals<33, double>(r); checkPerm<40, double>(randomPerm(r, 40), r); });
#elif PART == 4
	IN(unsigned) IN(i8) DY(ld) IN(ld)
	vh::section("exhaustive-signs", 1, 1, [](vh::Rng&, std::uint64_t) { exhaustive<3, i64>(3, -1); });
#endif
	return vh::finish();
}
