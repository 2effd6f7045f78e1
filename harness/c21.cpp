// C21: row echelon forms.
#include "numeric.hpp"
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>

using nytl::Mat;
using LD = long double;

template<typename T> struct Wide { using Type = LD; };
template<typename T> struct Wide<std::complex<T>> { using Type = std::complex<LD>; };
template<typename T> using W = typename Wide<T>::Type;
template<typename T> W<T> wide(T t) { return W<T>(t); }
template<std::size_t R, std::size_t C, typename T> using Grid = std::array<std::array<W<T>, C>, R>;
template<typename T> LD epsOf() { if constexpr(IsComplex<T>::value) return std::numeric_limits<typename T::value_type>::epsilon(); else return std::numeric_limits<T>::epsilon(); }

template<std::size_t R, std::size_t C, typename T> std::string str(const Mat<R, C, T>& m) {
	std::ostringstream os;
	os.precision(17);
	for(std::size_t r = 0; r < std::min<std::size_t>(R, 8); ++r) { os << (r ? "; " : "["); for(std::size_t c = 0; c < std::min<std::size_t>(C, 8); ++c) os << (c ? " " : "") << show(m[r][c]); }
	os << "]";
	return os.str();
}

// The matrix together with its exact reduced row echelon form.
template<std::size_t R, std::size_t C, typename T> struct Known {
	Mat<R, C, T> a;
	Grid<R, C, T> rref {};
	std::size_t rank;
};

// Builds P * L * D * E with a row echelon matrix E, D of powers of two and L with entries of
// absolute value below one below the diagonal. The elimination with partial pivoting of this matrix has no
// rounding errors.
template<std::size_t R, std::size_t C, typename T> Known<R, C, T> known(vh::Rng& rng, std::size_t rank) {
	Known<R, C, T> k;
	k.rank = rank;
	auto small = [&](int range) -> W<T> { if constexpr(IsComplex<T>::value) return {LD(rng.range(-range, range)), LD(rng.range(-range, range))}; else return rng.range(-range, range); };
	std::vector<std::size_t> leads;
	for(std::size_t c = 0; c < C; ++c) leads.push_back(c);
	if(rng.chance(2, 3)) for(std::size_t i = leads.size(); i > 1; --i) std::swap(leads[i - 1], leads[rng.below(i)]);
	leads.resize(rank);
	std::sort(leads.begin(), leads.end());
	std::array<std::array<W<T>, C>, R> e {};
	unsigned density = 1 + rng.below(3);
	for(std::size_t r = 0; r < rank; ++r) {
		e[r][leads[r]] = 1;
		for(std::size_t c = leads[r] + 1; c < C; ++c) if(rng.below(4) <= density) e[r][c] = small(2);
	}
	k.rref = e;
	for(std::size_t r = rank; r-- > 0;) for(std::size_t p = 0; p < r; ++p) { auto f = k.rref[p][leads[r]]; for(std::size_t c = 0; c < C; ++c) k.rref[p][c] -= f * k.rref[r][c]; }
	std::vector<W<T>> d(rank);
	constexpr int far = sizeof(T) == 4 || std::is_same_v<T, std::complex<float>> ? 60 : 400;
	LD scale = std::ldexp(1.L, rng.chance(1, 3) ? int(rng.range(-40, 40)) : rng.chance(1, 3) ? int(rng.range(-far, far)) : 0);
	for(auto& x : d) {
		x = std::ldexp(scale, int(rng.range(-2, 3))) * LD(rng.sign());
		if constexpr(IsComplex<T>::value) if(rng.chance(1, 2)) x *= W<T>(0, 1);
	}
	std::vector<std::size_t> perm(R);
	for(std::size_t r = 0; r < R; ++r) perm[r] = r;
	if(rng.chance(3, 4)) for(std::size_t i = R; i > 1; --i) std::swap(perm[i - 1], perm[rng.below(i)]);
	for(std::size_t r = 0; r < R; ++r) {
		std::array<W<T>, C> row {};
		for(std::size_t j = 0; j < rank; ++j) {
			if(j > r) break;
			W<T> l = j == r ? W<T>(1) : rng.chance(1, 4) ? W<T>(0) : small(IsComplex<T>::value ? 2 : 3) / LD(4);
			for(std::size_t c = 0; c < C; ++c) row[c] += l * d[j] * e[j][c];
		}
		for(std::size_t c = 0; c < C; ++c) k.a[perm[r]][c] = T(row[c]);
	}
	return k;
}

// Row echelon form with the same row space.
template<std::size_t R, std::size_t C, typename A, typename T> bool echelon(const Mat<R, C, A>& a, const Mat<R, C, T>& m, std::size_t rank, bool reduced, LD tol, const char* what) {
	std::vector<std::size_t> leads;
	bool ok = true;
	for(std::size_t r = 0; r < R; ++r) {
		std::size_t c = 0;
		while(c < C && m[r][c] == T(0)) ++c;
		if(c == C) {
			for(std::size_t q = r + 1; q < R; ++q) for(std::size_t c = 0; c < C; ++c) ok &= VH_CHECK(m[q][c] == T(0), "zero-rows", what << ": row " << q << " below a zero row of " << str(m) << " for " << str(a));
			break;
		}
		ok &= VH_CHECK(leads.empty() || c > leads.back(), "staircase", what << ": row " << r << " of " << str(m) << " for " << str(a));
		ok &= VH_CHECK(std::abs(wide(m[r][c]) - W<T>(1)) <= tol, "leading-one", what << ": row " << r << " of " << str(m) << " for " << str(a));
		if(reduced) for(std::size_t p = 0; p < r; ++p) ok &= VH_CHECK(m[p][c] == T(0), "above-leading-one", what << ": column " << c << " of " << str(m) << " for " << str(a));
		if(!ok) return false;
		leads.push_back(c);
	}
	ok &= VH_CHECK(leads.size() == rank, "rank", what << ": " << leads.size() << " non-zero rows instead of " << rank << ", " << str(m) << " for " << str(a));
	// every row of a is a combination of the rows of m
	for(std::size_t r = 0; r < R; ++r) {
		std::array<W<T>, C> row;
		std::array<LD, C> mag;
		for(std::size_t c = 0; c < C; ++c) { row[c] = wide(a[r][c]); mag[c] = std::abs(row[c]); }
		for(std::size_t k = 0; k < leads.size(); ++k) {
			auto f = row[leads[k]];
			auto fm = mag[leads[k]];
			for(std::size_t c = 0; c < C; ++c) { row[c] -= f * wide(m[k][c]); mag[c] += fm * std::abs(wide(m[k][c])); }
		}
		for(std::size_t c = 0; c < C; ++c) ok &= VH_CHECK(std::abs(row[c]) <= tol * mag[c], "row-space", what << ": row " << r << " of " << str(a) << " is not in the row space of " << str(m));
	}
	return ok;
}

template<std::size_t R, std::size_t C, typename T> bool bitEqual(const Mat<R, C, T>& a, const Mat<R, C, T>& b) { for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) if(!sameNum(a[r][c], b[r][c])) return false; return true; }

template<std::size_t R, std::size_t C, typename T> void exact(vh::Rng& rng) {
	auto k = known<R, C, T>(rng, rng.chance(1, 2) ? std::min(R, C) : rng.below(std::min(R, C) + 1));
	vh::count(k.rank == std::min(R, C) ? "full_rank" : "rank_deficient");
	vh::Hash h;
	for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) h.addf(double(std::abs(k.a[r][c])));
	vh::nontrivial(h.v);
	if(k.rank > 1 && rng.chance(1, 50)) vh::sample("rank " + std::to_string(k.rank) + " " + str(k.a), 6);
	auto m = k.a;
	nytl::rowEcholon(m);
	echelon(k.a, m, k.rank, false, 0, "rowEcholon");
	auto again = m;
	nytl::rowEcholon(again);
	echelon(m, again, k.rank, false, 0, "rowEcholon of an echelon form");
	m = k.a;
	nytl::reducedRowEcholon(m);
	auto isRref = [&](const auto& m, const char* what) {
		echelon(k.a, m, k.rank, true, 0, what);
		for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) VH_CHECK(wide(m[r][c]) == k.rref[r][c], "reduced", what << " at " << r << ", " << c << ": " << str(m) << " for " << str(k.a));
	};
	isRref(m, "reducedRowEcholon");
	again = m;
	nytl::reducedRowEcholon(again);
	isRref(again, "reducedRowEcholon of a reduced form");
	nytl::rowEcholon(m);
	isRref(m, "rowEcholon of a reduced form");
	if constexpr(std::is_floating_point_v<T>) { // copies
		const auto a = k.a;
		auto c = nytl::rowEcholonCopy(k.a);
		VH_CHECK((std::is_same_v<decltype(c), Mat<R, C, double>>), "copy", "type");
		echelon(k.a, c, k.rank, false, 0, "rowEcholonCopy");
		isRref(nytl::reducedRowEcholonCopy(k.a), "reducedRowEcholonCopy");
		auto f = nytl::rowEcholonCopy<R, C, T, float>(k.a);
		VH_CHECK((std::is_same_v<decltype(f), Mat<R, C, float>>), "copy", "type");
		bool floats = true; // within the range of float
		for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) floats &= a[r][c] == 0 || (std::abs(a[r][c]) > 0x1p-80 && std::abs(a[r][c]) < 0x1p80);
		if(floats) echelon(k.a, f, k.rank, false, 0, "rowEcholonCopy<float>");
		auto f2 = nytl::reducedRowEcholonCopy<R, C, T, long double>(k.a);
		VH_CHECK((std::is_same_v<decltype(f2), Mat<R, C, long double>>), "copy", "type");
		isRref(f2, "reducedRowEcholonCopy<long double>");
		VH_CHECK(bitEqual(a, k.a), "copy", "argument changed");
		// integers
		Mat<R, C, int> im;
		bool fits = true;
		LD low = 1e30L;
		for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) if(a[r][c] != 0) { int ex; std::frexp(a[r][c], &ex); low = std::min<LD>(low, ex); }
		for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) {
			LD x = std::ldexp(LD(a[r][c]), low < 1e29L ? 16 - int(low) : 0);
			fits &= std::fabs(x) < 2e9L && x == std::floor(x);
			if(fits) im[r][c] = int(x);
		}
		if(fits) {
			auto i0 = im;
			vh::count("integer_matrices");
			isRref(nytl::reducedRowEcholonCopy(im), "reducedRowEcholonCopy of integers");
			echelon(im, nytl::rowEcholonCopy(im), k.rank, false, 0, "rowEcholonCopy of integers");
			VH_CHECK(im == i0, "copy", "argument changed");
		}
	}
}

// any values, full rank
template<std::size_t R, std::size_t C, typename T> void general(vh::Rng& rng) {
	Mat<R, C, T> a;
	unsigned mode = rng.below(3);
	for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) a[r][c] = T(mode == 0 ? rng.normal() : mode == 1 ? rng.uniform(-1, 1) * std::ldexp(1., int(rng.range(-6, 6))) : rng.uniform(1, 2));
	LD tol = 40 * (R + C) * epsOf<T>();
	auto m = a;
	nytl::rowEcholon(m);
	echelon(a, m, std::min(R, C), false, tol, "rowEcholon");
	auto d = nytl::rowEcholonCopy(a);
	LD tolD = 40 * (R + C) * epsOf<double>();
	echelon(a, d, std::min(R, C), false, tolD, "rowEcholonCopy");
	// the same form as reducing the echelon form with higher precision
	auto e = nytl::rowEcholonCopy<R, C, T, long double>(a);
	Grid<R, C, double> ref;
	LD big = 1;
	for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) { ref[r][c] = e[r][c]; big = std::max(big, std::fabs(ref[r][c])); }
	for(std::size_t r = std::min(R, C); r-- > 0;) {
		std::size_t l = 0;
		while(l < C && ref[r][l] == 0) ++l;
		if(l == C) continue;
		for(std::size_t p = 0; p < r; ++p) { auto f = ref[p][l]; for(std::size_t c = 0; c < C; ++c) { ref[p][c] -= f * ref[r][c]; big = std::max(big, std::fabs(ref[p][c])); } }
	}
	auto check = [&](const auto& m, LD eps, const char* what) {
		LD tol = 1e3L * eps * big * big;
		if(tol > 0.01L) return;
		for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) VH_CHECK(std::fabs(wide(m[r][c]) - ref[r][c]) <= tol * big, "reduced-general", what << " at " << r << ", " << c << ": " << str(m) << " for " << str(a));
		vh::count("general_compared");
	};
	m = a;
	nytl::reducedRowEcholon(m);
	check(m, epsOf<T>(), "reducedRowEcholon");
	check(nytl::reducedRowEcholonCopy(a), epsOf<double>(), "reducedRowEcholonCopy");
	vh::nontrivial(rng.next());
}

template<typename T> void exacts(vh::Rng& r) {
	exact<1, 1, T>(r); exact<2, 2, T>(r); exact<3, 3, T>(r); exact<4, 4, T>(r); exact<5, 5, T>(r); exact<2, 3, T>(r); exact<3, 2, T>(r);
	exact<3, 4, T>(r); exact<4, 2, T>(r); exact<1, 4, T>(r); exact<4, 1, T>(r); exact<6, 3, T>(r); exact<2, 7, T>(r); exact<4, 6, T>(r);
}
template<typename T> void generals(vh::Rng& r) {
	general<1, 1, T>(r); general<2, 2, T>(r); general<3, 3, T>(r); general<4, 4, T>(r); general<6, 6, T>(r); general<2, 3, T>(r); general<3, 2, T>(r); general<3, 5, T>(r); general<5, 3, T>(r); general<1, 3, T>(r); general<3, 1, T>(r);
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
#define EX(T) vh::section("exact-" #T, 500, 60000, [](vh::Rng& r, std::uint64_t) { exacts<T>(r); });
#define GE(T) vh::section("general-" #T, 500, 60000, [](vh::Rng& r, std::uint64_t) { generals<T>(r); });
	using cd = std::complex<double>; using ld = long double;
#if PART == 0
	EX(double) EX(float)
#elif PART == 1
	EX(ld) EX(cd)
#elif PART == 2
	GE(double) GE(float)
	vh::section("large", 20, 1000, [](vh::Rng& r, std::uint64_t) { general<20, 20, double>(r); general<3, 280, double>(r); general<280, 3, double>(r); exact<12, 9, double>(r); exact<7, 280, double>(r); exact<280, 4, double>(r); });
#elif PART == 3
	vh::section("tiny-exhaustive", 1, 1, [](vh::Rng&, std::uint64_t) { // all 2x2, 2x3 and 3x2 matrices over {-1, 0, 1, 2}
		auto run = [](auto m, int n) {
			constexpr auto R = decltype(m)::rows(), C = decltype(m)::cols();
			for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) { m[r][c] = n % 4 - 1; n /= 4; }
			std::size_t rank = 0;
			for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) rank |= m[r][c] != 0;
			for(std::size_t r = 0; r < R; ++r) for(std::size_t q = 0; q < r; ++q) for(std::size_t c = 0; c < C; ++c) for(std::size_t d = 0; d < c; ++d) if(m[r][c] * m[q][d] != m[r][d] * m[q][c]) rank = 2;
			auto e = m;
			nytl::rowEcholon(e);
			LD tol = 20 * epsOf<std::decay_t<decltype(m[0][0])>>();
			echelon(m, e, rank, false, tol, "rowEcholon");
			e = m;
			nytl::reducedRowEcholon(e);
			echelon(m, e, rank, true, tol, "reducedRowEcholon");
			vh::nontrivial(vh::Hash().add(R).add(C).addf(m[0][0]).addf(m[1][1]).addf(m[0][1]).addf(m[1][0]).add(rank).v);
		};
		for(int n = 0; n < 256; ++n) run(Mat<2, 2, double>(), n);
		for(int n = 0; n < 4096; ++n) { run(Mat<2, 3, double>(), n); run(Mat<3, 2, double>(), n); run(Mat<2, 3, float>(), n); }
	});
#endif
	return vh::finish();
}
