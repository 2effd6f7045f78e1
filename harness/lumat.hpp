// Square matrices with known determinants for the LU monitors.
#pragma once
#include "numeric.hpp"
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/vecOps.hpp>

using nytl::Mat;
using nytl::Vec;
using LD = long double;
using I128 = __int128;

template<std::size_t D> using Ints = std::array<std::array<std::int64_t, D>, D>;

// exact determinant (Bareiss), valid as long as the minors fit 128 bit products
template<std::size_t D> I128 bareiss(const Ints<D>& a) {
	I128 m[D][D];
	for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c) m[r][c] = a[r][c];
	I128 prev = 1;
	int sign = 1;
	for(std::size_t k = 0; k + 1 < D; ++k) {
		std::size_t p = k;
		while(p < D && m[p][k] == 0) ++p;
		if(p == D) return 0;
		if(p != k) { for(std::size_t c = 0; c < D; ++c) std::swap(m[p][c], m[k][c]); sign = -sign; }
		for(std::size_t i = k + 1; i < D; ++i) for(std::size_t j = k + 1; j < D; ++j) m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev;
		prev = m[k][k];
	}
	return sign * m[D - 1][D - 1];
}

template<std::size_t R, std::size_t C, typename T> std::string str(const Mat<R, C, T>& m) {
	std::ostringstream os;
	os.precision(17);
	for(std::size_t r = 0; r < R; ++r) { os << (r ? "; " : "["); for(std::size_t c = 0; c < C; ++c) os << (c ? " " : "") << show(m[r][c]); }
	os << "]";
	return os.str();
}

inline std::vector<std::size_t> randomPerm(vh::Rng& rng, std::size_t n) {
	std::vector<std::size_t> p(n);
	for(std::size_t i = 0; i < n; ++i) p[i] = i;
	if(rng.chance(7, 8)) for(std::size_t i = n; i > 1; --i) std::swap(p[i - 1], p[rng.below(i)]);
	return p;
}

// integer matrices of many structures, entries up to about limit
template<std::size_t D> Ints<D> randomInts(vh::Rng& rng, std::int64_t limit, bool nonNegative = false) {
	Ints<D> a {};
	auto val = [&]() { return rng.range(nonNegative ? 0 : -limit, limit); };
	auto fill = [&](unsigned density) { for(auto& row : a) for(auto& x : row) x = rng.below(4) < density ? val() : 0; };
	switch(rng.below(10)) {
		case 0: fill(4); break;
		case 1: fill(2); break;
		case 2: fill(1); break;
		case 3: { auto p = randomPerm(rng, D); for(std::size_t i = 0; i < D; ++i) a[i][p[i]] = rng.chance(1, 2) ? 1 : val(); break; } // (scaled) permutation
		case 4: { // low rank
			if(limit < 4) { fill(3); a[rng.below(D)] = a[rng.below(D)]; break; }
			auto k = rng.below(D);
			std::int64_t s = std::max<std::int64_t>(1, std::int64_t(std::sqrt(double(limit) / std::max<double>(k, 1))));
			for(std::size_t q = 0; q < k; ++q) {
				std::array<std::int64_t, D> u, v;
				for(auto& x : u) x = rng.range(nonNegative ? 0 : -s, s);
				for(auto& x : v) x = rng.range(nonNegative ? 0 : -s, s);
				for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c) a[r][c] += u[r] * v[c];
			}
			break;
		}
		case 5: // triangular (also the other way around)
			fill(4);
			{
				auto flip = rng.below(4);
				for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c) if((flip & 1 ? D - 1 - r : r) < (flip & 2 ? D - 1 - c : c)) a[r][c] = 0;
			}
			break;
		case 6: { // singular leading minors
			fill(4);
			auto k = 1 + rng.below(D);
			for(std::size_t r = 0; r < k; ++r) for(std::size_t c = 0; c < k; ++c) if(r + c < k) a[r][c] = 0;
			break;
		}
		case 7: { // two equal rows or columns apart from one entry
			fill(4);
			auto i = rng.below(D), j = rng.below(D);
			if(rng.chance(1, 2)) a[i] = a[j]; else for(auto& row : a) row[i] = row[j];
			if(rng.chance(1, 2)) a[rng.below(D)][rng.below(D)] += a[0][0] < limit ? 1 : -1;
			break;
		}
		case 8: fill(3); { auto z = rng.below(D); if(rng.chance(1, 2)) for(auto& x : a[z]) x = 0; else for(auto& row : a) row[z] = 0; } break;
		case 9: { // equal absolute values everywhere
			auto v = rng.range(1, limit);
			for(auto& row : a) for(auto& x : row) x = (rng.chance(1, 2) || nonNegative) ? v : -v;
			if(rng.chance(1, 2)) for(std::size_t i = 0; i < D; ++i) a[i][i] = rng.chance(1, 2) ? v - 1 : 0;
			break;
		}
	}
	if(nonNegative) for(auto& row : a) for(auto& x : row) if(x < 0) x = -x;
	return a;
}

// floating point matrices of many structures
template<std::size_t D, typename T> Mat<D, D, T> randomReal(vh::Rng& rng) {
	Mat<D, D, T> a {};
	auto mode = rng.below(8);
	auto perm = randomPerm(rng, D);
	for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c) {
		double v = 0;
		switch(mode) {
			case 0: v = rng.normal(); break;
			case 1: v = rng.uniform(0.5, 1.5); break;
			case 2: v = 1.0 / double(r + c + 1); break;
			case 3: v = rng.normal() * (perm[r] == c ? 1000 : 1); break;
			case 4: v = rng.normal() * std::ldexp(1.0, int(rng.range(-10, 10))); break;
			case 5: v = rng.below(3) ? 0 : rng.normal(); break;
			case 6: v = perm[r] == c ? rng.normal() : 0; break;
			case 7: v = rng.normal() * (r + c < D - 1 ? 1e-9 : 1); break;
		}
		a[r][c] = T(v);
	}
	if(rng.chance(1, 3)) { int e = int(rng.range(-12, 12)); for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c) a[r][c] = std::ldexp(a[r][c], e); }
	if(mode != 2 && rng.chance(1, 8)) { auto i = rng.below(D), j = rng.below(D); for(std::size_t c = 0; c < D; ++c) a[i][c] = a[j][c]; } // singular
	return a;
}

template<std::size_t D, typename T> std::uint64_t hashMat(const Mat<D, D, T>& m) { vh::Hash h; for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c) h.addf(double(m[r][c])); return h.v; }
template<std::size_t D, typename T> LD maxAbs(const Mat<D, D, T>& m) { LD x = 0; for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c) x = std::max(x, std::fabs(LD(m[r][c]))); return x; }
template<std::size_t D, typename T> Mat<D, D, T> toMat(const Ints<D>& a) { Mat<D, D, T> m; for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c) m[r][c] = T(a[r][c]); return m; }

// exact inverse times determinant
template<std::size_t D> std::array<std::array<I128, D>, D> adjugate(const Ints<D>& a) {
	std::array<std::array<I128, D>, D> ret {};
	if constexpr(D == 1) ret[0][0] = 1;
	else for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c) {
		Ints<D - 1> m;
		for(std::size_t i = 0, x = 0; i < D; ++i) if(i != r) { for(std::size_t j = 0, y = 0; j < D; ++j) if(j != c) m[x][y++] = a[i][j]; ++x; }
		ret[c][r] = ((r + c) % 2 ? -1 : 1) * bareiss(m);
	}
	return ret;
}
