// Random and enumerated boxes.
#pragma once
#include "numeric.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>

using nytl::Rect; using nytl::Vec;
using LD = long double;

// positions and sizes as exact values
template<std::size_t D> struct Box { std::array<LD, D> lo, hi; };
template<std::size_t D, typename T> Box<D> boxOf(const Rect<D, T>& r) { Box<D> b; for(std::size_t i = 0; i < D; ++i) { b.lo[i] = LD(r.position[i]); b.hi[i] = LD(r.position[i]) + LD(r.size[i]); } return b; }
template<std::size_t D, typename T> std::string str(const Rect<D, T>& r) { std::ostringstream os; os.precision(17); for(std::size_t i = 0; i < D; ++i) os << (i ? " x " : "") << "[" << show(r.position[i]) << " +" << show(r.size[i]) << "]"; return os.str(); }
template<std::size_t D, typename T> std::uint64_t hashRect(const Rect<D, T>& r) { vh::Hash h; for(std::size_t i = 0; i < D; ++i) h.addf(double(r.position[i])).addf(double(r.size[i])); return h.v; }

// all intervals within [0, n], with at least the given size
inline std::vector<std::pair<int, int>> intervals(int n, int minSize) { std::vector<std::pair<int, int>> ret; for(int p = 0; p <= n; ++p) for(int s = minSize; p + s <= n; ++s) ret.push_back({p, s}); return ret; }
template<std::size_t D, typename T> std::vector<Rect<D, T>> allRects(int n, int minSize, double scale = 1, double offset = 0) {
	auto iv = intervals(n, minSize);
	std::vector<Rect<D, T>> ret;
	std::size_t count = 1;
	for(std::size_t i = 0; i < D; ++i) count *= iv.size();
	for(std::size_t k = 0; k < count; ++k) {
		auto x = k;
		Rect<D, T> r;
		for(std::size_t i = 0; i < D; ++i) { auto v = iv[x % iv.size()]; x /= iv.size(); r.position[i] = T(v.first * scale + offset); r.size[i] = T(v.second * scale); }
		ret.push_back(r);
	}
	return ret;
}

// One axis of two boxes in a chosen relation. All values are exactly representable, also the end.
template<typename T> void axis(vh::Rng& r, T& ap, T& as, T& bp, T& bs, bool positive) {
	std::array<std::int64_t, 4> c;
	for(auto& x : c) x = r.range(0, r.chance(1, 3) ? 6 : 1000);
	if(r.chance(1, 6)) c[1] = c[0] + 1;
	if(r.chance(1, 4)) c[2] = c[r.below(2)];
	if(r.chance(1, 4)) c[3] = c[r.below(2)];
	if(c[0] > c[1]) std::swap(c[0], c[1]);
	if(c[2] > c[3]) std::swap(c[2], c[3]);
	if(positive) { if(c[0] == c[1]) ++c[1]; if(c[2] == c[3]) ++c[3]; }
	std::int64_t off = 0, mul = 1;
	LD div = 1;
	if constexpr(std::is_floating_point_v<T>) { off = r.range(-1000, 200); int e = r.chance(2, 3) ? 6 : std::is_same_v<T, float> ? 20 : 60; div = std::ldexp(1.L, int(r.range(-e, e))); }
	else {
		using L = std::numeric_limits<T>;
		constexpr std::int64_t top = sizeof(T) == 8 ? std::int64_t(1) << 61 : sizeof(T) == 4 ? std::int64_t(1) << 29 : sizeof(T) == 2 ? 12000 : 60;
		if(top < 4000) { for(auto& x : c) x = x * (top / 2) / 1001; if(positive) { if(c[0] == c[1]) ++c[1]; if(c[2] == c[3]) ++c[3]; } }
		else if(r.chance(1, 3)) mul = r.range(1, top / 1001);
		off = std::is_unsigned_v<T> ? r.range(0, top / 2) : r.range(-top / 2, top / 2);
		if(r.chance(1, 3)) off = std::is_unsigned_v<T> ? 0 : -500;
		if(top < 4000 && !std::is_unsigned_v<T>) off = r.range(-top / 2, 0);
		if(top < 4000 && std::is_unsigned_v<T>) off = r.range(0, 20);
		static_assert(L::is_integer);
	}
	auto val = [&](std::int64_t x) { return T((LD(x) * mul + off) * div); };
	auto len = [&](std::int64_t x) { return T(LD(x) * mul * div); };
	ap = val(c[0]); as = len(c[1] - c[0]); bp = val(c[2]); bs = len(c[3] - c[2]);
}
template<std::size_t D, typename T> void randomPair(vh::Rng& r, Rect<D, T>& a, Rect<D, T>& b, bool positive) {
	for(std::size_t i = 0; i < D; ++i) axis<T>(r, a.position[i], a.size[i], b.position[i], b.size[i], positive);
	if(r.chance(1, 3)) for(std::size_t i = 0; i < D; ++i) if(r.chance(1, 2)) { b.position[i] = a.position[i]; b.size[i] = a.size[i]; }
	if(r.chance(1, 2)) std::swap(a, b);
	if constexpr(sizeof(T) < sizeof(int)) if(r.chance(1, 4)) // the end of b can't be represented
		for(std::size_t i = 0; i < D; ++i) if(r.chance(1, 2)) b.size[i] = T(r.range(b.size[i], std::numeric_limits<T>::max()));
}
