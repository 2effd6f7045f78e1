// C31: rect difference.
#include "rectmodel.hpp"

template<std::size_t D, typename T> void checkPair(const Rect<D, T>& a, const Rect<D, T>& b, bool full) {
	const auto ca = a, cb = b;
	auto pieces = nytl::difference(a, b);
	static_assert(std::is_same_v<decltype(pieces), std::vector<Rect<D, T>>>);
	VH_CHECK(ca == a && cb == b, "argument", "changed");
	auto A = boxOf(a), B = boxOf(b);
	auto info = [&] { std::string s = str(a) + " without " + str(b) + " is"; for(auto& p : pieces) s += " {" + str(p) + "}"; return s; };
	bool overlap = true, covered = true;
	LD volA = 1, common = 1, volB = 1;
	for(std::size_t i = 0; i < D; ++i) {
		LD lo = std::max(A.lo[i], B.lo[i]), hi = std::min(A.hi[i], B.hi[i]);
		overlap &= lo < hi;
		covered &= B.lo[i] <= A.lo[i] && A.hi[i] <= B.hi[i];
		volA *= A.hi[i] - A.lo[i];
		volB *= B.hi[i] - B.lo[i];
		common *= std::max<LD>(0, hi - lo);
	}
	if(!overlap) common = 0;
	if(!overlap && volB > 0) VH_CHECK(pieces.size() == 1 && pieces[0] == a, "no-overlap", info());
	if(covered && overlap) VH_CHECK(pieces.empty(), "covered", info());
	vh::count(!overlap ? "not_overlapping" : covered ? "covered" : "overlapping");
	LD vol = 0;
	std::vector<Box<D>> boxes;
	for(auto& p : pieces) {
		auto P = boxOf(p);
		LD v = 1;
		bool inB = true;
		for(std::size_t i = 0; i < D; ++i) {
			VH_CHECK(P.hi[i] > P.lo[i] || volB == 0, "empty-piece", info());
			VH_CHECK(P.lo[i] >= A.lo[i] && P.hi[i] <= A.hi[i], "outside", info());
			v *= P.hi[i] - P.lo[i];
			inB &= std::max(P.lo[i], B.lo[i]) < std::min(P.hi[i], B.hi[i]);
		}
		VH_CHECK(!inB || volB == 0, "overlaps-b", info());
		for(auto& o : boxes) {
			bool both = true;
			for(std::size_t i = 0; i < D; ++i) both &= std::max(P.lo[i], o.lo[i]) < std::min(P.hi[i], o.hi[i]);
			VH_CHECK(!both, "pieces-overlap", info());
		}
		vol += v;
		boxes.push_back(P);
	}
	vh::count("pieces", pieces.size());
	LD want = volA - common;
	VH_CHECK(std::fabs(vol - want) <= 64 * D * std::numeric_limits<LD>::epsilon() * volA, "volume", vol << " instead of " << want << ": " << info());
	if(full) { // each cell between all the coordinates is covered as often as it should
		std::array<std::vector<LD>, D> cs;
		for(std::size_t i = 0; i < D; ++i) {
			auto& c = cs[i];
			c = {A.lo[i], A.hi[i], B.lo[i], B.hi[i]};
			for(auto& p : boxes) { c.push_back(p.lo[i]); c.push_back(p.hi[i]); }
			std::sort(c.begin(), c.end());
			c.erase(std::unique(c.begin(), c.end()), c.end());
		}
		std::size_t n = 1;
		for(auto& c : cs) n *= c.size() - 1;
		for(std::size_t k = 0; k < n; ++k) {
			auto x = k;
			std::array<LD, D> m;
			for(std::size_t i = 0; i < D; ++i) { auto s = cs[i].size() - 1; auto j = x % s; x /= s; m[i] = (cs[i][j] + cs[i][j + 1]) / 2; }
			auto in = [&](const Box<D>& b) { for(std::size_t i = 0; i < D; ++i) if(m[i] < b.lo[i] || m[i] > b.hi[i]) return 0; return 1; };
			int want = in(A) && !in(B), got = 0;
			for(auto& p : boxes) got += in(p);
			if(!VH_CHECK(got == want, "coverage", "a cell is covered " << got << " times instead of " << want << ": " << info())) break;
		}
		vh::count("cells", n);
	}
	vh::nontrivial(hashRect(a) ^ vh::mix64(hashRect(b)));
}

template<std::size_t D, typename T> void exhaustive(int n, double scale = 1, double offset = 0) {
	auto all = allRects<D, T>(n, 1, scale, offset);
	for(auto& a : all) for(auto& b : all) checkPair(a, b, true);
	auto flat = allRects<D, T>(n, 0, scale, offset); // also rects without volume
	if(D < 3) for(auto& a : all) for(auto& b : flat) checkPair(a, b, true);
}

template<typename T> void randoms(vh::Rng& r) {
	auto run = [&](auto dim) {
		constexpr std::size_t D = decltype(dim)::value;
		Rect<D, T> a, b;
		randomPair(r, a, b, true);
		checkPair(a, b, D <= 3 || r.chance(1, 8));
		if(D == 2 && r.chance(1, 2000)) vh::sample(str(a) + " without " + str(b), 4);
	};
	run(std::integral_constant<std::size_t, 1>()); run(std::integral_constant<std::size_t, 2>()); run(std::integral_constant<std::size_t, 3>()); run(std::integral_constant<std::size_t, 4>()); run(std::integral_constant<std::size_t, 5>());
}

template<std::size_t D> void grid(vh::Rng& r) { // small grids in higher dimensions: many coinciding coordinates
	Rect<D, int> a, b;
	for(std::size_t i = 0; i < D; ++i) { a.position[i] = int(r.range(-3, 3)); b.position[i] = int(r.range(-3, 3)); a.size[i] = int(r.range(1, 4)); b.size[i] = int(r.range(1, 6)); }
	if(r.chance(1, 2)) for(std::size_t i = 0; i < D; ++i) if(r.chance(1, 2)) { b.position[i] = a.position[i] - int(r.below(2)); b.size[i] = a.size[i] + int(r.below(2)); }
	checkPair(a, b, D <= 4);
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	using u8 = std::uint8_t; using i64 = std::int64_t;
	(void) sizeof(u8); (void) sizeof(i64);
#define RA(T) vh::section("random-" #T, 6000, 400000, [](vh::Rng& r, std::uint64_t) { randoms<T>(r); });
#if PART == 0
	vh::section("exhaustive-1", 1, 1, [](vh::Rng&, std::uint64_t) { exhaustive<1, int>(9); exhaustive<1, double>(6, 0.5, -1); exhaustive<1, unsigned>(6); });
	vh::section("exhaustive-2", 1, 1, [](vh::Rng&, std::uint64_t) { exhaustive<2, int>(4); exhaustive<2, float>(3, 0.25, -0.5); exhaustive<2, unsigned>(3); });
	RA(int)
#elif PART == 1
	vh::section("exhaustive-3", 1, 1, [](vh::Rng&, std::uint64_t) { exhaustive<3, int>(3); });
	vh::section("grid", 6000, 500000, [](vh::Rng& r, std::uint64_t) { grid<3>(r); grid<4>(r); grid<5>(r); grid<6>(r); });
#elif PART == 2
	RA(double) RA(float)
#elif PART == 3
	RA(i64) RA(unsigned) RA(u8)
#endif
	return vh::finish();
}
