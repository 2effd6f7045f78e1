// C29: projection matrices.
#include "quatmodel.hpp"
#include <nytl/transform.hpp>

using nytl::Mat; using nytl::Vec3; using nytl::Vec4;
template<typename P> constexpr LD EPS = std::numeric_limits<P>::epsilon();

struct Clip { LD x, y, z, w; };
template<typename P> Clip project(const Mat<4, 4, P>& m, LD x, LD y, LD z) {
	LD h[4];
	for(int i = 0; i < 4; ++i) h[i] = LD(m[i][0]) * x + LD(m[i][1]) * y + LD(m[i][2]) * z + LD(m[i][3]);
	return {h[0] / h[3], h[1] / h[3], h[2] / h[3], h[3]};
}

template<typename P> std::string str(const Mat<4, 4, P>& m) {
	std::ostringstream os;
	os.precision(17);
	for(int r = 0; r < 4; ++r) { os << (r ? "; " : "["); for(int c = 0; c < 4; ++c) os << (c ? " " : "") << m[r][c]; }
	os << "]";
	return os.str();
}

// the interval [a, b], not degenerate, in any order
template<typename P> void interval(vh::Rng& r, P& a, P& b) {
	do {
		switch(r.below(6)) {
			case 0: b = P(std::fabs(r.normal()) + 0.1); a = -b; break; // symmetric
			case 1: a = P(r.range(-5, 5)); b = P(r.range(-5, 5)); break;
			case 2: a = P(r.normal()); b = a + P(r.uniform(0.01, 3)); break;
			case 3: a = 0; b = P(r.uniform(0.1, 2000)); break;
			case 4: a = P(r.uniform(0.1, 10)); b = P(a + r.uniform(0.1, 10)); break; // not around zero
			default: a = P(r.normal() * 3); b = P(r.normal() * 3);
		}
		if(r.chance(1, 4)) std::swap(a, b);
		if(r.chance(1, 4)) { int e = int(r.range(-24, 24)); a = std::ldexp(a, e); b = std::ldexp(b, e); } // of any size
	} while(std::fabs(a - b) <= P(0.01) * (std::fabs(a) + std::fabs(b)));
}
template<typename P> void depths(vh::Rng& r, P& n, P& f) { // same sign, |f| > |n|
	n = P(std::ldexp(r.uniform(1, 2), int(r.range(-8, 4))));
	switch(r.below(4)) {
		case 0: f = P(n * r.uniform(1.1, 3)); break;
		case 1: f = P(n * std::ldexp(r.uniform(1, 2), int(r.range(1, 14)))); break;
		case 2: n = P(r.range(1, 4)); f = n + P(r.range(1, 9)); break;
		default: f = P(n + r.uniform(1, 100));
	}
	if(!(f > n * P(1.01))) f = n * 2;
	if(r.chance(1, 6)) { int e = int(r.range(-24, 20)); n = std::ldexp(n, e); f = std::ldexp(f, e); } // of any size
	if(r.chance(1, 12)) f = P(n * std::ldexp(r.uniform(1, 2), int(r.range(14, 22)))); // far away
	if(r.chance(1, 2)) { n = -n; f = -f; }
}
template<typename P> LD spread(P a, P b) { return 1 + (std::fabs(LD(a)) + std::fabs(LD(b))) / std::fabs(LD(b) - LD(a)); }

template<typename P> struct Vol { P l, r, b, t, n, f; std::string info() const { std::ostringstream os; os.precision(17); os << "left " << l << ", right " << r << ", bottom " << b << ", top " << t << ", near " << n << ", far " << f; return os.str(); } };

const LD fractions[] = {0, 1, 0.5L, 0.25L, 0.75L, 0.1L, 0.9L, -0.5L, 1.5L};

template<typename P> void orthos(vh::Rng& r) {
	Vol<P> v;
	interval(r, v.l, v.r); interval(r, v.b, v.t); interval(r, v.n, v.f);
	auto m = nytl::ortho(v.l, v.r, v.b, v.t, v.n, v.f);
	static_assert(std::is_same_v<decltype(m), Mat<4, 4, P>>);
	LD tx = 16 * EPS<P> * spread(v.l, v.r), ty = 16 * EPS<P> * spread(v.b, v.t), tz = 16 * EPS<P> * spread(v.n, v.f);
	for(LD i : fractions) for(LD j : fractions) for(LD k : fractions) {
		LD x = v.l + i * (LD(v.r) - v.l), y = v.b + j * (LD(v.t) - v.b), z = v.n + k * (LD(v.f) - v.n);
		auto c = project(m, x, y, z);
		VH_CHECK(std::fabs(c.x - (2 * i - 1)) <= tx && std::fabs(c.y - (2 * j - 1)) <= ty && std::fabs(c.z - k) <= tz && c.w == 1, "ortho",
			"point at " << i << ", " << j << ", " << k << " of the box is mapped to " << c.x << ", " << c.y << ", " << c.z << ", w " << c.w << " for " << v.info());
	}
	vh::count("boxes");
	vh::nontrivial(vh::Hash().addf(v.l).addf(v.t).addf(v.n).v);
}

// fn(z, k): expected depth for z
template<typename P, typename Depth> void checkFrustum(const Mat<4, 4, P>& m, const Vol<P>& v, Depth&& depth, LD tz, const char* what, bool infinite, bool positiveW) {
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, Mat<4, 4, P>>);
	LD tx = 16 * EPS<P> * spread(v.l, v.r), ty = 16 * EPS<P> * spread(v.b, v.t);
	LD last = 0;
	int dir = 0;
	bool first = true;
	std::vector<LD> zs;
	for(int k = 0; k <= 8; ++k) zs.push_back(LD(v.n) + (LD(v.f) - v.n) * k / 8);
	if(infinite) for(int k = 0; k < 6; ++k) zs.push_back(LD(v.f) * std::ldexp(1.L, 4 * (k + 1)));
	for(LD z : zs) {
		for(LD i : fractions) for(LD j : fractions) { // points on the rays through the near rectangle
			LD s = z / v.n;
			LD x = s * (v.l + i * (LD(v.r) - v.l)), y = s * (v.b + j * (LD(v.t) - v.b));
			auto c = project(m, x, y, z);
			VH_CHECK(std::fabs(c.x - (2 * i - 1)) <= tx && std::fabs(c.y - (2 * j - 1)) <= ty, what, "ray " << i << ", " << j << " at z = " << z << " is mapped to " << c.x << ", " << c.y << " for " << v.info() << ": " << str(m));
			LD want = depth(z);
			VH_CHECK(std::fabs(c.z - want) <= tz, what, "z = " << z << " is mapped to " << c.z << " instead of " << want << " for " << v.info() << ": " << str(m));
			if(positiveW) VH_CHECK(c.w > 0, what, "w is " << c.w << " at z = " << z << " for " << v.info() << ": " << str(m));
			else VH_CHECK(c.w != 0, what, "w is 0 at z = " << z);
		}
		auto c = project(m, 0, 0, z);
		if(!first && std::fabs(c.z - last) > 4 * tz) { int d = c.z > last ? 1 : -1; VH_CHECK(dir == 0 || d == dir, what, "depth is not monotonic at z = " << z << " for " << v.info()); dir = d; }
		if(first || std::fabs(c.z - last) > 4 * tz) last = c.z;
		first = false;
	}
	vh::count("volumes");
}

template<typename P> LD depthTol(const Vol<P>& v) { return 24 * EPS<P> * (1 + std::max(std::fabs(LD(v.f)), std::fabs(LD(v.n))) / std::fabs(LD(v.f) - v.n)); }

template<typename P> void frustums(vh::Rng& r) {
	Vol<P> v;
	interval(r, v.l, v.r); interval(r, v.b, v.t); depths(r, v.n, v.f);
	LD n = v.n, f = v.f;
	auto d0 = [=](LD z) { return f / (f - n) - f * n / (f - n) / z; };
	checkFrustum<P>(nytl::frustum(v.l, v.r, v.b, v.t, v.n, v.f), v, d0, depthTol(v), "frustum", false, false);
	checkFrustum<P>(nytl::frustumRev(v.l, v.r, v.b, v.t, v.n, v.f), v, [&](LD z) { return 1 - d0(z); }, depthTol(v), "frustumRev", false, false);
	checkFrustum<P>(nytl::frustumRevInf(v.l, v.r, v.b, v.t, v.n), v, [&](LD z) { return n / z; }, depthTol(v), "frustumRevInf", true, false);
	vh::count(n > 0 ? "left_handed" : "right_handed");
	vh::nontrivial(vh::Hash().addf(v.l).addf(v.t).addf(v.n).v);
	if(r.chance(1, 200)) vh::sample(v.info(), 4);
	// documented corners
	auto m = nytl::frustum(v.l, v.r, v.b, v.t, v.n, v.f);
	auto a = nytl::multPos(m, Vec3<P>{v.l, v.b, v.n});
	LD tol = 64 * EPS<P> * spread(v.l, v.r) * spread(v.b, v.t) * depthTol(v) / (24 * EPS<P>);
	VH_CHECK(std::fabs(LD(a.x) + 1) <= tol && std::fabs(LD(a.y) + 1) <= tol && std::fabs(LD(a.z)) <= tol, "corner", a.x << ", " << a.y << ", " << a.z << " for " << v.info());
}

template<typename P> void perspectives(vh::Rng& r) {
	P fov = P(r.chance(1, 4) ? PI / 2 : r.chance(1, 4) ? PI * r.range(1, 11) / 12 : LD(r.uniform(0.02, 3.0)));
	LD cond = 1; // how much more inaccurate sensible formulas may be
	if(r.chance(1, 8)) { LD d = std::pow(10.L, -LD(r.uniform(0.8, 2))); fov = P(PI - d); cond += 1 / (d * d); vh::count("wide_angles"); }
	else if(r.chance(1, 8)) { LD d = std::pow(10.L, -LD(r.uniform(1.7, 3))); fov = P(d); cond += std::min(LD(2000), 1 / (d * d)); vh::count("narrow_angles"); }
	P aspect = P(r.chance(1, 4) ? 1 : std::ldexp(r.uniform(1, 2), int(r.chance(1, 4) ? r.range(-10, 10) : r.range(-3, 2))));
	P n, f;
	depths(r, n, f);
	std::ostringstream os; os.precision(17); os << "fov " << fov << ", aspect " << aspect << ", near " << n << ", far " << f;
	auto run = [&](const Mat<4, 4, P>& m, LD n, LD f, auto&& depth, const char* what, bool inf) {
		LD tz = 24 * EPS<P> * (1 + std::max(std::fabs(f), std::fabs(n)) / std::fabs(f - n));
		std::vector<LD> zs;
		for(int k = 0; k <= 8; ++k) zs.push_back(n + (f - n) * k / 8);
		if(inf) for(int k = 0; k < 6; ++k) zs.push_back(f * std::ldexp(1.L, 4 * (k + 1)));
		for(LD z : zs) for(LD i : fractions) for(LD j : fractions) {
			LD hz = std::tan(LD(fov) / 2) * std::fabs(z), wz = hz * LD(aspect);
			auto c = project(m, (2 * i - 1) * wz, (2 * j - 1) * hz, z);
			LD tol = 16 * EPS<P> * 2 * cond;
			VH_CHECK(std::fabs(c.x - (2 * i - 1)) <= tol && std::fabs(c.y - (2 * j - 1)) <= tol, what, "ray " << i << ", " << j << " at z = " << z << " is mapped to " << c.x << ", " << c.y << " for " << os.str() << ": " << str(m));
			VH_CHECK(std::fabs(c.z - depth(z)) <= tz, what, "z = " << z << " is mapped to " << c.z << " instead of " << depth(z) << " for " << os.str() << ": " << str(m));
			VH_CHECK(c.w > 0, what, "w is " << c.w << " at z = " << z << " for " << os.str() << ": " << str(m));
		}
		vh::count("volumes");
	};
	LD N = n, F = f;
	auto d0 = [=](LD z) { return F / (F - N) - F * N / (F - N) / z; };
	run(nytl::perspective(fov, aspect, n, f), N, F, d0, "perspective", false);
	run(nytl::perspective(fov, aspect, f, n), F, N, [&](LD z) { return 1 - d0(z); }, "perspective-swapped", false);
	run(nytl::perspectiveRev(fov, aspect, n, f), N, F, [&](LD z) { return 1 - d0(z); }, "perspectiveRev", false);
	run(nytl::perspectiveRevInf(fov, aspect, n), N, F, [&](LD z) { return N / z; }, "perspectiveRevInf", true);
	vh::nontrivial(vh::Hash().addf(fov).addf(aspect).addf(n).addf(f).v);
	vh::count(N > 0 ? "left_handed" : "right_handed");
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::section("ortho-float", 6000, 300000, [](vh::Rng& r, std::uint64_t) { orthos<float>(r); });
	vh::section("ortho-double", 6000, 300000, [](vh::Rng& r, std::uint64_t) { orthos<double>(r); });
	vh::section("frustum-float", 1400, 60000, [](vh::Rng& r, std::uint64_t) { frustums<float>(r); });
	vh::section("frustum-double", 1400, 60000, [](vh::Rng& r, std::uint64_t) { frustums<double>(r); });
	vh::section("perspective-float", 1400, 60000, [](vh::Rng& r, std::uint64_t) { perspectives<float>(r); });
	vh::section("perspective-double", 1400, 60000, [](vh::Rng& r, std::uint64_t) { perspectives<double>(r); });
	return vh::finish();
}
