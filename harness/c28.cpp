// C28: lookAt.
#include "quatmodel.hpp"
#include <nytl/transform.hpp>

using nytl::Mat; using nytl::Vec; using nytl::Vec3; using nytl::Vec4;
template<typename P> constexpr LD EPS = std::numeric_limits<P>::epsilon();
template<typename P> Vec3<P> lib(const V3& v) { return {P(v[0]), P(v[1]), P(v[2])}; }
template<typename P> V3 of(const Vec3<P>& v) { return {LD(v[0]), LD(v[1]), LD(v[2])}; }
template<std::size_t R, std::size_t C, typename T> std::string str(const Mat<R, C, T>& m) {
	std::ostringstream os;
	os.precision(17);
	for(std::size_t r = 0; r < R; ++r) { os << (r ? "; " : "["); for(std::size_t c = 0; c < C; ++c) os << (c ? " " : "") << show(m[r][c]); }
	os << "]";
	return os.str();
}

template<std::size_t D, typename P> void rigid(const Mat<D, D, P>& m, const V3& pos, LD tol, const char* what, const std::string& info, bool trans) {
	V3 rows[3];
	for(int i = 0; i < 3; ++i) rows[i] = {LD(m[i][0]), LD(m[i][1]), LD(m[i][2])};
	for(int i = 0; i < 3; ++i) for(int j = 0; j <= i; ++j) VH_CHECK(std::fabs(dot3(rows[i], rows[j]) - (i == j)) <= tol, what, "rows " << i << ", " << j << " are not orthonormal for " << info << ": " << str(m));
	VH_CHECK(std::fabs(dot3(rows[0], cross3(rows[1], rows[2])) - 1) <= 2 * tol, what, "reflection for " << info << ": " << str(m));
	for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j) {
		if(i < 3 && (j < 3 || (trans && j == 3))) continue;
		VH_CHECK(m[i][j] == P(i == j), what, "entry " << i << ", " << j << " for " << info << ": " << str(m));
	}
	if(trans) if constexpr(D >= 4) { // the position becomes the origin
		LD n = std::sqrt(dot3(pos, pos));
		for(int i = 0; i < 3; ++i) { LD x = dot3(rows[i], pos) + LD(m[i][3]); VH_CHECK(std::fabs(x) <= 8 * EPS<P> * n, "position", what << ": coordinate " << i << " is " << x << " for " << info << ": " << str(m)); }
	}
	vh::count("matrices");
}

template<typename P> V3 position(vh::Rng& r) { V3 p; LD s = std::ldexp(1.L, int(r.chance(1, 4) ? r.range(-40, 40) : r.range(-6, 12))); for(auto& x : p) x = P(r.chance(1, 5) ? r.range(-3, 3) : LD(r.normal()) * s); if(r.chance(1, 10)) p = {0, 0, 0}; return p; }

template<typename P> void direction(vh::Rng& r) {
	auto pos = position<P>(r);
	auto lz = lib<P>(randomAxis(r));
	auto z = of(lz);
	auto up = randomAxis(r);
	if(r.chance(1, 3)) up = {0, 1, 0};
	if(r.chance(1, 6)) up = unit3({z[0] + 0.1L * LD(r.normal()), z[1] + 0.1L * LD(r.normal()), z[2] + 0.1L * LD(r.normal())}); // almost parallel
	if(r.chance(1, 2)) { LD f = std::ldexp(1.L, int(r.chance(1, 2) ? r.range(-40, 40) : r.range(-8, 8))) * LD(r.uniform(0.5, 1)); for(auto& x : up) x *= f; }
	auto lup = lib<P>(up);
	up = of(lup);
	auto cr = cross3(up, z);
	LD cond = std::sqrt(dot3(up, up) / std::max<LD>(dot3(cr, cr), 1e-300L));
	if(cond > 100) return;
	std::ostringstream info; info.precision(17); info << "pos " << str(pos) << ", z " << str(z) << ", up " << str(up);
	auto check = [&](const auto& m, bool trans) {
		constexpr std::size_t D = std::decay_t<decltype(m)>::rows();
		LD tol = 16 * EPS<P> * cond;
		rigid<D>(m, pos, tol, "lookAt", info.str(), trans);
		// z becomes the z axis, up is in the upper y-z half plane
		V3 rows[3];
		for(int i = 0; i < 3; ++i) rows[i] = {LD(m[i][0]), LD(m[i][1]), LD(m[i][2])};
		for(int i = 0; i < 3; ++i) VH_CHECK(std::fabs(dot3(rows[i], z) - (i == 2)) <= tol, "z-axis", "coordinate " << i << " is " << dot3(rows[i], z) << " for " << info.str() << ": " << str(m));
		LD un = std::sqrt(dot3(up, up));
		VH_CHECK(std::fabs(dot3(rows[0], up)) <= tol * un, "up", "x is " << dot3(rows[0], up) << " for " << info.str() << ": " << str(m));
		VH_CHECK(dot3(rows[1], up) > 0, "up", "y is " << dot3(rows[1], up) << " for " << info.str() << ": " << str(m));
		// every other point
		auto x = unit3(cr), y = cross3(unit3(z), x);
		for(int c = 0; c < 3; ++c) { V3 w {x[c], y[c], unit3(z)[c]}; for(int i = 0; i < 3; ++i) VH_CHECK(std::fabs(rows[i][c] - w[i]) <= tol, "entries", "entry " << i << ", " << c << " is " << rows[i][c] << " instead of " << w[i] << " for " << info.str()); }
	};
	auto m = nytl::lookAt(lib<P>(pos), lz, lup);
	static_assert(std::is_same_v<decltype(m), Mat<4, 4, P>>);
	check(m, true);
	auto m3 = nytl::lookAt<3>(lz, lup);
	static_assert(std::is_same_v<decltype(m3), Mat<3, 3, P>>);
	check(m3, false);
	check(nytl::lookAt<4>(lz, lup), false);
	check(nytl::lookAt<6>(lz, lup), false);
	// a point seen from the position
	auto p = position<P>(r);
	auto lp = m * Vec4<P>{P(p[0]), P(p[1]), P(p[2]), P(1)};
	V3 d {p[0] - pos[0], p[1] - pos[1], p[2] - pos[2]};
	LD n = std::sqrt(dot3(p, p)) + std::sqrt(dot3(pos, pos));
	auto x = unit3(cr), y = cross3(unit3(z), x);
	V3 want {dot3(x, d), dot3(y, d), dot3(unit3(z), d)};
	for(int i = 0; i < 3; ++i) VH_CHECK(std::fabs(LD(lp[i]) - want[i]) <= 24 * EPS<P> * cond * n, "point", "coordinate " << i << " is " << lp[i] << " instead of " << want[i] << " for " << info.str());
	VH_CHECK(lp[3] == 1, "point", "w is " << lp[3]);
	vh::count("directions");
	vh::nontrivial(vh::Hash().addf(pos[0]).addf(z[1]).addf(up[2]).v);
	if(r.chance(1, 2000)) vh::sample(info.str(), 4);
}

template<typename P> void orientation(vh::Rng& r) {
	auto pos = position<P>(r);
	auto Q = randomUnit(r);
	const auto q = Q.lib();
	auto rot = rotation(Q);
	std::ostringstream info; info.precision(17); info << "q " << q << ", pos " << str(pos);
	auto m = nytl::lookAt(q, lib<P>(pos));
	static_assert(std::is_same_v<decltype(m), Mat<4, 4, P>>);
	LD tol = 16 * EPS<P> + 32 * EPS<double>;
	LD n = std::sqrt(dot3(pos, pos));
	rigid<4>(m, pos, tol, "lookAt-quaternion", info.str(), true);
	for(int i = 0; i < 3; ++i) for(int c = 0; c < 3; ++c) VH_CHECK(std::fabs(LD(m[i][c]) - rot[c][i]) <= tol, "inverse-rotation", "entry " << i << ", " << c << " is " << m[i][c] << " instead of " << rot[c][i] << " for " << info.str());
	// the same as the other overload
	auto z = nytl::apply(q, Vec3<P>{0, 0, 1}), y = nytl::apply(q, Vec3<P>{0, 1, 0});
	auto o = nytl::lookAt(lib<P>(pos), z, y);
	for(int i = 0; i < 4; ++i) for(int c = 0; c < 4; ++c) VH_CHECK(std::fabs(LD(m[i][c]) - LD(o[i][c])) <= 2 * tol * (c == 3 ? 1 + n * 2 : 1), "overloads", "entry " << i << ", " << c << ": " << m[i][c] << " and " << o[i][c] << " for " << info.str());
	// a point
	auto p = position<P>(r);
	auto lp = m * Vec4<P>{P(p[0]), P(p[1]), P(p[2]), P(1)};
	V3 d {p[0] - pos[0], p[1] - pos[1], p[2] - pos[2]};
	LD np = std::sqrt(dot3(p, p)) + n;
	for(int i = 0; i < 3; ++i) { LD w = rot[0][i] * d[0] + rot[1][i] * d[1] + rot[2][i] * d[2]; VH_CHECK(std::fabs(LD(lp[i]) - w) <= 2 * tol * np, "point", "coordinate " << i << " is " << lp[i] << " instead of " << w << " for " << info.str()); }
	vh::count("orientations");
	vh::nontrivial(vh::Hash().addf(pos[0]).addf(q.x).addf(q.w).v);
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::section("direction-float", 15000, 1000000, [](vh::Rng& r, std::uint64_t) { direction<float>(r); });
	vh::section("direction-double", 15000, 1000000, [](vh::Rng& r, std::uint64_t) { direction<double>(r); });
	vh::section("orientation-float", 25000, 1500000, [](vh::Rng& r, std::uint64_t) { orientation<float>(r); });
	vh::section("orientation-double", 25000, 1500000, [](vh::Rng& r, std::uint64_t) { orientation<double>(r); });
	return vh::finish();
}
