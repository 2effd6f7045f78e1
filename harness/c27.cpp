// C27: transform matrices.
#include "quatmodel.hpp"
#include <nytl/transform.hpp>

using nytl::Mat; using nytl::Vec; using nytl::Vec2; using nytl::Vec3; using nytl::Vec4;
template<typename P> constexpr LD EPS = std::numeric_limits<P>::epsilon();

template<std::size_t R, std::size_t C, typename T> std::string str(const Mat<R, C, T>& m) {
	std::ostringstream os;
	os.precision(17);
	for(std::size_t r = 0; r < R; ++r) { os << (r ? "; " : "["); for(std::size_t c = 0; c < C; ++c) os << (c ? " " : "") << show(m[r][c]); }
	os << "]";
	return os.str();
}
template<std::size_t D> using G = std::array<std::array<LD, D>, D>;
template<std::size_t D> G<D> ident() { G<D> g {}; for(std::size_t i = 0; i < D; ++i) g[i][i] = 1; return g; }
template<std::size_t D> G<D> embed(const M3& m) { auto g = ident<D>(); for(int r = 0; r < 3; ++r) for(int c = 0; c < 3; ++c) g[r][c] = m[r][c]; return g; }
template<std::size_t D, typename P> void same(const Mat<D, D, P>& m, const G<D>& want, LD tol, const char* what, const std::string& info, std::size_t inner = D) {
	for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c)
		VH_CHECK(std::fabs(LD(m[r][c]) - want[r][c]) <= (r < inner && c < inner ? tol : 0), what, "entry " << r << ", " << c << " is " << m[r][c] << " instead of " << want[r][c] << " for " << info << ": " << str(m));
	vh::count("matrices");
}
template<std::size_t D, typename P> Mat<D, D, P> randomMat(vh::Rng& r) { Mat<D, D, P> m; for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j) m[i][j] = P(r.chance(1, 3) ? r.range(-3, 3) : r.normal()); return m; }
// t * m
template<std::size_t D, typename P> void sameLeft(const Mat<D, D, P>& got, const G<D>& t, const Mat<D, D, P>& m, LD tol, const char* what, const std::string& info) {
	for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c) {
		LD s = 0, mag = 0;
		for(std::size_t k = 0; k < D; ++k) { s += t[r][k] * LD(m[k][c]); mag += std::fabs(t[r][k] * LD(m[k][c])) + std::fabs(LD(m[k][c])); }
		VH_CHECK(std::fabs(LD(got[r][c]) - s) <= tol * mag, what, "entry " << r << ", " << c << " is " << got[r][c] << " instead of " << s << " for " << info << " and " << str(m));
	}
	vh::count("in_place");
}

template<typename P> P anyReal(vh::Rng& r) { return P(r.chance(1, 4) ? r.range(-4, 4) : r.normal() * std::ldexp(1., int(r.chance(1, 4) ? r.range(-30, 30) : r.range(-8, 8)))); }
template<std::size_t R, typename P> Vec<R, P> anyVec(vh::Rng& r) { Vec<R, P> v; for(auto& x : v) x = anyReal<P>(r); return v; }
template<std::size_t R, typename P> std::string str(const Vec<R, P>& v) { std::ostringstream os; os.precision(17); for(auto x : v) os << x << " "; return os.str(); }
template<typename P> Vec3<P> lib(const V3& v) { return {P(v[0]), P(v[1]), P(v[2])}; }
template<typename P> V3 of(const Vec3<P>& v) { return {LD(v[0]), LD(v[1]), LD(v[2])}; }

template<std::size_t D, typename P, std::size_t R> void scaleTranslate(vh::Rng& r) {
	auto s = anyVec<R, P>(r);
	auto want = ident<D>();
	for(std::size_t i = 0; i < R; ++i) want[i][i] = LD(s[i]);
	auto m = nytl::scaleMat<D, P>(s);
	static_assert(std::is_same_v<decltype(m), Mat<D, D, P>>);
	same<D>(m, want, 0, "scaleMat", str(s));
	auto a = randomMat<D, P>(r), b = a;
	nytl::scale(b, s);
	sameLeft<D>(b, want, a, 4 * EPS<P>, "scale", str(s));
	if constexpr(R < D) {
		auto want = ident<D>();
		for(std::size_t i = 0; i < R; ++i) want[i][D - 1] = LD(s[i]);
		auto m = nytl::translateMat<D, P>(s);
		static_assert(std::is_same_v<decltype(m), Mat<D, D, P>>);
		same<D>(m, want, 0, "translateMat", str(s));
		b = a;
		nytl::translate(b, s);
		sameLeft<D>(b, want, a, (2 * D + 2) * EPS<P>, "translate", str(s));
		// moves points but not directions
		auto p = anyVec<D, P>(r);
		p[D - 1] = 1;
		auto q = m * p;
		for(std::size_t i = 0; i < D; ++i) { LD w = LD(p[i]) + (i < R ? LD(s[i]) : 0); VH_CHECK(std::fabs(LD(q[i]) - w) <= 4 * EPS<P> * (std::fabs(LD(p[i])) + (i < R ? std::fabs(LD(s[i])) : 0)), "translated-point", q[i] << " instead of " << w); }
		p[D - 1] = 0;
		q = m * p;
		for(std::size_t i = 0; i < D; ++i) VH_CHECK(q[i] == p[i], "translated-direction", q[i] << " instead of " << p[i]);
	}
	vh::nontrivial(vh::Hash().adds(str(s)).add(D).v);
}

// angle such that the value is meant exactly
template<typename P> P anyAngle(vh::Rng& r) { return P(randomAngle(r)); }

template<std::size_t D, typename P> void rotate2(vh::Rng& r) {
	P a = anyAngle<P>(r);
	auto want = ident<D>();
	want[0][0] = want[1][1] = std::cos(LD(a));
	want[1][0] = std::sin(LD(a));
	want[0][1] = -want[1][0];
	auto m = nytl::rotateMat<D, P>(a);
	static_assert(std::is_same_v<decltype(m), Mat<D, D, P>>);
	same<D>(m, want, 2 * EPS<P>, "rotateMat2", std::to_string(a), 2);
	auto x = randomMat<D, P>(r), y = x;
	nytl::rotate(y, a);
	sameLeft<D>(y, want, x, (D + 4) * EPS<P>, "rotate2", std::to_string(a));
	// orientMat
	auto from = Vec2<P>{}, to = Vec2<P>{};
	for(auto v : {&from, &to}) for(auto& x : *v) x = P(r.chance(1, 4) ? r.range(-4, 4) : r.normal() * std::ldexp(1., int(r.range(-8, 8))));
	if(r.chance(1, 8)) to = from;
	if(r.chance(1, 8)) to = -from;
	if(r.chance(1, 8)) to = Vec2<P>{-from.y, from.x};
	LD l2 = LD(from.x) * from.x + LD(from.y) * from.y, t2 = LD(to.x) * to.x + LD(to.y) * to.y;
	if(l2 < 1e-6L) return;
	if(r.chance(1, 3)) { LD s = std::ldexp(1.L, int(r.range(-30, 30))); from *= P(s); to *= P(s); l2 *= s * s; t2 *= s * s; }
	auto o = nytl::orientMat<D, P>(from, to);
	static_assert(std::is_same_v<decltype(o), Mat<D, D, P>>);
	want = ident<D>();
	want[0][0] = want[1][1] = (LD(from.x) * to.x + LD(from.y) * to.y) / l2;
	want[1][0] = (LD(from.x) * to.y - LD(from.y) * to.x) / l2;
	want[0][1] = -want[1][0];
	same<D>(o, want, 8 * EPS<P> * std::sqrt(t2 / l2), "orientMat2", str(from) + "to " + str(to), 2);
	Vec<D, P> f {};
	f[0] = from.x; f[1] = from.y;
	for(std::size_t i = 2; i < D; ++i) f[i] = P(i);
	auto g = o * f;
	for(std::size_t i = 0; i < D; ++i) { LD w = i == 0 ? to.x : i == 1 ? to.y : P(i); VH_CHECK(std::fabs(LD(g[i]) - w) <= (i < 2 ? 16 * EPS<P> * std::sqrt(t2) : 0), "orientMat2-maps", "component " << i << " is " << g[i] << " instead of " << w << " for " << str(from) << "to " << str(to)); }
	vh::nontrivial(vh::Hash().addf(a).addf(from.x).addf(to.y).add(D).v);
}

template<std::size_t D, typename P> void rotate3(vh::Rng& r) {
	auto la = lib<P>(randomAxis(r));
	auto axis = of(la);
	P a = anyAngle<P>(r);
	std::ostringstream info; info.precision(17); info << "axis " << str(axis) << ", angle " << a;
	auto m3 = rotation(unit3(axis), a);
	auto want = embed<D>(m3);
	auto m = nytl::rotateMat<D, P>(la, a);
	static_assert(std::is_same_v<decltype(m), Mat<D, D, P>>);
	same<D>(m, want, 8 * EPS<P>, "rotateMat3", info.str(), 3);
	auto x = randomMat<D, P>(r), y = x;
	nytl::rotate(y, la, a);
	sameLeft<D>(y, want, x, (D + 10) * EPS<P>, "rotate3", info.str());
	auto lv = anyVec<3, P>(r);
	auto v = of(lv), w = mul(m3, v);
	auto got = nytl::rotate(lv, la, a);
	static_assert(std::is_same_v<decltype(got), Vec3<P>>);
	LD n = std::sqrt(dot3(v, v));
	for(int i = 0; i < 3; ++i) VH_CHECK(std::fabs(LD(got[i]) - w[i]) <= 12 * EPS<P> * n, "rotate-vector", "component " << i << " is " << got[i] << " instead of " << w[i] << " for " << str(v) << ", " << info.str());
	// orthogonal with determinant one
	LD det = 0;
	V3 rows[3];
	for(int i = 0; i < 3; ++i) rows[i] = {LD(m[i][0]), LD(m[i][1]), LD(m[i][2])};
	det = dot3(rows[0], cross3(rows[1], rows[2]));
	VH_CHECK(std::fabs(det - 1) <= 32 * EPS<P>, "determinant", det << " for " << info.str());
	// orientMat
	auto from = lib<P>(randomAxis(r)), to = lib<P>(randomAxis(r));
	switch(r.below(6)) {
		case 0: to = from; break;
		case 1: { auto t = mul(rotation(randomAxis(r), std::ldexp(1.L, -int(r.range(1, 30)))), of(from)); to = lib<P>(t); break; } // close
		case 2: { auto t = mul(rotation(unit3(cross3(of(from), randomAxis(r))), PI - r.uniform(0.05, 0.5)), of(from)); if(!std::isnan(t[0])) to = lib<P>(t); break; } // almost opposite
		default: break;
	}
	auto F = of(from), T = of(to);
	LD c = dot3(F, T);
	if(c < -0.9995L) return;
	auto o = nytl::orientMat<D, P>(from, to);
	static_assert(std::is_same_v<decltype(o), Mat<D, D, P>>);
	auto s = cross3(unit3(F), unit3(T));
	LD sl = std::sqrt(dot3(s, s));
	M3 om = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
	if(sl > 0) om = rotation({s[0] / sl, s[1] / sl, s[2] / sl}, std::atan2(sl, dot3(unit3(F), unit3(T))));
	same<D>(o, embed<D>(om), 16 * EPS<P> / (1 + c), "orientMat3", str(F) + " to " + str(T), 3);
	Vec<D, P> f {};
	for(int i = 0; i < 3; ++i) f[i] = from[i];
	auto g = o * f;
	for(std::size_t i = 0; i < D; ++i) VH_CHECK(std::fabs(LD(g[i]) - (i < 3 ? T[i] : 0)) <= (i < 3 ? 16 * EPS<P> / (1 + c) : 0), "orientMat3-maps", "component " << i << " is " << g[i] << " for " << str(F) << " to " << str(T));
	vh::nontrivial(vh::Hash().addf(a).addf(la.x).addf(from.y).addf(to.z).add(D).v);
	if(D == 4 && r.chance(1, 3000)) vh::sample(info.str(), 4);
}

template<std::size_t A, std::size_t D, typename P> void flipOne(vh::Rng& r) {
	const auto m = [&] { Mat<D, D, P> m; for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j) m[i][j] = smallValue<P>(r); return m; }();
	auto check = [&](const Mat<D, D, P>& x, std::size_t axis, const char* what) {
		for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j) VH_CHECK(x[i][j] == (i == axis ? P(-m[i][j]) : m[i][j]), what, "axis " << axis << " of " << str(m) << ": " << str(x));
	};
	auto x = m;
	nytl::flipAxis<A>(x);
	check(x, A, "flipAxis");
	x = m;
	auto y = nytl::flippedAxis<A>(x);
	check(y, A, "flippedAxis");
	check(x, D, "flippedAxis-argument");
	if constexpr(D > 1) { x = m; nytl::flipY(x); check(x, 1, "flipY"); check(nytl::flippedY(m), 1, "flippedY"); }
	if constexpr(D > 2) { x = m; nytl::flipZ(x); check(x, 2, "flipZ"); check(nytl::flippedZ(m), 2, "flippedZ"); }
	if constexpr(D > 1) { // output coordinates
		Vec<D, P> v;
		for(auto& c : v) c = smallValue<P>(r);
		auto p = m * v, q = y * v;
		for(std::size_t i = 0; i < D; ++i) VH_CHECK(std::abs(double(q[i]) - double(i == A ? -p[i] : p[i])) < 1e-9, "flipped-output", "coordinate " << i << " for axis " << A);
	}
	vh::count("flips");
}
template<std::size_t O, std::size_t D, typename P, typename T> void expand(vh::Rng& r) {
	Mat<O, O, T> m;
	for(std::size_t i = 0; i < O; ++i) for(std::size_t j = 0; j < O; ++j) m[i][j] = smallValue<T>(r);
	auto e = nytl::expandIdentity<D, P>(m);
	static_assert(std::is_same_v<decltype(e), Mat<D, D, P>>);
	for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j) { P w = i < O && j < O ? P(m[i][j]) : P(i == j); VH_CHECK(e[i][j] == w, "expandIdentity", "entry " << i << ", " << j << " is " << e[i][j] << " instead of " << w << " for " << str(m)); }
}

template<typename P> void points(vh::Rng& r) {
	auto m = randomMat<4, P>(r);
	auto v = anyVec<3, P>(r);
	if(r.chance(1, 3)) { m[3] = {}; m[3][3] = 1; }
	else if(r.chance(1, 2)) { m[3] = {}; m[3][2] = P(r.sign()); }
	V3 p = of(v);
	LD h[4], mag[4];
	for(int i = 0; i < 4; ++i) { h[i] = LD(m[i][3]); mag[i] = std::fabs(h[i]); for(int k = 0; k < 3; ++k) { h[i] += LD(m[i][k]) * p[k]; mag[i] += std::fabs(LD(m[i][k]) * p[k]); } }
	if(std::fabs(h[3]) < 1e-2L * mag[3] || mag[3] == 0) return;
	const auto mc = m;
	auto got = nytl::multPos(m, v);
	static_assert(std::is_same_v<decltype(got), Vec3<P>>);
	for(int i = 0; i < 3; ++i) {
		LD w = h[i] / h[3];
		LD tol = 8 * EPS<P> * (mag[i] / std::fabs(h[3]) + std::fabs(w) * mag[3] / std::fabs(h[3]));
		VH_CHECK(std::fabs(LD(got[i]) - w) <= tol, "multPos", "component " << i << " is " << got[i] << " instead of " << w << " for " << str(p) << ", " << str(mc));
	}
	vh::count("positions");
	// base
	auto d = lib<P>(randomAxis(r));
	if(r.chance(1, 4)) { LD e = std::ldexp(1 + r.unit(), -int(r.range(1, 40))), f = std::ldexp(1 + r.unit(), -int(r.range(1, 40))); d = lib<P>(unit3({r.sign() * e, r.sign() * f, LD(r.sign())})); }
	if(r.chance(1, 8)) { LD e = std::ldexp(1 + r.unit(), -int(r.range(1, 40))), f = r.uniform(0, 6.3); d = lib<P>(unit3({std::sin(f), std::cos(f), r.sign() * e})); }
	auto b = nytl::base(d);
	static_assert(std::is_same_v<decltype(b), std::array<Vec3<P>, 2>>);
	auto b1 = of(b[0]), b2 = of(b[1]), dd = of(d);
	LD tol = 12 * EPS<P>;
	VH_CHECK(std::fabs(dot3(b1, b1) - 1) <= tol && std::fabs(dot3(b2, b2) - 1) <= tol, "base", "not normalized: " << str(b1) << ", " << str(b2) << " for " << str(dd));
	VH_CHECK(std::fabs(dot3(b1, b2)) <= tol && std::fabs(dot3(b1, dd)) <= tol && std::fabs(dot3(b2, dd)) <= tol, "base", "not orthogonal: " << str(b1) << ", " << str(b2) << " for " << str(dd));
	vh::nontrivial(vh::Hash().addf(d.x).addf(d.y).addf(d.z).addf(v.x).v);
	vh::count("bases");
}

template<typename P> void types(const char* n) {
	std::string s = n;
	vh::section("scale-translate-" + s, 6000, 400000, [](vh::Rng& r, std::uint64_t) {
		scaleTranslate<1, P, 1>(r); scaleTranslate<2, P, 1>(r); scaleTranslate<2, P, 2>(r); scaleTranslate<3, P, 2>(r); scaleTranslate<3, P, 3>(r); scaleTranslate<4, P, 1>(r); scaleTranslate<4, P, 2>(r); scaleTranslate<4, P, 3>(r);
		scaleTranslate<4, P, 4>(r); scaleTranslate<5, P, 3>(r); scaleTranslate<6, P, 2>(r); scaleTranslate<7, P, 6>(r);
	});
	vh::section("rotate2-" + s, 6000, 400000, [](vh::Rng& r, std::uint64_t) { rotate2<2, P>(r); rotate2<3, P>(r); rotate2<4, P>(r); rotate2<6, P>(r); });
	vh::section("rotate3-" + s, 6000, 400000, [](vh::Rng& r, std::uint64_t) { rotate3<3, P>(r); rotate3<4, P>(r); rotate3<6, P>(r); });
	vh::section("points-" + s, 30000, 2000000, [](vh::Rng& r, std::uint64_t) { points<P>(r); });
	vh::section("flips-" + s, 500, 30000, [](vh::Rng& r, std::uint64_t) {
		flipOne<0, 1, P>(r); flipOne<0, 2, P>(r); flipOne<1, 2, P>(r); flipOne<0, 3, P>(r); flipOne<1, 3, P>(r); flipOne<2, 3, P>(r); flipOne<0, 4, P>(r); flipOne<1, 4, P>(r); flipOne<2, 4, P>(r); flipOne<3, 4, P>(r); flipOne<4, 6, P>(r); flipOne<5, 6, P>(r);
		expand<1, 1, P, P>(r); expand<1, 4, P, P>(r); expand<2, 2, P, float>(r); expand<2, 3, P, double>(r); expand<2, 4, P, int>(r); expand<3, 3, P, int>(r); expand<3, 4, P, P>(r); expand<4, 4, P, double>(r); expand<3, 7, P, float>(r); expand<2, 6, int, P>(r);
	});
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
#if PART == 0
	types<float>("float");
#elif PART == 1
	types<double>("double");
#elif PART == 2
	types<long double>("ld");
	vh::section("flips-int", 500, 30000, [](vh::Rng& r, std::uint64_t) { flipOne<0, 2, int>(r); flipOne<1, 4, int>(r); flipOne<2, 3, int>(r); flipOne<3, 4, int>(r); expand<2, 4, int, int>(r); expand<3, 4, std::int64_t, int>(r); });
	vh::section("defaults", 300, 10000, [](vh::Rng& r, std::uint64_t) { // 4 dimensions and float
		auto s = anyVec<3, float>(r);
		auto axis = lib<float>(randomAxis(r));
		auto f = lib<float>(randomAxis(r)), t = lib<float>(randomAxis(r));
		float a = anyAngle<float>(r);
		VH_CHECK((nytl::scaleMat(s) == nytl::scaleMat<4, float>(s)), "defaults", "scaleMat");
		VH_CHECK((nytl::translateMat(s) == nytl::translateMat<4, float>(s)), "defaults", "translateMat");
		VH_CHECK((nytl::rotateMat(a) == nytl::rotateMat<4, float>(a)), "defaults", "rotateMat");
		VH_CHECK((nytl::rotateMat(axis, a) == nytl::rotateMat<4, float>(axis, a)), "defaults", "rotateMat");
		if(dot3(of(f), of(t)) > -0.99L) VH_CHECK((nytl::orientMat(f, t) == nytl::orientMat<4, float>(f, t)), "defaults", "orientMat");
		vh::nontrivial(vh::Hash().addf(a).addf(s.x).v);
	});
#endif
	return vh::finish();
}
