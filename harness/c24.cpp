// C24: quaternions.
#include "quatmodel.hpp"

constexpr LD EPS = std::numeric_limits<double>::epsilon();
using nytl::Vec3; using nytl::Mat; using nytl::Vec;

// small dyadic components: everything is exact
void algebra(vh::Rng& r) {
	auto gen = [&]() -> Quaternion { return {r.range(-64, 64) / 8., r.range(-64, 64) / 8., r.range(-64, 64) / 8., r.range(-64, 64) / 8.}; };
	const auto a = gen(), b = gen(), c = gen();
	auto same = [&](const Quaternion& q, const Q4& want, const char* what) {
		VH_CHECK(q.x == want.x && q.y == want.y && q.z == want.z && q.w == want.w, what, q << " instead of " << want << " for " << a << ", " << b);
	};
	auto A = Q4::of(a), B = Q4::of(b);
	same(a * b, A * B, "product");
	auto t = a;
	auto& ref = (t *= b);
	same(t, A * B, "product-assign");
	VH_CHECK(&ref == &t, "product-assign", "returned something else");
	t = a; t *= t;
	same(t, A * A, "square-assign");
	same(a * a, A * A, "square");
	same((a * b) * c, A * (B * Q4::of(c)), "associative");
	same(a + b, {A.x + B.x, A.y + B.y, A.z + B.z, A.w + B.w}, "sum");
	same(a - b, {A.x - B.x, A.y - B.y, A.z - B.z, A.w - B.w}, "difference");
	double f = r.range(-32, 32) / 4.;
	same(f * a, {f * A.x, f * A.y, f * A.z, f * A.w}, "scaled");
	same(nytl::conjugated(a), A.conj(), "conjugated");
	VH_CHECK(nytl::dot(a, b) == A.dot(B), "dot", nytl::dot(a, b) << " for " << a << ", " << b);
	VH_CHECK(std::fabs(nytl::norm(a) - A.norm()) <= 2 * EPS * A.norm(), "norm", nytl::norm(a) << " for " << a);
	same(a * nytl::conjugated(a), {0, 0, 0, A.dot(A)}, "conjugate-product");
	Quaternion def;
	VH_CHECK(def.x == 0 && def.y == 0 && def.z == 0 && def.w == 1, "default", def);
	same(def * a, A, "identity-left");
	same(a * def, A, "identity-right");
	// comparison
	VH_CHECK((a == a) && !(a != a), "equal", a);
	bool eq = a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w;
	VH_CHECK((a == b) == eq && (a != b) == !eq, "equal", a << ", " << b);
	for(int i = 0; i < 4; ++i) {
		auto o = a;
		double* p[] = {&o.x, &o.y, &o.z, &o.w};
		*p[i] += r.chance(1, 2) ? 0.125 : -*p[i] * 2 + (*p[i] == 0 ? 1 : 0);
		VH_CHECK(!(a == o) && (a != o) && !(o == a) && (o != a), "unequal", a << ", " << o);
	}
	VH_CHECK(!(a == Quaternion{-a.x, -a.y, -a.z, -a.w}) || A.norm() == 0, "unequal", "negated " << a);
	// general values
	double sc = std::ldexp(1., int(r.range(-40, 40)));
	Quaternion g {r.normal() * sc, r.normal(), r.normal(), r.normal()}, h {r.normal(), r.normal(), r.normal() * sc, r.normal()};
	auto G = Q4::of(g), H = Q4::of(h);
	auto p = g * h;
	VH_CHECK(Q4::of(p).dist(G * H) <= 8 * EPS * G.norm() * H.norm(), "product-general", p << " instead of " << (G * H));
	VH_CHECK(std::fabs(nytl::dot(g, h) - G.dot(H)) <= 4 * EPS * G.norm() * H.norm(), "dot-general", g << ", " << h);
	VH_CHECK(std::fabs(nytl::norm(g) - G.norm()) <= 4 * EPS * G.norm(), "norm-general", nytl::norm(g) << " for " << g);
	VH_CHECK(Q4::of(nytl::normalized(g)).dist(G.unit()) <= 4 * EPS, "normalized", nytl::normalized(g) << " for " << g);
	if(A.norm() > 0) VH_CHECK(Q4::of(nytl::normalized(a)).dist(A.unit()) <= 4 * EPS, "normalized", nytl::normalized(a) << " for " << a);
	VH_CHECK((nytl::normalized(Quaternion{0, 0, 0, 0}) == Quaternion{0, 0, 0, 1}), "normalized", "zero");
	{ // very long and very short ones
		double all = std::ldexp(1., int(r.range(-480, 480)));
		Quaternion e {h.x * all, h.y * all, g.z * all, (r.chance(1, 2) ? g.w : 0) * all};
		if(r.chance(1, 3)) e = {0, 0, 0, 0}, *(double* []) {&e.x, &e.y, &e.z, &e.w}[r.below(4)] = r.sign() * all;
		auto E = Q4::of(e);
		if(E.norm() > 0) {
			VH_CHECK(std::fabs(nytl::norm(e) - E.norm()) <= 4 * EPS * E.norm(), "norm-extreme", nytl::norm(e) << " for " << e);
			VH_CHECK(Q4::of(nytl::normalized(e)).dist(E.unit()) <= 4 * EPS, "normalized-extreme", nytl::normalized(e) << " for " << e);
		}
	}
	{ // values that only just differ, and values that aren't equal to themselves
		Quaternion e = g;
		double* p[] = {&e.x, &e.y, &e.z, &e.w};
		auto i = r.below(4);
		switch(r.below(3)) {
			case 0: *p[i] = std::nextafter(*p[i], r.chance(1, 2) ? INFINITY : -INFINITY); break;
			case 1: *p[i] = NAN; break;
			case 2: *p[i] = r.sign() * INFINITY; break;
		}
		bool eq = e.x == g.x && e.y == g.y && e.z == g.z && e.w == g.w, self = !std::isnan(*p[i]);
		VH_CHECK((e == g) == eq && (e != g) == !eq && (g == e) == eq && (g != e) == !eq, "equal-close", e << ", " << g);
		VH_CHECK((e == e) == self && (e != e) == !self, "equal-self", e);
	}
	vh::nontrivial(vh::Hash().addf(a.x).addf(a.y).addf(b.z).addf(b.w).addf(g.x).v);
	vh::count("algebra");
}

template<typename T> void checkApply(const Quaternion& q, const M3& m, vh::Rng& r, const char* what) {
	auto v = randomVec<T>(r);
	auto want = mul(m, v);
	Vec3<T> lv {T(v[0]), T(v[1]), T(v[2])};
	const auto copy = lv;
	auto got = nytl::apply(q, lv);
	static_assert(std::is_same_v<decltype(got), Vec3<T>>);
	LD n = std::sqrt(dot3(v, v)), tol = 16 * EPS * n + 2 * n * std::numeric_limits<T>::epsilon();
	for(int i = 0; i < 3; ++i) VH_CHECK(std::fabs(LD(got[i]) - want[i]) <= tol, what, "component " << i << ": " << got[i] << " instead of " << want[i] << " for q = " << q << ", v = " << str(v));
	VH_CHECK(lv == copy, what, "argument changed");
	vh::count("vectors_rotated");
}
template<std::size_t N, typename T> void checkToMat(const Quaternion& q, const M3& m, const char* what) {
	auto l = nytl::toMat<N, T>(q);
	static_assert(std::is_same_v<decltype(l), Mat<N, N, T>>);
	LD tol = 16 * EPS + std::numeric_limits<T>::epsilon();
	for(std::size_t i = 0; i < N; ++i) for(std::size_t j = 0; j < N; ++j) {
		LD want = i < 3 && j < 3 ? m[i][j] : i == j;
		VH_CHECK(std::fabs(LD(l[i][j]) - want) <= (i < 3 && j < 3 ? tol : 0), what, "entry " << i << ", " << j << ": " << l[i][j] << " instead of " << want << " for q = " << q);
	}
}
template<typename T> void checkFromMat(const M3& m, const Q4& want, const char* what) {
	Mat<3, 3, T> a;
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) a[i][j] = T(m[i][j]);
	auto q = Quaternion::fromMat(a);
	LD tol = 8 * EPS + 4 * std::numeric_limits<T>::epsilon();
	VH_CHECK(Q4::of(q).distRot(want) <= tol, what, q << " instead of +-" << want);
	vh::count("from_matrix");
}

void rotations(vh::Rng& r) {
	auto axis = randomAxis(r);
	double ax = axis[0], ay = axis[1], az = axis[2];
	double angle = randomAngle(r);
	V3 a {ax, ay, az};
	auto q = Quaternion::axisAngle(ax, ay, az, angle);
	auto want = Q4::axis(a, angle);
	const char* key = "axisAngle";
	auto rel = [&](double g, LD w) { return std::fabs(g - w) <= 4 * EPS * std::fabs(w); };
	VH_CHECK(rel(q.x, want.x) && rel(q.y, want.y) && rel(q.z, want.z) && rel(q.w, want.w), key, q << " instead of " << want << " for axis " << str(a) << ", angle " << angle);
	auto qf = Quaternion::axisAngle(nytl::Vec3f {float(ax), float(ay), float(az)}, angle);
	auto wantF = Q4::axis({float(ax), float(ay), float(az)}, angle);
	VH_CHECK(rel(qf.x, wantF.x) && rel(qf.y, wantF.y) && rel(qf.z, wantF.z) && rel(qf.w, wantF.w), key, qf << " instead of " << wantF << " for float axis " << str(a) << ", angle " << angle);
	auto m = rotation(unit3(a), angle);
	checkApply<double>(q, m, r, "apply");
	checkApply<float>(q, m, r, "apply");
	checkToMat<3, double>(q, m, "toMat");
	checkToMat<4, float>(q, m, "toMat");
	checkToMat<3, float>(q, m, "toMat");
	checkToMat<4, double>(q, m, "toMat");
	checkToMat<6, double>(q, m, "toMat");
	{ auto d = nytl::toMat<4>(q); static_assert(std::is_same_v<decltype(d), Mat<4, 4, float>>); VH_CHECK((d == nytl::toMat<4, float>(q)), "toMat", "default type"); }
	checkFromMat<double>(m, want, "fromMat");
	checkFromMat<float>(m, want, "fromMat");
	vh::nontrivial(vh::Hash().addf(ax).addf(ay).addf(angle).v);
	if(r.chance(1, 300)) { std::ostringstream os; os << "axis " << str(a) << " angle " << angle << " -> " << q; vh::sample(os.str(), 4); }
	vh::count("rotations");
}

void units(vh::Rng& r) {
	auto P = randomUnit(r), S = randomUnit(r);
	const auto p = P.lib(), q = S.lib();
	auto mp = rotation(P), mq = rotation(S);
	auto both = mul(mp, mq);
	checkApply<double>(p, mp, r, "apply-unit");
	checkApply<float>(p, mp, r, "apply-unit");
	checkApply<double>(p * q, both, r, "composition");
	checkToMat<3, double>(p * q, both, "composition-matrix");
	checkToMat<4, double>(p, mp, "toMat-unit");
	auto t = p;
	t *= q;
	checkToMat<3, double>(t, both, "composition-assign");
	// one after another
	auto v = randomVec<double>(r);
	Vec3<double> lv {double(v[0]), double(v[1]), double(v[2])};
	auto x = nytl::apply(p * q, lv), y = nytl::apply(p, nytl::apply(q, lv));
	LD n = std::sqrt(dot3(v, v));
	for(int i = 0; i < 3; ++i) VH_CHECK(std::fabs(x[i] - y[i]) <= 64 * EPS * n, "sequence", "p*q: " << x[i] << ", q then p: " << y[i] << " for " << p << ", " << q);
	auto back = nytl::apply(nytl::conjugated(p), nytl::apply(p, lv));
	for(int i = 0; i < 3; ++i) VH_CHECK(std::fabs(back[i] - lv[i]) <= 64 * EPS * n, "inverse", "conjugate does not revert " << p);
	// matrix times vector
	auto mv = nytl::toMat<3, double>(p) * lv;
	auto av = nytl::apply(p, lv);
	for(int i = 0; i < 3; ++i) VH_CHECK(std::fabs(mv[i] - av[i]) <= 64 * EPS * n, "matrix-vector", "toMat and apply differ for " << p);
	checkFromMat<double>(mp, P, "fromMat-unit");
	checkFromMat<float>(mp, P, "fromMat-unit");
	checkFromMat<double>(both, P * S, "fromMat-product");
	VH_CHECK(Q4::of(Quaternion::fromMat(nytl::toMat<3, double>(p))).distRot(P) <= 32 * EPS, "fromMat-toMat", p);
	VH_CHECK(Q4::of(Quaternion::fromMat(nytl::toMat<3>(p))).distRot(P) <= 1e-6L, "fromMat-toMat", p);
	vh::nontrivial(vh::Hash().addf(p.x).addf(p.w).addf(q.y).v);
}

void yxzs(vh::Rng& r) {
	double y = randomAngle(r), p = randomAngle(r), z = randomAngle(r);
	if(r.chance(1, 6)) y = 0;
	if(r.chance(1, 6)) p = 0;
	if(r.chance(1, 6)) z = 0;
	auto q = Quaternion::yxz(y, p, z);
	auto want = Q4::axis({0, 1, 0}, y) * Q4::axis({1, 0, 0}, p) * Q4::axis({0, 0, 1}, z);
	VH_CHECK(Q4::of(q).dist(want) <= 8 * EPS, "yxz", q << " instead of " << want << " for " << y << ", " << p << ", " << z);
	auto chain = Quaternion::axisAngle(0, 1, 0, y) * Quaternion::axisAngle(1, 0, 0, p) * Quaternion::axisAngle(0, 0, 1, z);
	VH_CHECK(Q4::of(chain).dist(want) <= 16 * EPS, "chain", chain << " instead of " << want << " for " << y << ", " << p << ", " << z);
	auto m = mul(mul(rotation(V3{0, 1, 0}, y), rotation(V3{1, 0, 0}, p)), rotation(V3{0, 0, 1}, z));
	checkApply<double>(q, m, r, "yxz-apply");
	checkToMat<3, double>(q, m, "yxz-toMat");
	vh::nontrivial(vh::Hash().addf(y).addf(p).addf(z).v);
	vh::count("yxz");
}

// the 24 rotations of the cube and 180 degree rotations
void cube(vh::Rng&, std::uint64_t) {
	int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	int n = 0;
	for(auto& p : perms) for(int s = 0; s < 8; ++s) {
		M3 m {};
		for(int i = 0; i < 3; ++i) m[i][p[i]] = s & (1 << i) ? -1 : 1;
		if(dot3(m[0], cross3(m[1], m[2])) < 0) continue;
		++n;
		auto run = [&](auto t) {
			using T = decltype(t);
			Mat<3, 3, T> a;
			for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) a[i][j] = T(m[i][j]);
			auto q = Quaternion::fromMat(a);
			VH_CHECK(std::fabs(nytl::norm(q) - 1) <= 4 * EPS, "cube", "norm of " << q);
			auto b = nytl::toMat<3, double>(q);
			for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) VH_CHECK(std::fabs(b[i][j] - m[i][j]) <= 8 * EPS, "cube", "rotation " << n << " became " << q);
			for(int k = 0; k < 3; ++k) { Vec3<double> e {}; e[k] = 1; auto v = nytl::apply(q, e); for(int i = 0; i < 3; ++i) VH_CHECK(std::fabs(v[i] - m[i][k]) <= 8 * EPS, "cube", "axis " << k << " by " << q); }
		};
		run(double()); run(float());
		vh::nontrivial(n);
	}
	VH_CHECK(n == 24, "cube", n);
	// half turns on a grid of axes
	for(int x = -4; x <= 4; ++x) for(int y = -4; y <= 4; ++y) for(int z = -4; z <= 4; ++z) if(x || y || z) {
		auto a = unit3({LD(x), LD(y), LD(z)});
		auto m = rotation(a, PI);
		checkFromMat<double>(m, Q4{a[0], a[1], a[2], 0}, "half-turn");
		checkFromMat<float>(m, Q4{a[0], a[1], a[2], 0}, "half-turn");
		for(int k = 1; k < 16; k += 2) { auto m = rotation(a, PI * k / 8); checkFromMat<double>(m, Q4::axis(a, PI * k / 8), "grid"); checkFromMat<float>(m, Q4::axis(a, PI * k / 8), "grid"); }
	}
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::section("algebra", 100000, 2000000, [](vh::Rng& r, std::uint64_t) { algebra(r); });
	vh::section("axis-angle", 60000, 1500000, [](vh::Rng& r, std::uint64_t) { rotations(r); });
	vh::section("unit", 50000, 1500000, [](vh::Rng& r, std::uint64_t) { units(r); });
	vh::section("yxz", 60000, 1500000, [](vh::Rng& r, std::uint64_t) { yxzs(r); });
	vh::section("cube", 1, 1, cube);
	return vh::finish();
}
