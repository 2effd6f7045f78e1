// C33: approximate comparison.
#include "numeric.hpp"
#include <nytl/vec.hpp>
#include <nytl/mat.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/matOps.hpp>
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>

using LD = long double;
using nytl::approx; using nytl::Vec; using nytl::Mat;

// The exact predicate: 1 true, 0 false, -1 too close to the rounding boundary.
// prec: unit roundoff of the type the comparison is done in
template<typename T> int model(LD x, LD v, LD eps) {
	LD u = std::numeric_limits<T>::epsilon(), d = std::fabs(x - v), m = std::max(std::fabs(x), std::fabs(v)), t = eps * (1 + m);
	LD margin = 4 * u * d + 4 * u * t + 4 * std::numeric_limits<double>::epsilon() * t + LD(std::numeric_limits<T>::denorm_min());
	if(d == 0) return t > 0;  // differences of equal values are exact
	if(!(t <= std::numeric_limits<T>::max() / 2 && d <= std::numeric_limits<T>::max() / 2 && t <= std::numeric_limits<double>::max() / 2)) return -1;
	if(std::fabs(d - t) <= margin) return -1;
	return d < t;
}

template<typename A, typename B> void four(const A& a, const B& v, double eps, bool want, const char* key) {
	auto p = approx(v, eps);
	bool e1 = a == p, e2 = p == a, n1 = a != p, n2 = p != a;
	VH_CHECK(e1 == want, key, "x == approx(v, " << eps << ") is " << e1);
	VH_CHECK(e2 == want, key, "approx(v, " << eps << ") == x is " << e2);
	VH_CHECK(n1 == !want, key, "x != approx(v, " << eps << ") is " << n1);
	VH_CHECK(n2 == !want, key, "approx(v, " << eps << ") != x is " << n2);
	vh::count(want ? "equal" : "unequal");
}

// random tolerance
double tolerance(vh::Rng& r) {
	switch(r.below(8)) {
		case 0: return nytl::defaultApproxEpsilon;
		case 1: return 0;
		case 2: return r.unit();
		case 3: return r.uniform(0, 10);
		case 4: return -r.unit();
		case 5: return std::ldexp(r.uniform(1, 2), int(r.range(-300, 100)));
		default: return std::ldexp(r.uniform(1, 2), int(r.range(-50, 0)));
	}
}
template<typename T> T value(vh::Rng& r) {
	switch(r.below(10)) {
		case 0: return 0; case 1: return T(-0.0); case 2: return T(r.range(-3, 3)); case 3: return std::numeric_limits<T>::max() / 8; case 4: return std::numeric_limits<T>::denorm_min() * T(r.range(-5, 5));
		case 5: return T(std::ldexp(r.normal(), int(r.range(-100, 100))));
		default: return T(r.normal());
	}
}
// a value in some distance of v that is related to the tolerance
template<typename T> T near(vh::Rng& r, T v, double eps) {
	LD t = std::fabs(LD(eps)) * (1 + std::fabs(LD(v))), f;
	switch(r.below(8)) {
		case 0: return v;
		case 1: return std::nextafter(v, r.chance(1, 2) ? T(1e30) : T(-1e30));
		case 2: return value<T>(r);
		case 3: return -v;
		case 4: f = 1 + r.normal() * 0x1p-12L; break;
		case 5: f = r.uniform(0.9, 1.1); break;
		case 6: f = r.uniform(1, 3); break;
		default: f = r.uniform(0, 1);
	}
	LD x = LD(v) + LD(r.sign()) * f * t;
	if(!(std::fabs(x) <= std::numeric_limits<T>::max())) return v;
	return T(x);
}

template<typename T> void scalars(vh::Rng& r) {
	double eps = tolerance(r);
	T v = value<T>(r), x = near<T>(r, v, eps);
	int want = model<T>(x, v, eps);
	if(want < 0) { vh::count("boundary"); return; }
	auto info = [&] { std::ostringstream os; os.precision(21); os << x << ", " << v; return os.str(); };
	auto before = vh::run().violations.size();
	four(x, v, eps, want, "scalar");
	if(vh::run().violations.size() > before) VH_CHECK(false, "scalar-values", info());
	four(v, x, eps, want, "scalar-swapped");
	if(eps == nytl::defaultApproxEpsilon) VH_CHECK((x == approx(v)) == bool(want) && (approx(v) != x) == !want, "default-epsilon", info());
	auto a = approx(v, eps);
	VH_CHECK(a.value == v && a.epsilon == eps, "approx", info());
	nytl::Approx<T> z;
	VH_CHECK(z.value == 0 && z.epsilon == nytl::defaultApproxEpsilon, "default", z.value);
	vh::nontrivial(vh::Hash().addf(double(x)).addf(double(v)).addf(eps).v);
	if(r.chance(1, 20000)) vh::sample(info() + (want ? " equal" : " not equal"));
}

// the value is of another type than the approximated one, all values are exactly representable in both
template<typename T, typename U> void mixed(vh::Rng& r) {
	double eps = r.chance(1, 2) ? std::ldexp(r.uniform(1, 2), int(r.range(-12, 2))) : tolerance(r);
	T v = T(r.range(-64, 64)) / 4;
	U x = U(std::is_integral_v<U> ? LD(r.range(-20, 20)) : LD(r.range(-64, 64)) / 4);
	int want = model<T>(LD(x), LD(v), eps);
	if(want < 0) return;
	four(x, v, eps, want, "mixed");
	vh::nontrivial(vh::Hash().addf(double(x)).addf(double(v)).addf(eps).v);
}

// n values that are all within tolerance
template<typename T, typename U> bool vectorsOf(vh::Rng& r, std::size_t n, double eps, std::vector<T>& v, std::vector<U>& x, T& bv, U& bx) {
	auto make = [&](T& v, U& x, int want) {
		for(int k = 0; k < 30; ++k) {
			v = value<T>(r);
			if(std::is_integral_v<U> || !std::is_same_v<U, T>) v = T(r.range(-64, 64)) / 4;
			if(want) { if(r.chance(1, 2)) x = U(v); else if(std::is_floating_point_v<U>) x = U(near<T>(r, v, eps)); else x = U(r.range(-20, 20)); }
			else if(std::is_floating_point_v<U>) { x = U(r.chance(1, 2) ? near<T>(r, v, eps * 4) : value<T>(r)); } else x = U(r.range(-20, 20));
			if(LD(T(x)) != LD(x)) continue;
			if(model<T>(LD(x), LD(v), eps) == want) return true;
		}
		return false;
	};
	v.resize(n); x.resize(n);
	for(std::size_t i = 0; i < n; ++i) if(!make(v[i], x[i], 1)) return false;
	return make(bv, bx, 0);
}
double smallTolerance(vh::Rng& r) { return r.chance(1, 3) ? nytl::defaultApproxEpsilon : std::ldexp(r.uniform(1, 2), int(r.range(-30, 0))); }

template<std::size_t D, typename T, typename U> void vecs(vh::Rng& r) {
	double eps = smallTolerance(r);
	std::vector<T> v; std::vector<U> x; T bv; U bx;
	if(!vectorsOf(r, D, eps, v, x, bv, bx)) { vh::count("skipped"); return; }
	Vec<D, T> a; Vec<D, U> b;
	for(std::size_t i = 0; i < D; ++i) { a[i] = v[i]; b[i] = x[i]; }
	four(b, a, eps, true, "vec");
	vh::Hash h;
	for(std::size_t i = 0; i < D; ++i) { // exactly one component differs
		auto a2 = a; auto b2 = b;
		a2[i] = bv; b2[i] = bx;
		four(b2, a2, eps, false, "vec-component");
		h.addf(double(a[i])).addf(double(b[i]));
	}
	auto longer = [&](auto other) {
		constexpr std::size_t D2 = decltype(other)::value;
		Vec<D2, U> c {};
		for(std::size_t i = 0; i < D2 && i < D; ++i) c[i] = b[i];
		four(c, a, eps, false, "vec-dimension");
		four(c, a, 1e9, false, "vec-dimension");
	};
	longer(std::integral_constant<std::size_t, D + 1>());
	if constexpr(D > 1) longer(std::integral_constant<std::size_t, D - 1>());
	longer(std::integral_constant<std::size_t, 2 * D>());
	vh::nontrivial(h.v);
	vh::count("vectors");
}

template<std::size_t R, std::size_t C, typename T, typename U> void mats(vh::Rng& r) {
	double eps = smallTolerance(r);
	std::vector<T> v; std::vector<U> x; T bv; U bx;
	if(!vectorsOf(r, R * C, eps, v, x, bv, bx)) { vh::count("skipped"); return; }
	Mat<R, C, T> a; Mat<R, C, U> b;
	for(std::size_t i = 0; i < R * C; ++i) { a[i / C][i % C] = v[i]; b[i / C][i % C] = x[i]; }
	four(b, a, eps, true, "mat");
	vh::Hash h;
	for(std::size_t i = 0; i < R * C; ++i) {
		auto a2 = a; auto b2 = b;
		a2[i / C][i % C] = bv; b2[i / C][i % C] = bx;
		four(b2, a2, eps, false, "mat-component");
		h.addf(double(v[i])).addf(double(x[i]));
	}
	vh::nontrivial(h.v);
	vh::count("matrices");
}

template<typename T, typename U> void complexes(vh::Rng& r) {
	double eps = smallTolerance(r);
	std::vector<T> v; std::vector<U> x; T bv; U bx;
	if(!vectorsOf(r, 2, eps, v, x, bv, bx)) { vh::count("skipped"); return; }
	std::complex<T> a(v[0], v[1]);
	std::complex<U> b(x[0], x[1]);
	four(b, a, eps, true, "complex");
	four(std::complex<U>(bx, b.imag()), std::complex<T>(bv, a.imag()), eps, false, "complex-real");
	four(std::complex<U>(b.real(), bx), std::complex<T>(a.real(), bv), eps, false, "complex-imag");
	four(std::complex<U>(bx, bx), std::complex<T>(bv, bv), eps, false, "complex-both");
	// vectors and matrices of complex numbers
	Vec<3, std::complex<T>> av {a, a, a}; Vec<3, std::complex<U>> bv3 {b, b, b};
	four(bv3, av, eps, true, "complex-vec");
	auto k = r.below(3);
	if(r.chance(1, 2)) { av[k].real(bv); bv3[k].real(bx); } else { av[k].imag(bv); bv3[k].imag(bx); }
	four(bv3, av, eps, false, "complex-vec-component");
	vh::nontrivial(vh::Hash().addf(double(v[0])).addf(double(v[1])).addf(double(x[0])).v);
	vh::count("complex");
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	using ld = long double; using i64 = std::int64_t;
	(void) sizeof(i64);
#define SC(T) vh::section("scalar-" #T, 120000, 8000000, [](vh::Rng& r, std::uint64_t) { scalars<T>(r); });
#define MX(T, U) vh::section("mixed-" #T "-" #U, 20000, 1000000, [](vh::Rng& r, std::uint64_t) { mixed<T, U>(r); });
#define VE(T, U) vh::section("vec-" #T "-" #U, 6000, 300000, [](vh::Rng& r, std::uint64_t) { vecs<1, T, U>(r); vecs<2, T, U>(r); vecs<3, T, U>(r); vecs<4, T, U>(r); vecs<7, T, U>(r); if(r.chance(1, 20)) vecs<33, T, U>(r); });
#define MA(T, U) vh::section("mat-" #T "-" #U, 4000, 200000, [](vh::Rng& r, std::uint64_t) { mats<1, 1, T, U>(r); mats<2, 2, T, U>(r); mats<2, 3, T, U>(r); mats<3, 2, T, U>(r); mats<4, 4, T, U>(r); mats<1, 5, T, U>(r); mats<5, 1, T, U>(r); });
#define CO(T, U) vh::section("complex-" #T "-" #U, 10000, 500000, [](vh::Rng& r, std::uint64_t) { complexes<T, U>(r); });
#if PART == 0
	SC(float) SC(double) SC(ld)
	MX(float, double) MX(double, float) MX(double, int) MX(ld, double) MX(ld, i64) MX(float, int)
	CO(float, float) CO(double, double) CO(ld, ld) CO(float, double) CO(double, float)
#elif PART == 1
	VE(float, float) VE(double, double) VE(ld, ld) VE(float, double) VE(double, float) VE(double, int)
#elif PART == 2
	MA(float, float) MA(double, double) MA(ld, ld)
#else
	MA(float, double) MA(double, float) MA(double, int)
#endif
	return vh::finish();
}
