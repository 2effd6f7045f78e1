// C19: component-wise functions against the scalar operation.
#include "numeric.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>

using nytl::Vec;
namespace cw = nytl::vec::cw;
namespace ip = nytl::vec::cw::ip;

template<std::size_t D, typename T, typename F> void each(const Vec<D, T>& v, F&& f, const char* key, bool zeroSign = true) {
	for(std::size_t i = 0; i < D; ++i) {
		auto want = f(i);
		VH_CHECK(zeroSign ? sameNum(v[i], want) : (v[i] == want), key, "dimension " << D << " component " << i << ": " << show(v[i]) << " instead of " << show(want));
	}
}
template<std::size_t D, typename T> bool equal(const Vec<D, T>& a, const Vec<D, T>& b) {
	for(std::size_t i = 0; i < D; ++i) if(!sameNum(a[i], b[i])) return false;
	return true;
}
template<typename V, typename G> void fillWith(V& v, G&& g) { for(std::size_t i = 0; i < v.size(); ++i) v[i] = g(); }

template<typename T> T finite(vh::Rng& rng) {
	T t;
	do { t = anyValue<T>(rng); } while(t != t);
	return t;
}

// domain of the function for integers: the result has to be representable
enum class Dom { any, all, unit, pos, nonneg, small };
template<typename T> T inDomain(vh::Rng& rng, Dom d) {
	if constexpr(std::is_floating_point_v<T>) return anyValue<T>(rng);
	else switch(d) {
		case Dom::any: { T t; do t = anyValue<T>(rng); while(t == std::numeric_limits<T>::min()); return t; }
		case Dom::all: return T(rng.range(-100, 100));
		case Dom::unit: return T(rng.range(-1, 1));
		case Dom::pos: return T(rng.range(1, 120));
		case Dom::nonneg: return T(rng.range(0, 120));
		default: return T(rng.range(-4, 4));
	}
}

template<std::size_t D, typename T> void functions(vh::Rng& rng) {
#define FUNC(f, dom) { \
		Vec<D, T> a; \
		fillWith(a, [&] { return inDomain<T>(rng, dom); }); \
		const auto a0 = a; \
		auto r = cw::f(a); \
		VH_CHECK((std::is_same_v<decltype(r), Vec<D, T>>), #f, "type"); \
		each(r, [&](auto i) { return T(std::f(a0[i])); }, #f); \
		VH_CHECK(equal(a, a0), "arguments", #f " changed its argument"); \
		each(cw::f(a0), [&](auto i) { return T(std::f(a0[i])); }, #f); \
		ip::f(a); \
		each(a, [&](auto i) { return T(std::f(a0[i])); }, "ip::" #f); \
		vh::count("function_applications", 3); \
	}
	FUNC(abs, Dom::any) FUNC(sin, Dom::all) FUNC(cos, Dom::all) FUNC(tan, Dom::all) FUNC(asin, Dom::unit) FUNC(acos, Dom::unit) FUNC(atan, Dom::all)
	FUNC(sqrt, Dom::nonneg) FUNC(log, Dom::pos) FUNC(exp, Dom::small) FUNC(exp2, Dom::small) FUNC(floor, Dom::all) FUNC(ceil, Dom::all)
	vh::nontrivial(rng.next());
}

template<std::size_t D, typename T, typename T2> void powers(vh::Rng& rng) {
	Vec<D, T> a;
	Vec<D, T2> e;
	auto base = [&] { if constexpr(std::is_floating_point_v<T>) return rng.chance(1, 2) ? T(std::fabs(rng.normal())) : anyValue<T>(rng); else return T(rng.range(1, 5)); };
	auto exponent = [&] { if constexpr(std::is_floating_point_v<T2> && std::is_floating_point_v<T>) return rng.chance(1, 2) ? T2(rng.normal()) : anyValue<T2>(rng); else return T2(rng.range(0, 4)); };
	fillWith(a, base);
	fillWith(e, exponent);
	T2 s = exponent();
	const auto a0 = a; const auto e0 = e;
	each(cw::pow(a, s), [&](auto i) { return T(std::pow(a0[i], s)); }, "pow-scalar");
	each(cw::pow(a, e), [&](auto i) { return T(std::pow(a0[i], e0[i])); }, "pow-vector");
	VH_CHECK(equal(a, a0) && equal(e, e0), "arguments", "pow changed its arguments");
	auto x = a0;
	ip::pow(x, s);
	each(x, [&](auto i) { return T(std::pow(a0[i], s)); }, "ip::pow-scalar");
	x = a0;
	ip::pow(x, e);
	each(x, [&](auto i) { return T(std::pow(a0[i], e0[i])); }, "ip::pow-vector");
	VH_CHECK(equal(e, e0), "arguments", "ip::pow changed its argument");
	if constexpr(std::is_same_v<T, T2> && std::is_floating_point_v<T>) {
		x = a0;
		ip::pow(x, x);
		each(x, [&](auto i) { return T(std::pow(a0[i], a0[i])); }, "ip::pow-alias");
		for(std::size_t k = 0; k < D; ++k) {
			x = a0;
			ip::pow(x, x[k]);
			each(x, [&](auto i) { return T(std::pow(a0[i], a0[k])); }, "ip::pow-alias");
		}
	}
	vh::nontrivial(rng.next());
}

template<std::size_t D, typename T> void minMax(vh::Rng& rng) {
	Vec<D, T> a, b, c;
	bool small = rng.chance(1, 2); // then often equal
	auto g = [&] { return small ? smallValue<T>(rng, 2) : finite<T>(rng); };
	fillWith(a, g); fillWith(b, g); fillWith(c, g);
	T s = g(), t = g();
	const auto a0 = a, b0 = b;
	each(cw::max(a, b), [&](auto i) { return std::max(a0[i], b0[i]); }, "max", false);
	each(cw::min(a, b), [&](auto i) { return std::min(a0[i], b0[i]); }, "min", false);
	each(cw::max(a, s), [&](auto i) { return std::max(a0[i], s); }, "max-scalar", false);
	each(cw::min(a, s), [&](auto i) { return std::min(a0[i], s); }, "min-scalar", false);
	VH_CHECK(equal(a, a0) && equal(b, b0), "arguments", "min/max changed their arguments");
	for(std::size_t k = 0; k < D; ++k) {
		each(cw::max(a, a[k]), [&](auto i) { return std::max(a0[i], a0[k]); }, "max-alias", false);
		each(cw::min(a, a[k]), [&](auto i) { return std::min(a0[i], a0[k]); }, "min-alias", false);
	}
	auto lo = b, hi = c;
	for(std::size_t i = 0; i < D; ++i) if(hi[i] < lo[i]) std::swap(hi[i], lo[i]);
	if(t < s) std::swap(s, t);
	const auto lo0 = lo, hi0 = hi;
	each(cw::clamp(a, lo, hi), [&](auto i) { return std::clamp(a0[i], lo0[i], hi0[i]); }, "clamp", false);
	each(cw::clamp(a, s, t), [&](auto i) { return std::clamp(a0[i], s, t); }, "clamp-scalar", false);
	VH_CHECK(equal(a, a0) && equal(lo, lo0) && equal(hi, hi0), "arguments", "clamp changed its arguments");
	auto x = a;
	ip::clamp(x, lo, hi);
	each(x, [&](auto i) { return std::clamp(a0[i], lo0[i], hi0[i]); }, "ip::clamp", false);
	VH_CHECK(equal(lo, lo0) && equal(hi, hi0), "arguments", "ip::clamp changed its arguments");
	x = a;
	ip::clamp(x, s, t);
	each(x, [&](auto i) { return std::clamp(a0[i], s, t); }, "ip::clamp-scalar", false);
	if(D > 1) { // bounds from the vector itself
		auto p = rng.below(D), q = rng.below(D);
		if(a0[q] < a0[p]) std::swap(p, q);
		x = a;
		ip::clamp(x, x[p], x[q]);
		each(x, [&](auto i) { return std::clamp(a0[i], a0[p], a0[q]); }, "ip::clamp-alias", false);
	}
	vh::count("comparisons");
	vh::nontrivial(rng.next());
}

template<std::size_t D, typename T, typename U> void arithmetic(vh::Rng& rng) {
	Vec<D, T> a; Vec<D, U> b; U s;
	bool small = rng.chance(1, 3);
	fillWith(a, [&] { return small ? smallValue<T>(rng) : anyValue<T>(rng); });
	fillWith(b, [&] { return small ? smallValue<U>(rng) : anyValue<U>(rng); });
	s = small ? smallValue<U>(rng) : anyValue<U>(rng);
	if constexpr(!std::is_same_v<T, NC>) {
		auto defined = [&](std::size_t i) {
			return okMul(a[i], b[i]) && okDiv(a[i], b[i]) && okConv<T>(a[i] * b[i]) && okConv<T>(a[i] / b[i]) &&
				okMul(a[i], s) && okDiv(a[i], s) && okAdd(a[i], s) && okSub(a[i], s) && okSub(s, a[i]); };
		for(std::size_t i = 0; i < D; ++i) if(!defined(i)) { a[i] = smallValue<T>(rng); b[i] = U(1 + rng.below(9)); }
		bool ok = true;
		for(std::size_t i = 0; i < D; ++i) ok &= defined(i);
		if(!ok) {
			s = U(1 + rng.below(9));
			for(std::size_t i = 0; i < D; ++i) if(!defined(i)) { a[i] = smallValue<T>(rng); b[i] = U(1 + rng.below(9)); }
		}
	}
	const auto a0 = a; const auto b0 = b; const auto s0 = s;
	each(cw::multiply(a, b), [&](auto i) { return a0[i] * b0[i]; }, "multiply");
	{
		using namespace nytl::vec::cw::operators;
		each(a * b, [&](auto i) { return a0[i] * b0[i]; }, "cw-operator*");
		auto x = a;
		auto& r = (x *= b);
		VH_CHECK((void*) &r == (void*) &x, "reference", "*=");
		each(x, [&](auto i) { T t = a0[i]; t *= b0[i]; return t; }, "cw-operator*=");
		each(a + s, [&](auto i) { return a0[i] + s; }, "cw-operator+");
		each(s + a, [&](auto i) { return s + a0[i]; }, "cw-operator+");
		each(a - s, [&](auto i) { return a0[i] - s; }, "cw-operator-");
		each(s - a, [&](auto i) { return s - a0[i]; }, "cw-operator-");
		if constexpr(!std::is_same_v<T, NC>) {
			each(a / b, [&](auto i) { return a0[i] / b0[i]; }, "cw-operator/");
			x = a;
			auto& r2 = (x /= b);
			VH_CHECK((void*) &r2 == (void*) &x, "reference", "/=");
			each(x, [&](auto i) { T t = a0[i]; t /= b0[i]; return t; }, "cw-operator/=");
			auto y = a;
			for(auto& c : y) { if(c == T(0)) c = T(3); }
			bool mulOk = true;
			if constexpr(std::is_integral_v<T>) for(auto& c : y) mulOk &= okMul(c, c);
			const auto y0 = y;
			if(mulOk) {
				y *= y;
				each(y, [&](auto i) { T t = y0[i]; t *= y0[i]; return t; }, "cw-operator*=-alias");
			}
			y = y0;
			y /= y;
			each(y, [&](auto i) { T t = y0[i]; t /= y0[i]; return t; }, "cw-operator/=-alias");
		}
	}
	VH_CHECK(equal(a, a0) && equal(b, b0) && sameNum(s, s0), "arguments", "operators changed their arguments");
	{
		using namespace nytl::vec::operators;
		each(a * s, [&](auto i) { return a0[i] * s; }, "operator*");
		if constexpr(!std::is_same_v<T, NC>) {
			each(cw::divide(a, b), [&](auto i) { return a0[i] / b0[i]; }, "divide");
			each(a / s, [&](auto i) { return a0[i] / s; }, "operator/");
			auto y = a;
			for(auto& c : y) if(!okDiv(s, c)) c = T(2);
			const auto y0 = y;
			each(s / y, [&](auto i) { return s / y0[i]; }, "operator/-scalar-first");
			auto k = rng.below(D);
			if constexpr(std::is_floating_point_v<T>) {
				each(y / y[k], [&](auto i) { return y0[i] / y0[k]; }, "operator/-alias");
				each(y[k] / y, [&](auto i) { return y0[k] / y0[i]; }, "operator/-alias");
			}
		}
	}
	VH_CHECK(equal(a, a0) && equal(b, b0) && sameNum(s, s0), "arguments", "operators changed their arguments");
	vh::nontrivial(rng.next());
	if(D < 5 && rng.chance(1, 300)) { std::ostringstream os; os << "arithmetic: a[0] = " << show(a[0]) << ", b[0] = " << show(b[0]) << ", scalar " << show(s) << " in dimension " << D; vh::sample(os.str(), 4); }
}

// Value types whose + does not commute and that have an order but no arithmetic: strings.
template<std::size_t D> void strings(vh::Rng& rng) {
	using S = std::string;
	auto g = [&] { S s; for(auto n = rng.below(rng.chance(1, 4) ? 40 : 3); n; --n) s += char('a' + rng.below(3)); return s; };
	Vec<D, S> a, b, c;
	fillWith(a, g); fillWith(b, g); fillWith(c, g);
	S s = g(), t = g();
	auto same = [&](const Vec<D, S>& got, auto&& f, const char* key) {
		for(std::size_t i = 0; i < D; ++i) {
			S want = f(i);
			VH_CHECK(got[i] == want, key, "strings, dimension " << D << " component " << i << ": \"" << got[i] << "\" instead of \"" << want << "\"");
		}
	};
	const auto a0 = a, b0 = b;
	{
		using namespace nytl::vec::cw::operators;
		same(a + s, [&](auto i) { return a0[i] + s; }, "cw-operator+");
		same(s + a, [&](auto i) { return s + a0[i]; }, "cw-operator+");
		same(a + 'x', [&](auto i) { return a0[i] + 'x'; }, "cw-operator+");
		same('x' + a, [&](auto i) { return 'x' + a0[i]; }, "cw-operator+");
		same(a[D - 1] + a, [&](auto i) { return a0[D - 1] + a0[i]; }, "cw-operator+");
	}
	same(cw::max(a, b), [&](auto i) { return std::max(a0[i], b0[i]); }, "max");
	same(cw::min(a, b), [&](auto i) { return std::min(a0[i], b0[i]); }, "min");
	same(cw::max(a, s), [&](auto i) { return std::max(a0[i], s); }, "max-scalar");
	same(cw::min(a, s), [&](auto i) { return std::min(a0[i], s); }, "min-scalar");
	same(cw::max(a, a[0]), [&](auto i) { return std::max(a0[i], a0[0]); }, "max-alias");
	if(t < s) std::swap(s, t);
	for(std::size_t i = 0; i < D; ++i) if(c[i] < b[i]) std::swap(b[i], c[i]);
	const auto lo = b, hi = c;
	same(cw::clamp(a, b, c), [&](auto i) { return std::clamp(a0[i], lo[i], hi[i]); }, "clamp");
	same(cw::clamp(a, s, t), [&](auto i) { return std::clamp(a0[i], s, t); }, "clamp-scalar");
	same(a, [&](auto i) { return a0[i]; }, "arguments");
	ip::clamp(a, b, c);
	same(a, [&](auto i) { return std::clamp(a0[i], lo[i], hi[i]); }, "ip::clamp");
	vh::count("string_operations");
	vh::nontrivial(rng.next());
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
#define FU(T) vh::section("functions-" #T, 1200, 100000, [](vh::Rng& r, std::uint64_t) { \
	functions<1, T>(r); functions<2, T>(r); functions<3, T>(r); functions<4, T>(r); functions<5, T>(r); functions<9, T>(r); });
#define PO(T, E) vh::section("pow-" #T "-" #E, 1000, 100000, [](vh::Rng& r, std::uint64_t) { \
	powers<1, T, E>(r); powers<2, T, E>(r); powers<3, T, E>(r); powers<4, T, E>(r); powers<6, T, E>(r); });
#define MM(T) vh::section("minmax-" #T, 1500, 100000, [](vh::Rng& r, std::uint64_t) { \
	minMax<1, T>(r); minMax<2, T>(r); minMax<3, T>(r); minMax<4, T>(r); minMax<5, T>(r); minMax<9, T>(r); });
#define AR(T, U) vh::section("arithmetic-" #T "-" #U, 2000, 100000, [](vh::Rng& r, std::uint64_t) { \
	arithmetic<1, T, U>(r); arithmetic<2, T, U>(r); arithmetic<3, T, U>(r); arithmetic<4, T, U>(r); arithmetic<7, T, U>(r); });
#if PART == 0
	FU(float) FU(double)
#elif PART == 1
	using ld = long double;
	FU(int) FU(int64_t) FU(ld)
	vh::section("strings", 1500, 50000, [](vh::Rng& r, std::uint64_t) { strings<1>(r); strings<2>(r); strings<3>(r); strings<4>(r); strings<6>(r); });
	vh::section("large", 30, 1000, [](vh::Rng& r, std::uint64_t) { functions<300, double>(r); powers<300, double, double>(r); minMax<300, int>(r); arithmetic<300, float, float>(r); });
#elif PART == 2
	PO(double, double) PO(float, float) PO(double, int) PO(float, int) PO(int, int) PO(float, double)
#elif PART == 3
	MM(int) MM(float) MM(double) MM(uint8_t) MM(int64_t) MM(unsigned)
#elif PART == 4
	AR(float, float) AR(double, double) AR(int, int) AR(unsigned, unsigned)
#elif PART == 5
	using cd = std::complex<double>;
	AR(int, double) AR(double, int) AR(float, double) AR(uint8_t, int) AR(cd, cd) AR(NC, NC) AR(int64_t, int16_t)
#endif
	return vh::finish();
}
