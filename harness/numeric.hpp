// Random values and exact comparison for all arithmetic value types.
#pragma once
#include "common.hpp"
#include <complex>
#include <limits>
#include <type_traits>

// 2x2 integer matrices: multiplication does not commute
struct NC {
	std::int64_t a {}, b {}, c {}, d {};
	NC() = default;
	NC(int x) : a(x), d(x) {}
	NC(std::int64_t a, std::int64_t b, std::int64_t c, std::int64_t d) : a(a), b(b), c(c), d(d) {}
	friend NC operator+(const NC& x, const NC& y) { return {x.a + y.a, x.b + y.b, x.c + y.c, x.d + y.d}; }
	friend NC operator-(const NC& x, const NC& y) { return {x.a - y.a, x.b - y.b, x.c - y.c, x.d - y.d}; }
	friend NC operator-(const NC& x) { return {-x.a, -x.b, -x.c, -x.d}; }
	friend NC operator*(const NC& x, const NC& y) { return {x.a * y.a + x.b * y.c, x.a * y.b + x.b * y.d, x.c * y.a + x.d * y.c, x.c * y.b + x.d * y.d}; }
	NC& operator+=(const NC& o) { return *this = *this + o; }
	NC& operator-=(const NC& o) { return *this = *this - o; }
	NC& operator*=(const NC& o) { return *this = *this * o; }
	friend bool operator==(const NC& x, const NC& y) { return x.a == y.a && x.b == y.b && x.c == y.c && x.d == y.d; }
	friend bool operator!=(const NC& x, const NC& y) { return !(x == y); }
	friend std::ostream& operator<<(std::ostream& os, const NC& x) { return os << "[" << x.a << " " << x.b << " " << x.c << " " << x.d << "]"; }
};

template<typename T> struct IsComplex : std::false_type {};
template<typename T> struct IsComplex<std::complex<T>> : std::true_type {};

// small: no operation over- or underflows, exactly representable everywhere
template<typename T> T smallValue(vh::Rng& r, int range = 9) {
	if constexpr(std::is_same_v<T, NC>) return {r.range(-5, 5), r.range(-5, 5), r.range(-5, 5), r.range(-5, 5)};
	else if constexpr(IsComplex<T>::value) return T(r.range(-range, range), r.range(-range, range));
	else if constexpr(std::is_same_v<T, bool>) return r.below(2);
	else if constexpr(std::is_unsigned_v<T>) return T(r.range(0, range));
	else if constexpr(std::is_floating_point_v<T>) return T(r.range(-4 * range, 4 * range)) / 4;
	else return T(r.range(-range, range));
}

// any value
template<typename T> T anyValue(vh::Rng& r) {
	if constexpr(std::is_same_v<T, NC> || std::is_same_v<T, bool>) return smallValue<T>(r);
	else if constexpr(IsComplex<T>::value) return T(anyValue<typename T::value_type>(r), anyValue<typename T::value_type>(r));
	else if constexpr(std::is_floating_point_v<T>) {
		using L = std::numeric_limits<T>;
		switch(r.below(16)) {
			case 0: return 0; case 1: return T(-0.0); case 2: return L::infinity(); case 3: return -L::infinity();
			case 4: return L::quiet_NaN(); case 5: return L::max(); case 6: return L::lowest(); case 7: return L::denorm_min();
			case 8: return 1; case 9: return L::epsilon();
			case 10: return T(std::ldexp(r.normal(), int(r.range(-120, 120))));
			default: return T(r.normal() * (r.chance(1, 3) ? 1000.0 : 1.0));
		}
	} else {
		using L = std::numeric_limits<T>;
		switch(r.below(10)) {
			case 0: return 0; case 1: return L::max(); case 2: return L::min(); case 3: return T(L::max() - T(1)); case 4: return T(L::max() / 2);
			case 5: return T(L::max() / 2 + 1); case 6: return 1;
			default: return T(r.next());
		}
	}
}

// the same value with the same sign of zero, nan equals nan
template<typename A, typename B> bool sameNum(const A& a, const B& b) {
	if constexpr(!std::is_same_v<A, B>) return false;
	else if constexpr(IsComplex<A>::value) return sameNum(a.real(), b.real()) && sameNum(a.imag(), b.imag());
	else if constexpr(std::is_floating_point_v<A>) return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b));
	else return a == b;
}

// whether the operation is defined for the values (no signed overflow)
template<typename A, typename B, typename R> constexpr bool SignedInt = std::is_integral_v<A> && std::is_integral_v<B> && std::is_integral_v<R> && std::is_signed_v<R>;
template<typename A, typename B> bool okAdd(A a, B b) {
	using R = decltype(a + b);
	if constexpr(SignedInt<A, B, R>) { R r; return !__builtin_add_overflow(R(a), R(b), &r); } else return true;
}
template<typename A, typename B> bool okSub(A a, B b) {
	using R = decltype(a - b);
	if constexpr(SignedInt<A, B, R>) { R r; return !__builtin_sub_overflow(R(a), R(b), &r); } else return true;
}
template<typename A, typename B> bool okMul(A a, B b) {
	using R = decltype(a * b);
	if constexpr(SignedInt<A, B, R>) { R r; return !__builtin_mul_overflow(R(a), R(b), &r); } else return true;
}
template<typename A, typename B> bool okDiv(A a, B b) {
	using R = decltype(a / b);
	if constexpr(std::is_integral_v<R>) {
		if(b == 0) return false;
		if constexpr(std::is_signed_v<R>) return !(R(b) == R(-1) && R(a) == std::numeric_limits<R>::min());
	}
	return true;
}
// conversions from floating point that are defined
template<typename To, typename From> bool okConv(const From& f) {
	if constexpr(std::is_integral_v<To> && std::is_floating_point_v<From>)
		return f > (long double)(std::numeric_limits<To>::min()) - 1.L && f < (long double)(std::numeric_limits<To>::max());
	else return true;
}
template<typename T> bool okNeg(T a) {
	if constexpr(std::is_integral_v<T> && std::is_signed_v<decltype(-a)>) return a != std::numeric_limits<decltype(-a)>::min();
	else return true;
}

// prints also char types as numbers
template<typename T> auto show(const T& t) { if constexpr(std::is_integral_v<T>) return +t; else return t; }
