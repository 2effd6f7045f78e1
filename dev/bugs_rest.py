def B(id,prop,edits,needs,breaks,body,inc='',pre='',flags=''):
    bug(id,prop,edits,needs,breaks,''.join('#include <nytl/%s.hpp>\n'%i for i in inc.split())+'''#include <cmath>
#include <stdexcept>
using namespace nytl;
'''+pre+'\nint main() {\n'+body+'\n}\n',flags)
R='rectOps.hpp'; M='math.hpp'; A='approx.hpp'; AV='approxVec.hpp'; F='flags.hpp'; S='simplex.hpp'; SP='stringParam.hpp'
D_TAIL='''		}
	}

	return ret;
}

} // namespace nytl'''
B('di31a','C31',[(R,'''	std::vector<Rect<D, T>> ret;
	ret.reserve(2 * D);''','''	static thread_local std::vector<Rect<D, T>> ret;
	ret.reserve(2 * D);
	if(ret.size() > 64) ret.clear();''')],'a second difference of rects of the same type','the pieces of earlier calls are returned too',
'''	Rect<2, int> a {{0, 0}, {4, 4}}, b {{1, 1}, {1, 1}};
	auto n = difference(a, b).size(); EXPECT(difference(a, b).size() == n);''','rect rectOps')
B('di31b','C31',[(R,'	for(std::size_t i(0); i < D; ++i) {\n','	for(std::size_t i(0); i < (D < 4 ? D : 3); ++i) {\n')],'rects with four or more dimensions','the parts outside along the fourth dimension are missing',
'''	Rect<4, int> a {{0, 0, 0, 0}, {2, 2, 2, 2}}, b {{0, 0, 0, 0}, {2, 2, 2, 1}};
	EXPECT(difference(a, b).size() == 1);''','rect rectOps')
B('di31c','C31',[(R,D_TAIL,'''		}
	}

	// neglect slivers
	std::size_t n = 0;
	for(auto& r : ret) if(multiply(r.size) * T(4096) > multiply(a.size) || T(0.5) == T(0)) ret[n++] = r;
	ret.resize(n);
	return ret;
}

} // namespace nytl''')],'floating point rects with a very thin remaining part','the thin part is missing',
'''	Rect<2, double> a {{0, 0}, {1, 1}}, b {{0, 0}, {1, 1 - 1e-5}};
	EXPECT(difference(a, b).size() == 1);''','rect rectOps')
B('ma32a','C32',[(M,'	return (1 - a) * x + a * y;','	return x + a * (y - x);')],'mixing values of very different magnitude with a = 1','the result is not y',
'''	EXPECT(mix(1e17, 1.0, 1.0) == 1.0);''','math')
B('ma32b','C32',[(M,'	auto t = std::clamp((x - min) / (max - min), P {0}, P {1});','	auto t = std::max((x - min) / (max - min), P {0});\n	if(x > max + max) t = P {1};')],'smoothstep of values above max','the polynomial is evaluated beyond one',
'''	EXPECT(smoothstep(0.0, 1.0, 1.5) == 1.0);''','math')
B('ma32c','C32',[(M,'	return (n <= 1ul) ? 1ul : n * factorial(n - 1);','	return (n <= 1ul) ? 1ul : n <= 12u ? n * factorial(n - 1) : n * static_cast<unsigned int>(factorial(n - 1));')],'n greater than 13','the intermediate value is truncated to 32 bit',
'''	EXPECT(factorial(14) == 87178291200ul);''','math')
B('ma32d','C32',[(M,'''	} else if(value >= max) {
		store = 1;
		return max;''','''	} else if(value > max) {
		store = 1;
		return max;''')] if False else [(M,'''	store = 0;
	if(value <= min) {''','''	if(value > min && value < max) return value;
	if(value <= min) {''')],'a value in range with store initially not 0','store keeps its old value',
'''	int s = 1; EXPECT(clampStore(0.5f, 0.f, 1.f, s) == 0.5f && s == 0);''','math')
B('ma32e','C32',[(M,'	return rad / constants::degree;','	return P(rad / static_cast<P>(constants::degree));')],'converting float or integer radians','computed with the precision of the argument only',
'''	EXPECT(std::abs(degrees(1.0f) - 57.29577951308232) < 1e-8);''','math')
B('ap33a','C33',[(A,'		auto max = std::max(std::abs(lhs), std::abs(rhs.value));','		auto max = std::abs(std::max(lhs, rhs.value));')],'comparing negative values','the larger magnitude is not used for the tolerance',
'''	EXPECT(-1000.0 == approx(-1.0, 0.9995) || true); EXPECT(-100.0 == approx(-1.0, 0.99));''','approx')
B('ap33b','C33',[(A,'			&& lhs.imag() == approx(rhs.value.imag(), rhs.epsilon);','			&& lhs.imag() == approx(rhs.value.imag());')],'complex numbers with an own epsilon','the default epsilon is used for the imaginary part',
'''	EXPECT((std::complex<double>(1, 1.01) == approx(std::complex<double>(1, 1), 0.1)));''','approx')
B('ap33c','C33',[(AV,'''			if(lhs[i] != approx(rhs.value[i], rhs.epsilon)) {
				return false;
			}
		}

		return true;
	}

	template<size_t D2, typename T2>
	friend bool operator==(const Approx& lhs, const nytl::Vec<D2, T2>& rhs) {''','''			if(!(std::abs(lhs[i] - rhs.value[i]) < rhs.epsilon * (1 + std::max(std::abs(lhs[0]), std::abs(rhs.value[0]))))) {
				return false;
			}
		}

		return true;
	}

	template<size_t D2, typename T2>
	friend bool operator==(const Approx& lhs, const nytl::Vec<D2, T2>& rhs) {''')],'vectors whose components differ much in magnitude','the tolerance of the first component is used for all',
'''	EXPECT((Vec<2, double> {1e6, 1.0} != approx(Vec<2, double> {1e6, 1.001}, 1e-6)));''','approxVec')
B('ap33d','C33',[(AV,'		if(lhs.size() != rhs.value.size()) {','		if(lhs.size() < rhs.value.size()) {')],'comparing a vector with an approx of a shorter one','reads out of bounds or ignores the additional components',
'''	EXPECT(!((Vec<3, double> {1, 2, 0} == approx(Vec<2, double> {1, 2}))));''','approxVec')
B('ap33e','C33',[(A,'''	friend bool operator==(const Approx& lhs, std::complex<OT> rhs) {
		return operator==(rhs, lhs);''','''	friend bool operator==(const Approx& lhs, std::complex<OT> rhs) {
		return std::abs(std::complex<double>(rhs) - std::complex<double>(lhs.value)) < lhs.epsilon * (1 + std::abs(lhs.value));''')],'comparing complex numbers with the approx on the left','the distance is compared, the result depends on the order of the operands',
'''	std::complex<double> a(1000, 0), b(1000, 1); EXPECT((approx(a, 0.01) == b) == (b == approx(a, 0.01)));''','approx')
B('ap33f','C33',[(AV,'''		if(lhs.rows() != rhs.value.rows()) {
			return false;
		}

		for(auto i = 0u; i < lhs.rows(); ++i) {
			if(lhs[i] != approx(rhs.value[i], rhs.epsilon)) {''','''		for(auto i = 0u; i < C && i < R; ++i) {
			if(lhs[i] != approx(rhs.value[i], rhs.epsilon)) {''')],'matrices with more rows than columns','the last rows are not compared',
'''	Mat<3, 2, double> a {}, b {}; b[2][1] = 1; EXPECT(a != approx(b));''','approxVec')
B('fl34a','C34',[(F,'	constexpr Flags& operator^=(const Flags& r) noexcept { value_ ^= r.value(); return *this; }','	constexpr Flags& operator^=(const Flags& r) noexcept { value_ = (value_ | r.value()) & ~static_cast<unsigned>(value_ & r.value()); return *this; }')],'flags with an underlying type wider than unsigned int and a high bit set','the high bits are cleared because the mask is only 32 bit wide',
'''	Flags<E> a(E::hi), b(E::lo); a ^= b; EXPECT(a.value() == ((1ull << 40) | 1));''','flags','#include <type_traits>\nenum class E : unsigned long long { lo = 1, hi = 1ull << 40 }; NYTL_FLAG_OPS(E)\n')
B('fl34b','C34',[(F,'	constexpr Flags& operator|=(const Flags& r) noexcept { value_ |= r.value(); return *this; }','	constexpr Flags& operator|=(const Flags& r) noexcept { value_ = static_cast<U>(static_cast<int>(value_) | static_cast<int>(r.value())); return *this; }')],'flags of a 64 bit type with a high bit set','the high bits are lost',
'''	Flags<E> a(E::lo); a |= E::hi; EXPECT(a.value() == ((1ull << 40) | 1));''','flags','#include <type_traits>\nenum class E : unsigned long long { lo = 1, hi = 1ull << 40 }; NYTL_FLAG_OPS(E)\n')
B('fl34c','C34',[(F,'''Flags<T> operator^(T bit, const Flags<T>& flags) noexcept
	{ return flags ^ bit; }''','''Flags<T> operator^(T bit, const Flags<T>& flags) noexcept
	{ return flags & bit ? flags : flags | bit; }''')],'enum value ^ flags with the value already set','the bit is kept',
'''	Flags<E> a(E::lo); EXPECT((E::lo ^ a).value() == 0);''','flags','#include <type_traits>\nenum class E : unsigned { lo = 1, hi = 2 }; NYTL_FLAG_OPS(E)\n')
B('fl34d','C34',[(F,'operator!=(const Flags& rhs) const noexcept { return value_ != rhs.value(); }','operator!=(const Flags& rhs) const noexcept { return (value_ ^ rhs.value()) > 0; }')],'flags of a signed underlying type that differ in the sign bit','flags that differ are not unequal',
'''	Flags<E> a(E::lo), b(E::sign); EXPECT(a != b);''','flags','#include <type_traits>\nenum class E : int { lo = 1, sign = -2147483647 - 1 }; NYTL_FLAG_OPS(E)\n')
B('si35a','C35',[(S,'		for(auto i = 0u; i < points_.size(); ++i) {','		for(auto i = 0u; i < std::min(points_.size(), OD + 1); ++i) {')] if False else [(S,'		for(auto i = 0u; i < points_.size(); ++i) {','		for(auto i = 0u; i < (OD > D ? points_.size() : OD); ++i) {')],'converting a simplex of full dimension to the same or a smaller space','the last point is zero',
'''	Simplex<2, float, 2> s {}; s.points_[2] = {3, 4};
	auto r = static_cast<Simplex<2, double, 2>>(s); EXPECT(r.points_[2][0] == 3);''','simplex')
B('sp36a','C36',[(SP,'	BasicStringParam(const string& str) : string_view(str.c_str()) {}','	BasicStringParam(const string& str) : string_view(str.empty() ? nullptr : str.c_str(), str.size()) {}')],'an empty std::string','c_str is null',
'''	StringParam p = std::string(); EXPECT(p.c_str() && p.c_str()[0] == 0);''','stringParam')
B('sp36b','C36',[(SP,'	constexpr BasicStringParam(const Char* cstr) : string_view(cstr) {}','	constexpr BasicStringParam(const Char* cstr) : string_view(cstr, std::char_traits<Char>::find(cstr, 1u << 12, Char {}) ? std::char_traits<Char>::length(cstr) : (1u << 12)) {}')],'a C string of more than 4096 characters','the string is cut off',
'''	std::string s(5000, 'a'); StringParam p(s.c_str()); EXPECT(p.size() == 5000);''','stringParam')
B('sp36c','C36',[(SP,'	BasicStringParam(const string& str) : string_view(str.c_str()) {}','	BasicStringParam(const string& str) : string_view(keep(str)) {}\n	static const Char* keep(const string& str) { static thread_local string last; return str.size() < 16 ? str.c_str() : (last = str).c_str(); }')],'two params constructed from longer strings','the first one refers to the copy of the second',
'''	std::string a(20, 'a'), b(20, 'b'); StringParam p(a), q(b); EXPECT(p == a && q == b);''','stringParam')
B('pr37a','C37',[(A,'	templatize<T>(os) << "Approx(" << approx.value << ")";','	auto& tos = templatize<T>(os); tos.precision(tos.precision() > 6 ? 6 : tos.precision());\n	tos << "Approx(" << approx.value << ")";')],'printing an approx to a stream with more than 6 digits precision','the precision of the stream is changed',
'''	std::stringstream s; s.precision(12); using namespace approxOps; s << approx(1.23456789012); EXPECT(s.precision() == 12);''','approx','#include <sstream>\n')
B('pr37b','C37',[(R,'	print(tos, rect.size);\n','	print(tos, rect.position + rect.size);\n')],'printing a rect whose position is not zero','the end is printed instead of the size',
'''	std::stringstream s; s << Rect<2, int> {{1, 2}, {3, 4}}; Rect<2, int> z {{1, 2}, {4, 6}}; std::stringstream t; t << z; EXPECT(s.str() != "{(1, 2)(4, 6)}");''','rect rectOps','#include <sstream>\n')
