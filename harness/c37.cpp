// C37: printing of vectors, matrices, rects and approximations.
#include "numeric.hpp"
#include <ostream>
#include <iomanip>
#include <array>
#include <list>
#include <locale>
#include <nytl/vec.hpp>
#include <nytl/mat.hpp>
#include <nytl/rect.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/matOps.hpp>
#include <nytl/rectOps.hpp>
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>

using nytl::Vec; using nytl::Mat; using nytl::Rect;
using LD = long double;

template<typename T> T value(vh::Rng& r) {
	T v;
	do v = r.chance(1, 3) ? smallValue<T>(r) : r.chance(1, 2) ? anyValue<T>(r) : T(LD(r.range(std::is_signed_v<T> ? -30000 : 0, sizeof(T) > 2 ? 1000000 : 30000)) / (std::is_floating_point_v<T> ? 128 : 1)); while(!std::isfinite(LD(v)));
	return v;
}

struct Punct : std::numpunct<char> {
	char do_decimal_point() const override { return ','; }
	char do_thousands_sep() const override { return '.'; }
	std::string do_grouping() const override { return "\3"; }
	std::string do_truename() const override { return "wahr"; }
	std::string do_falsename() const override { return "falsch"; }
};
const std::locale foreignLocale(std::locale::classic(), new Punct);

// state of the stream before printing
struct Fmt { int precision; bool fixed, scientific, showpos; char fill; int base = 10; bool showbase = false, uppercase = false, boolalpha = false, foreign = false; };
Fmt format(vh::Rng& r, bool exact) { return {exact ? 21 : int(r.range(0, 21)), r.chance(1, 12), r.chance(1, 12), r.chance(1, 8), r.chance(1, 2) ? ' ' : ' '}; }
void setup(std::ostream& os, const Fmt& f) { os.precision(f.precision); if(f.fixed) os << std::fixed; if(f.scientific) os << std::scientific; if(f.showpos) os << std::showpos;
	if(f.base == 16) os << std::hex;
	if(f.base == 8) os << std::oct;
	if(f.showbase) os << std::showbase;
	if(f.uppercase) os << std::uppercase;
	if(f.boolalpha) os << std::boolalpha;
	if(f.foreign) os.imbue(foreignLocale);
}
// additionally everything that changes the text of a value in a way that can't be parsed easily
Fmt wild(Fmt f, vh::Rng& r) {
	if(r.chance(1, 6)) f.base = r.chance(1, 2) ? 16 : 8;
	f.showbase = r.chance(1, 6); f.uppercase = r.chance(1, 6); f.boolalpha = r.chance(1, 3); f.foreign = r.chance(1, 4);
	vh::count("foreign_locales", f.foreign);
	return f;
}
template<typename T> std::string text(const T& t, const Fmt& f) { std::ostringstream os; setup(os, f); os << t; return os.str(); }

template<typename F> std::string printed(const Fmt& f, F&& print) {
	std::ostringstream os;
	setup(os, f);
	auto flags = os.flags();
	std::ostream& ret = print(os);
	VH_CHECK(&ret == &os, "stream", "another stream was returned");
	VH_CHECK(os.precision() == f.precision, "precision", os.precision() << " instead of " << f.precision);
	VH_CHECK(os.flags() == flags && os.width() == 0 && os.fill() == ' ', "flags", "changed");
	VH_CHECK(bool(os), "stream-state", "failed");
	auto s = os.str();
	os.str({});
	os << 1.0 / 3;
	VH_CHECK(os.str() == text(1.0 / 3, f), "later-output", os.str());
	return s;
}

template<typename T> T parse(const std::string& s) { if constexpr(std::is_floating_point_v<T>) return T(std::strtold(s.c_str(), nullptr)); else if constexpr(std::is_signed_v<T>) return T(std::strtoll(s.c_str(), nullptr, 10)); else return T(std::strtoull(s.c_str(), nullptr, 10)); }

template<typename V> void vecLike(vh::Rng& r, const V& v, bool vec) {
	auto f = wild(format(r, r.chance(1, 2)), r);
	auto expect = [&](const char* b, const char* e, const char* s) { std::string t = b; bool first = true; for(auto& x : v) { if(!first) t += s; first = false; t += text(x, f); } return t + e; };
	auto s = printed(f, [&](std::ostream& os) -> std::ostream& { return nytl::print(os, v); });
	auto want = expect("(", ")", ", ");
	VH_CHECK(s == want, "vec", "'" << s << "' instead of '" << want << "'");
	const char* const delims[] = {"", "(", "[", "{ ", " }", ";", ", ", "\n", " | ", "<<", "end"};
	auto b = delims[r.below(11)], e = delims[r.below(11)], d = delims[r.below(11)];
	s = printed(f, [&](std::ostream& os) -> std::ostream& { return nytl::print(os, v, b, e, d); });
	want = expect(b, e, d);
	VH_CHECK(s == want, "vec-delimiters", "'" << s << "' instead of '" << want << "'");
	s = printed(f, [&](std::ostream& os) -> std::ostream& { return nytl::print(os, v, b); });
	want = expect(b, ")", ", ");
	VH_CHECK(s == want, "vec-delimiters", "'" << s << "' instead of '" << want << "'");
}

template<std::size_t D, typename T> void vecs(vh::Rng& r) {
	Vec<D, T> v;
	vh::Hash h;
	for(auto& x : v) { x = value<T>(r); h.addf(double(x)); }
	vecLike(r, v, true);
	Fmt exact {std::numeric_limits<T>::max_digits10, false, false, false, ' '};
	auto s = printed(exact, [&](std::ostream& os) -> std::ostream& { return os << v; });
	// parse again
	std::vector<T> got;
	bool ok = s.size() >= 2 && s.front() == '(' && s.back() == ')';
	if(ok) { std::stringstream in(s.substr(1, s.size() - 2)); std::string item; while(std::getline(in, item, ',')) got.push_back(parse<T>(item)); }
	ok = ok && got.size() == D;
	for(std::size_t i = 0; ok && i < D; ++i) ok = sameNum(got[i], v[i]);
	VH_CHECK(ok, "vec-parse", "'" << s << "'");
	vh::nontrivial(h.v);
	vh::count("vectors");
	if(D == 3 && r.chance(1, 1000)) vh::sample(s, 3);
}

template<typename T> void containers(vh::Rng& r) {
	std::vector<T> v(1 + r.below(20));
	for(auto& x : v) x = value<T>(r);
	vecLike(r, v, false);
	vecLike(r, std::list<T>(v.begin(), v.end()), false);
	std::array<T, 5> a;
	for(auto& x : a) x = value<T>(r);
	vecLike(r, a, false);
	vh::count("containers");
}

// The printed value agrees with the value up to its last shown digit.
template<typename T> bool agrees(const std::string& s, T v) {
	if constexpr(std::is_integral_v<T>) return parse<T>(s) == v;
	else {
		char* end;
		LD p = std::strtold(s.c_str(), &end);
		if(*end) return false;
		if(std::isinf(p) && std::fabs(LD(v)) > std::numeric_limits<LD>::max() / 2 && (p > 0) == (v > 0)) return true; // rounded up while printing
		if(p == LD(v) || (std::isnan(p) && std::isnan(v))) return true;
		auto e = s.find_first_of("eE");
		int exp = e == std::string::npos ? 0 : std::atoi(s.c_str() + e + 1);
		auto mant = s.substr(0, e);
		auto dot = mant.find('.');
		int decimals = dot == std::string::npos ? 0 : int(mant.size() - dot - 1);
		LD unit = powl(10.L, LD(exp - decimals));
		return std::fabs(p - LD(v)) <= unit * 0.5001L + std::fabs(LD(v)) * 1e-18L;
	}
}

template<std::size_t R, std::size_t C, typename T> void mats(vh::Rng& r) {
	Mat<R, C, T> m;
	vh::Hash h;
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) { m[i][j] = value<T>(r); h.addf(double(m[i][j])); }
	if(std::is_floating_point_v<T> && r.chance(1, 4)) m[r.below(R)][r.below(C)] = T((r.chance(1, 2) ? NAN : r.sign() * INFINITY));
	const auto org = m;
	auto f = format(r, r.chance(1, 2));
	const char* const spacings[] = {"", "    ", "\t", "  > ", "row "};
	auto sp = spacings[r.below(5)];
	bool br = r.chance(1, 2);
	// without width: exact text
	auto parsable = f;
	f = wild(f, r);
	auto s = printed(f, [&](std::ostream& os) -> std::ostream& { return nytl::print(os, m, 0, sp, br); });
	std::string want = "{\n";
	for(std::size_t i = 0; i < R; ++i) { want += sp; want += "("; for(std::size_t j = 0; j < C; ++j) { if(j) want += ", "; want += text(m[i][j], f); } want += ")\n"; }
	want += "}";
	if(br) want += "\n";
	VH_CHECK(s == want, "mat", "'" << s << "' instead of '" << want << "'");
	// with width: values in order, each to its shown precision
	f = parsable;
	auto judge = [&](const std::string& s, unsigned width, const std::string& sp, bool br, const char* key) {
		std::string t = s;
		bool ok = true;
		auto take = [&](const std::string& w) { if(t.compare(0, w.size(), w) == 0) t.erase(0, w.size()); else ok = false; };
		take("{\n");
		for(std::size_t i = 0; ok && i < R; ++i) {
			take(sp); take("(");
			for(std::size_t j = 0; ok && j < C; ++j) {
				if(j) take(", ");
				auto n = t.find_first_of(",)");
				if(n == std::string::npos) { ok = false; break; }
				auto item = t.substr(0, n);
				t.erase(0, n);
				ok &= item.size() >= width;
				auto b = item.find_first_not_of(' ');
				ok &= b != std::string::npos;
				if(ok && !VH_CHECK(agrees<T>(item.substr(b), m[i][j]), key, "'" << item << "' for " << m[i][j] << " in '" << s << "'")) return;
			}
			take(")"); take("\n");
		}
		take("}");
		if(br) take("\n");
		ok &= t.empty();
		VH_CHECK(ok, key, "'" << s << "'");
	};
	unsigned w = unsigned(r.below(20));
	judge(printed(f, [&](std::ostream& os) -> std::ostream& { return nytl::print(os, m, w, sp, br); }), w, sp, br, "mat-width");
	judge(printed(f, [&](std::ostream& os) -> std::ostream& { return nytl::print(os, m); }), 8, "    ", true, "mat-default");
	judge(printed(f, [&](std::ostream& os) -> std::ostream& { return os << m; }), 8, "    ", true, "mat-operator");
	VH_CHECK(std::memcmp(&m, &org, sizeof(T) > 8 ? 10 : sizeof(m)) == 0, "mat-argument", "changed");
	vh::nontrivial(h.v);
	vh::count("matrices");
	if(R == 2 && C == 3 && r.chance(1, 1000)) vh::sample(s, 6);
}

template<std::size_t D, typename T> void rects(vh::Rng& r) {
	Rect<D, T> x;
	vh::Hash h;
	for(std::size_t i = 0; i < D; ++i) { x.position[i] = value<T>(r); x.size[i] = value<T>(r); h.addf(double(x.position[i])).addf(double(x.size[i])); }
	auto f = wild(format(r, r.chance(1, 2)), r);
	auto a = printed(f, [&](std::ostream& os) -> std::ostream& { return nytl::print(os, x); });
	auto b = printed(f, [&](std::ostream& os) -> std::ostream& { return os << x; });
	std::string pos = "(", size = "(";
	for(std::size_t i = 0; i < D; ++i) { if(i) { pos += ", "; size += ", "; } pos += text(x.position[i], f); size += text(x.size[i], f); }
	auto want = "{" + pos + ")" + size + ")}";
	VH_CHECK(a == want && b == want, "rect", "'" << a << "', '" << b << "' instead of '" << want << "'");
	vh::nontrivial(h.v);
	vh::count("rects");
	if(D == 2 && r.chance(1, 1000)) vh::sample(a, 9);
}

template<typename T> void approxs(vh::Rng& r) {
	using namespace nytl::approxOps;
	auto f = wild(format(r, r.chance(1, 2)), r);
	auto judge = [&](const auto& v) {
		auto s = printed(f, [&](std::ostream& os) -> std::ostream& { return os << nytl::approx(v, r.unit()); });
		auto want = "Approx(" + text(v, f) + ")";
		VH_CHECK(s == want, "approx", "'" << s << "' instead of '" << want << "'");
	};
	T x = value<T>(r), y = value<T>(r);
	judge(x);
	judge(std::complex<T>(x, y));
	judge(Vec<2, T> {x, y});
	judge(Mat<2, 2, T> {x, y, x, y});
	vh::nontrivial(vh::Hash().addf(double(x)).addf(double(y)).v);
	vh::count("approximations");
}

// Other value types: the text is what the stream makes of the value.
void otherTypes(vh::Rng& r) {
	auto word = [&] { std::string s; for(auto n = r.below(6); n; --n) s += "ab ,()\n%"[r.below(8)]; return s; };
	vecLike(r, Vec<2, std::string> {word(), word()}, true);
	vecLike(r, Vec<4, std::string> {word(), word(), word(), word()}, true);
	vecLike(r, std::vector<std::string> {word(), word(), word()}, false);
	vecLike(r, Vec<3, char> {char(r.range(32, 126)), char(r.range(32, 126)), char(r.range(1, 126))}, true);
	vecLike(r, Vec<2, unsigned char> {(unsigned char) r.range(32, 255), (unsigned char) r.range(1, 255)}, true);
	vecLike(r, Vec<5, bool> {r.chance(1, 2), r.chance(1, 2), r.chance(1, 2), r.chance(1, 2), r.chance(1, 2)}, true);
	vecLike(r, Vec<3, const char*> {"x", "", "long text"}, true);
	vecLike(r, Vec<2, const void*> {&r, nullptr}, true);
	vecLike(r, Vec<2, std::complex<double>> {{value<double>(r), value<double>(r)}, {value<double>(r), value<double>(r)}}, true);
	vecLike(r, Vec<2, Vec<3, int>> {Vec<3, int> {value<int>(r), 1, 2}, Vec<3, int> {value<int>(r), value<int>(r), 2}}, true);
	vh::count("other_types");
	vh::nontrivial(r.next());
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	using i64 = std::int64_t; using u64 = std::uint64_t; using ld = long double; using i16 = std::int16_t;
	(void) sizeof(i64); (void) sizeof(u64); (void) sizeof(ld); (void) sizeof(i16);
#define VE(T) vh::section("vec-" #T, 1500, 100000, [](vh::Rng& r, std::uint64_t) { vecs<1, T>(r); vecs<2, T>(r); vecs<3, T>(r); vecs<4, T>(r); vecs<9, T>(r); containers<T>(r); });
#define MA(T) vh::section("mat-" #T, 500, 40000, [](vh::Rng& r, std::uint64_t) { mats<1, 1, T>(r); mats<2, 3, T>(r); mats<3, 2, T>(r); mats<4, 4, T>(r); mats<1, 6, T>(r); mats<6, 1, T>(r); });
#define RE(T) vh::section("rect-" #T, 1500, 100000, [](vh::Rng& r, std::uint64_t) { rects<1, T>(r); rects<2, T>(r); rects<3, T>(r); rects<4, T>(r); });
#define AP(T) vh::section("approx-" #T, 1500, 100000, [](vh::Rng& r, std::uint64_t) { approxs<T>(r); });
#if PART == 0
	VE(int) VE(double) VE(float) VE(i64)
	vh::section("other-types", 3000, 100000, [](vh::Rng& r, std::uint64_t) { otherTypes(r); });
#elif PART == 1
	VE(u64) VE(ld) VE(i16) RE(int) RE(double) RE(float) RE(i64) AP(float) AP(double) AP(ld)
#elif PART == 2
	MA(int) MA(double) MA(float)
#else
	MA(i64) MA(u64) MA(ld)
#endif
	return vh::finish();
}
