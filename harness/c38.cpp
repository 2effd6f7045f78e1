// C38: concurrent use of distinct objects and const use of shared ones. Run with ThreadSanitizer;
// all workloads also return a digest that must not depend on what other threads do.
#include "common.hpp"
#include "utfmodel.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#include <nytl/simplex.hpp>
#include <nytl/quaternion.hpp>
#include <nytl/transform.hpp>
#include <nytl/math.hpp>
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>
#include <nytl/span.hpp>
#include <nytl/bytes.hpp>
#include <nytl/utf.hpp>
#include <nytl/stringParam.hpp>
#include <nytl/flags.hpp>
#include <nytl/clone.hpp>
#include <nytl/nonCopyable.hpp>
#include <nytl/scope.hpp>
#include <nytl/connection.hpp>
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <thread>
#include <atomic>
#include <complex>
#include <memory>

using vh::Rng; using vh::Hash;
using namespace nytl;
using std::size_t;

// gives other threads a chance to run at many points
thread_local Rng jitterRng(1);
thread_local unsigned jitterRate = 0; // 0: never
void jitter() {
	if(!jitterRate || jitterRng.below(jitterRate)) return;
	switch(jitterRng.below(4)) {
		case 0: case 1: std::this_thread::yield(); break;
		case 2: for(volatile int i = 0; i < 200; i = i + 1); break;
		default: std::this_thread::sleep_for(std::chrono::microseconds(jitterRng.below(60)));
	}
}

template<size_t D, typename T> void add(Hash& h, const Vec<D, T>& v) { for(auto& x : v) h.addf(double(x)); }
template<size_t R, size_t C, typename T> void add(Hash& h, const Mat<R, C, T>& m) { for(auto i = 0u; i < R; ++i) add(h, m[i]); }
void add(Hash& h, const Quaternion& q) { h.addf(q.x).addf(q.y).addf(q.z).addf(q.w); }
template<size_t D, typename T> Vec<D, T> rvec(Rng& r) { Vec<D, T> v; for(auto& x : v) x = std::is_integral_v<T> ? T(r.range(-50, 50)) : T(r.normal()); return v; }
template<size_t R, size_t C, typename T> Mat<R, C, T> rmat(Rng& r) { Mat<R, C, T> m; for(auto i = 0u; i < R; ++i) m[i] = rvec<C, T>(r); return m; }
Quaternion quat(Rng& r) { return normalized(Quaternion {r.normal(), r.normal(), r.normal(), r.normal()}); }
std::u32string codepoints(Rng& r) { std::u32string s; auto n = r.below(30); for(size_t i = 0; i < n; ++i) { char32_t c; do c = char32_t(r.below(r.chance(1, 2) ? 0x80 : 0x110000)); while(c >= 0xd800 && c < 0xe000); s += c; } return s; }

using Load = std::uint64_t(*)(Rng&);

// --- callbacks ---
template<typename CB> std::uint64_t callbacks(Rng& r) {
	Hash h;
	CB cb;
	std::vector<decltype(cb.add(std::function<int(int)>()))> conns;
	for(int i = 0; i < 30; ++i) {
		jitter();
		switch(r.below(6)) {
			case 0: case 1: { int k = int(r.below(1000)); conns.push_back(cb.add([k](int x) { jitter(); return x * k + 1; })); break; }
			case 2: if(!conns.empty()) { auto& c = conns[r.below(conns.size())]; h.add(c.connected()); c.disconnect(); h.add(c.connected()); } break;
			case 3: { auto res = cb.call(int(r.below(1000))); for(auto x : res) h.add(std::uint64_t(x)); h.add(res.size()); break; }
			case 4: { int k = int(r.below(99)); cb += [k](int x) { return x ^ k; }; break; }
			default: if(r.chance(1, 5)) cb.clear(); else { UniqueConnectionT<typename std::decay_t<decltype(*conns[0].connectable())>, decltype(conns[0].id())> u; (void) u; h.add(u.connected()); }
		}
	}
	for(auto& c : conns) h.add(c.connected());
	return h.v;
}
std::uint64_t reentrant(Rng& r) { // adding, removing and calling from inside
	Hash h;
	RecursiveCallback<void(int), TrackedConnectionID> cb;
	std::vector<TrackedConnection> conns;
	Rng in(r.next());
	int budget = 60;
	std::function<void(int)> f = [&](int depth) {
		jitter();
		h.add(std::uint64_t(depth));
		if(--budget < 0 || depth > 4) return;
		switch(in.below(4)) { case 0: conns.push_back(cb.add(f)); break; case 1: if(!conns.empty()) conns[in.below(conns.size())].disconnect(); break; case 2: cb.call(depth + 1); break; default: break; }
	};
	for(int i = 0; i < 4; ++i) conns.push_back(cb.add(f));
	for(int i = 0; i < 3; ++i) { budget = 60; cb.call(0); }
	for(auto& c : conns) h.add(c.connected());
	h.add(conns.size());
	return h.v;
}
std::uint64_t uniques(Rng& r) {
	Hash h;
	Callback<int()> cb;
	std::vector<UniqueConnection> us;
	for(int i = 0; i < 20; ++i) {
		jitter();
		int k = int(r.below(100));
		if(us.empty() || r.chance(1, 2)) us.emplace_back(cb.add([k] { return k; }));
		else if(r.chance(1, 2)) us.erase(us.begin() + std::ptrdiff_t(r.below(us.size())));
		else { auto u = std::move(us[r.below(us.size())]); h.add(u.connected()); }
		for(auto x : cb.call()) h.add(std::uint64_t(x));
	}
	return h.v;
}

// --- math ---
std::uint64_t vectors(Rng& r) {
	Hash h;
	auto a = rvec<3, double>(r), b = rvec<3, double>(r); auto c = rvec<4, float>(r), d = rvec<4, float>(r); auto i = rvec<5, int>(r), j = rvec<5, int>(r); auto e = rvec<2, double>(r), f = rvec<2, double>(r);
	add(h, a + b); add(h, a - b); add(h, 2.0 * a); add(h, -c); add(h, c + d); add(h, i + j); add(h, cross(a, b)); jitter();
	h.addf(dot(a, b)).addf(length(a)).addf(distance(c, d)).addf(angle(a, b)).addf(sum(i)).addf(multiply(c)).addf(cross(e, f));
	add(h, normalized(a)); auto n = b; normalize(n); add(h, n); add(h, mirror(a, b)); jitter();
	add(h, vec::cw::max(a, b)); add(h, vec::cw::min(i, j)); add(h, vec::cw::multiply(c, d)); add(h, vec::cw::divide(a, b));
	auto p = a; vec::cw::ip::abs(p); add(h, p); vec::cw::ip::sqrt(p); add(h, p); add(h, vec::cw::sin(a)); add(h, vec::cw::clamp(a, -0.5, 0.5)); add(h, vec::cw::floor(c));
	add(h, Vec<6, int>(i)); add(h, static_cast<Vec<2, float>>(a)); h.add(a == b).add(i != j);
	{ auto u = vec::cw::clamp(a, -1.0, 1.0); add(h, vec::cw::asin(u)); add(h, vec::cw::acos(u)); add(h, vec::cw::atan(a)); add(h, vec::cw::tan(a)); add(h, vec::cw::cos(a)); add(h, vec::cw::exp(a)); add(h, vec::cw::exp2(a)); add(h, vec::cw::ceil(a)); jitter();
		auto q = vec::cw::abs(a); add(h, vec::cw::log(q)); add(h, vec::cw::sqrt(q)); add(h, vec::cw::pow(q, 1.5));
		vec::cw::ip::ceil(q); vec::cw::ip::exp(q); vec::cw::ip::atan(q); vec::cw::ip::sin(q); vec::cw::ip::pow(q, 2.0); vec::cw::ip::clamp(q, -1.0, 1.0); add(h, q);
		h.addf(angleNormed(normalized(a), normalized(b))).addf(distance(a, b)); add(h, rho::lnormal(e)); add(h, rho::rnormal(e)); add(h, lho::lnormal(e)); add(h, lho::rnormal(e)); }
	p += a; p -= b; p *= 3.0; add(h, p);
	return h.v;
}
std::uint64_t matrices(Rng& r) {
	Hash h;
	auto a = rmat<4, 4, double>(r); auto b = rmat<4, 4, double>(r); auto v = rvec<4, double>(r);
	add(h, a * b); add(h, a + b); add(h, a * v); add(h, transpose(a)); add(h, 3.0 * a); h.addf(trace(a)).addf(multiplyDiagonal(a)).add(symmetric(a)); jitter();
	auto lu = luDecomp(a); add(h, lu.lower); add(h, lu.upper); add(h, lu.perm); h.add(std::uint64_t(lu.sign)); jitter();
	add(h, luEvaluate(lu, v)); h.addf(determinant(a)).addf(determinant(lu)).add(invertible(a)); add(h, inverse(a)); add(h, inverse(lu)); jitter();
	add(h, rowEcholonCopy(a)); add(h, reducedRowEcholonCopy(a)); auto c = rmat<3, 5, double>(r); rowEcholon(c); add(h, c); reducedRowEcholon(c); add(h, c); jitter();
	auto m = rmat<3, 3, int>(r); h.addf(double(determinant(m))); swapRow(m, 0, 2); swapCol(m, 1, 2); add(h, m); add(h, col(m, 1)); add(h, identity<4, double>()); add(h, inverse(rmat<3, 3, float>(r)));
	{ auto o = rmat<3, 4, double>(r); h.addf(pivot(o, 0, 1)); add(h, o); one(o); add(h, o); col(o, 2, rvec<3, double>(r)); add(h, o); add(h, o[1]); identity(a); add(h, a); a = rmat<4, 4, double>(r); }
	a *= b; add(h, a);
	return h.v;
}
std::uint64_t quaternions(Rng& r) {
	Hash h;
	auto a = quat(r), b = quat(r);
	add(h, Quaternion::axisAngle(0, r.sign(), 0, r.normal())); add(h, Quaternion::axisAngle(Vec3f {1, 0, 0}, r.normal())); add(h, 2.0 * a);
	add(h, a * b); add(h, a + b); add(h, a - b); add(h, conjugated(a)); add(h, slerp(a, b, r.unit())); add(h, Quaternion::yxz(r.normal(), r.normal(), r.normal())); jitter();
	add(h, toMat<4, double>(a)); add(h, toMat<3>(b)); add(h, Quaternion::fromMat(toMat<3, double>(a))); add(h, apply(a, rvec<3, double>(r))); h.addf(dot(a, b)).addf(norm(a)).add(a == b); jitter();
	for(int s = 0; s < 12; ++s) for(auto x : eulerAngles(a, RotationSequence(s))) h.addf(x);
	return h.v;
}
std::uint64_t transforms(Rng& r) {
	Hash h;
	auto d = normalized(rvec<3, double>(r)), e = normalized(rvec<3, double>(r));
	for(auto& b : base(d)) add(h, b);
	add(h, orientMat<4, double>(d, e)); add(h, rotateMat<4, double>(d, 0.3)); add(h, rotate(d, e, 1.2)); add(h, translateMat<4, double>(d)); add(h, scaleMat<4, double>(d)); jitter();
	auto m = rmat<4, 4, double>(r);
	add(h, rotateMat<3, double>(r.normal())); add(h, orientMat<3, double>(Vec2d {d.x, d.y}, Vec2d {e.x, e.y})); add(h, expandIdentity<5, double>(rmat<3, 3, double>(r)));
	add(h, lookAt(d, e, Vec3d {0.1, 1, 0.2})); add(h, lookAt<3>(e, Vec3d {0.1, 1, 0.2})); add(h, lookAt(quat(r), d)); jitter();
	add(h, perspectiveRev(1.0, r.uniform(0.5, 2), -0.1, -10.0)); add(h, perspectiveRevInf(r.uniform(0.2, 2), 1.5, -0.1)); add(h, frustumRev(-1.0, 1.0, -r.uniform(0.1, 1), 1.0, 0.1, 10.0)); add(h, frustumRevInf(-1.0, 1.0, -r.uniform(0.1, 1), 1.0, 0.1)); jitter();
	{ auto f = rmat<4, 4, double>(r); add(h, flippedY(f)); add(h, flippedZ(f)); add(h, flippedAxis<0>(f)); flipAxis<1>(f); rotate(f, 0.2); add(h, f); }
	translate(m, d); scale(m, e); rotate(m, d, 0.5); flipY(m); flipZ(m); add(h, m); add(h, multPos(m, d)); jitter();
	add(h, ortho(-1.0, r.uniform(0, 5), -2.0, 2.0, -0.1, -r.uniform(1, 100))); add(h, perspective(1.0, r.uniform(0.5, 2), -0.1, -10.0)); add(h, frustum(-1.0, 1.0, -r.uniform(0.1, 1), 1.0, 0.1, 10.0));
	return h.v;
}
std::uint64_t rects(Rng& r) {
	Hash h;
	for(int i = 0; i < 6; ++i) {
		Rect<2, int> a {rvec<2, int>(r), {int(r.below(60)), int(r.below(60))}}, b {rvec<2, int>(r), {int(r.below(60)), int(r.below(60))}};
		h.add(intersects(a, b)).add(intersectsReal(a, b)).add(contains(a, rvec<2, int>(r))).add(a == b).addf(double(size(a)));
		auto in = intersection(a, b); add(h, in.position); add(h, in.size); jitter();
		for(auto& p : difference(a, b)) { add(h, p.position); add(h, p.size); }
		add(h, center(a));
	}
	Simplex<3, double, 2> s;
	for(int i = 0; i < 3; ++i) s.points()[i] = rvec<3, double>(r);
	auto t = static_cast<Simplex<2, float, 2>>(s);
	for(int i = 0; i < 3; ++i) add(h, t.points()[i]);
	return h.v;
}
enum class E { a = 1, b = 2, c = 4 };
NYTL_FLAG_OPS(E)
std::uint64_t scalars(Rng& r) {
	Hash h;
	double x = r.normal(), y = r.normal();
	h.addf(degrees(x)).addf(radians(y)).addf(mix(x, y, r.unit())).addf(smoothstep(0., 1., r.uniform(-1, 2))).add(factorial(unsigned(r.below(15)))).add(nytl::pair(unsigned(r.below(1000)), unsigned(r.below(1000))));
	int v = int(r.next()); h.add(mapUnsigned(v)).add(std::uint64_t(unmapUnsigned(unsigned(v)))); jitter();
	h.add(x == approx(y, r.uniform(0, 2))).add(rvec<3, double>(r) == approx(rvec<3, double>(r), 1.)).add(rmat<2, 2, double>(r) != approx(rmat<2, 2, double>(r), 1.));
	auto f = E::a | E(int(r.below(8))); f ^= E::c; f &= ~E::b; h.add(std::uint64_t(f.value()));
	return h.v;
}
std::uint64_t printing(Rng& r) {
	std::ostringstream os;
	os.precision(r.range(1, 12));
	print(os, rvec<3, double>(r)); os << rvec<4, int>(r); jitter();
	print(os, rmat<2, 3, double>(r), unsigned(r.below(12)), "", false); os << rmat<2, 2, float>(r); jitter();
	os << Rect<2, int> {rvec<2, int>(r), rvec<2, int>(r)};
	{ using namespace approxOps; os << approx(r.normal()); }
	return Hash().adds(os.str()).v;
}

// --- memory and strings ---
std::uint64_t buffers(Rng& r) {
	Hash h;
	DynWriteBuf dyn;
	std::vector<std::uint32_t> ints(r.below(20));
	for(auto& x : ints) x = std::uint32_t(r.next());
	write(dyn, std::uint16_t(r.next())); write(dyn, double(r.normal())); jitter(); write(dyn, std::uint64_t(r.next()));
	write(dyn, bytes(ints)); jitter();
	std::vector<std::byte> fixed(dyn.size());
	WriteBuf w(fixed);
	write(w, ReadBuf(dyn));
	ReadBuf rd(fixed);
	h.add(read<std::uint16_t>(rd)).addf(read<double>(rd)); std::uint64_t u; read(rd, u); h.add(u); jitter();
	std::vector<std::uint32_t> back(ints.size());
	read(rd, bytes(back));
	for(auto x : back) h.add(x);
	span<const std::uint32_t> s(ints);
	for(auto x : s) h.add(x);
	if(s.size() > 3) { for(auto x : s.subspan(1, 2)) h.add(x); h.add(s.first(1)[0]).add(s.last<1>()[0]); skip(rd, 0); }
	return h.v;
}
std::uint64_t utf(Rng& r) {
	Hash h;
	auto s = codepoints(r);
	auto s8 = toUtf8(s); jitter(); auto s16 = toUtf16(s); jitter();
	for(auto c : s8) h.add(std::uint8_t(c)); for(auto c : s16) h.add(c); for(auto c : toUtf32(s8)) h.add(c); for(auto c : toUtf32(s16)) h.add(c);
	h.add(toUtf8(s16) == s8).add(toUtf16(s8) == s16).add(charCount(s8));
	for(size_t i = 0; i < s.size(); i += 3) { std::uint8_t n; for(auto c : nth(s8, i)) h.add(std::uint8_t(c)); h.add(std::uint8_t(nth(std::string_view(s8), i, n))).add(n); jitter(); }
	StringParam p = s8; h.add(p.size()).add(vh::hashStr(p.c_str()));
	try { (void) nth(s8, s.size() + 5); } catch(const std::out_of_range&) { h.add(7); }
	return h.v;
}
std::uint64_t scopes(Rng& r) {
	Hash h;
	for(int i = 0; i < 8; ++i) {
		bool thrown = r.chance(1, 2);
		try {
			auto a = ScopeGuard([&] { jitter(); h.add(1); });
			auto b = SuccessGuard([&] { h.add(2); });
			auto c = ExceptionGuard([&] { h.add(3); });
			auto d = ScopeGuard([&] { try { auto e = ExceptionGuard([&] { h.add(4); }); auto f = SuccessGuard([&] { h.add(5); }); jitter(); } catch(...) {} });
			if(r.chance(1, 3)) a.unset();
			jitter();
			if(thrown) throw std::runtime_error("x");
		} catch(const std::runtime_error&) { h.add(6); }
	}
	return h.v;
}
struct Base : AbstractCloneable<Base> { virtual std::uint64_t value() const = 0; virtual ~Base() = default; };
struct A : DeriveCloneable<A, Base> { std::vector<std::uint64_t> v; std::uint64_t value() const override { Hash h; for(auto x : v) h.add(x); return h.v; } };
struct B : DeriveCloneable<B, A> { std::string s; std::uint64_t value() const override { return A::value() ^ vh::hashStr(s.c_str()); } };
std::unique_ptr<Base> cloneable(Rng& r) { auto b = std::make_unique<B>(); b->v.resize(r.below(10)); for(auto& x : b->v) x = r.next(); b->s = std::to_string(r.next()); if(r.chance(1, 3)) { auto a = std::make_unique<A>(); a->v = b->v; return a; } return b; }
std::uint64_t clones(Rng& r) {
	Hash h;
	auto b = cloneable(r);
	auto c = clone(*b); h.add(c->value()); jitter();
	auto d = cloneMove(*b); h.add(d->value()).add(c->value() == d->value()); jitter();
	auto e = clone(*c); h.add(e->value());
	return h.v;
}

// --- rarely taken paths and large objects ---
std::uint64_t degenerate(Rng& r) {
	Hash h;
	auto q = quat(r);
	auto near = [&](double e) { return normalized(Quaternion {q.x + e * r.normal(), q.y + e * r.normal(), q.z + e * r.normal(), q.w + e * r.normal()}); };
	for(double e : {0., 1e-9, 1e-3, 0.02}) { auto o = near(e); add(h, slerp(q, o, r.unit())); add(h, slerp(q, -1.0 * o, r.unit())); jitter(); }
	for(int axis = 0; axis < 3; ++axis) {
		double v[3] {}; v[axis] = r.sign();
		auto o = Quaternion::axisAngle(v[0], v[1], v[2], r.pick({0., 1.5707963267948966, 3.141592653589793, -1.5707963267948966}));
		add(h, Quaternion::fromMat(toMat<3, double>(o))); add(h, Quaternion::fromMat(toMat<3, float>(o)));
		for(int s = 0; s < 12; ++s) for(auto x : eulerAngles(o, RotationSequence(s))) h.addf(x);
		jitter();
	}
	add(h, normalized(Quaternion {0, 0, 0, 0})); add(h, normalized(Quaternion {1e200 * r.normal(), 1e200, 0, 1}));
	auto d = normalized(rvec<3, double>(r));
	add(h, orientMat<4, double>(d, -d)); add(h, orientMat<4, double>(d, d)); add(h, orientMat<3, double>(Vec2d {1, 0}, Vec2d {-1, 0})); add(h, lookAt(d, d, d)); jitter();
	for(int i = 0; i < 3; ++i) { Vec3d u {}; u[i] = r.sign(); for(auto& b : base(u)) add(h, b); }
	// singular and permuted matrices
	auto m = rmat<4, 4, double>(r);
	auto k = size_t(r.below(4)), l = size_t(r.below(4)); m[k] = m[l];
	h.add(invertible(m)).add(determinant(m) == 0); m = Mat<4, 4, double> {}; for(auto i = 0u; i < 4; ++i) m[i][(i + k) % 4] = r.normal();
	add(h, inverse(m)); add(h, luDecomp(m).perm); h.addf(determinant(m)); add(h, reducedRowEcholonCopy(Mat<3, 4, double> {})); jitter();
	auto b = rmat<7, 7, double>(r); add(h, b * b); add(h, inverse(b)); h.addf(determinant(b)); add(h, luEvaluate(luDecomp(b), rvec<7, double>(r))); add(h, reducedRowEcholonCopy(rmat<2, 9, double>(r))); add(h, transpose(rmat<1, 6, float>(r)));
	auto c = rmat<9, 9, float>(r); h.addf(determinant(c)); add(h, c * c); add(h, inverse(Mat<1, 1, double> {r.unit() + 0.5})); jitter();
	auto w = rvec<12, double>(r), z = rvec<12, double>(r); add(h, w + z); add(h, vec::cw::pow(vec::cw::abs(w), 2.0)); add(h, mirror(w, z)); h.addf(length(w)).addf(angle(w, z)); h.addf(angle(w, w)).addf(angle(w, -w));
	h.add(rvec<12, double>(r) == approx(w, 3.)).addf(smoothstep(1., 0., 0.5)).addf(mix(1., 1., 2.)).add(factorial(20u)).add(nytl::pair(65000u, 3u)).add(mapUnsigned(std::numeric_limits<int>::min() + 1)); jitter();
	// rects inside of and touching each other
	Rect<3, int> ra {{0, 0, 0}, {9, 9, 9}}, rb {{int(r.below(9)), int(r.below(9)), int(r.below(9))}, {int(r.range(1, 9)), int(r.range(1, 9)), int(r.range(1, 9))}};
	for(auto& p : difference(ra, rb)) { add(h, p.position); add(h, p.size); } for(auto& p : difference(rb, ra)) { add(h, p.position); add(h, p.size); }
	h.add(difference(ra, ra).size()).add(difference(Rect<1, int> {{0}, {9}}, Rect<1, int> {{int(r.below(5))}, {3}}).size()); auto in = intersection(ra, rb); add(h, in.position); add(h, in.size);
	return h.v;
}
std::uint64_t failing(Rng& r) {
	Hash h;
	auto fails = [&](auto&& f) { try { f(); h.add(1); } catch(const std::exception&) { h.add(2); } jitter(); };
	// invalid strings
	auto s8 = toUtf8(codepoints(r)) + r.pick({std::string("\xff"), std::string("\xe2\x82"), std::string("\xf0\x9f"), std::string("\xc3")});
	fails([&] { (void) toUtf16(s8); }); fails([&] { (void) toUtf32(s8); });
	auto s16 = toUtf16(codepoints(r)) + u'\xd801';
	fails([&] { (void) toUtf8(s16); }); fails([&] { (void) toUtf32(s16); }); fails([&] { std::string e; std::uint8_t n; nth(e, 0, n); }); fails([&] { auto v = toUtf8(codepoints(r)); (void) nth(std::string_view(v), 100); });
	// accesses out of range
	auto m = rmat<2, 3, double>(r); const auto& cm = m;
	fails([&] { h.addf(m.at(size_t(r.below(4)), size_t(r.below(5)))); }); fails([&] { h.addf(cm.at(size_t(r.below(4)), size_t(r.below(5)))); }); fails([&] { add(h, cm.at(2)); });
	fails([&] { h.addf((rvec<3, double>(r)[3 + r.below(3)])); }); fails([&] { const auto v = rvec<2, int>(r); h.add(std::uint64_t(v[2 + r.below(2)])); });
	fails([&] { Callback<int()> c; c.add(std::function<int()> {}); }); fails([&] { RecursiveCallback<int()> c; c.add(std::function<int()> {}); });
	// throwing functions
	auto run = [&](auto& cb, int n, int bad) {
		for(int i = 0; i < n; ++i) cb.add([&h, i, bad](int x) { jitter(); if(i == bad) throw std::runtime_error("x"); h.add(std::uint64_t(i)); return x + i; });
		fails([&] { for(auto v : cb.call(3)) h.add(std::uint64_t(v)); });
		fails([&] { for(auto v : cb.call(4)) h.add(std::uint64_t(v)); });
	};
	{ Callback<int(int)> a; RecursiveCallback<int(int)> b; TrackedCallback<int(int)> c; run(a, 5, int(r.below(7))); run(b, 6, int(r.below(8))); run(c, 300, int(r.below(400))); }
	return h.v;
}
std::uint64_t large(Rng& r) {
	Hash h;
	auto n = size_t(r.pick({64, 200, 600, 3000}));
	std::u32string s; while(s.size() < n) s += codepoints(r);
	auto s8 = toUtf8(s); jitter(); auto s16 = toUtf16(s); jitter();
	h.adds(s8).add(toUtf8(s16) == s8).add(toUtf16(s8) == s16).add(toUtf32(s8) == s).add(toUtf32(s16) == s).add(charCount(s8)).add(std::uint8_t(nth(s8, n - 1)[0])); jitter();
	std::u16string_view v16 = s16; (void) v16; StringParam p = s8; BasicStringParam<char16_t> p16 = s16; h.add(p.size()).add(p16.size());
	DynWriteBuf d; std::vector<std::uint64_t> v(n); for(auto& x : v) x = r.next();
	for(size_t i = 0; i < n; i += 7) { write(d, v[i]); if(i % 5 == 0) write(d, std::uint8_t(i)); } write(d, bytes(v)); jitter();
	for(auto x : d) h.add(std::uint64_t(x)); ReadBuf rb(d); while(rb.size() >= 8) { h.add(read<std::uint64_t>(rb)); }
	span<std::uint64_t> sp(v); for(auto x : sp.subspan(n / 3, n / 3)) h.add(x); jitter();
	RecursiveCallback<void(int), TrackedConnectionID> cb; std::vector<TrackedConnection> conns; int ran = 0;
	for(int i = 0; i < 200; ++i) conns.push_back(cb.add([&ran](int) { ++ran; }));
	for(int i = 0; i < 3; ++i) { cb.call(1); for(int k = 0; k < 60; ++k) conns[r.below(conns.size())].disconnect(); h.add(std::uint64_t(ran)); jitter(); }
	int depth = 0; RecursiveCallback<int(int)> deep; deep.add([&](int x) { if(++depth < 60) { for(auto y : deep.call(x + 1)) h.add(std::uint64_t(y)); } return x; }); deep.call(0); h.add(std::uint64_t(depth));
	std::vector<Rect<2, int>> todo {{{0, 0}, {1000, 1000}}}; // cut repeatedly
	for(int i = 0; i < 12; ++i) { Rect<2, int> cut {{int(r.below(900)), int(r.below(900))}, {int(r.range(1, 200)), int(r.range(1, 200))}}; std::vector<Rect<2, int>> next; for(auto& t : todo) for(auto& x : difference(t, cut)) next.push_back(x); todo = next; }
	for(auto& t : todo) { add(h, t.position); add(h, t.size); } jitter();
	std::ostringstream os; print(os, rmat<8, 8, double>(r), 9u, "", true); print(os, rvec<16, double>(r)); os << rvec<9, int>(r); h.adds(os.str());
	return h.v;
}

// functions and branches that the other loads leave out
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
struct Unstable : Connectable { bool disconnect(const ConnectionID& id) override { if(id.value % 2) throw std::runtime_error("x"); return true; } };
std::uint64_t remaining(Rng& r) {
	Hash h;
	auto s = toUtf8(codepoints(r)) + "a\xc3\xa4\xe2\x82\xac\xf0\x9f\x98\x80"; std::uint8_t n;
	for(size_t i = 0, e = charCount(s); i < e; ++i) { char& c = nth(s, i, n); h.add(std::uint8_t(c)).add(n); } jitter();
	{ std::uint8_t m; for(auto c : s) h.add(std::uint8_t(c)); try { nth(s, 1000, m); } catch(const std::out_of_range&) { h.add(3); } }
	std::vector<std::byte> a(32), b(32); WriteBuf w(a); write(w, std::uint32_t(r.next())); skip(w, r.below(20)); write(w, std::uint64_t(r.next())); copy(ReadBuf(a), WriteBuf(b)); jitter();
	h.add(copy<std::uint32_t>(ReadBuf(b))).add(copyExact<std::uint64_t>(ReadBuf(b).first(8))).add(w.size()); for(auto x : b) h.add(std::uint64_t(x));
	auto f = E::a & E(int(r.below(8))), g = E::b ^ E(int(r.below(8))); h.add(std::uint64_t((f & g).value())).add(std::uint64_t((f ^ g).value())).add(std::uint64_t((f | g).value())).add(f != g).add(std::uint64_t((E::c & f).value())).add(std::uint64_t((E::c ^ g).value())).add(std::uint64_t((E::c | g).value()));
	f |= g; h.add(std::uint64_t(f)); jitter();
	std::ostringstream os; auto m = 1000.0 * rmat<3, 3, double>(r); print(os, m, 12u); print(os, m, 3u, "; "); m[1][0] = r.pick({double(INFINITY), double(NAN), 1.}); m[1][1] = 5; m[0][2] = -5; print(os, m, 8u); os << Rect<2, double> {rvec<2, double>(r), rvec<2, double>(r)}; print(os, rvec<4, float>(r), "|"); h.adds(os.str()); jitter();
	m[1][0] = 2; auto sym = m + transpose(m); h.add(symmetric(sym)).add(symmetric(m)); int store = 0; h.addf(clampStore(float(r.normal()), -0.5f, 0.5f, store)).add(std::uint64_t(store));
	auto q = quat(r), o = q; o.w = -o.w; h.add(q == o).add(q != o).add(q == Quaternion(q)).add(q != q); Rect<2, int> ra {rvec<2, int>(r), rvec<2, int>(r)}, rb = ra; h.add(ra == rb).add(ra != rb).add(containsReal(ra, rb.position)); for(int i = 0; i < 4; ++i) h.add(containsReal(Rect<2, int> {{-30, -30}, {60, 60}}, rvec<2, int>(r))); rb.size.y += 1; h.add(ra == rb).add(ra != rb);
	auto v = rvec<3, double>(r); h.add(v == v).add(v != v).add(v == approx(Vec2d {v.x, v.y})).add(m == m).add(m != m).add(m == approx(m)).add(std::complex<double>(v.x, v.y) == approx(std::complex<double>(v.x, v.z))); jitter();
	for(double sign : {1., -1.}) { add(h, perspectiveRevInf(r.uniform(0.2, 2), 1.5, sign * 0.1)); add(h, perspectiveRev(r.uniform(0.2, 2), 0.7, sign * 0.1, sign * 5.)); add(h, perspective(r.uniform(0.2, 2), 0.7, sign * 0.1, sign * 5.)); add(h, frustumRevInf(-1., 1., -r.unit() - 0.1, 1., sign * 0.1)); add(h, ortho(-1., 1., -r.unit() - 0.1, 1., sign * 0.1, sign * 9.)); }
	auto fails = [&](auto&& func) { try { func(); h.add(1); } catch(const std::out_of_range&) { h.add(2); } jitter(); };
	Vec2f v2 {1, 2}; Vec3f v3 {1, 2, 3}; const auto c2 = v2; const auto c3 = v3;
	for(size_t i = 0; i < 5; ++i) { fails([&] { v2[i] = 5; }); fails([&] { v3[i] = 5; }); fails([&] { h.addf(c2[i]); }); fails([&] { h.addf(c3[i]); }); }
	// functions of guards and disconnects that fail
	{ auto x = ScopeGuard([&] { jitter(); h.add(4); if(r.chance(1, 2)) throw std::runtime_error("x"); throw 5; }); auto y = SuccessGuard([&] { throw 6; }); }
	try { auto x = ExceptionGuard([&] { h.add(5); throw std::runtime_error("x"); }); throw 7; } catch(int) { h.add(6); }
	{ Unstable con; UniqueConnection u(con, {std::int64_t(r.below(9)) + 1}), t(con, {std::int64_t(r.below(9)) + 1}); jitter(); u = std::move(t); h.add(u.connected()).add(t.connected()); auto rel = t.release(); h.add(rel.connected()); UniqueConnection k(con, {4}); h.add(std::uint64_t(k.release().id().value)); try { u.disconnect(); h.add(1); } catch(const std::runtime_error&) { h.add(2); } ConnectionID id {7}; id.set(-3); h.add(std::uint64_t(id.get())); }
	// removals while running, with both kinds of ids
	auto removals = [&](auto& cb, auto ret) {
		int step = 0; using C = std::decay_t<decltype(cb.add(std::function<decltype(ret())(int)>()))>; std::vector<C> conns;
		for(int i = 0; i < 6; ++i) conns.push_back(cb.add(std::function<decltype(ret())(C, int)>([&, i](C self, int d) { jitter(); h.add(std::uint64_t(i)).add(self.connected()); ++step; if(step == 2) conns[4].disconnect(); if(step == 3) { self.disconnect(); h.add(self.connected()); } if(step == 4 && d < 2) cb.call(d + 1); if(step == 9) cb.clear(); if(step == 11) conns.push_back(cb.add([&](int) { h.add(77); return ret(); })); return ret(); })));
		for(int i = 0; i < 3; ++i) cb.call(0); for(auto& c : conns) h.add(c.connected());
	};
	{ RecursiveCallback<void(int)> x; RecursiveCallback<void(int), TrackedConnectionID> y; auto none = [] {}; removals(x, none); removals(y, none);
		RecursiveCallback<int(int)> z; removals(z, [&] { return int(h.v); }); try { z.add(std::function<int(Connection, int)>()); } catch(const std::invalid_argument&) { h.add(8); } }
	return h.v;
}

const std::vector<std::pair<const char*, Load>> loads {
	{"remaining functions", remaining},
	{"degenerate values", degenerate}, {"failing operations", failing}, {"large objects", large},
	{"callback", callbacks<Callback<int(int)>>}, {"tracked callback", callbacks<TrackedCallback<int(int)>>}, {"recursive callback", callbacks<RecursiveCallback<int(int), TrackedConnectionID>>}, {"recursive callback (plain ids)", callbacks<RecursiveCallback<int(int)>>},
	{"reentrant callback", reentrant}, {"unique connections", uniques}, {"vectors", vectors}, {"matrices", matrices}, {"quaternions", quaternions}, {"transforms", transforms}, {"rects", rects}, {"scalars", scalars}, {"printing", printing},
	{"buffers", buffers}, {"utf", utf}, {"scope guards", scopes}, {"cloning", clones},
};

// --- concurrent execution ---
struct Task { size_t load; std::uint64_t seed, got; };
std::uint64_t runLoad(const Task& t) { Rng r(t.seed); return loads[t.load].second(r); }

// starts all threads at the same time, returns a hash of the order in which tasks were started and finished
template<typename F> std::uint64_t parallel(size_t n, std::uint64_t seed, unsigned rate, F&& f) {
	std::atomic<unsigned> ready {0}, ticket {0};
	std::vector<std::vector<std::pair<unsigned, unsigned>>> logs(n);
	std::vector<std::thread> ts;
	for(size_t i = 0; i < n; ++i) ts.emplace_back([&, i] {
		jitterRng = Rng(seed * 31 + i);
		jitterRate = rate;
		// relaxed: no synchronization that could hide races
		ready.fetch_add(1, std::memory_order_relaxed);
		while(ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
		f(i, [&] { logs[i].push_back({ticket.fetch_add(1, std::memory_order_relaxed), unsigned(i)}); });
		jitterRate = 0;
	});
	for(auto& t : ts) t.join();
	std::vector<std::pair<unsigned, unsigned>> all;
	for(auto& l : logs) all.insert(all.end(), l.begin(), l.end());
	std::sort(all.begin(), all.end());
	Hash h;
	std::uint64_t switches = 0;
	for(size_t i = 0; i < all.size(); ++i) { h.add(all[i].second); if(i && all[i].second != all[i - 1].second) ++switches; }
	vh::count("observed_switches", switches);
	return h.v;
}

void distinct(Rng& r, std::uint64_t i) {
	size_t n = size_t(r.range(2, 8)), m = size_t(r.range(2, 6));
	std::vector<std::vector<Task>> tasks(n, std::vector<Task>(m));
	bool same = r.chance(1, 2);
	size_t load = i % loads.size();
	auto seed = r.next();
	for(auto& v : tasks) for(auto& t : v) { t.load = same || r.chance(1, 3) ? load : r.below(loads.size()); t.seed = r.chance(1, 4) ? seed : r.next(); }
	// single threaded results before or after, the first use may be concurrent
	std::vector<std::vector<std::uint64_t>> want(n);
	auto sequential = [&] { for(size_t k = 0; k < n; ++k) for(auto& t : tasks[k]) want[k].push_back(runLoad(t)); };
	bool before = r.chance(1, 2);
	if(before) sequential();
	auto h = parallel(n, r.next(), unsigned(r.pick({0, 3, 20})), [&](size_t k, auto log) { for(auto& t : tasks[k]) { log(); t.got = runLoad(t); log(); } });
	if(!before) sequential();
	for(size_t k = 0; k < n; ++k) for(size_t j = 0; j < m; ++j) VH_CHECK(tasks[k][j].got == want[k][j], "different-result", loads[tasks[k][j].load].first << " with " << n << " threads");
	vh::count("tasks", n * m);
	vh::nontrivial(h ^ vh::mix64(seed));
	if(r.chance(1, 400)) vh::sample(std::to_string(n) + " threads, " + std::to_string(m) + " tasks each, mostly " + loads[load].first);
}

// const operations on the same objects
struct Shared {
	Mat<4, 4, double> m; Vec<4, double> v; LUDecomposition<4, double> lu; Quaternion q, p; Rect<2, int> a, b; Simplex<3, double, 2> s; std::string s8; std::u16string s16; std::u32string s32;
	std::vector<std::uint32_t> ints; std::unique_ptr<Base> c; TrackedCallback<int(int)> cb; TrackedConnection conn, gone, k; Flags<E> f; Approx<double> ap;
};
std::uint64_t constOps(const Shared& x) {
	Hash h;
	add(h, x.m * x.v); add(h, transpose(x.m)); add(h, inverse(x.m)); add(h, inverse(x.lu)); add(h, luEvaluate(x.lu, x.v)); h.addf(determinant(x.m)).addf(determinant(x.lu)).add(invertible(x.m)); add(h, reducedRowEcholonCopy(x.m)); add(h, rowEcholonCopy(x.m)); add(h, col(x.m, 2)); jitter();
	add(h, luDecomp(x.m).perm); h.addf(dot(x.v, x.v)).addf(length(x.v)).addf(sum(x.v)); add(h, normalized(x.v)); add(h, -x.v); add(h, static_cast<Vec<3, float>>(x.v)); jitter();
	add(h, x.q * x.p); add(h, slerp(x.q, x.p, 0.4)); add(h, toMat<4, double>(x.q)); add(h, conjugated(x.q)); for(auto y : eulerAngles(x.q, RotationSequence::zyx)) h.addf(y); add(h, apply(x.p, Vec3d {1, 2, 3})); jitter();
	h.add(intersects(x.a, x.b)).add(contains(x.a, x.b.position)).addf(double(size(x.a))); for(auto& p : difference(x.a, x.b)) add(h, p.position); add(h, center(x.b)); for(int i = 0; i < 3; ++i) add(h, x.s.points()[i]); jitter();
	h.adds(toUtf8(x.s16)).adds(toUtf8(x.s32)).add(charCount(x.s8)).add(toUtf16(x.s8) == x.s16).add(toUtf32(x.s8) == x.s32).add(toUtf32(x.s16).size()); if(!x.s32.empty()) h.add(std::uint8_t(nth(x.s8, 0)[0])); jitter();
	span<const std::uint32_t> s(x.ints); for(auto y : s) h.add(y); ReadBuf rb = bytes(x.ints); DynWriteBuf d; write(d, rb); h.add(d.size()); while(rb.size() >= 4) h.add(read<std::uint32_t>(rb)); jitter();
	h.add(clone(*x.c)->value()).add(x.c->value()); StringParam sp = x.s8; h.add(vh::hashStr(sp.c_str())); jitter();
	h.add(x.conn.connected()).add(x.gone.connected()).add(std::uint64_t(x.k.connected())).add(x.k.connectable() == &x.cb); auto copy = x.conn; h.add(copy.connected()); auto k = x.k; h.add(k.id().get() == x.k.id().get());
	h.add(x.m == x.m).add(x.m != transpose(x.m)).add(symmetric(x.m)).add(x.v == x.v).add(x.v != -x.v).add(x.q == x.p).add(x.q != x.q).add(x.a == x.b).add(x.a != x.a).add(x.cb.subscriptions().size()).add(containsReal(x.a, x.b.position)).add(intersectsReal(x.a, x.b)); add(h, x.m[2]); h.addf(x.m.at(1, 2)).addf(trace(x.m)).addf(angle(x.v, Vec4d {1, 2, 3, 4})).add(span(x.ints) == span(x.ints)); if(!x.s32.empty()) { std::uint8_t n; h.add(std::uint8_t(nth(std::string_view(x.s8), x.s32.size() - 1, n))).add(n); } jitter();
	h.add(std::uint64_t((x.f | E::c).value())).add(x.f == E::a).add(0.5 == x.ap); std::ostringstream os; os << x.v << x.m << x.a; h.adds(os.str());
	return h.v;
}
void shared(Rng& r, std::uint64_t) {
	Shared x;
	x.m = rmat<4, 4, double>(r); x.v = rvec<4, double>(r); x.lu = luDecomp(x.m); x.q = quat(r); x.p = quat(r);
	x.a = {rvec<2, int>(r), {int(r.below(60)), int(r.below(60))}}; x.b = {rvec<2, int>(r), {int(r.below(60)), int(r.below(60))}};
	for(int i = 0; i < 3; ++i) x.s.points()[i] = rvec<3, double>(r);
	x.s32 = codepoints(r); x.s8 = toUtf8(x.s32); x.s16 = toUtf16(x.s32);
	x.ints.resize(r.below(30)); for(auto& y : x.ints) y = std::uint32_t(r.next());
	x.c = cloneable(r);
	x.k = x.cb.add([](int v) { return v; }); x.conn = x.cb.add([](int v) { return v; }); x.gone = x.conn; if(r.chance(1, 2)) x.gone.disconnect();
	x.f = E::a; x.ap = approx(0.5 + r.normal() * 1e-8);
	size_t n = size_t(r.range(2, 8)), m = size_t(r.range(1, 4));
	std::vector<std::vector<std::uint64_t>> got(n, std::vector<std::uint64_t>(m));
	const Shared& cx = x;
	auto h = parallel(n, r.next(), unsigned(r.pick({0, 2, 10})), [&](size_t k, auto log) { for(auto& g : got[k]) { log(); g = constOps(cx); log(); } });
	auto want = constOps(cx);
	for(auto& v : got) for(auto g : v) VH_CHECK(g == want, "different-result-shared", n << " threads");
	vh::count("shared_uses", n * m);
	vh::nontrivial(h ^ want);
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	NullBuf null; // stateless, so that it can be used by all threads
	auto* cerrBuf = std::cerr.rdbuf(&null);
	vh::section("distinct", 4000, 150000, distinct);
	vh::section("shared", 2000, 80000, shared);
	std::cerr.rdbuf(cerrBuf);
	return vh::finish();
}
