// Extended precision quaternions and rotation matrices.
#pragma once
#include "numeric.hpp"
#include <array>
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/quaternion.hpp>

using LD = long double;
using nytl::Quaternion;
constexpr LD PI = 3.14159265358979323846264338327950288L;

using V3 = std::array<LD, 3>;
using M3 = std::array<V3, 3>;

inline LD dot3(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross3(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline V3 unit3(const V3& a) { LD l = std::sqrt(dot3(a, a)); return {a[0] / l, a[1] / l, a[2] / l}; }

struct Q4 {
	LD x {}, y {}, z {}, w {1};
	static Q4 of(const Quaternion& q) { return {q.x, q.y, q.z, q.w}; }
	static Q4 axis(const V3& a, LD angle) { LD s = std::sin(angle / 2); return {a[0] * s, a[1] * s, a[2] * s, std::cos(angle / 2)}; }
	Q4 operator*(const Q4& o) const {
		V3 u {x, y, z}, v {o.x, o.y, o.z};
		auto c = cross3(u, v);
		return {w * v[0] + o.w * u[0] + c[0], w * v[1] + o.w * u[1] + c[1], w * v[2] + o.w * u[2] + c[2], w * o.w - dot3(u, v)};
	}
	LD norm() const { return std::sqrt(x * x + y * y + z * z + w * w); }
	Q4 unit() const { LD n = norm(); return {x / n, y / n, z / n, w / n}; }
	Q4 conj() const { return {-x, -y, -z, w}; }
	LD dot(const Q4& o) const { return x * o.x + y * o.y + z * o.z + w * o.w; }
	Quaternion lib() const { return {double(x), double(y), double(z), double(w)}; }
	LD dist(const Q4& o) const { return std::sqrt((x - o.x) * (x - o.x) + (y - o.y) * (y - o.y) + (z - o.z) * (z - o.z) + (w - o.w) * (w - o.w)); }
	LD distRot(const Q4& o) const { return std::min(dist(o), dist({-o.x, -o.y, -o.z, -o.w})); } // as rotations
	Q4 neg() const { return {-x, -y, -z, -w}; }
};

// Rodrigues' formula
inline M3 rotation(const V3& a, LD angle) {
	LD s = std::sin(angle), c = std::cos(angle);
	M3 m;
	for(int i = 0; i < 3; ++i) {
		V3 e {};
		e[i] = 1;
		auto cr = cross3(a, e);
		for(int r = 0; r < 3; ++r) m[r][i] = e[r] * c + cr[r] * s + a[r] * dot3(a, e) * (1 - c);
	}
	return m;
}
inline V3 mul(const M3& m, const V3& v) { return {dot3(m[0], v), dot3(m[1], v), dot3(m[2], v)}; }
inline M3 mul(const M3& a, const M3& b) { M3 r; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j]; return r; }
// the rotation of a unit quaternion, by its axis and angle
inline M3 rotation(const Q4& q) {
	LD s = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z);
	if(s == 0) return {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
	return rotation({q.x / s, q.y / s, q.z / s}, 2 * std::atan2(s, q.w));
}

inline std::ostream& operator<<(std::ostream& os, const Q4& q) { return os << "(" << q.x << ", " << q.y << ", " << q.z << ", " << q.w << ")"; }
namespace nytl { inline std::ostream& operator<<(std::ostream& os, const Quaternion& q) { return os << "(" << q.x << ", " << q.y << ", " << q.z << ", " << q.w << ")"; } }
inline std::string str(const V3& v) { std::ostringstream os; os.precision(17); os << "(" << v[0] << " " << v[1] << " " << v[2] << ")"; return os.str(); }

inline V3 randomAxis(vh::Rng& r) {
	V3 a {};
	do {
		switch(r.below(6)) {
			case 0: a = {0, 0, 0}; a[r.below(3)] = r.sign(); break;
			case 1: for(auto& x : a) x = r.range(-1, 1); break;
			case 2: a = {r.normal(), r.normal(), r.normal()}; a[r.below(3)] *= std::ldexp(1.L, -int(r.range(10, 50))); break;
			default: a = {r.normal(), r.normal(), r.normal()};
		}
	} while(dot3(a, a) < 1e-6L);
	return unit3(a);
}
inline LD randomAngle(vh::Rng& r) {
	switch(r.below(8)) {
		case 0: return PI / 2 * r.range(-8, 8);
		case 1: return PI / 6 * r.range(-24, 24);
		case 2: return r.sign() * std::ldexp(1 + r.unit(), -int(r.range(1, 60)));
		case 3: return PI * r.range(-4, 4) + r.sign() * std::ldexp(1 + r.unit(), -int(r.range(1, 50)));
		case 4: return PI / 2 * r.range(-8, 8) + r.sign() * std::ldexp(1 + r.unit(), -int(r.range(1, 50)));
		default: return r.uniform(-7, 7);
	}
}
// unit quaternions, mostly with structure
inline Q4 randomUnit(vh::Rng& r) {
	switch(r.below(8)) {
		case 0: { Q4 q {0, 0, 0, 0}; do { q = {LD(r.range(-1, 1)), LD(r.range(-1, 1)), LD(r.range(-1, 1)), LD(r.range(-1, 1))}; } while(q.norm() < 0.5L); return q.unit(); } // includes all rotations of the cube
		case 1: { auto q = Q4::axis(randomAxis(r), PI); if(r.chance(1, 2)) q.w = 0; return q.unit(); }
		case 2: case 3: return Q4::axis(randomAxis(r), randomAngle(r)).unit();
		case 4: { Q4 q {LD(r.normal()), LD(r.normal()), LD(r.normal()), LD(r.normal())}; LD* p[] = {&q.x, &q.y, &q.z, &q.w}; *p[r.below(4)] = 0; if(q.norm() < 1e-3L) q.x = 1; return q.unit(); }
		default: { Q4 q {LD(r.normal()), LD(r.normal()), LD(r.normal()), LD(r.normal())}; if(q.norm() < 1e-3L) q.w = 1; return q.unit(); }
	}
}
template<typename T> V3 randomVec(vh::Rng& r) {
	V3 v;
	if(r.chance(1, 4)) for(auto& x : v) x = LD(r.range(-2, 2));
	else { double s = r.chance(1, 3) ? std::ldexp(1., int(r.range(-40, 40))) : r.chance(1, 4) ? 1000 : 1; for(auto& x : v) x = T(r.normal() * s); }
	return v;
}
