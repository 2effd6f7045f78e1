// C26: euler angles.
#include "quatmodel.hpp"
using nytl::RotationSequence;

struct Seq { RotationSequence s; const char* name; };
const Seq seqs[] = {{RotationSequence::xyx, "xyx"}, {RotationSequence::xzx, "xzx"}, {RotationSequence::yzy, "yzy"}, {RotationSequence::yxy, "yxy"}, {RotationSequence::zxz, "zxz"}, {RotationSequence::zyz, "zyz"},
	{RotationSequence::xyz, "xyz"}, {RotationSequence::xzy, "xzy"}, {RotationSequence::yxz, "yxz"}, {RotationSequence::yzx, "yzx"}, {RotationSequence::zxy, "zxy"}, {RotationSequence::zyx, "zyx"}};

V3 axisOf(char c) { return {LD(c == 'x'), LD(c == 'y'), LD(c == 'z')}; }
Q4 compose(const char* n, LD a, LD b, LD c) { return Q4::axis(axisOf(n[0]), a) * Q4::axis(axisOf(n[1]), b) * Q4::axis(axisOf(n[2]), c); }

void checkOne(const Q4& Q, const Seq& s) {
	const auto q = Q.lib();
	auto e = nytl::eulerAngles(q, s.s);
	static_assert(std::is_same_v<decltype(e), std::array<double, 3>>);
	if(!VH_CHECK(std::isfinite(e[0]) && std::isfinite(e[1]) && std::isfinite(e[2]), "finite", s.name << ": " << e[0] << ", " << e[1] << ", " << e[2] << " for " << q)) return;
	auto got = compose(s.name, e[0], e[1], e[2]);
	// how far the middle rotation is from being degenerate
	auto m = rotation(Q4::of(q).unit());
	bool classic = s.name[0] == s.name[2];
	LD c = classic ? m[s.name[0] - 'x'][s.name[0] - 'x'] : m[s.name[0] - 'x'][s.name[2] - 'x'];
	LD sn = std::sqrt(std::max<LD>(0, 1 - c * c));
	LD tol = sn < 1e-6L ? 1e-6L : std::min<LD>(1e-6L, 1e-14L / sn + 1e-14L);
	LD d = got.distRot(Q4::of(q).unit());
	VH_CHECK(d <= tol, (std::string("orientation-") + s.name).c_str(), e[0] << ", " << e[1] << ", " << e[2] << " is " << got << " instead of +-" << q << ", error " << d << " (tolerance " << tol << ")");
	vh::count(sn < 1e-6L ? "degenerate" : sn < 1e-2L ? "near_degenerate" : "regular");
}

void check(vh::Rng& r, const Q4& q) {
	for(auto& s : seqs) checkOne(q, s);
	vh::nontrivial(vh::Hash().addf(q.x).addf(q.y).addf(q.z).addf(q.w).v);
	if(r.chance(1, 1000)) { std::ostringstream os; auto e = nytl::eulerAngles(q.lib(), RotationSequence::yxz); os << q << " is yxz " << e[0] << ", " << e[1] << ", " << e[2]; vh::sample(os.str(), 6); }
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::section("random", 20000, 800000, [](vh::Rng& r, std::uint64_t) { check(r, randomUnit(r)); });
	vh::section("angles", 40000, 800000, [](vh::Rng& r, std::uint64_t) { // exact and near gimbal lock of every sequence
		auto& s = seqs[r.below(12)];
		LD mid = (s.name[0] == s.name[2] ? 0 : PI / 2) + PI * r.range(-1, 1);
		switch(r.below(4)) {
			case 0: break;
			case 1: mid += r.sign() * std::ldexp(1 + r.unit(), -int(r.range(3, 55))); break;
			case 2: mid = randomAngle(r); break;
			case 3: mid = r.uniform(-4, 4); break;
		}
		check(r, compose(s.name, randomAngle(r), mid, r.chance(1, 3) ? 0 : randomAngle(r)).unit());
	});
	vh::section("lattice", 1, 1, [](vh::Rng& r, std::uint64_t) { // all products of rotations by 45 degrees
		for(auto& s : seqs) for(int a = -4; a <= 4; ++a) for(int b = -4; b <= 4; ++b) for(int c = -4; c <= 4; ++c) check(r, compose(s.name, a * PI / 4, b * PI / 4, c * PI / 4).unit());
	});
	vh::section("library-angles", 8000, 300000, [](vh::Rng& r, std::uint64_t) { // quaternions as computed by the library
		double y = randomAngle(r), p = randomAngle(r), z = randomAngle(r);
		check(r, Q4::of(Quaternion::yxz(y, p, z)));
		auto q = Quaternion::axisAngle(0, 1, 0, y);
		for(int i = 0; i < 5; ++i) { auto a = randomAxis(r); q = q * Quaternion::axisAngle(double(a[0]), double(a[1]), double(a[2]), double(randomAngle(r))); }
		check(r, Q4::of(nytl::normalized(q)));
		check(r, Q4::of(q));
	});
	return vh::finish();
}
