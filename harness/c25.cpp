// C25: slerp.
#include "quatmodel.hpp"

constexpr LD EPS = std::numeric_limits<double>::epsilon();

// angle between two quaternions as points, accurate for all values
LD angleOf(const Q4& a, const Q4& b) { return 2 * std::atan2(a.dist(b), a.dist(b.neg())); }

Q4 exact(const Q4& a, const Q4& b, LD t) {
	LD th = angleOf(a, b);
	if(th < 1e-15L) return a;
	LD s = std::sin(th), f = std::sin((1 - t) * th) / s, g = std::sin(t * th) / s;
	return {f * a.x + g * b.x, f * a.y + g * b.y, f * a.z + g * b.z, f * a.w + g * b.w};
}

void check(vh::Rng& r, const Q4& A, const Q4& B) {
	const auto a = A.lib(), b = B.lib();
	auto a1 = Q4::of(a).unit(), b1 = Q4::of(b).unit();
	LD d = a1.dot(b1);
	auto near = d < 0 ? b1.neg() : b1;
	LD total = angleOf(a1, near);
	// the approximation for close orientations is allowed to be less exact
	LD tol = std::fabs(d) > 0.998L ? 3e-6L * std::min<LD>(1, total * 20) + 1e-14L : 1e-13L;
	double ts[] = {0, 1, 0.5, 0.25, 0.75, 0.1, 0.9, r.unit(), r.unit(), r.unit(), std::ldexp(1., -int(r.range(2, 60))), 1 - std::ldexp(1., -int(r.range(2, 50)))};
	LD last = -1;
	std::sort(std::begin(ts), std::end(ts));
	for(double t : ts) {
		auto q = nytl::slerp(a, b, t);
		auto got = Q4::of(q);
		auto want = exact(a1, near, t);
		bool ok = got.distRot(want) <= tol;
		if(!ok && std::fabs(d) < 1e-12L) ok = got.distRot(exact(a1, near.neg(), t)) <= tol; // both arcs have the same length
		VH_CHECK(ok, "orientation", q << " instead of +-" << want << " for t = " << t << ", a = " << a << ", b = " << b << " (dot " << d << ")");
		VH_CHECK(std::fabs(got.norm() - 1) <= 1e-13L, "unit", "norm " << got.norm() << " for t = " << t << ", a = " << a << ", b = " << b);
		if(t == 0) VH_CHECK(got.distRot(a1) <= 4 * EPS, "start", q << " for a = " << a << ", b = " << b);
		if(t == 1) VH_CHECK(got.distRot(b1) <= 1e-14L, "end", q << " for a = " << a << ", b = " << b);
		LD ang = std::min(angleOf(a1, got), angleOf(a1, got.neg()));
		if(std::fabs(d) > 1e-6L) VH_CHECK(ang >= last - 1e-9L && ang <= total + 1e-9L, "monotonic", "angle " << ang << " after " << last << " of " << total);
		last = ang;
		if(std::fabs(d) > 1e-12L) {
			auto o = nytl::slerp(a, B.neg().lib(), t);
			VH_CHECK(Q4::of(o).distRot(got) <= 1e-13L, "negated", o << " for -b but " << q << " for t = " << t << ", a = " << a << ", b = " << b);
			auto o2 = nytl::slerp(A.neg().lib(), b, t);
			VH_CHECK(Q4::of(o2).distRot(got) <= 1e-13L, "negated", o2 << " for -a but " << q << " for t = " << t << ", a = " << a << ", b = " << b);
			auto o3 = nytl::slerp(b, a, 1 - t);
			VH_CHECK(Q4::of(o3).distRot(got) <= std::max<LD>(1e-12L, 2 * tol), "reversed", o3 << " in reverse but " << q << " for t = " << t << ", a = " << a << ", b = " << b);
		}
	}
	// rotates a vector by the partial angle
	vh::count(d < 0 ? "negative_dot" : "positive_dot");
	if(std::fabs(d) > 0.9995L) vh::count("close");
	if(std::fabs(d) < 1e-3L) vh::count("almost_opposite");
	vh::nontrivial(vh::Hash().addf(a.x).addf(a.w).addf(b.y).addf(b.z).v);
	if(r.chance(1, 2000)) { std::ostringstream os; os << a << " to " << b << ", dot " << double(d); vh::sample(os.str(), 6); }
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::section("random", 30000, 1500000, [](vh::Rng& r, std::uint64_t) { auto a = randomUnit(r), b = randomUnit(r); check(r, a, b); });
	vh::section("relative", 60000, 3000000, [](vh::Rng& r, std::uint64_t) { // with chosen angle
		auto a = randomUnit(r);
		LD angle = randomAngle(r);
		switch(r.below(5)) {
			case 0: angle = 2 * std::acos(0.9995L) + r.normal() * 1e-3L; break;
			case 1: angle = PI + r.normal() * std::ldexp(1., -int(r.range(3, 40))); break;
			case 2: angle = r.uniform(0, 0.2); break;
			default: break;
		}
		auto b = (a * Q4::axis(randomAxis(r), angle)).unit();
		check(r, a, r.chance(1, 2) ? b : b.neg());
	});
	vh::section("same", 3000, 50000, [](vh::Rng& r, std::uint64_t) { auto a = randomUnit(r); check(r, a, a); check(r, a, a.neg()); });
	vh::section("exact-opposite", 3000, 50000, [](vh::Rng& r, std::uint64_t) { // dot product zero
		Q4 a {1, 0, 0, 0}, b {0, 1, 0, 0};
		Q4 e[4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}};
		auto i = r.below(4), j = (i + 1 + r.below(3)) % 4;
		a = e[i]; b = e[j];
		check(r, r.chance(1, 2) ? a : a.neg(), r.chance(1, 2) ? b : b.neg());
		auto q = randomUnit(r);
		check(r, (q * a).unit(), (q * b).unit());
	});
	return vh::finish();
}
