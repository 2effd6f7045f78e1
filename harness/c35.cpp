// C35: simplex conversion and access.
#include "numeric.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/simplex.hpp>
#include <new>

template<std::size_t D, typename P, std::size_t A> nytl::Simplex<D, P, A> make(vh::Rng& r, vh::Hash& h) {
	nytl::Simplex<D, P, A> s;
	auto* p = s.points();
	for(std::size_t i = 0; i <= A; ++i) for(std::size_t k = 0; k < D; ++k) {
		do p[i][k] = r.chance(1, 3) ? anyValue<P>(r) : P(r.range(0, 1000) * (std::is_signed_v<P> ? r.sign() : 1)); while(p[i][k] != p[i][k]);
		h.addf(double(p[i][k]));
	}
	return s;
}

template<std::size_t D, typename P, std::size_t A> void access(vh::Rng& r) {
	using S = nytl::Simplex<D, P, A>;
	static_assert(S::spaceDim == D && S::simplexDim == A && S::pointCount == A + 1);
	static_assert(std::is_same_v<typename S::Point, nytl::Vec<D, P>>);
	// default initialization of memory with other content
	alignas(S) unsigned char mem[sizeof(S)];
	std::memset(mem, 0x5a + int(r.below(100)), sizeof(mem));
	auto* s = new(mem) S;
	for(std::size_t i = 0; i <= A; ++i) for(std::size_t k = 0; k < D; ++k) VH_CHECK(s->points()[i][k] == P {}, "default", "point " << i << " coordinate " << k << " is " << show(s->points()[i][k]));
	// all points through the pointer, in order
	for(std::size_t i = 0; i <= A; ++i) for(std::size_t k = 0; k < D; ++k) s->points()[i][k] = P(1 + i * D + k);
	const S& c = *s;
	const auto* cp = c.points();
	static_assert(std::is_same_v<decltype(c.points()), const nytl::Vec<D, P>*> && std::is_same_v<decltype(s->points()), nytl::Vec<D, P>*>);
	VH_CHECK(cp == s->points() && cp == c.points_.data() && c.points_.size() == A + 1, "points", "not the stored points");
	auto copy = c;
	S assigned;
	assigned = c;
	for(std::size_t i = 0; i <= A; ++i) for(std::size_t k = 0; k < D; ++k) {
		P want = P(1 + i * D + k);
		VH_CHECK(cp[i][k] == want && c.points_[i][k] == want && copy.points()[i][k] == want && assigned.points()[i][k] == want, "points", "point " << i << " coordinate " << k);
	}
	copy.points()[A][D - 1] = P(0);
	VH_CHECK(c.points()[A][D - 1] == P((A + 1) * D), "copy", "shares points");
	s->~S();
	vh::count("accesses");
}

template<std::size_t D, typename P, std::size_t A, std::size_t D2, typename P2> void convert(vh::Rng& r) {
	vh::Hash h;
	h.add(D * 100 + A * 10 + D2);
	auto s = make<D, P, A>(r, h);
	for(std::size_t i = 0; i <= A; ++i) for(std::size_t k = 0; k < D; ++k) {
		auto& x = s.points()[i][k];
		if(!okConv<P2>(x)) x = P(r.range(0, 100));
		if(std::is_integral_v<P2> && !std::is_integral_v<P> && r.chance(1, 2)) x = P(r.range(0, 1000)) / 8;
	}
	const auto org = s;
	auto t = static_cast<nytl::Simplex<D2, P2, A>>(org);
	nytl::Simplex<D2, P2, A> u(s);
	for(std::size_t i = 0; i <= A; ++i) for(std::size_t k = 0; k < D2; ++k) {
		P2 want {};
		if(k < D) want = P2(org.points()[i][k]);
		VH_CHECK(sameNum(t.points()[i][k], want), "convert", "point " << i << " coordinate " << k << " is " << show(t.points()[i][k]) << " instead of " << show(want));
		VH_CHECK(sameNum(u.points()[i][k], want), "convert", "point " << i << " coordinate " << k << " is " << show(u.points()[i][k]) << " instead of " << show(want));
	}
	for(std::size_t i = 0; i <= A; ++i) for(std::size_t k = 0; k < D; ++k) VH_CHECK(sameNum(s.points()[i][k], org.points()[i][k]), "source", "changed");
	vh::nontrivial(h.v);
	vh::count(D2 < D ? "reduced" : D2 > D ? "extended" : "same_dimension");
	if(r.chance(1, 30000)) vh::sample("simplex of dimension " + std::to_string(A) + " from space " + std::to_string(D) + " to " + std::to_string(D2));
}

template<std::size_t D, std::size_t A> void dims(vh::Rng& r) {
	access<D, int, A>(r); access<D, double, A>(r); access<D, float, A>(r); access<D, std::int64_t, A>(r);
	auto to = [&](auto other) {
		constexpr std::size_t D2 = decltype(other)::value;
		if constexpr(D2 >= A) {
			convert<D, double, A, D2, float>(r); convert<D, int, A, D2, double>(r); convert<D, double, A, D2, int>(r); convert<D, float, A, D2, float>(r); convert<D, int, A, D2, int>(r); convert<D, std::int64_t, A, D2, long double>(r);
		}
	};
	to(std::integral_constant<std::size_t, 1>()); to(std::integral_constant<std::size_t, 2>()); to(std::integral_constant<std::size_t, 3>()); to(std::integral_constant<std::size_t, 4>()); to(std::integral_constant<std::size_t, 5>());
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
#define DI(D, A) vh::section("simplex-" #D "-" #A, 400, 40000, [](vh::Rng& r, std::uint64_t) { dims<D, A>(r); });
	DI(1, 0) DI(1, 1) DI(2, 0) DI(2, 1) DI(2, 2) DI(3, 0) DI(3, 1) DI(3, 2) DI(3, 3) DI(4, 1) DI(4, 2) DI(4, 3) DI(4, 4) DI(5, 0) DI(5, 1) DI(5, 2) DI(5, 3) DI(5, 4) DI(5, 5)
	return vh::finish();
}
