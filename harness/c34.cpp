// C34: flags as sets of bits.
#include "numeric.hpp"
#include <nytl/flags.hpp>

namespace a { enum class E8 : std::uint8_t {}; NYTL_FLAG_OPS(E8) enum class S8 : std::int8_t {}; NYTL_FLAG_OPS(S8) enum class E16 : std::uint16_t {}; NYTL_FLAG_OPS(E16) enum class S16 : std::int16_t {}; NYTL_FLAG_OPS(S16) }
enum class E32 : std::uint32_t {}; NYTL_FLAG_OPS(E32)
enum class S32 {}; NYTL_FLAG_OPS(S32)
enum class E64 : std::uint64_t {}; NYTL_FLAG_OPS(E64)
enum class S64 : std::int64_t {}; NYTL_FLAG_OPS(S64)
using a::E8; using a::S8; using a::E16; using a::S16;

template<typename U> std::uint64_t bits(U u) { return std::uint64_t(std::make_unsigned_t<U>(u)); }

template<typename E> void pair(std::uint64_t x, std::uint64_t y) {
	using U = std::underlying_type_t<E>;
	using F = nytl::Flags<E>;
	using N = std::make_unsigned_t<U>;
	const N ux = N(x), uy = N(y);
	const E ex = E(U(ux)), ey = E(U(uy));
	F fx(ex), fy = ey;
	auto is = [&](const auto& f, N want, const char* key) {
		static_assert(std::is_same_v<std::decay_t<decltype(f)>, F>);
		VH_CHECK(bits(f.value()) == want && bits(static_cast<U>(f)) == want && bits(f.value_) == want, key, bits(f.value()) << " instead of " << +want << " for " << +ux << ", " << +uy);
	};
	is(fx, ux, "construct"); is(fy, uy, "construct");
	is(F(nytl::invertFlags, ex), N(~ux), "invertFlags");
	is(~ex, N(~ux), "operator~");
	is(ex | ey, ux | uy, "enum|enum"); is(ex & ey, ux & uy, "enum&enum"); is(ex ^ ey, ux ^ uy, "enum^enum");
	is(fx | fy, ux | uy, "flags|flags"); is(fx & fy, ux & uy, "flags&flags"); is(fx ^ fy, ux ^ uy, "flags^flags");
	is(fx | ey, ux | uy, "flags|enum"); is(fx & ey, ux & uy, "flags&enum"); is(fx ^ ey, ux ^ uy, "flags^enum");
	is(ex | fy, ux | uy, "enum|flags"); is(ex & fy, ux & uy, "enum&flags"); is(ex ^ fy, ux ^ uy, "enum^flags");
	is(fx, ux, "operand"); is(fy, uy, "operand");
	auto compound = [&](auto op, N want, const char* key) {
		F f = ex, g = ex;
		auto& r1 = op(f, fy);
		VH_CHECK(&r1 == &f, key, "wrong reference returned");
		is(f, want, key);
		auto& r2 = op(g, ey);
		VH_CHECK(&r2 == &g, key, "wrong reference returned");
		is(g, want, key);
		F s = ex;
		op(s, s);
		F t = ex;
		op(op(t, fy), fx);
		F u = ex;
		op(u, fy); op(u, fx);
		is(t, N(bits(u.value())), key);
	};
	compound([](F& f, auto&& o) -> F& { return f |= o; }, ux | uy, "|=");
	compound([](F& f, auto&& o) -> F& { return f &= o; }, ux & uy, "&=");
	compound([](F& f, auto&& o) -> F& { return f ^= o; }, ux ^ uy, "^=");
	{ F s = ex; s |= s; is(s, ux, "self"); s &= s; is(s, ux, "self"); s ^= s; is(s, 0, "self"); }
	bool eq = ux == uy;
	VH_CHECK((fx == fy) == eq && (fx != fy) == !eq && (fy == fx) == eq, "equality", +ux << ", " << +uy);
	VH_CHECK((fx == F(ey)) == eq && (F(ex) != fy) == !eq, "equality", +ux << ", " << +uy);
	VH_CHECK(bool(fx & ey) == bool(ux & uy) && bool(U(fx)) == bool(ux), "contains", +ux << ", " << +uy);
	F copy = fx; F assigned; is(assigned, 0, "default"); assigned = fy; is(copy, ux, "copy"); is(assigned, uy, "assign");
	assigned = ex; is(assigned, ux, "assign");
	is((fx | fy) & ~ey, N(ux & ~uy), "remove");
	is(~ex & ~ey, N(~(ux | uy)), "de-morgan");
	is(fx ^ fy ^ ex, uy, "xor-twice");
	vh::count("pairs");
}

// other storage than the underlying type
template<typename E, typename U> void storage(vh::Rng& r) {
	using F = nytl::Flags<E, U>;
	using B = std::underlying_type_t<E>;
	auto x = std::uint64_t(std::make_unsigned_t<B>(r.next())), y = std::uint64_t(std::make_unsigned_t<B>(r.next()));
	if(std::is_signed_v<B>) { x >>= 1; y >>= 1; x &= std::uint64_t(std::numeric_limits<B>::max()); y &= std::uint64_t(std::numeric_limits<B>::max()); }
	F f = E(B(x)), g = E(B(y));
	auto is = [&](const F& f, std::uint64_t want, const char* key) { VH_CHECK(bits(f.value()) == std::make_unsigned_t<U>(want), key, bits(f.value()) << " instead of " << want << " for " << x << ", " << y); };
	is(f | g, x | y, "storage|"); is(f & g, x & y, "storage&"); is(f ^ g, x ^ y, "storage^");
	is(F(nytl::invertFlags, E(B(x))), ~x, "storage~");
	auto h = f; h |= g; is(h, x | y, "storage|="); h ^= g; is(h, x & ~y, "storage^="); h &= f; is(h, x & ~y, "storage&=");
	VH_CHECK((f == g) == (x == y) && (f != g) == (x != y), "storage-equality", x << ", " << y);
	vh::nontrivial(vh::Hash().add(x).add(y).v);
}

template<typename E> void random(vh::Rng& r) {
	auto x = r.next(), y = r.next();
	switch(r.below(8)) { case 0: x &= r.next(); y &= r.next(); break; case 1: x = 1ull << r.below(64); break; case 2: y = ~0ull; break; case 3: x = y; break; case 4: x = 0; break; case 5: y = x ^ (1ull << r.below(8 * sizeof(E))); break; default: break; }
	pair<E>(x, y);
	vh::nontrivial(vh::Hash().add(x).add(y).v);
	if(r.chance(1, 5000)) vh::sample(std::to_string(x) + " with " + std::to_string(y), 4);
}

// constant evaluation agrees
static_assert((E32(1) | E32(4)).value() == 5 && (E32(5) & E32(4)).value() == 4 && (E32(5) ^ E32(4)).value() == 1 && (~E32(1)).value() == 0xfffffffeu);
static_assert((nytl::Flags<E32>(E32(1)) |= E32(2)).value() == 3 && nytl::Flags<E32>() == nytl::Flags<E32>(E32(0)));

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::section("exhaustive", 256, 256, [](vh::Rng&, std::uint64_t i) { for(unsigned k = 0; k < 256; ++k) { pair<E8>(i, k); pair<S8>(i, k); vh::nontrivial(i * 256 + k); } });
	vh::section("random-16", 20000, 2000000, [](vh::Rng& r, std::uint64_t) { random<E16>(r); random<S16>(r); });
	vh::section("random-32", 20000, 2000000, [](vh::Rng& r, std::uint64_t) { random<E32>(r); random<S32>(r); });
	vh::section("random-64", 20000, 2000000, [](vh::Rng& r, std::uint64_t) { random<E64>(r); random<S64>(r); });
	vh::section("storage", 20000, 2000000, [](vh::Rng& r, std::uint64_t) { storage<E8, std::uint32_t>(r); storage<E8, std::uint64_t>(r); storage<S32, std::uint64_t>(r); storage<E16, std::int32_t>(r); storage<E32, std::uint64_t>(r); storage<S16, std::uint32_t>(r); });
	return vh::finish();
}
