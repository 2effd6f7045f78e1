// C11: clone/cloneMove through every base of many hierarchies.
#include "common.hpp"
#include <nytl/clone.hpp>
#include <memory>

struct CopyFailed {};

// counts copies, moves and live instances; owns memory
struct State {
	static inline long live = 0, copies = 0, moves = 0, countdown = -1;
	std::string text;
	std::unique_ptr<std::vector<int>> data;
	std::uint64_t key = 0;
	State* self; // detects bitwise copies

	State() : self(this) { ++live; }
	State(const State& o) : text(o.text), data(o.data ? std::make_unique<std::vector<int>>(*o.data) : nullptr), key(o.key), self(this) {
		if(countdown > 0 && --countdown == 0) throw CopyFailed {};
		++live; ++copies;
	}
	State(State&& o) noexcept : text(std::move(o.text)), data(std::move(o.data)), key(o.key), self(this) { o.text.clear(); o.key = 0; ++live; ++moves; }
	State& operator=(const State&) = delete;
	~State() { if(self != this) std::abort(); --live; }
	void fill(vh::Rng& r) {
		text.assign(1 + r.below(60), char('a' + r.below(26)));
		data = std::make_unique<std::vector<int>>(1 + r.below(20), int(r.next()));
		key = r.next() | 1;
	}
	bool operator==(const State& o) const {
		return self == this && text == o.text && key == o.key && bool(data) == bool(o.data) && (!data || *data == *o.data);
	}
	bool empty() const { return text.empty() && !data && key == 0; }
};

// What all hierarchies offer for checking, found by dynamic_cast.
struct Probe {
	virtual ~Probe() = default;
	virtual std::vector<State*> states() = 0;
};

using std::vector;

// --- hierarchies ---
namespace single {
struct Base : nytl::AbstractCloneable<Base> { virtual int value() const = 0; };
struct A : nytl::DeriveCloneable<A, Base>, Probe { State s; int value() const override { return 1; } vector<State*> states() override { return {&s}; } };
struct B : nytl::DeriveCloneable<B, A> { State t; int value() const override { return 2; } vector<State*> states() override { return {&s, &t}; } };
struct C : nytl::DeriveCloneable<C, B> { State u; double pad[9] {}; int value() const override { return 3; } vector<State*> states() override { return {&s, &t, &u}; } };
struct D : nytl::DeriveCloneable<D, C> { char c = 1; State v; int value() const override { return 4; } vector<State*> states() override { return {&s, &t, &u, &v}; } };
}

namespace concrete { // the root itself can be cloned
struct Root : nytl::Cloneable<Root>, Probe { State s; vector<State*> states() override { return {&s}; } };
struct Sub : nytl::DeriveCloneable<Sub, Root> { State t; vector<State*> states() override { return {&s, &t}; } };
struct SubSub : nytl::DeriveCloneable<SubSub, Sub> { State u; vector<State*> states() override { return {&s, &t, &u}; } };
}

namespace multi { // several cloneable bases
struct X : nytl::AbstractCloneable<X> { State x; virtual int fx() const { return 1; } };
struct Y : nytl::AbstractCloneable<Y> { State y; virtual int fy() const { return 2; } };
struct Z : nytl::AbstractCloneable<Z> { long z1 = 3; State z; virtual int fz() const { return 3; } };
struct XY : nytl::DeriveCloneable<XY, X, Y>, Probe { State own; vector<State*> states() override { return {&x, &y, &own}; } };
struct XYZ : nytl::DeriveCloneable<XYZ, X, Y, Z>, Probe { State own; vector<State*> states() override { return {&x, &y, &z, &own}; } };
struct Deep : nytl::DeriveCloneable<Deep, XYZ> { State more; vector<State*> states() override { return {&x, &y, &z, &own, &more}; } };
}

namespace offset { // the cloneable base is not the primary base
struct Other { Other() = default; Other(Other&&) = default; Other(const Other&) = default; virtual ~Other() = default; State o; virtual int other() const { return 7; } };
struct Base : nytl::AbstractCloneable<Base> { State b; virtual int value() const = 0; };
struct Big { double numbers[31] {}; State g; };
struct Impl : Other, Big, nytl::DeriveCloneable<Impl, Base>, Probe {
	State i;
	int value() const override { return 5; }
	vector<State*> states() override { return {&o, &g, &b, &i}; }
};
struct Other2 { Other2() = default; Other2(Other2&&) = default; Other2(const Other2&) = default; virtual ~Other2() = default; State o2; int arr[5] {}; };
struct Impl2 : Other2, nytl::DeriveCloneable<Impl2, Impl> {
	State j;
	vector<State*> states() override { return {&o2, &o, &g, &b, &i, &j}; }
};
}

namespace movable { // can only be moved
struct Base : nytl::AbstractCloneMovable<Base> { virtual int value() const = 0; };
struct Res { std::unique_ptr<int> p = std::make_unique<int>(3); };
struct A : nytl::DeriveCloneMovable<A, Base>, Probe { State s; Res r; int value() const override { return 1; } vector<State*> states() override { return {&s}; } };
struct B : nytl::DeriveCloneMovable<B, A> { State t; int value() const override { return 2; } vector<State*> states() override { return {&s, &t}; } };
struct Root : nytl::CloneMovable<Root>, Probe { State s; Res r; vector<State*> states() override { return {&s}; } };
struct Sub : nytl::DeriveCloneMovable<Sub, Root> { State t; vector<State*> states() override { return {&s, &t}; } };
struct P : nytl::AbstractCloneMovable<P> { State p; };
struct Q : nytl::AbstractCloneMovable<Q> { State q; };
struct PQ : nytl::DeriveCloneMovable<PQ, P, Q>, Probe { State own; vector<State*> states() override { return {&p, &q, &own}; } };
}

namespace thrower { // move constructors that are not noexcept must be used nevertheless
#define MOVES(T) T() = default; T(const T&) = default; T(T&& o) noexcept(false)
struct Loose { MOVES(Loose) : s(std::move(o.s)) {} State s; };
struct Root : nytl::Cloneable<Root>, Probe { MOVES(Root) : l(std::move(o.l)) {} Loose l; vector<State*> states() override { return {&l.s}; } };
struct Sub : nytl::DeriveCloneable<Sub, Root> { Loose m; vector<State*> states() override { return {&l.s, &m.s}; } };
struct MRoot : nytl::CloneMovable<MRoot>, Probe { MOVES(MRoot) : l(std::move(o.l)) {} Loose l; vector<State*> states() override { return {&l.s}; } };
struct MSub : nytl::DeriveCloneMovable<MSub, MRoot> { Loose m; vector<State*> states() override { return {&l.s, &m.s}; } };
struct Base : nytl::AbstractCloneMovable<Base> { virtual int v() const { return 1; } };
struct Base2 : nytl::AbstractCloneMovable<Base2> { Loose b; };
struct Multi : nytl::DeriveCloneMovable<Multi, Base, Base2>, Probe { Loose m; vector<State*> states() override { return {&b.s, &m.s}; } };
struct CBase : nytl::AbstractCloneable<CBase> { virtual int v() const { return 1; } };
struct CBase2 : nytl::AbstractCloneable<CBase2> { Loose b; };
struct CMulti : nytl::DeriveCloneable<CMulti, CBase, CBase2>, Probe { Loose m; vector<State*> states() override { return {&b.s, &m.s}; } };
#undef MOVES
template<typename B> constexpr bool moveOnly = std::is_same_v<B, MRoot> || std::is_same_v<B, MSub> || std::is_same_v<B, Base> || std::is_same_v<B, Base2> || std::is_same_v<B, Multi>;
}

namespace ctor { // constructors of the single base are inherited
struct Base : nytl::AbstractCloneable<Base> { int v; State s; Base(int a, std::string t) : v(a) { s.text = t; } };
struct A : nytl::DeriveCloneable<A, Base>, Probe {
	using nytl::DeriveCloneable<A, Base>::DeriveCloneable;
	State own;
	vector<State*> states() override { return {&s, &own}; }
};
}

namespace diamond { // virtual inheritance: the offset of the base depends on the complete object
struct Base : nytl::AbstractCloneable<Base> { State b; virtual int value() const = 0; };
struct L : virtual Base { State l; double pad[3] {}; int value() const override { return 1; } };
struct R : virtual Base { State r; };
struct D : nytl::DeriveCloneable<D, L, R>, Probe { State d; int value() const override { return 3; } vector<State*> states() override { return {&b, &l, &r, &d}; } };
struct E : nytl::DeriveCloneable<E, D> { State e; char more[77] {}; vector<State*> states() override { return {&b, &l, &r, &d, &e}; } };
struct One : nytl::DeriveCloneable<One, L>, Probe { State o; vector<State*> states() override { return {&b, &l, &o}; } };
}

namespace special { // what the classes themselves define must be respected
struct Base : nytl::AbstractCloneable<Base> { // overloaded address operator
	Base* operator&() { std::abort(); }
	const Base* operator&() const { std::abort(); }
	virtual int value() const { return 1; }
};
struct alignas(128) Aligned : nytl::DeriveCloneable<Aligned, Base>, Probe {
	State s;
	Aligned() { check(); }
	Aligned(const Aligned& o) : DeriveCloneable(o), Probe(o), s(o.s) { check(); }
	Aligned(Aligned&& o) : DeriveCloneable(std::move(o)), Probe(o), s(std::move(o.s)) { check(); }
	void check() const { VH_CHECK(reinterpret_cast<std::uintptr_t>(this) % 128 == 0, "alignment", this); }
	vector<State*> states() override { return {std::addressof(s)}; }
};
struct Counted { // own allocation functions
	static inline long allocated = 0, total = 0;
	static void* operator new(std::size_t size) { ++allocated; ++total; return ::operator new(size); }
	static void operator delete(void* ptr) { --allocated; ::operator delete(ptr); }
};
struct MBase : nytl::AbstractCloneMovable<MBase> { virtual int value() const { return 1; } };
template<typename... Bases> struct Pool : Bases..., Counted, Probe {
	State s;
	vector<State*> states() override { return {std::addressof(s)}; }
};
struct PDerive : Pool<nytl::DeriveCloneable<PDerive, Base>> {};
struct PMDerive : Pool<nytl::DeriveCloneMovable<PMDerive, MBase>> {};
struct PMulti : Pool<nytl::DeriveCloneable<PMulti, multi::X, multi::Y>> { vector<State*> states() override { return {&x, &y, &s}; } };
struct PMMulti : Pool<nytl::DeriveCloneMovable<PMMulti, movable::P, movable::Q>> { vector<State*> states() override { return {&p, &q, &s}; } };
struct PRoot : Pool<nytl::Cloneable<PRoot>> {};
struct PMRoot : Pool<nytl::CloneMovable<PMRoot>> {};
template<typename T> void pooled() {
	VH_CHECK(Counted::allocated == 0, "allocation", Counted::allocated << " objects in the pool");
	T obj;
	for(int i = 0; i < 2; ++i) {
		auto before = Counted::total;
		auto m = nytl::cloneMove(obj);
		VH_CHECK(Counted::allocated == 1 && Counted::total == before + 1, "allocation", "cloneMove did not use the allocation function of the class");
		if constexpr(std::is_copy_constructible_v<T> && !std::is_base_of_v<MBase, T> && !std::is_base_of_v<movable::P, T> && !std::is_same_v<T, PMRoot>) {
			auto c = nytl::clone(obj);
			VH_CHECK(Counted::allocated == 2 && Counted::total == before + 2, "allocation", "clone did not use the allocation function of the class");
		}
	}
	VH_CHECK(Counted::allocated == 0, "allocation", Counted::allocated << " objects in the pool");
}
struct Copies : nytl::Cloneable<Copies>, Probe { // overload sets: an additional non-const copy constructor
	State s;
	int from = 0;
	Copies() = default;
	Copies(const Copies& o) : Cloneable(o), Probe(o), s(o.s), from(1) {}
	Copies(Copies& o) : Cloneable(o), Probe(o), s(o.s), from(2) {}
	Copies(Copies&& o) : Cloneable(std::move(o)), Probe(o), s(std::move(o.s)), from(3) {}
	vector<State*> states() override { return {&s}; }
};
}

// Checks one object through the given base.
template<typename Base, typename T> void viaBase(vh::Rng& rng, T& obj, const char* name) {
	Base& ref = obj;
	auto* probe = dynamic_cast<Probe*>(std::addressof(obj));
	auto before = probe->states();
	for(auto* s : before) s->fill(rng);
	std::vector<State> keep;
	keep.reserve(before.size());
	for(auto* s : before) keep.emplace_back(*s);
	vh::Hash h;
	h.adds(name).adds(typeid(Base).name()).add(keep[0].key);
	vh::nontrivial(h.v);
	if(rng.chance(1, 200)) vh::sample(std::string(name) + " of " + std::to_string(keep.size()) + " subobjects with state, key " + std::to_string(keep[0].key), 4);
	vh::count("clones_checked");

	auto equal = [&](Base& c, const std::vector<State>& want, const char* what) {
		VH_CHECK(typeid(c) == typeid(T), "type", name << " " << what << ": has type " << typeid(c).name() << " via " << typeid(Base).name());
		auto* full = dynamic_cast<T*>(std::addressof(c));
		if(!VH_CHECK(full != nullptr, "type", name << " " << what << ": not the most derived type")) return;
		VH_CHECK(static_cast<Base*>(full) == std::addressof(c), "pointer", name << " " << what << ": pointer does not refer to the base of the object");
		auto* p = dynamic_cast<Probe*>(full);
		auto st = p->states();
		bool same = st.size() == want.size();
		for(auto i = 0u; same && i < st.size(); ++i) same = *st[i] == want[i];
		VH_CHECK(same, "state", name << " " << what << ": state differs from the original, via " << typeid(Base).name());
	};

	auto live = State::live;
	if constexpr(!std::is_base_of_v<movable::Base, Base> && !std::is_same_v<Base, movable::Root> && !std::is_same_v<Base, movable::Sub> &&
			!std::is_same_v<Base, movable::P> && !std::is_same_v<Base, movable::Q> && !std::is_same_v<Base, movable::PQ> && !thrower::moveOnly<Base>) {
		for(long k = 1; k <= long(before.size()); ++k) { // copying the k-th member fails
			State::countdown = k;
			bool failed = false;
			try { auto c = nytl::clone(static_cast<const Base&>(ref)); }
			catch(const CopyFailed&) { failed = true; }
			State::countdown = -1;
			VH_CHECK(failed, "exception", name << ": the exception of a copy constructor did not reach the caller");
			VH_CHECK(State::live == live, "leak", name << ": " << State::live - live << " members left by a failed clone");
			equal(ref, keep, "original after failed clone");
			vh::count("failed_clones");
		}
		auto moves = State::moves;
		auto c = nytl::clone(static_cast<const Base&>(ref));
		static_assert(std::is_same_v<decltype(c), std::unique_ptr<Base>>);
		VH_CHECK(State::live == live + long(before.size()), "instances", name << ": " << State::live - live << " new instances");
		VH_CHECK(State::moves == moves, "moved", name << ": clone moved from the original");
		VH_CHECK(static_cast<void*>(c.get()) != static_cast<void*>(std::addressof(ref)), "same-object", name);
		equal(*c, keep, "clone");
		equal(ref, keep, "original after clone");

		// independent of each other
		auto cs = dynamic_cast<Probe&>(*c).states();
		std::vector<State> other;
		other.reserve(cs.size());
		for(auto* s : cs) { s->fill(rng); other.emplace_back(*s); }
		equal(ref, keep, "original after changing the clone");
		// clone of the clone
		auto c2 = nytl::clone(*c);
		c.reset();
		equal(*c2, other, "clone of clone");
		auto c3 = nytl::cloneMove(*c2);
		equal(*c3, other, "cloneMove of clone");
		c2.reset();
		equal(*c3, other, "cloneMove of clone");
	}
	VH_CHECK(State::live == live + 0, "leak", name << ": " << State::live - live);

	auto copies = State::copies;
	auto m = nytl::cloneMove(ref);
	static_assert(std::is_same_v<decltype(m), std::unique_ptr<Base>>);
	VH_CHECK(State::copies == copies, "copied", name << ": cloneMove copied");
	VH_CHECK(State::live == live + long(before.size()), "instances", name << ": " << State::live - live << " new instances");
	equal(*m, keep, "cloneMove");
	for(auto* s : before) VH_CHECK(s->empty() && s->self == s, "not-moved", name << ": cloneMove did not move from the original");
	auto m2 = nytl::cloneMove(*m);
	equal(*m2, keep, "cloneMove of cloneMove");
	m.reset();
	equal(*m2, keep, "cloneMove of cloneMove");
	m2.reset();
	VH_CHECK(State::live == live, "leak", name << ": " << State::live - live);
}

template<typename T, typename... Bases> void hierarchy(vh::Rng& rng, const char* name) {
	{
		auto obj = std::make_unique<T>();
		(viaBase<Bases>(rng, *obj, name), ...);
		(viaBase<Bases>(rng, *obj, name), ...); // a moved from object can be used again
	}
	{
		T arr[3]; // in the middle of an array
		(viaBase<Bases>(rng, arr[1], name), ...);
	}
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	auto sec = [&](const char* name, auto f) {
		vh::section(name, 40, 4000, [&](vh::Rng& r, std::uint64_t) {
			auto live = State::live;
			f(r, name);
			VH_CHECK(State::live == live, "leak", name << ": " << State::live - live);
		});
	};
	sec("single", [](vh::Rng& r, const char* n) {
		using namespace single;
		hierarchy<A, Base, A>(r, n); hierarchy<B, Base, A, B>(r, n); hierarchy<C, Base, A, B, C>(r, n); hierarchy<D, Base, A, B, C, D>(r, n);
	});
	sec("concrete", [](vh::Rng& r, const char* n) {
		using namespace concrete;
		hierarchy<Root, Root>(r, n); hierarchy<Sub, Root, Sub>(r, n); hierarchy<SubSub, Root, Sub, SubSub>(r, n);
	});
	sec("multi", [](vh::Rng& r, const char* n) {
		using namespace multi;
		hierarchy<XY, X, Y, XY>(r, n); hierarchy<XYZ, X, Y, Z, XYZ>(r, n); hierarchy<Deep, X, Y, Z, XYZ, Deep>(r, n);
	});
	sec("offset", [](vh::Rng& r, const char* n) {
		using namespace offset;
		hierarchy<Impl, Base, Impl>(r, n); hierarchy<Impl2, Base, Impl, Impl2>(r, n);
	});
	sec("movable", [](vh::Rng& r, const char* n) {
		using namespace movable;
		hierarchy<A, Base, A>(r, n); hierarchy<B, Base, A, B>(r, n); hierarchy<Root, Root>(r, n);
		hierarchy<Sub, Root, Sub>(r, n); hierarchy<PQ, P, Q, PQ>(r, n);
	});
	sec("throwing-moves", [](vh::Rng& r, const char* n) {
		using namespace thrower;
		hierarchy<Root, Root>(r, n); hierarchy<Sub, Root, Sub>(r, n); hierarchy<CMulti, CBase, CBase2, CMulti>(r, n);
		hierarchy<MRoot, MRoot>(r, n); hierarchy<MSub, MRoot, MSub>(r, n); hierarchy<Multi, Base, Base2, Multi>(r, n);
	});
	sec("diamond", [](vh::Rng& r, const char* n) {
		using namespace diamond;
		hierarchy<One, Base, L, One>(r, n); hierarchy<D, Base, L, R, D>(r, n); hierarchy<E, Base, L, R, D, E>(r, n);
	});
	sec("special", [](vh::Rng& r, const char* n) {
		using namespace special;
		hierarchy<Aligned, Base, Aligned>(r, n); hierarchy<PDerive, Base, PDerive>(r, n); hierarchy<PRoot, PRoot>(r, n); hierarchy<PMulti, multi::X, multi::Y, PMulti>(r, n); hierarchy<Copies, Copies>(r, n);
		pooled<PDerive>(); pooled<PMDerive>(); pooled<PMulti>(); pooled<PMMulti>(); pooled<PRoot>(); pooled<PMRoot>();
		Copies copies;
		VH_CHECK(nytl::clone(copies)->from == 1, "constructor", "clone did not use the constructor for const objects");
		VH_CHECK(nytl::cloneMove(copies)->from == 3, "constructor", "cloneMove did not use the move constructor");
	});
	vh::section("ctor", 40, 4000, [&](vh::Rng& rng, std::uint64_t) {
		using namespace ctor;
		A a(int(rng.next()), "text");
		VH_CHECK(a.s.text == "text", "constructor", a.s.text);
		auto c = nytl::clone(static_cast<const Base&>(a));
		VH_CHECK(c->v == a.v && c->s.text == "text", "constructor", c->v);
		viaBase<Base>(rng, a, "ctor");
		viaBase<A>(rng, a, "ctor");
	});
	return vh::finish();
}
