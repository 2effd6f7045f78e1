// C03: arguments and results of calls for many signatures.
#include "common.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <tuple>
#include <memory>
#include <deque>

struct Big {
	std::string name;
	double values[12] {};
	std::vector<int> data;
	std::shared_ptr<int> shared;
	bool operator==(const Big& o) const {
		return name == o.name && std::equal(std::begin(values), std::end(values), std::begin(o.values)) &&
			data == o.data && shared == o.shared;
	}
};

enum class Color : std::uint8_t { r = 1, g = 2, b = 250 };
struct Pod { char c; std::int64_t i; float f; bool operator==(const Pod& o) const { return c == o.c && i == o.i && f == o.f; } };
struct Base { virtual ~Base() = default; virtual int id() const { return 1; } };
struct Derived : Base { int v = 0; int id() const override { return v; } };

// --- random values ---
template<typename T> struct Gen;
template<> struct Gen<int> { static int make(vh::Rng& r) { return int(r.next()); } };
template<> struct Gen<bool> { static bool make(vh::Rng& r) { return r.chance(1, 2); } };
template<> struct Gen<char> { static char make(vh::Rng& r) { return char(r.next()); } };
template<> struct Gen<double> { static double make(vh::Rng& r) { return r.uniform(-1e9, 1e9); } };
template<> struct Gen<float> { static float make(vh::Rng& r) { return float(r.uniform(-1e9, 1e9)); } };
template<> struct Gen<long double> { static long double make(vh::Rng& r) { return (long double)(r.next()) / 3; } };
template<> struct Gen<std::uint64_t> { static std::uint64_t make(vh::Rng& r) { return r.next(); } };
template<> struct Gen<short> { static short make(vh::Rng& r) { return short(r.next()); } };
template<> struct Gen<Color> { static Color make(vh::Rng& r) { const Color c[] = {Color::r, Color::g, Color::b}; return c[r.below(3)]; } };
template<> struct Gen<Pod> { static Pod make(vh::Rng& r) { return {char(r.next()), std::int64_t(r.next()), float(r.unit())}; } };
template<> struct Gen<std::string> { static std::string make(vh::Rng& r) {
	std::string s(1 + r.below(r.chance(1, 3) ? 200 : 14), 'a');
	for(auto& c : s) c = char('a' + r.below(26));
	return s;
} };
template<typename T> struct Gen<std::vector<T>> { static std::vector<T> make(vh::Rng& r) {
	std::vector<T> v(1 + r.below(30));
	for(auto& x : v) x = Gen<T>::make(r);
	return v;
} };
template<> struct Gen<std::shared_ptr<int>> { static std::shared_ptr<int> make(vh::Rng& r) { return std::make_shared<int>(int(r.next())); } };
template<> struct Gen<std::unique_ptr<int>> { static std::unique_ptr<int> make(vh::Rng& r) { return std::make_unique<int>(int(r.next())); } };
template<> struct Gen<Big> { static Big make(vh::Rng& r) {
	Big b;
	b.name = Gen<std::string>::make(r);
	for(auto& v : b.values) v = r.unit();
	b.data = Gen<std::vector<int>>::make(r);
	b.shared = std::make_shared<int>(3);
	return b;
} };

// destroys a value (what a function may do with its own by-value parameter)
template<typename T> void ruin(T& t) { t = T {}; }

template<typename... A> std::tuple<A...> genTuple(vh::Rng& r) { return std::tuple<A...>{Gen<A>::make(r)...}; }

// --- by-value arguments ---
template<typename CB> struct SigOf;
template<template<typename, typename> class C, typename R, typename... A, typename ID>
struct SigOf<C<R(A...), ID>> {
	using Ret = R;
	using Args = std::tuple<A...>;
	using Conn = typename C<R(A...), ID>::Connection;
	static constexpr bool recursive = std::is_same_v<C<R(A...), ID>, nytl::RecursiveCallback<R(A...), ID>>;

	template<typename F> static std::function<R(A...)> normal(F f) { return std::function<R(A...)>(f); }
	template<typename F> static std::function<R(Conn, A...)> conn(F f) { return std::function<R(Conn, A...)>(f); }
};

template<typename CB, typename... A>
void byValue(vh::Rng& rng) {
	using S = SigOf<CB>;
	using R = typename S::Ret;
	using Conn = typename S::Conn;
	using Tup = std::tuple<A...>;
	static_assert(std::is_same_v<Tup, typename S::Args>);

	auto n = rng.chance(1, 12) ? 100 + rng.below(100) : 1 + rng.below(7);
	CB cb;
	struct Seen { int fn; Tup args; };
	std::deque<Seen> seen;
	std::deque<R> returned;
	std::vector<Conn> conns;
	std::vector<bool> alive;
	int nested = 0;
	vh::Hash h;

	auto result = [&](int k) -> R {
		auto r = Gen<R>::make(rng);
		returned.push_back(r);
		(void) k;
		return r;
	};
	auto doNested = [&] {
		// a nested call with other arguments must not change those of the outer one
		if constexpr(S::recursive) {
			if(nested < 2 && n < 10 && rng.chance(1, 8)) {
				++nested;
				auto keepSeen = seen; auto keepRet = returned;
				seen.clear(); returned.clear();
				auto other = genTuple<A...>(rng);
				auto ret = std::apply([&](auto... a) { return cb(a...); }, other);
				for(auto& s : seen) VH_CHECK(s.args == other, "nested-argument", "nested call: wrong arguments");
				seen = keepSeen; returned = keepRet;
				--nested;
			}
		}
	};

	for(auto i = 0u; i < n; ++i) {
		int k = int(i);
		auto kind = rng.below(S::recursive ? 6 : 4);
		h.add(kind);
		alive.push_back(true);
		switch(kind) {
			case 0:
				conns.push_back(cb.add(S::normal([&, k](const A&... a) -> R { doNested(); seen.push_back({k, Tup(a...)}); return result(k); })));
				break;
			case 1:
				conns.push_back(cb.add(S::normal([&, k](A... a) -> R { seen.push_back({k, Tup(a...)}); (ruin(a), ...); return result(k); })));
				break;
			case 2: // steals its parameters
				conns.push_back(cb.add(S::normal([&, k](A&&... a) -> R { seen.push_back({k, Tup(std::move(a)...)}); return result(k); })));
				break;
			case 3:
				conns.push_back(cb += [&, k](A... a) -> R { seen.push_back({k, Tup(a...)}); doNested(); Tup stolen(std::move(a)...); return result(k); });
				break;
			default:
				if constexpr(S::recursive) {
					conns.push_back(cb.add(S::conn([&, k](Conn c, A... a) -> R {
						VH_CHECK(c.connectable() == &cb, "connection-parameter", "refers to other object");
						VH_CHECK(c.connected(), "connection-parameter", "not connected");
						VH_CHECK(c.id().get() == conns[k].id().get(), "connection-parameter", "has id " << c.id().get() <<
							" instead of " << conns[k].id().get());
						seen.push_back({k, Tup(a...)});
						(ruin(a), ...);
						if(!nested && rng.chance(1, 5)) {
							c.disconnect();
							alive[k] = false;
						}
						return result(k);
					})));
				}
		}
	}

	auto calls = 1 + rng.below(3);
	for(auto i = 0u; i < calls; ++i) {
		seen.clear();
		returned.clear();
		std::vector<int> want;
		for(auto k = 0u; k < n; ++k) if(alive[k]) want.push_back(int(k));
		auto args = genTuple<A...>(rng);
		auto how = rng.below(3);
		auto keep = args;
		std::vector<R> ret;
		if(how == 0) ret = std::apply([&](auto&... a) { return cb.call(a...); }, args); // from lvalues
		else if(how == 1) ret = std::apply([&](auto&... a) { return cb(a...); }, args);
		else ret = std::apply([&](auto... a) { return cb(std::move(a)...); }, args);
		VH_CHECK(args == keep, "caller-changed", "arguments of the caller were changed");
		VH_CHECK(seen.size() == want.size(), "missed", seen.size() << " functions were run instead of " << want.size());
		for(auto k = 0u; k < seen.size() && k < want.size(); ++k) {
			VH_CHECK(seen[k].fn == want[k], "order", "function " << seen[k].fn << " at position " << k);
			VH_CHECK(seen[k].args == args, "argument", "function " << k << " of " << want.size() << " received other arguments than passed");
		}
		VH_CHECK(ret.size() == returned.size(), "results", ret.size() << " results of " << returned.size() << " functions");
		for(auto k = 0u; k < ret.size() && k < returned.size(); ++k) {
			VH_CHECK(R(ret[k]) == returned[k], "results", "result " << k << " of " << ret.size() << " differs from what was returned");
		}
		vh::count("arguments_compared", seen.size() * sizeof...(A));
		if constexpr(S::recursive) {
			for(auto k = 0u; k < n; ++k) {
				if(!alive[k]) VH_CHECK(!cb.disconnect(conns[k].id()), "self-disconnect", "still registered");
			}
		}
	}
	if(n >= 2) vh::nontrivial(h.add(rng.next()).v);
	if(n >= 2 && rng.chance(1, 60)) vh::sample(std::to_string(n) + " functions, " + std::to_string(sizeof...(A)) + " arguments by value, " + std::to_string(seen.size()) + " argument lists compared in the last call", 3);
}

// --- references, rvalues and pointers ---
template<template<typename, typename> class C>
void references(vh::Rng& rng) {
	using ID = nytl::ConnectionID;
	auto n = 1 + int(rng.below(9));
	vh::Hash h;
	{
		C<void(int&, std::string&, Big&, std::vector<int>&), ID> cb;
		int num = 1; std::string str; Big big; std::vector<int> vec;
		std::string wantStr; int wantNum = 1;
		for(int k = 0; k < n; ++k) {
			auto kind = rng.below(3);
			auto mul = int(rng.below(5)) + 1;
			wantNum = (wantNum * mul + k) % 1000003;
			wantStr += char('a' + k);
			auto body = [&, k, mul](int& i, std::string& s, Big& b, std::vector<int>& v) {
				VH_CHECK(&i == &num && &s == &str && &b == &big && &v == &vec, "reference", "function " << k << " got references to other objects");
				VH_CHECK(int(s.size()) == k && int(v.size()) == k, "modification-lost", "function " << k << " does not see earlier modifications");
				i = (i * mul + k) % 1000003;
				s += char('a' + k);
				b.name += s;
				v.push_back(k);
			};
			if(kind == 0) cb.add(std::function<void(int&, std::string&, Big&, std::vector<int>&)>(body));
			else if(kind == 1) cb += [body](auto&... a) { body(a...); };
			else {
				if constexpr(std::is_same_v<C<void(), ID>, nytl::RecursiveCallback<void(), ID>>) {
					using Conn = typename C<void(int&, std::string&, Big&, std::vector<int>&), ID>::Connection;
					cb.add(std::function<void(Conn, int&, std::string&, Big&, std::vector<int>&)>(
						[body](Conn, int& i, std::string& s, Big& b, std::vector<int>& v) { body(i, s, b, v); }));
				} else cb += body;
			}
		}
		if(rng.chance(1, 2)) cb(num, str, big, vec); else cb.call(num, str, big, vec);
		VH_CHECK(num == wantNum && str == wantStr && int(vec.size()) == n, "caller-not-modified", "modifications by the functions were lost");
		h.add(wantNum);
	}
	{ // const references keep the identity, polymorphic arguments are not sliced
		C<int(const Big&, const Base&, Base*, const char*), ID> cb;
		auto big = Gen<Big>::make(rng);
		auto copy = big;
		Derived d; d.v = int(rng.below(100000));
		const char* lit = "text";
		for(int k = 0; k < n; ++k) {
			cb += [&, k](const Big& b, const Base& base, Base* ptr, const char* s) {
				VH_CHECK(&b == &big && &base == &d && ptr == &d && s == lit, "reference", "function " << k << " got other objects");
				VH_CHECK(b == copy && base.id() == d.v, "argument", "function " << k << ": object changed");
				return k + base.id();
			};
		}
		auto ret = cb(big, d, &d, lit);
		VH_CHECK(int(ret.size()) == n, "results", "wrong number of results");
		for(int k = 0; k < int(ret.size()); ++k) VH_CHECK(ret[k] == k + d.v, "results", "result " << k << " is " << ret[k]);
	}
	{ // rvalue references refer to the object of the caller
		C<void(std::string&&, std::unique_ptr<int>&&), ID> cb;
		auto str = Gen<std::string>::make(rng);
		auto copy = str;
		auto ptr = std::make_unique<int>(5);
		auto raw = ptr.get();
		for(int k = 0; k < n; ++k) {
			cb += [&, k](std::string&& s, std::unique_ptr<int>&& p) {
				VH_CHECK(&s == &str && &p == &ptr, "rvalue-reference", "function " << k << " got other objects");
				VH_CHECK(s == copy && p.get() == raw, "rvalue-moved", "function " << k << " got an object that was moved from");
			};
		}
		if(rng.chance(1, 2)) cb(std::move(str), std::move(ptr)); else cb.call(std::move(str), std::move(ptr));
		VH_CHECK(str == copy && ptr.get() == raw, "rvalue-moved", "the call moved from the arguments");
	}
	if constexpr(std::is_same_v<C<void(), ID>, nytl::RecursiveCallback<void(), ID>>) { // the same for functions that take their connection
		using CB1 = C<void(std::string&&, std::unique_ptr<int>&&), ID>;
		CB1 cb;
		auto str = Gen<std::string>::make(rng);
		auto copy = str;
		auto ptr = std::make_unique<int>(5);
		auto raw = ptr.get();
		int runs = 0;
		for(int k = 0; k < n; ++k) {
			std::function<void(typename CB1::Connection, std::string&&, std::unique_ptr<int>&&)> f = [&, k](typename CB1::Connection c, std::string&& s, std::unique_ptr<int>&& p) {
				VH_CHECK(c.connected(), "connection-parameter", "not connected");
				VH_CHECK(&s == &str && &p == &ptr, "rvalue-reference", "connection function " << k << " got other objects");
				VH_CHECK(s == copy && p.get() == raw, "rvalue-moved", "connection function " << k << " got an object that was moved from");
				++runs;
			};
			if(rng.chance(1, 2)) cb += f; else cb.add(std::move(f));
		}
		cb(std::move(str), std::move(ptr));
		VH_CHECK(runs == n && str == copy && ptr.get() == raw, "rvalue-moved", "the call moved from the arguments");

		using CB2 = C<std::unique_ptr<int>(std::unique_ptr<int>, int), ID>;
		CB2 cb2;
		int v = int(rng.next());
		std::function<std::unique_ptr<int>(typename CB2::Connection, std::unique_ptr<int>, int)> f = [&](typename CB2::Connection, std::unique_ptr<int> p, int i) {
			VH_CHECK(p && *p == v && i == 7, "move-only", "lost");
			return p;
		};
		cb2.add(f);
		auto ret = cb2(std::make_unique<int>(v), 7);
		VH_CHECK(ret.size() == 1 && ret[0] && *ret[0] == v, "move-only", "result lost");
		vh::count("connection_rvalues");
	}
	{ // types that can only be moved: one function receives it
		C<std::unique_ptr<int>(std::unique_ptr<int>, int), ID> cb;
		int v = int(rng.next());
		cb += [&](std::unique_ptr<int> p, int i) {
			VH_CHECK(p && *p == v && i == 7, "move-only", "lost");
			return p;
		};
		auto ret = rng.chance(1, 2) ? cb(std::make_unique<int>(v), 7) : cb.call(std::make_unique<int>(v), 7);
		VH_CHECK(ret.size() == 1 && ret[0] && *ret[0] == v, "move-only", "result lost");
	}
	{ // results that can only be moved
		C<std::unique_ptr<int>(int), ID> cb;
		for(int k = 0; k < n; ++k) cb += [k](int a) { return std::make_unique<int>(a + k); };
		auto a = int(rng.below(1000));
		auto ret = cb(a);
		VH_CHECK(int(ret.size()) == n, "results", "wrong number of results");
		for(int k = 0; k < int(ret.size()); ++k) VH_CHECK(ret[k] && *ret[k] == a + k, "results", "result " << k);
	}
	{ // no arguments, references as results (by pointer)
		C<const Big*(), ID> cb;
		std::vector<Big> bigs(n);
		for(int k = 0; k < n; ++k) cb += [&bigs, k] { return &bigs[k]; };
		auto ret = cb();
		for(int k = 0; k < n; ++k) VH_CHECK(ret[k] == &bigs[k], "results", "result " << k);
	}
	{ // bool results
		C<bool(int), ID> cb;
		std::vector<bool> want;
		auto m = n * 11;
		for(int k = 0; k < m; ++k) {
			bool b = rng.chance(1, 2);
			want.push_back(b);
			cb += [b](int) { return b; };
		}
		VH_CHECK(cb(1) == want, "results", "bool results differ");
	}
	{ // functions as arguments, implicit conversions like std::function
		C<double(const std::function<int(int)>&, short), ID> cb;
		for(int k = 0; k < n; ++k) cb += [k](const std::function<int(int)>& f, int s) { return f(k) + s; };
		auto ret = cb([](int i) { return i * 3; }, short(-5));
		for(int k = 0; k < n; ++k) VH_CHECK(ret[k] == k * 3 - 5, "results", "result " << k);
	}
	vh::nontrivial(h.add(rng.next()).v);
}

// function pointers, bind, member functions, functors with overloads
int freeFn(int a, const std::string& s) { return a * 2 + int(s.size()); }
struct Obj {
	int mul;
	int member(int a, const std::string& s) { return a * mul + int(s.size()); }
	int operator()(int a, const std::string& s) const { return a - mul + int(s.size()); }
};

template<template<typename, typename> class C>
void callables(vh::Rng& rng) {
	C<int(int, const std::string&), nytl::ConnectionID> cb;
	std::vector<std::function<int(int, const std::string&)>> want;
	Obj obj {int(rng.below(100))};
	std::vector<std::unique_ptr<Obj>> objs;
	auto n = 1 + rng.below(12);
	vh::Hash h;
	for(auto i = 0u; i < n; ++i) {
		auto k = rng.below(6);
		h.add(k);
		switch(k) {
			case 0: cb += freeFn; want.push_back(freeFn); break;
			case 1: cb += &freeFn; want.push_back(freeFn); break;
			case 2: cb += std::bind(&Obj::member, &obj, std::placeholders::_1, std::placeholders::_2);
				want.push_back([&](int a, const std::string& s) { return obj.member(a, s); }); break;
			case 3: { Obj o {int(i) * 7}; cb += o; want.push_back(o); break; }
			case 4: { const std::function<int(int, const std::string&)> f = Obj {int(i) * 3}; cb.add(f); want.push_back(f); break; }
			case 5: { int c = 0;
				cb += [c](int a, const std::string&) mutable { return a + c++; };
				want.push_back([c](int a, const std::string&) mutable { return a + c++; }); break; }
		}
	}
	for(auto r = 0u; r < 3; ++r) {
		int a = int(rng.below(1000));
		auto s = Gen<std::string>::make(rng);
		auto ret = cb(a, s);
		VH_CHECK(ret.size() == n, "results", "wrong number of results");
		for(auto i = 0u; i < n; ++i) {
			auto w = want[i](a, s);
			VH_CHECK(ret[i] == w, "results", "callable " << i << " returned " << ret[i] << " instead of " << w);
		}
	}
	vh::nontrivial(h.v);
}

#define SIG(name, R, ...) \
	vh::section(name, 500, 25000, [&](vh::Rng& r, std::uint64_t) { byValue<TYPE<R(__VA_ARGS__), IDT>, __VA_ARGS__>(r); });

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::QuietCerr q;
#if PART < 3
	#define TYPE nytl::Callback
#else
	#define TYPE nytl::RecursiveCallback
#endif
	#define IDT nytl::ConnectionID
#if PART % 3 == 0
	SIG("string", int, std::string)
	SIG("mixed", double, std::string, double, std::vector<std::string>)
#elif PART % 3 == 1
	SIG("big", std::string, Big, int)
	SIG("scalars", Pod, bool, char, short, float, double, long double)
	vh::section("callables", 400, 20000, [&](vh::Rng& r, std::uint64_t) { callables<TYPE>(r); });
#else
	SIG("shared", Big, std::shared_ptr<int>, Color, Pod, std::uint64_t)
	vh::section("references", 400, 20000, [&](vh::Rng& r, std::uint64_t) { references<TYPE>(r); });
#endif
	return vh::finish();
}
