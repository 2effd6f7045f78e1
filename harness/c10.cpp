// C10: random trees of scopes with guards, executed for real and by a model.
#include "common.hpp"
#include <nytl/scope.hpp>
#include <functional>
#include <memory>

struct Ex { int id; };
struct StdEx : std::runtime_error { int id; StdEx(int i) : std::runtime_error("failed with text"), id(i) {} };

struct Node;
struct Guard {
	int id;
	int kind; // 0 scope, 1 success, 2 exception
	int unset; // 0 no, 1 at once, 2 after the inner scope completed normally
	int form; // 0 rvalue lambda, 1 lvalue lambda, 2 lvalue std::function replaced later, 3 rvalue std::function, 4 heap
	bool throws; // the function throws
	int throwKind;
	std::unique_ptr<Node> inner; // what the function runs (scopes of its own)
	bool innerCatches = true;
};

struct Node {
	std::vector<Guard> guards;
	std::vector<std::unique_ptr<Node>> children;
	std::vector<bool> catches; // around the child
	int end; // 0 normal, 1 throw Ex, 2 throw StdEx, 3 throw int, 4 early return
	std::size_t endAt; // after how many children
};

int guardCount;

std::unique_ptr<Node> make(vh::Rng& r, int depth, int& budget) {
	auto n = std::make_unique<Node>();
	--budget;
	auto g = r.below(4);
	for(auto i = 0u; i < g; ++i) {
		Guard gd;
		gd.id = guardCount++;
		gd.kind = int(r.below(3));
		gd.unset = r.chance(1, 5) ? 1 + int(r.below(2)) : 0;
		gd.form = int(r.below(5));
		gd.throws = r.chance(1, 5);
		gd.throwKind = int(r.below(3));
		gd.innerCatches = r.chance(3, 4);
		if(depth > 0 && budget > 0 && r.chance(1, 3)) gd.inner = make(r, depth - 1, budget);
		n->guards.push_back(std::move(gd));
	}
	auto c = depth > 0 ? r.below(4) : 0;
	for(auto i = 0u; i < c && budget > 0; ++i) {
		n->children.push_back(make(r, depth - 1, budget));
		n->catches.push_back(r.chance(1, 2));
	}
	n->end = r.chance(1, 2) ? 0 : int(r.below(5));
	n->endAt = r.below(n->children.size() + 1);
	return n;
}

// --- real execution ---
std::vector<int> gLog;

[[noreturn]] void doThrow(int kind) {
	if(kind == 0) throw Ex {1};
	if(kind == 1) throw StdEx(2);
	throw 3;
}

void exec(Node& n);
void fire(Guard& g) {
	gLog.push_back(g.id);
	if(g.inner) {
		if(g.innerCatches) { try { exec(*g.inner); } catch(...) { gLog.push_back(-g.id - 1000); } }
		else exec(*g.inner);
		gLog.push_back(g.id + 100000);
	}
	if(g.throws) doThrow(g.throwKind);
}

void guards(Node& n, std::size_t i);

template<typename G> void inScope(G& g, Guard& gd, Node& n, std::size_t i) {
	if(gd.unset == 1) g.unset();
	guards(n, i + 1);
	if(gd.unset == 2) g.unset();
}

template<template<typename> class G> void withGuard(Guard& gd, Node& n, std::size_t i) {
	switch(gd.form) {
		case 0: { G g([&] { fire(gd); }); inScope(g, gd, n, i); break; }
		case 1: { auto f = [&] { fire(gd); }; G g(f); inScope(g, gd, n, i); break; }
		case 2: {
			std::function<void()> f = [&] { gLog.push_back(-99); }; // must never run
			G g(f);
			f = [&] { fire(gd); };
			inScope(g, gd, n, i);
			break;
		}
		case 3: { G g(std::function<void()>([&] { fire(gd); })); inScope(g, gd, n, i); break; }
		case 4: {
			auto f = [&] { fire(gd); };
			auto g = std::make_unique<G<decltype(f)&>>(f);
			inScope(*g, gd, n, i);
			break;
		}
	}
}

template<typename F> class AllGuard : public nytl::ScopeGuard<F> { public: using nytl::ScopeGuard<F>::ScopeGuard; };
template<typename F> AllGuard(F&&) -> AllGuard<F>;

void body(Node& n) {
	for(std::size_t i = 0; ; ++i) {
		if(i == n.endAt && n.end) {
			if(n.end == 4) return;
			doThrow(n.end - 1);
		}
		if(i >= n.children.size()) break;
		if(n.catches[i]) { try { exec(*n.children[i]); } catch(...) { gLog.push_back(-1); } }
		else exec(*n.children[i]);
	}
}

void guards(Node& n, std::size_t i) {
	if(i == n.guards.size()) { body(n); return; }
	auto& gd = n.guards[i];
	if(gd.kind == 0) {
		// ScopeGuard has further template parameters
		if(gd.form == 0) { nytl::ScopeGuard g([&] { fire(gd); }); inScope(g, gd, n, i); }
		else if(gd.form == 1) { auto f = [&] { fire(gd); }; nytl::ScopeGuard g(f); inScope(g, gd, n, i); }
		else withGuard<AllGuard>(gd, n, i);
	}
	else if(gd.kind == 1) withGuard<nytl::SuccessGuard>(gd, n, i);
	else withGuard<nytl::ExceptionGuard>(gd, n, i);
}

void exec(Node& n) { guards(n, 0); }

// --- model ---
std::vector<int> mLog;
unsigned mFired, mDuringUnwind, mEscaped, mText;

bool sim(Node& n, int unwinding); // returns whether it is left by an exception
bool simFire(Guard& g, int unwinding) {
	mLog.push_back(g.id);
	++mFired;
	if(unwinding) ++mDuringUnwind;
	if(g.inner) {
		bool t = sim(*g.inner, unwinding);
		if(t && g.innerCatches) mLog.push_back(-g.id - 1000);
		else if(t) { ++mEscaped; return true; }
		mLog.push_back(g.id + 100000);
	}
	if(g.throws) { ++mEscaped; mText += g.throwKind == 1; }
	return g.throws;
}

bool simBody(Node& n, int unwinding) {
	for(std::size_t i = 0; ; ++i) {
		if(i == n.endAt && n.end) return n.end != 4;
		if(i >= n.children.size()) return false;
		bool t = sim(*n.children[i], unwinding);
		if(t && !n.catches[i]) return true;
		if(t) mLog.push_back(-1);
	}
}

bool simGuards(Node& n, std::size_t i, int unwinding) {
	if(i == n.guards.size()) return simBody(n, unwinding);
	auto& g = n.guards[i];
	bool t = simGuards(n, i + 1, unwinding);
	bool unset = g.unset == 1 || (g.unset == 2 && !t);
	if(!unset && (g.kind == 0 || (g.kind == 1 && !t) || (g.kind == 2 && t))) {
		simFire(g, unwinding + t); // its exceptions are swallowed
	}
	return t;
}

bool sim(Node& n, int unwinding) { return simGuards(n, 0, unwinding); }

void freeFunc();
int gFree = 0;
void freeFunc() { ++gFree; }

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::QuietCerr q;
	vh::section("trees", 20000, 1000000, [&](vh::Rng& rng, std::uint64_t) {
		guardCount = 1;
		int budget = 1 + int(rng.below(25));
		auto root = make(rng, 5, budget);
		gLog.clear(); mLog.clear();
		mFired = mDuringUnwind = mEscaped = mText = 0;
		bool thrown = false;
		const auto uncaught = std::uncaught_exceptions();
		try { exec(*root); } catch(...) { thrown = true; }
		VH_CHECK(std::uncaught_exceptions() == uncaught, "uncaught", std::uncaught_exceptions());
		bool want = sim(*root, 0);
		VH_CHECK(thrown == want, "exception", "left by exception: " << thrown << ", expected " << want);
		if(gLog != mLog) {
			std::size_t i = 0;
			while(i < gLog.size() && i < mLog.size() && gLog[i] == mLog[i]) ++i;
			std::string a = i < gLog.size() ? std::to_string(gLog[i]) : "end", b = i < mLog.size() ? std::to_string(mLog[i]) : "end";
			VH_CHECK(false, "wrong-guards-run", "event " << i << " of " << mLog.size() << " is " << a << ", expected " << b);
		}
		++vh::run().checks;
		vh::count("guards_run", mFired);
		vh::count("guards_run_during_unwinding", mDuringUnwind);
		auto text = q.take();
		VH_CHECK(text.empty() == (mEscaped == 0), "report", mEscaped << " functions were left by an exception, cerr: " << text);
		VH_CHECK(!mText || text.find("failed with text") != std::string::npos, "report", "what() of the exception is not reported: " << text);
		vh::count("reported_exceptions", mEscaped);
		vh::Hash h;
		for(auto e : mLog) h.add(std::uint64_t(e));
		if(mFired >= 2) vh::nontrivial(h.v);
		if(mDuringUnwind) {
			std::string s;
			for(auto e : mLog) s += std::to_string(e) + " ";
			vh::sample("events: " + s.substr(0, 160), 4);
		}
	});

	// lvalues are used as they are when the scope is left, rvalues are copied
	vh::section("lvalues", 500, 20000, [&](vh::Rng& rng, std::uint64_t) {
		int a = 0, b = 0;
		struct Counter { int n = 0; void operator()() { ++n; } };
		Counter c;
		bool thr = rng.chance(1, 2);
		auto kind = rng.below(3);
		void (*ptr)() = [] {};
		gFree = 0;
		try {
			std::function<void()> f = [&] { a += 1; };
			auto go = [&](auto&&... g) { (void) std::initializer_list<int>{(void(g), 0)...}; f = [&] { a += 100; }; ptr = freeFunc; c.n += 10; if(thr) throw 1; };
			if(kind == 0) { nytl::ScopeGuard g1(f); nytl::ScopeGuard g2(c); nytl::ScopeGuard g3(ptr); go(g1); }
			else if(kind == 1) { nytl::SuccessGuard g1(f); nytl::SuccessGuard g2(c); nytl::SuccessGuard g3(ptr); go(g1); }
			else { nytl::ExceptionGuard g1(f); nytl::ExceptionGuard g2(c); nytl::ExceptionGuard g3(ptr); go(g1); }
		} catch(int) { b = 1; }
		bool runs = kind == 0 || (kind == 1) == !thr;
		VH_CHECK(a == (runs ? 100 : 0), "lvalue", "a is " << a);
		VH_CHECK(c.n == 10 + (runs ? 1 : 0), "lvalue", "counter is " << c.n);
		VH_CHECK(gFree == (runs ? 1 : 0), "lvalue", "function pointer run " << gFree);
		VH_CHECK(b == thr, "exception", "");
		// rvalue: state captured at construction
		int seen = -1;
		{
			int v = 1;
			std::function<void()> f = [&seen, v] { seen = v; };
			nytl::ScopeGuard g(std::move(f));
			f = [&seen] { seen = 77; };
			v = 2;
		}
		VH_CHECK(seen == 1, "rvalue", seen);
	});

	// Guards created while another exception is in flight but destroyed
	// afterwards: their scope is not left by an exception.
	vh::section("outlive-unwinding", 500, 20000, [&](vh::Rng& rng, std::uint64_t) {
		int s = 0, e = 0, all = 0;
		auto fs = [&] { ++s; }; auto fe = [&] { ++e; }; auto fa = [&] { ++all; };
		std::unique_ptr<nytl::SuccessGuard<decltype(fs)&>> gs;
		std::unique_ptr<nytl::ExceptionGuard<decltype(fe)&>> ge;
		std::unique_ptr<nytl::ScopeGuard<decltype(fa)&>> ga;
		bool unset = rng.chance(1, 3);
		struct D { std::function<void()> f; ~D() { f(); } };
		try {
			D d {[&] {
				gs = std::make_unique<nytl::SuccessGuard<decltype(fs)&>>(fs);
				ge = std::make_unique<nytl::ExceptionGuard<decltype(fe)&>>(fe);
				ga = std::make_unique<nytl::ScopeGuard<decltype(fa)&>>(fa);
				if(unset) { gs->unset(); ge->unset(); ga->unset(); }
			}};
			throw 1;
		} catch(int) {}
		gs.reset(); ge.reset(); ga.reset();
		VH_CHECK(s == !unset && all == !unset, "outlived", "success " << s << " scope " << all);
		VH_CHECK(e == 0, "outlived", "exception guard run " << e);
	});
	return vh::finish();
}
