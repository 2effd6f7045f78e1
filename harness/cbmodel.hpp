// Executable reference model for nytl::Callback / nytl::RecursiveCallback.
//
// Engine<CB> drives one callback object with a random program of operations,
// executed at top level and from inside the running functions, and compares
// everything observable with the model below:
//  - registered: uids in registration order
//  - frames: for each running call the snapshot of uids it has to run
// The monitors are grouped into categories, a check enables those that belong
// to its property. After the first mismatch of a disabled category about what
// was run the case is abandoned since model and object have diverged.
#pragma once
#include "common.hpp"
#include "oomstate.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <functional>
#include <memory>
#include <set>

namespace cbm {

enum Cat : unsigned {
	catOrder = 1, // order/exactly once/snapshot of invocations
	catSet = 2, // functions run by calls at quiescent points
	catRet = 4, // return values of calls
	catDisc = 8, // disconnect return values, connected()
	catId = 16, // id notification protocol
	catExc = 32, // exception propagation
	catLife = 64, // function object lifetimes
	catOom = 128, // failed registrations
};

struct Options {
	unsigned report = 0; // enabled categories
	unsigned maxOps = 40; // operations per program
	unsigned maxDepth = 5; // nested calls
	unsigned initial = 5; // functions registered at start
	bool reentrant = true; // operations from inside of functions
	bool throws = false;
	bool oom = false;
	bool climb = false; // reach the maximum depth quickly
	bool many = false; // prefer adding over removing
};

struct Abandon {}; // model and object diverged, stop this case

// --- id type that records the protocol of docs/callback.md ---
struct IdRec {
	std::int64_t initial = 0;
	std::int64_t value = 0;
	int uid = -1;
	unsigned setCalls = 0;
	unsigned removedCalls = 0;
	bool badSet = false; // set with value >= 0
	bool setAfterRemoved = false;
	bool removedWhilePending = false;
};

struct IdLog {
	std::vector<std::shared_ptr<IdRec>> recs;
	unsigned accessAfterRemoved = 0;
	std::function<bool(int uid)> pending; // whether uid may still be run
	static IdLog*& current() { static IdLog* l = nullptr; return l; }
};

struct LogID {
	std::shared_ptr<IdRec> rec;
	bool gone = false; // removed() was called on this very instance

	LogID() = default;
	LogID(std::int64_t v) : rec(std::make_shared<IdRec>()) {
		rec->initial = rec->value = v;
		if(IdLog::current()) IdLog::current()->recs.push_back(rec);
	}

	void set(std::int64_t v) noexcept {
		if(gone && IdLog::current()) ++IdLog::current()->accessAfterRemoved;
		if(!rec) return;
		++rec->setCalls;
		if(v >= 0) rec->badSet = true;
		if(rec->removedCalls) rec->setAfterRemoved = true;
		rec->value = v;
	}
	std::int64_t get() const noexcept {
		if(gone && IdLog::current()) ++IdLog::current()->accessAfterRemoved;
		return rec ? rec->value : 0;
	}
	void removed() noexcept {
		if(gone && IdLog::current()) ++IdLog::current()->accessAfterRemoved;
		gone = true;
		if(!rec) return;
		++rec->removedCalls;
		rec->value = 0;
		auto log = IdLog::current();
		if(log && log->pending && rec->uid >= 0 && log->pending(rec->uid)) {
			rec->removedWhilePending = true;
		}
	}
};

// --- lifetimes of captured state ---
struct LifeLog {
	std::map<int, int> live; // uid -> live instances
	bool negative = false;
	bool deadUse = false;
};

struct Token {
	static constexpr std::uint32_t alive = 0xA11FE001u, dead = 0xDEADDEADu;
	std::uint32_t magic = alive;
	int uid;
	LifeLog* log;
	unsigned runs = 0; // state of the function object that has to persist
	std::unique_ptr<char> mem; // makes leaks and double frees visible to ASan

	Token(int u, LifeLog* l) : uid(u), log(l), mem(new char(char(u))) { ++log->live[uid]; }
	Token(const Token& t) : uid(t.uid), log(t.log), runs(t.runs), mem(new char(char(t.uid))) {
		if(t.magic != alive) log->deadUse = true;
		++log->live[uid];
	}
	Token& operator=(const Token&) = delete;
	~Token() {
		if(magic != alive) log->deadUse = true;
		magic = dead;
		if(--log->live[uid] < 0) log->negative = true;
	}
	bool ok() const { return magic == alive && mem && *mem == char(uid); }
};

struct Thrown { // what functions throw
	int id;
};

struct ThrownStd : std::runtime_error {
	int id;
	ThrownStd(int i) : std::runtime_error("thrown"), id(i) {}
};

template<typename CB> struct Traits;
template<template<typename, typename> class C, typename R, typename ID>
struct Traits<C<R(int), ID>> {
	using Ret = R;
	using Id = ID;
	static constexpr bool recursive = std::is_same_v<C<R(int), ID>, nytl::RecursiveCallback<R(int), ID>>;
	static constexpr bool tracked = std::is_same_v<ID, nytl::TrackedConnectionID> || std::is_same_v<ID, LogID>;
	static constexpr bool logged = std::is_same_v<ID, LogID>;
};

// set by the harness that replaces operator new (c09)

inline std::vector<void*>& graveyard() { static auto* v = new std::vector<void*>(); return *v; }

template<typename CB>
class Engine {
public:
	using Tr = Traits<CB>;
	using Ret = typename Tr::Ret;
	using Id = typename Tr::Id;
	using Conn = typename CB::Connection;

	struct Sub {
		int uid;
		Conn conn;
		bool registered = true;
		bool bound = false; // conn is valid
		bool withConn = false;
		bool removedInside = false; // disconnected or cleared during a call
		std::int64_t value = 0;
		unsigned runs = 0;
	};

	struct Frame {
		std::vector<int> snapshot;
		std::size_t pos = 0;
		std::vector<int> returned;
		bool aborted = false; // left by an exception
		int arg = 0;
	};

	Options opt;
	vh::Rng& rng;
	std::unique_ptr<CB> cb;
	std::vector<std::unique_ptr<Sub>> subs; // index = uid
	std::vector<int> registered;
	std::vector<Frame> frames;
	std::vector<int> running; // uids of the running functions
	LifeLog life;
	IdLog idLog;
	unsigned ops = 0;
	unsigned invocations = 0;
	unsigned maxSeenDepth = 0;
	bool draining = false; // functions do nothing any more
	bool diverged = false;
	int registering = -1; // function of which the harness still holds copies
	int nextThrow = 1;
	int pendingThrow = 0; // id of the exception in flight
	vh::Hash hash;
	std::string trace; // for samples and messages
	static constexpr unsigned soft = catDisc | catId | catLife;
	unsigned softMismatches = 0;
	unsigned removedInCall = 0, addedInCall = 0, throwsDone = 0, oomDone = 0;

	Engine(vh::Rng& r, Options o) : opt(o), rng(r), cb(std::make_unique<CB>()) {
		IdLog::current() = &idLog;
		idLog.pending = [this](int uid) {
			for(auto& f : frames) {
				if(f.aborted) continue;
				for(auto i = f.pos; i < f.snapshot.size(); ++i) {
					if(f.snapshot[i] == uid) return true;
				}
			}
			return false;
		};
	}

	~Engine() { IdLog::current() = nullptr; }

	void note(const char* s, int uid = -1) {
		hash.add((std::uint64_t(unsigned(uid)) << 32) ^ vh::hashStr(s));
		if(trace.size() < 600) {
			trace += s;
			if(uid >= 0) { trace += '('; trace += std::to_string(uid); trace += ')'; }
			trace += ' ';
		}
	}

	// reports a mismatch
	template<typename M>
	bool expect(bool ok, Cat cat, const char* what, const M& msg) {
		++vh::run().checks;
		if(__builtin_expect(ok, 1)) return true;
		if(!(opt.report & cat) && (cat & soft)) {
			// another property's business; the model knows what has to
			// happen from here on nevertheless
			++softMismatches;
			return false;
		}
		diverged = true;
		if(opt.report & cat) {
			std::string text;
			if constexpr(std::is_convertible_v<M, std::string>) text = msg; else text = msg();
			vh::violation(what, text + " | program: " + trace);
		}
		return false;
	}

	Cat orderCat() const { return frames.size() <= 1 && draining ? catSet : catOrder; }

	// --- functions registered in the callback ---
	// with heap allocated, observed state
	struct Fn {
		Engine* e;
		Token tok;
		Ret operator()(int arg) { return e->template enter<Ret>(tok.uid, arg, &tok, nullptr, tok.runs); }
	};
	struct FnConn {
		Engine* e;
		Token tok;
		Ret operator()(Conn c, int arg) { return e->template enter<Ret>(tok.uid, arg, &tok, &c, tok.runs); }
	};
	// small and trivially copyable: stored inside of std::function
	struct FnSmall {
		Engine* e;
		int uid;
		unsigned runs = 0;
		Ret operator()(int arg) {
			// reading the object again shows whether it still exists
			struct After {
				const FnSmall* self; Engine* e; int uid;
				~After() {
					auto* vself = const_cast<const volatile FnSmall*>(self);
					if(vself->uid != uid || vself->e != e) {
						e->expect(false, catLife, "overwritten-while-running", "function object overwritten while it was running");
					}
				}
			} after {this, e, uid};
			return e->template enter<Ret>(uid, arg, nullptr, nullptr, runs);
		}
	};

	template<typename R>
	R enter(int uid, int arg, const Token* tok, Conn* conn, unsigned& runs) {
		// a call runs every registered function once: bounded by the operations of the program
		auto limit = 200000u + (opt.many ? 3u * (opt.maxOps + 10u) * (opt.initial + opt.maxOps) : 0u);
		if(++invocations > limit) {
			expect(false, catOrder, "runaway", "call never ends");
			throw Abandon {};
		}

		auto depth = frames.size();
		maxSeenDepth = std::max<unsigned>(maxSeenDepth, depth);
		if(!expect(depth > 0, catOrder, "run-without-call", "function run without call")) throw Abandon {};

		{
			auto& f = frames.back();
			int want = f.pos < f.snapshot.size() && !f.aborted ? f.snapshot[f.pos] : -1;
			if(want != uid) {
				bool inSnap = std::find(f.snapshot.begin(), f.snapshot.end(), uid) != f.snapshot.end();
				const char* what = want < 0 ? (inSnap ? "ran-twice" : "ran-not-in-snapshot") :
					(inSnap ? "wrong-order-or-skipped" : "ran-not-in-snapshot");
				expect(false, orderCat(), what, "call at depth " + std::to_string(depth) + " ran " +
					std::to_string(uid) + " expected " + std::to_string(want));
				throw Abandon {};
			}
			++f.pos;
			expect(arg == f.arg, catOrder, "argument", "wrong argument");
		}

		if(tok) expect(tok->ok(), catLife, "dead-object-run", "destroyed function object was run");
		expect(runs == subs[uid]->runs, catLife, "state-lost", "the function object run is not the registered one: state kept from earlier runs is missing");
		runs = ++subs[uid]->runs;
		if(conn) {
			auto& s = *subs[uid];
			expect(conn->connectable() == cb.get(), catDisc, "own-connection", "connection of other object");
			if(s.registered && s.bound) {
				expect(conn->id().get() == s.value, catDisc, "own-connection", "connection parameter has other id");
			}
			if(s.registered) {
				expect(conn->connected(), catDisc, "own-connection", "connection parameter of registered function not connected");
			}
			if(!diverged && opt.reentrant && !draining && rng.chance(1, 6)) {
				conn->disconnect();
				modelRemove(uid);
				++removedInCall;
				note("self-disc", uid);
				expect(!conn->connected() && !conn->connectable(), catDisc, "connection-not-empty", "connection not empty after disconnect");
			}
		}

		running.push_back(uid);
		struct Pop { Engine* e; ~Pop() { e->running.pop_back(); } } pop {this};

		if(!draining && !diverged && rng.chance(1, 16)) otherObject(arg);
		auto climb = [&] {
			if(!opt.climb || draining || diverged || depth + 2 < maxSeenDepth || depth >= opt.maxDepth || ops >= opt.maxOps) return;
			++ops;
			while(registered.size() < 3) add();
			call();
		};
		if(opt.climb && rng.chance(1, 2)) climb();
		if(opt.reentrant && !draining && !diverged) {
			unsigned n = rng.below(4);
			for(unsigned i = 0; i < n && ops < opt.maxOps; ++i) op();
		}
		if(opt.climb && rng.chance(4, 5)) climb();
		if(diverged) throw Abandon {};

		if(opt.throws && !draining && rng.chance(1, 6)) {
			doThrow();
		}

		if(tok) expect(tok->ok(), catLife, "destroyed-while-running", "function object destroyed while it was running");
		expect(frames.size() == depth, catOrder, "model", "model frames");
		if constexpr(!std::is_void_v<R>) {
			int ret = uid * 31 + arg;
			frames.back().returned.push_back(ret);
			return ret;
		}
	}

	// Running functions use other objects of the same type. Calls of different
	// objects must not influence each other.
	std::unique_ptr<CB> side;
	void otherObject(int arg) {
		if constexpr(!Tr::logged) {
			if(!side || rng.chance(1, 4)) { side.reset(); side = std::make_unique<CB>(); }
			auto& o = *side;
			std::vector<unsigned> seen;
			bool good = true, fails = opt.throws && rng.chance(1, 3);
			int value = int(rng.below(1000)) + arg, throwAt = fails ? int(rng.below(3)) : -1;
			if(rng.chance(1, 3)) { o.clear(); }
			std::vector<Conn> conns;
			auto n = 1 + rng.below(4);
			for(unsigned k = 0; k < n; ++k) conns.push_back(o.add(std::function<Ret(int)>([&, k](int x) -> Ret {
				good &= x == value;
				seen.push_back(k);
				if(int(k) == throwAt) throw Thrown {-1};
				if constexpr(!std::is_void_v<Ret>) return x + int(k) * 3;
			})));
			bool thrown = false;
			std::vector<int> ret;
			try { if constexpr(std::is_void_v<Ret>) o(value); else ret = o(value); }
			catch(const Thrown& t) { thrown = true; good &= t.id == -1; }
			unsigned want = throwAt >= 0 && throwAt < int(n) ? throwAt + 1 : n;
			good &= thrown == (want < n || (throwAt >= 0 && throwAt == int(n) - 1)) && seen.size() == want;
			for(unsigned k = 0; good && k < want; ++k) good &= seen[k] == k;
			if constexpr(!std::is_void_v<Ret>) if(!thrown) {
				good &= ret.size() == n;
				for(unsigned k = 0; good && k < n; ++k) good &= ret[k] == value + int(k) * 3;
			}
			expect(good, catOrder, "other-object", "call of another object from within a function: wrong order, arguments or results");
			for(auto& c : conns) expect(c.connected(), catDisc, "other-object", "connection to another object");
			for(auto& c : conns) expect(o.disconnect(c.id()), catDisc, "other-object", "disconnect of another object");
			vh::count("calls_of_other_objects");
		}
	}

	[[noreturn]] void doThrow() {
		pendingThrow = nextThrow++;
		frames.back().aborted = true;
		++throwsDone;
		note("throw", pendingThrow);
		switch(rng.below(3)) {
			case 0: throw Thrown {pendingThrow};
			case 1: throw ThrownStd(pendingThrow);
			default: throw pendingThrow;
		}
	}

	// --- model ---
	void modelRemove(int uid) {
		auto& s = *subs[uid];
		if(!s.registered) return;
		s.registered = false;
		s.removedInside = !frames.empty();
		registered.erase(std::find(registered.begin(), registered.end(), uid));
	}

	Sub& newSub() {
		int uid = int(subs.size());
		subs.push_back(std::make_unique<Sub>());
		subs.back()->uid = uid;
		subs.back()->registered = false;
		return *subs.back();
	}

	void bind(Sub& s, const Conn& conn) {
		s.conn = conn;
		s.bound = true;
		s.registered = true;
		s.value = conn.id().get();
		registered.push_back(s.uid);
		expect(conn.connected(), catDisc, "not-connected-after-add", "new connection not connected");
		expect(conn.connectable() == cb.get(), catDisc, "connectable", "connection refers to other object");
		expect(s.value > 0, catDisc, "id-not-positive", "new id not positive");
		for(auto& o : subs) {
			if(o->uid != s.uid && o->bound && o->value == s.value) {
				expect(false, catDisc, "id-reused", "id " + std::to_string(s.value) + " used twice");
			}
		}
		if constexpr(Tr::logged) {
			if(expect(conn.id().rec != nullptr, catId, "id-lost", "connection has no id")) conn.id().rec->uid = s.uid;
		}
	}

	// --- operations ---
	enum class Kind { plain, conn, small };

	template<typename F>
	void registerFn(Sub& s, F f, bool plusEq) {
		if(opt.oom) {
			// let every allocation during the registration fail once
			registering = s.uid;
			struct Reset { Engine* e; ~Reset() { e->registering = -1; } } reset {this};
			for(std::int64_t k = 1; ; ++k) {
				std::function<typename FnSig<F>::type> fn(f); // outside of the failing region
				failCountdown() = k;
				failHappened() = false;
				try {
					Conn c = plusEq ? (*cb += std::move(fn)) : cb->add(std::move(fn));
					failCountdown() = -1;
					bind(s, c);
					break;
				} catch(const std::bad_alloc&) {
					failCountdown() = -1;
					++oomDone;
					expect(failHappened(), catOom, "spurious-bad-alloc", "bad_alloc without failed allocation");
					checkTracked();
					if(frames.empty() && rng.chance(1, 2)) {
						bool old = draining;
						draining = true;
						topCall();
						draining = old;
					}
				}
				if(diverged) throw Abandon {};
			}
			return;
		}

		Conn c;
		if(plusEq) c = (*cb += std::move(f));
		else c = cb->add(std::function<typename FnSig<F>::type>(std::move(f)));
		bind(s, c);
	}

	template<typename F, typename = void> struct FnSig { using type = Ret(int); };
	template<typename D> struct FnSig<FnConn, D> { using type = Ret(Conn, int); };

	void add(bool assign = false) {
		auto& s = newSub();
		int kind = rng.below(Tr::recursive ? 3 : 2);
		bool plusEq = rng.chance(1, 3);
		static const char* const addNames[] = {"add0", "add1", "add2", "assign0", "assign1", "assign2"};
		note(addNames[(assign ? 3 : 0) + kind], s.uid);
		if(!frames.empty()) ++addedInCall;
		if(assign) {
			while(!registered.empty()) modelRemove(registered.back());
			Conn c;
			if(kind == 0) c = (*cb = Fn{this, Token(s.uid, &life)});
			else if(kind == 1) c = (*cb = FnSmall{this, s.uid});
			else {
				if constexpr(Tr::recursive) { s.withConn = true; c = (*cb = FnConn{this, Token(s.uid, &life)}); }
			}
			bind(s, c);
		} else {
			if(kind == 0) registerFn(s, Fn{this, Token(s.uid, &life)}, plusEq);
			else if(kind == 1) registerFn(s, FnSmall{this, s.uid}, plusEq);
			else {
				if constexpr(Tr::recursive) { s.withConn = true; registerFn(s, FnConn{this, Token(s.uid, &life)}, plusEq); }
			}
		}
	}

	Sub* randomSub(bool wantRegistered) {
		if(subs.empty()) return nullptr;
		if(wantRegistered && !registered.empty()) {
			// bias towards the ends
			auto k = rng.below(5);
			int uid = k == 0 ? registered.front() : k == 1 ? registered.back() : rng.pick(registered);
			return subs[uid].get();
		}
		return subs[rng.below(subs.size())].get();
	}

	void disconnect(bool wantRegistered) {
		auto* s = randomSub(wantRegistered);
		if(!s || !s->bound) return;
		bool was = s->registered;
		auto mode = rng.below(4);
		static const char* const discNames[] = {"disc0", "disc1", "disc2", "disc3", "gone0", "gone1", "gone2", "gone3"};
		note(discNames[mode + (was ? 0 : 4)], s->uid);
		if(!frames.empty() && was) ++removedInCall;
		if(mode == 0) {
			auto id = s->conn.id();
			modelRemove(s->uid);
			bool ret = cb->disconnect(id);
			expect(ret == was, catDisc, ret ? "disconnect-true-for-removed" : "disconnect-false-for-registered",
				[&]{ return "disconnect(" + std::to_string(s->uid) + ") returned " + std::to_string(ret); });
		} else if(mode == 1) {
			// through the base class interface
			nytl::ConnectableT<Id>& base = *cb;
			auto id = s->conn.id();
			modelRemove(s->uid);
			bool ret = base.disconnect(id);
			expect(ret == was, catDisc, ret ? "disconnect-true-for-removed" : "disconnect-false-for-registered",
				[&]{ return "disconnect(" + std::to_string(s->uid) + ") returned " + std::to_string(ret); });
		} else {
			Conn c = s->conn; // copy
			Conn other;
			if(mode == 3) { other = c; }
			modelRemove(s->uid);
			c.disconnect();
			expect(!c.connected() && c.connectable() == nullptr && c.id().get() == 0, catDisc,
				"connection-not-empty", "connection not empty after disconnect");
			c.disconnect(); // nothing
			if(mode == 3) {
				expect(other.connectable() == cb.get(), catDisc, "copy-changed", "copy of connection was changed");
				if constexpr(Tr::tracked) expect(!other.connected(), catDisc, "tracked-copy-connected", "tracked copy still connected");
				else expect(other.connected() && other.id().get() == s->value, catDisc, "copy-changed", "untracked copy was changed");
				other.disconnect();
			}
		}
		checkTracked();
		checkLife();
	}

	void clear() {
		note("clear");
		if(!frames.empty() && !registered.empty()) ++removedInCall;
		while(!registered.empty()) modelRemove(registered.back());
		cb->clear();
		checkTracked();
		checkLife();
	}

	// whether to check all subscriptions or just some of them
	unsigned checkCounter = 0;
	bool all() { return subs.size() < 40 || ++checkCounter % 32 == 0; }

	void checkTracked(bool full = false) {
		if constexpr(Tr::tracked) if(opt.report & catDisc) {
			bool every = full || all();
			auto n = every ? subs.size() : std::size_t(12);
			for(std::size_t i = 0; i < n; ++i) {
				auto& s = subs[every ? i : i < 6 ? subs.size() - 1 - i : rng.below(subs.size())];
				if(!s->bound) continue;
				if(s->conn.connected() != s->registered) {
					expect(false, catDisc, s->registered ? "tracked-lost" : "tracked-stale",
						"tracked connection " + std::to_string(s->uid) + " connected() == " +
						std::to_string(s->conn.connected()));
					break;
				}
				if(s->registered && s->conn.id().get() != s->value) {
					expect(false, catDisc, "tracked-value", "id value of registered function changed");
					break;
				}
			}
			++vh::run().checks;
		}
		if constexpr(Tr::logged) checkIds(false, full);
	}

	// only Callback: the public list of subscriptions
	void checkSubscriptions() {
		if constexpr(!Tr::recursive) if((opt.report & catSet) && frames.empty() && all()) {
			auto& list = cb->subscriptions();
			bool same = list.size() == registered.size();
			std::size_t i = 0;
			for(auto& l : list) {
				if(!same) break;
				auto& s = *subs[registered[i++]];
				same = l.func && l.id.get() == s.value;
			}
			expect(same, catSet, "subscriptions", [&]{ return "subscriptions() lists " + std::to_string(list.size()) +
				" entries, differs from the " + std::to_string(registered.size()) + " registered functions"; });
			if(same && rng.chance(1, 4)) {
				// run them by hand
				Frame f;
				f.snapshot = registered;
				f.arg = int(rng.below(1000));
				auto arg = f.arg;
				frames.push_back(f);
				for(auto& l : list) {
					if(opt.throws) break;
					l.func(arg);
				}
				expect(opt.throws || frames.back().pos == registered.size(), catSet, "subscriptions-run", "subscriptions() run other functions");
				frames.pop_back();
			}
		}
	}

	void checkIds(bool destroyed, bool full = false) {
		if constexpr(Tr::logged) if(opt.report & catId) {
			bool every = destroyed || full || all();
			auto n = every ? idLog.recs.size() : std::size_t(12);
			for(std::size_t i = 0; i < n && !idLog.recs.empty(); ++i) {
				auto& r = *idLog.recs[every ? i : rng.below(idLog.recs.size())];
				if(r.uid < 0) continue;
				auto& s = *subs[r.uid];
				auto str = [&]{ return std::to_string(r.uid); };
				if(r.badSet) expect(false, catId, "set-non-negative", "set called with non-negative value for " + str());
				if(r.setCalls && !s.registered && !s.removedInside) expect(false, catId, "set-outside-call", "set called although no call was running on removal: " + str());
				if(r.setAfterRemoved) expect(false, catId, "set-after-removed", "set after removed for " + str());
				if(r.removedCalls > 1) expect(false, catId, "removed-twice", "removed called " + std::to_string(r.removedCalls) + " times for " + str());
				if(r.removedWhilePending) expect(false, catId, "removed-while-pending", "removed called before the function ran its last time: " + str());
				if(s.registered && !destroyed && (r.setCalls || r.removedCalls || r.value != r.initial)) {
					expect(false, catId, "registered-notified", "id of registered function notified: " + str());
				}
				if(!s.registered && r.value > 0) expect(false, catId, "removal-not-observable", "id of removed function still positive: " + str());
				if(!s.registered && frames.empty() && r.removedCalls != 1) {
					expect(false, catId, "not-removed", "removed not called for " + str() + " although nothing is running");
				}
				if(destroyed && r.removedCalls != 1) {
					expect(false, catId, "not-removed", "removed called " + std::to_string(r.removedCalls) + " times until destruction: " + str());
				}
				if(diverged) break;
			}
			if(idLog.accessAfterRemoved) expect(false, catId, "access-after-removed", "id accessed after removed()");
			++vh::run().checks;
		}
	}

	void checkLife(bool full = false) {
		if(!(opt.report & catLife)) return;
		if(!full && !all()) return;
		if(life.negative) expect(false, catLife, "destroyed-twice", "function object destroyed twice");
		if(life.deadUse) expect(false, catLife, "dead-object-used", "destroyed function object used");
		if(!frames.empty()) {
			// may be deferred, but nothing that still has to run may be gone
			for(auto& f : frames) for(auto i = f.aborted ? f.snapshot.size() : f.pos; i < f.snapshot.size(); ++i) {
				auto it = life.live.find(f.snapshot[i]);
				if(it != life.live.end() && it->second <= 0) {
					expect(false, catLife, "destroyed-before-run", "function object destroyed before its last run");
					return;
				}
			}
			return;
		}
		for(auto& l : life.live) {
			if(l.first == registering) continue;
			if(subs[l.first]->registered && l.second <= 0) expect(false, catLife, "registered-destroyed", "registered function object was destroyed");
			if(!subs[l.first]->registered && l.second != 0) expect(false, catLife, "not-destroyed", "removed function object " + std::to_string(l.first) + " not destroyed");
		}
		++vh::run().checks;
	}

	// Calls the callback, checks snapshot and return value. Exceptions thrown
	// by functions propagate (after being checked).
	void call() {
		Frame f;
		f.snapshot = registered;
		f.arg = int(rng.below(1000));
		note("call{");
		frames.push_back(f);
		auto depth = frames.size();
		int arg = f.arg;
		bool op = rng.chance(1, 2);
		int caught = 0;
		try {
			if constexpr(std::is_void_v<Ret>) {
				if(op) (*cb)(arg); else cb->call(arg);
			} else {
				auto ret = op ? (*cb)(arg) : cb->call(arg);
				auto& fr = frames.back();
				bool same = ret.size() == fr.returned.size();
				for(std::size_t i = 0; same && i < ret.size(); ++i) same = ret[i] == fr.returned[i];
				expect(same && ret.size() == fr.snapshot.size(), catRet, "return-values", "returned values do not match the functions run");
			}
		} catch(Abandon&) {
			throw;
		} catch(const Thrown& t) {
			caught = t.id;
		} catch(const ThrownStd& t) {
			caught = t.id;
			expect(std::string(t.what()) == "thrown", catExc, "exception-changed", "exception changed");
		} catch(int i) {
			caught = i;
		} catch(const std::bad_function_call&) {
			expect(false, opt.oom ? catOom : catOrder, "empty-function-run", "call ran an empty function");
			throw Abandon {};
		}

		if(diverged) throw Abandon {};
		expect(frames.size() == depth, catOrder, "model", "frame depth");
		auto fr = std::move(frames.back());
		frames.pop_back();
		note("}");
		if(caught) {
			expect(caught == pendingThrow, catExc, "wrong-exception", "caught other exception than thrown");
			expect(fr.pos > 0, catExc, "exception-without-run", "exception although nothing was run");
			pendingThrow = 0;
		} else {
			expect(pendingThrow == 0, catExc, "exception-lost", "exception was swallowed by call");
			if(fr.pos != fr.snapshot.size()) {
				expect(false, frames.empty() && draining ? catSet : catOrder, "missed", "call at depth " + std::to_string(depth) +
					" ran only " + std::to_string(fr.pos) + " of " + std::to_string(fr.snapshot.size()) + " functions, missing " +
					std::to_string(fr.snapshot[fr.pos]));
			}
		}
		checkTracked();
		checkLife();
		if(diverged) throw Abandon {};

		if(caught && !frames.empty() && rng.chance(1, 2)) {
			// let the exception pass through the outer call as well
			pendingThrow = caught;
			frames.back().aborted = true;
			note("rethrow");
			throw Thrown {caught};
		}
	}

	void topCall() { call(); }

	void op() {
		// handed over to another thread and back: nothing may depend on the thread
		if(frames.empty() && rng.chance(1, 100)) {
			note("thread");
			vh::count("ops_in_threads");
			std::exception_ptr error;
			std::thread([&] { try { operation(); } catch(...) { error = std::current_exception(); } }).join();
			if(error) std::rethrow_exception(error);
			return;
		}
		operation();
	}

	void operation() {
		if(diverged) throw Abandon {};
		++ops;
		bool inside = !frames.empty();
		auto k = rng.below(opt.many ? 27 : 20);
		if(k == 26) { // remove many functions at once
			if(inside || rng.chance(1, 4)) for(auto n = rng.below(registered.size() / 2 + 1); n > 0 && !diverged; --n) disconnect(true);
			if(diverged) throw Abandon {};
			return;
		}
		if(k >= 20) { add(); return; }
		if(k < 5) add();
		else if(k < 9) disconnect(true);
		else if(k < 11) disconnect(false);
		else if(k == 11) { if(!opt.many || rng.chance(1, 8)) clear(); }
		else if(k == 12) add(true);
		else if(k == 13) addEmpty();
		else {
			if(inside && frames.size() >= opt.maxDepth) return;
			call();
		}
		checkSubscriptions();
		if(diverged) throw Abandon {};
	}

	void addEmpty() {
		bool thrown = false;
		note("addEmpty");
		try {
			switch(rng.below(3)) {
				case 0: cb->add(std::function<Ret(int)>{}); break;
				case 1: { Ret(*p)(int) = nullptr; *cb += p; break; }
				default:
					if constexpr(Tr::recursive) cb->add(std::function<Ret(Conn, int)>{});
					else cb->add(std::function<Ret(int)>{});
			}
		} catch(const std::invalid_argument&) {
			thrown = true;
		}
		expect(thrown, catSet, "empty-function-accepted", "adding an empty function did not throw invalid_argument");
	}

	// Runs a whole program. Returns whether model and object agreed.
	bool program() {
		try {
			auto n = rng.below(opt.initial + 1);
			for(unsigned i = 0; i < n; ++i) add();
			while(ops < opt.maxOps && !diverged) op();

			// quiescent: the registered functions are exactly those of the model
			draining = true;
			topCall();
			topCall();
			if(rng.chance(1, 2)) {
				while(!registered.empty() && rng.chance(4, 5)) {
					disconnect(true);
					if(diverged) break;
				}
				topCall();
			}
			if(diverged) throw Abandon {};

			checkTracked(true);
			checkLife(true);

			// destruction
			while(!registered.empty()) modelRemove(registered.back());
			cb.reset();
			if constexpr(Tr::tracked) {
				for(auto& s : subs) {
					if(s->bound && s->conn.connected()) {
						expect(false, catDisc, "tracked-after-destruction", "tracked connection still connected after destruction");
						break;
					}
				}
			}
			checkIds(true);
			checkLife(true);
			if(opt.report & catLife) for(auto& l : life.live) {
				if(l.second != 0) { expect(false, catLife, "leak", "function object not destroyed with the callback"); break; }
			}
		} catch(const Abandon&) {
			diverged = true;
		}

		if(diverged) {
			// avoid touching a possibly corrupted object again
			frames.clear();
			running.clear();
			draining = true;
			failCountdown() = -1;
			// kept alive on purpose, the run reports a violation or is abandoned
			if(cb) graveyard().push_back(cb.release());
			life.live.clear();
			idLog.pending = {};
			return false;
		}
		return true;
	}
};

// Runs one program and records coverage.
template<typename CB>
void runProgram(vh::Rng& rng, Options opt) {
	auto* e = new Engine<CB>(rng, opt); // leaked in the bad case
	bool ok = e->program();
	vh::count("operations", e->ops);
	vh::count("invocations", e->invocations);
	vh::count("functions_registered", e->subs.size());
	vh::count("removed_inside_calls", e->removedInCall);
	vh::count("added_inside_calls", e->addedInCall);
	vh::count("exceptions_thrown", e->throwsDone);
	vh::count("allocation_failures", e->oomDone);
	if(e->maxSeenDepth >= 2) vh::count("programs_with_nested_calls");
	if(!ok) vh::count("abandoned_programs");
	if(e->invocations >= 2 && (e->removedInCall || e->addedInCall || !opt.reentrant)) vh::nontrivial(e->hash.v);
	if(e->maxSeenDepth >= 100) vh::count("programs_nested_100_deep");
	if(e->maxSeenDepth >= 256) vh::count("programs_nested_256_deep");
	if(e->maxSeenDepth >= 2 || (!opt.reentrant && e->invocations >= 2)) vh::sample(e->trace.substr(0, 300), 6);
	if(ok) delete e;
	else {
		IdLog::current() = nullptr;
		graveyard().push_back(e);
	}
}

} // namespace cbm
