// C08: functions of a RecursiveCallback that own something whose destructor uses the callback again.
#include <cstdint>
#include "common.hpp"
#include <nytl/recursiveCallback.hpp>
#include <memory>
#include <algorithm>

#if PART == 0
using CB = nytl::RecursiveCallback<void(int)>;
#elif PART == 1
using CB = nytl::RecursiveCallback<int(int)>;
#elif PART == 2
using CB = nytl::TrackedRecursiveCallback<void(int)>;
#elif PART == 3
using CB = nytl::TrackedRecursiveCallback<int(int)>;
#endif
constexpr bool tracked = PART >= 2;
using Ret = std::conditional_t<PART % 2, int, void>;
using Conn = CB::Connection;
using Unique = nytl::UniqueConnectionT<std::decay_t<decltype(*std::declval<Conn&>().connectable())>, std::decay_t<decltype(std::declval<Conn&>().id())>>;

struct Stop {};
struct Monitor {
	vh::Rng& r;
	int budget, maxDepth;
	bool throws;
	std::unique_ptr<CB> owner {std::make_unique<CB>()};
	CB* cb {owner.get()};
	struct Fn { Conn conn; bool alive = true; };
	std::vector<Fn> fns;
	std::vector<int> reg, running;
	struct Frame { std::vector<int> snap; std::size_t pos = 0; };
	std::vector<Frame> frames;
	bool dying = false, bad = false;
	int inDestructor = 0;
	std::string trace;
	vh::Hash hash;
	std::uint64_t destructorOps = 0, deaths = 0;

	Monitor(vh::Rng& rng, int ops, int depth, bool t) : r(rng), budget(ops), maxDepth(depth), throws(t) {}

	bool expect(bool ok, const char* what, const std::string& msg) {
		VH_CHECK(ok, what, msg << " | " << trace.substr(0, 1500));
		if(!ok) bad = true;
		return ok;
	}
	void log(const char* n, int k = -1) {
		hash.adds(n).add(std::uint64_t(k + 1)).add(frames.size()).add(std::uint64_t(inDestructor));
		if(trace.size() < 3000) { trace += inDestructor ? "~" : ""; trace += std::string(frames.size(), '>') + n; if(k >= 0) trace += "(" + std::to_string(k) + ")"; trace += ' '; }
	}
	bool isReg(int uid) const { return std::find(reg.begin(), reg.end(), uid) != reg.end(); }
	void unreg(int uid) { reg.erase(std::remove(reg.begin(), reg.end(), uid), reg.end()); }

	struct Owner { // destroyed together with the last copy of the function object
		Monitor* m; int uid; int target = -1; Unique unique {};
		Owner(Monitor* mon, int u) : m(mon), uid(u) {}
		Owner(const Owner&) = delete;
		~Owner() {
			m->died(uid);
			if(target >= 0 && !m->dying) {
				++m->inDestructor;
				++m->destructorOps;
				m->log("unique", target);
				m->unreg(target);
				unique.disconnect();
				--m->inDestructor;
			} else if(target >= 0) unique.release();
		}
	};

	void died(int uid) {
		++deaths;
		expect(fns[uid].alive, "destroyed-twice", "function " + std::to_string(uid));
		expect(!isReg(uid), "destroyed-while-registered", "function " + std::to_string(uid));
		for(auto x : running) expect(x != uid, "destroyed-while-running", "function " + std::to_string(uid));
		for(auto& f : frames) for(auto i = f.pos; i < f.snap.size(); ++i) expect(f.snap[i] != uid, "destroyed-before-run", "function " + std::to_string(uid));
		fns[uid].alive = false;
		log("died", uid);
		auto n = r.below(3);
		++inDestructor;
		for(std::size_t i = 0; i < n && budget > 0 && !bad; ++i) { ++destructorOps; try { op(); } catch(const std::runtime_error&) {} }
		--inDestructor;
	}

	std::function<Ret(int)> make(int uid) {
		auto o = std::make_shared<Owner>(this, uid);
		if(!reg.empty() && r.chance(1, 4)) { o->target = r.pick(reg); o->unique = Unique(fns[o->target].conn); }
		return [o, uid](int x) -> Ret { o->m->run(uid); return static_cast<Ret>(x + uid); };
	}
	void run(int uid) {
		if(!expect(!frames.empty() && frames.back().pos < frames.back().snap.size() && frames.back().snap[frames.back().pos] == uid, "wrong-function", "function " + std::to_string(uid) + " is run")) throw Stop {};
		++frames.back().pos;
		running.push_back(uid);
		struct Pop { std::vector<int>& v; ~Pop() { v.pop_back(); } } pop {running};
		auto n = r.below(3);
		try {
			for(std::size_t i = 0; i < n && budget > 0; ++i) op();
			if(throws && r.chance(1, 8)) { log("throw"); throw std::runtime_error("thrown"); }
		} catch(...) { // the call is over, nothing more is run
			frames.back().pos = frames.back().snap.size();
			throw;
		}
	}
	void add(bool assign) {
		int uid = int(fns.size());
		log(assign ? "assign" : "add", uid);
		auto f = make(uid);
		fns.push_back({});
		// functions that are added by destructors while assigning remain registered
		if(assign) reg.clear();
		auto c = assign ? (*cb = std::move(f)) : r.chance(1, 2) ? (*cb += std::move(f)) : cb->add(std::move(f));
		reg.push_back(uid);
		fns[uid].conn = c;
	}
	template<typename R = Ret> void call() {
		log("call");
		frames.push_back({reg});
		struct Pop { std::vector<Frame>& v; ~Pop() { v.pop_back(); } } pop {frames};
		auto depth = frames.size();
		auto arg = int(r.below(100));
		if constexpr(!std::is_void_v<R>) {
			std::vector<R> res = cb->call(arg);
			auto& f = frames[depth - 1];
			bool same = res.size() == f.snap.size();
			for(std::size_t i = 0; same && i < res.size(); ++i) same = res[i] == arg + f.snap[i];
			expect(same, "results", std::to_string(res.size()) + " results of " + std::to_string(f.snap.size()) + " functions");
		} else cb->call(arg);
		expect(frames.size() == depth, "frames", "monitor");
		expect(frames[depth - 1].pos == frames[depth - 1].snap.size(), "not-all-run", std::to_string(frames[depth - 1].pos) + " of " + std::to_string(frames[depth - 1].snap.size()) + " functions were run");
	}
	void op() {
		if(bad) throw Stop {};
		--budget;
		auto any = [&] { return int(r.below(fns.size())); };
		switch(r.below(dying ? 3 : 12)) {
			case 0: case 1: if(!fns.empty()) {
				int k = any();
				if(fns[k].conn.connectable() == nullptr) return; // added right now
				log("disconnect", k);
				bool was = isReg(k);
				if(tracked) expect(bool(fns[k].conn.connected()) == was, "connected", "connection of " + std::to_string(k));
				unreg(k);
				bool res = cb->disconnect(fns[k].conn.id());
				if(!tracked || was) expect(res == was, "disconnect", "returned " + std::to_string(res) + " for " + std::to_string(k));
			} break;
			case 2: case 3: case 4: if(int(frames.size()) < maxDepth) {
				if(r.chance(1, 3)) { call(); break; }
				try { call(); } catch(const std::runtime_error&) {} 
			} break;
			case 5: case 6: case 7: case 8: case 9: if(reg.size() < 40) add(false); break;
			case 10: log("clear"); reg.clear(); cb->clear(); break;
			case 11: if(r.chance(1, 3)) add(true); break;
		}
	}
	void top() {
		try {
			for(int i = 0; i < 5; ++i) add(false);
			while(budget > 0 && !bad) {
				try { op(); } catch(const std::runtime_error&) {}
				bool ok = true;
				for(std::size_t k = 0; k < fns.size(); ++k) ok &= fns[k].alive == isReg(int(k));
				expect(ok, "not-destroyed", "other functions live than are registered");
			}
			if(!bad) { budget = 20; dying = true; log("destroy"); reg.clear(); }
		} catch(const Stop&) {}
		if(bad) { (void) owner.release(); return; }
		owner.reset();
		bool ok = true;
		for(auto& f : fns) ok &= !f.alive;
		expect(ok, "not-destroyed", "functions outlive the callback");
		vh::count("destructor_operations", destructorOps);
		vh::count("functions_destroyed", deaths);
		if(destructorOps) vh::nontrivial(hash.v);
		vh::sample(trace.substr(0, 300), 4);
	}
};

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::QuietCerr q;
	vh::section("owners-small", 5000, 250000, [](vh::Rng& r, std::uint64_t) { Monitor m(r, 12, 3, false); m.top(); });
	vh::section("owners", 1500, 80000, [](vh::Rng& r, std::uint64_t) { Monitor m(r, 60, 5, false); m.top(); });
	vh::section("owners-throw", 1000, 50000, [](vh::Rng& r, std::uint64_t) { Monitor m(r, 60, 5, true); m.top(); });
	vh::section("owners-many", 40, 1500, [](vh::Rng& r, std::uint64_t) { Monitor m(r, 1500, 8, false); m.top(); });
	return vh::finish();
}
