// C06: ownership of UniqueConnection, observed by a recording connectable and
// by real callbacks.
#include "common.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <optional>
#include <memory>
#include <set>

template<typename ID> struct Recorder : nytl::ConnectableT<ID> {
	std::vector<std::int64_t> log;
	bool disconnect(const ID& id) override { log.push_back(id.get()); return true; }
};

// Model of one UniqueConnection object.
struct M { int obj = -1; std::int64_t id = 0; }; // obj: index of the connectable, -1: empty

// Env: how connections are made and how disconnections are observed
template<typename ID> struct RecEnv {
	using C = nytl::ConnectableT<ID>;
	static constexpr int objects = 3;
	Recorder<ID> recs[objects];
	std::int64_t next = 1;
	std::vector<std::pair<int, std::int64_t>> expected[objects];

	C& object(int i) { return recs[i]; }
	ID make(int, vh::Rng& rng) { next += 1 + rng.below(3); if(rng.chance(1, 20)) next += std::int64_t(1) << 33; return ID{next}; }
	void removed(const M& m) { expected[m.obj].push_back({m.obj, m.id}); }
	void check(const std::string& trace) {
		for(int i = 0; i < objects; ++i) {
			bool same = recs[i].log.size() == expected[i].size();
			for(auto k = 0u; same && k < expected[i].size(); ++k) same = recs[i].log[k] == expected[i][k].second;
			VH_CHECK(same, recs[i].log.size() < expected[i].size() ? "not-disconnected" :
				recs[i].log.size() > expected[i].size() ? "disconnected-without-reason" : "disconnected-other",
				"object " << i << ": " << recs[i].log.size() << " disconnects, expected " << expected[i].size() << " | " << trace);
		}
	}
};

template<typename CB> struct CbEnv {
	using C = typename std::decay_t<decltype(*std::declval<typename CB::Connection>().connectable())>;
	using ID = std::decay_t<decltype(std::declval<typename CB::Connection>().id())>;
	static constexpr int objects = 3;
	CB cbs[objects];
	std::map<std::int64_t, int> registered[objects]; // id -> runs
	std::map<std::int64_t, int> seen[objects];

	C& object(int i) { return cbs[i]; }
	ID make(int i, vh::Rng&) {
		auto key = std::make_shared<std::int64_t>(0);
		auto conn = cbs[i].add([this, i, key] { ++seen[i][*key]; });
		*key = conn.id().get();
		registered[i][*key] = 1;
		return conn.id();
	}
	void removed(const M& m) { registered[m.obj].erase(m.id); }
	void check(const std::string& trace) {
		for(int i = 0; i < objects; ++i) {
			seen[i].clear();
			cbs[i]();
			VH_CHECK(seen[i] == registered[i], seen[i].size() > registered[i].size() ? "not-disconnected" : "disconnected-without-reason",
				"callback " << i << " runs " << seen[i].size() << " functions, expected " << registered[i].size() << " | " << trace);
		}
	}
};

template<typename Env, typename ID> void program(vh::Rng& rng) {
	using C = typename Env::C;
	using Unique = nytl::UniqueConnectionT<C, ID>;
	using Conn = nytl::ConnectionT<C, ID>;
	Env env;
	constexpr int slots = 6;
	std::optional<Unique> slot[slots];
	std::optional<M> model[slots];
	std::vector<std::pair<Conn, M>> released;
	std::string trace;
	vh::Hash h;
	unsigned disconnects = 0;

	auto gone = [&](M& m) { if(m.obj >= 0) { env.removed(m); ++disconnects; } m = {}; };
	auto fresh = [&](M& m) -> ID { m.obj = int(rng.below(Env::objects)); auto id = env.make(m.obj, rng); m.id = id.get(); return id; };

	auto steps = 5 + rng.below(60);
	for(auto step = 0u; step < steps; ++step) {
		int a = int(rng.below(slots)), b = int(rng.below(slots));
		auto k = rng.below(12);
		h.add(k * 64 + a * 8 + b);
		if(trace.size() < 400) trace += std::to_string(k) + ":" + std::to_string(a) + "," + std::to_string(b) + " ";
		switch(k) {
			case 0: // (re)construct empty
				if(model[a]) { gone(*model[a]); slot[a].reset(); model[a].reset(); }
				slot[a].emplace(); model[a].emplace();
				break;
			case 1: case 2: { // construct from object and id or from connection
				if(model[a]) { gone(*model[a]); slot[a].reset(); model[a].reset(); }
				model[a].emplace();
				auto id = fresh(*model[a]);
				if(k == 1) slot[a].emplace(env.object(model[a]->obj), id);
				else slot[a].emplace(Conn{env.object(model[a]->obj), id});
				break;
			}
			case 3: case 4: // move construct
				if(a == b || !model[b]) break;
				if(model[a]) { gone(*model[a]); slot[a].reset(); model[a].reset(); }
				slot[a].emplace(std::move(*slot[b]));
				model[a] = *model[b]; *model[b] = {};
				VH_CHECK(!slot[b]->connected() && !slot[b]->connectable() && slot[b]->id().get() == 0, "moved-from-not-empty", "move construction");
				break;
			case 5: case 6: // move assign
				if(!model[b] || !model[a]) break;
				if(a == b) {
					// Whether this counts as overwriting is not specified, but the object
					// either still owns its connection or has disconnected it and is empty.
					auto& self = *slot[a];
					*slot[a] = std::move(self);
					if(!slot[a]->connected()) gone(*model[a]);
					vh::count("self_moves");
					break;
				}
				*slot[a] = std::move(*slot[b]);
				gone(*model[a]);
				model[a] = *model[b]; *model[b] = {};
				VH_CHECK(!slot[b]->connected() && !slot[b]->connectable() && slot[b]->id().get() == 0, "moved-from-not-empty", "move assignment");
				break;
			case 7: // disconnect
				if(!model[a]) break;
				slot[a]->disconnect();
				gone(*model[a]);
				VH_CHECK(!slot[a]->connected() && !slot[a]->connectable() && slot[a]->id().get() == 0, "not-empty", "after disconnect");
				break;
			case 8: { // release
				if(!model[a]) break;
				auto m = *model[a];
				Conn c = slot[a]->release();
				*model[a] = {};
				VH_CHECK(!slot[a]->connected() && !slot[a]->connectable() && slot[a]->id().get() == 0, "not-empty", "after release");
				VH_CHECK((c.connectable() == nullptr) == (m.obj < 0), "release", "returned connection refers to nothing");
				if(m.obj >= 0) {
					VH_CHECK(c.connectable() == &env.object(m.obj) && c.id().get() == m.id && c.connected(), "release",
						"returned connection does not refer to the function");
					released.push_back({c, m});
				} else {
					VH_CHECK(!c.connected(), "release", "released empty connection is connected");
				}
				vh::count("released");
				break;
			}
			case 9: // destroy
				if(!model[a]) break;
				gone(*model[a]);
				slot[a].reset(); model[a].reset();
				break;
			case 10: // assign a temporary
				if(!model[a]) break;
				{
					M m; auto id = fresh(m);
					if(rng.chance(1, 2)) *slot[a] = Unique(env.object(m.obj), id);
					else *slot[a] = Conn(env.object(m.obj), id);
					gone(*model[a]);
					*model[a] = m;
				}
				break;
			case 11: // swap, vectors, functions
				if(rng.chance(1, 2)) {
					if(a == b || !model[a] || !model[b]) break;
					std::swap(*slot[a], *slot[b]);
					std::swap(*model[a], *model[b]);
				} else {
					std::vector<Unique> vec;
					std::vector<M> ms;
					auto n = 1 + rng.below(9);
					for(auto i = 0u; i < n; ++i) {
						M m;
						if(rng.chance(1, 5)) vec.emplace_back();
						else { auto id = fresh(m); vec.push_back(Unique(env.object(m.obj), id)); }
						ms.push_back(m);
					}
					env.check(trace);
					if(rng.chance(1, 2)) {
						auto f = [](Unique u) { return u; };
						auto i = rng.below(n);
						vec[i] = f(std::move(vec[i]));
					}
					env.check(trace);
					// std::vector destroys its elements in order
					for(auto& m : ms) gone(m);
				}
		}
		env.check(trace);
		for(int i = 0; i < slots; ++i) {
			if(!model[i]) continue;
			auto& m = *model[i];
			VH_CHECK(slot[i]->connected() == (m.obj >= 0), "connected", "slot " << i << " | " << trace);
			VH_CHECK(slot[i]->connectable() == (m.obj >= 0 ? &env.object(m.obj) : nullptr), "connectable", "slot " << i << " | " << trace);
			VH_CHECK(slot[i]->id().get() == m.id, "id", "slot " << i << " | " << trace);
		}
		if(vh::hasViolation()) return;
	}

	// released connections are still registered and can be disconnected by hand
	for(auto& r : released) {
		VH_CHECK(r.first.connected(), "release", "released connection lost its function | " << trace);
		r.first.disconnect();
		gone(r.second);
		env.check(trace);
	}
	for(int i = 0; i < slots; ++i) {
		if(!model[i]) continue;
		gone(*model[i]);
		slot[i].reset();
		env.check(trace);
	}
	vh::count("disconnects", disconnects);
	if(disconnects >= 2) vh::nontrivial(h.v);
	vh::sample(trace.substr(0, 200), 2);
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::QuietCerr q;
	using nytl::ConnectionID; using nytl::TrackedConnectionID;
	vh::section("recorder", 2000, 200000, [&](vh::Rng& r, std::uint64_t) { program<RecEnv<ConnectionID>, ConnectionID>(r); });
	vh::section("recorder-tracked", 2000, 200000, [&](vh::Rng& r, std::uint64_t) { program<RecEnv<TrackedConnectionID>, TrackedConnectionID>(r); });
	vh::section("callback", 600, 60000, [&](vh::Rng& r, std::uint64_t) { program<CbEnv<nytl::Callback<void()>>, ConnectionID>(r); });
	vh::section("callback-tracked", 600, 60000, [&](vh::Rng& r, std::uint64_t) { program<CbEnv<nytl::TrackedCallback<void()>>, TrackedConnectionID>(r); });
	vh::section("recursive", 600, 60000, [&](vh::Rng& r, std::uint64_t) { program<CbEnv<nytl::RecursiveCallback<void()>>, ConnectionID>(r); });
	vh::section("recursive-tracked", 600, 60000, [&](vh::Rng& r, std::uint64_t) { program<CbEnv<nytl::TrackedRecursiveCallback<void()>>, TrackedConnectionID>(r); });

	// typedefs, guards that live while the callback is called or that are
	// destroyed by a function of the callback
	vh::section("guards-in-calls", 600, 60000, [&](vh::Rng& rng, std::uint64_t) {
		nytl::TrackedRecursiveCallback<void()> cb;
		std::vector<std::unique_ptr<nytl::TrackedUniqueConnection>> guards;
		std::vector<int> runs, want;
		auto n = 2 + rng.below(8);
		vh::Hash h;
		std::vector<std::vector<int>> kills(n);
		for(auto i = 0u; i < n; ++i) {
			while(rng.chance(1, 3)) kills[i].push_back(int(rng.below(n)));
			for(auto x : kills[i]) h.add(x + 100 * i);
			auto conn = cb.add([&, i] { runs.push_back(int(i)); for(auto x : kills[i]) guards[x].reset(); });
			guards.push_back(std::make_unique<nytl::TrackedUniqueConnection>(conn));
		}
		std::vector<bool> alive(n, true);
		for(auto call = 0; call < 3; ++call) {
			runs.clear(); want.clear();
			for(auto i = 0u; i < n; ++i) if(alive[i]) want.push_back(int(i));
			cb();
			VH_CHECK(runs == want, "wrong-functions", "call " << call);
			for(auto w : want) for(auto x : kills[w]) alive[x] = false;
			for(auto i = 0u; i < n; ++i) VH_CHECK(bool(guards[i]) == alive[i], "model", "");
			for(auto i = 0u; i < n; ++i) if(guards[i]) VH_CHECK(guards[i]->connected(), "connected", "guard of registered function");
		}
		vh::nontrivial(h.v);
	});

	// A tracked guard whose function was already removed does not touch others.
	vh::section("removed-otherwise", 300, 30000, [&](vh::Rng& rng, std::uint64_t) {
		nytl::TrackedCallback<void()> cb;
		int runs = 0;
		auto n = 1 + rng.below(5);
		for(auto i = 0u; i < n; ++i) cb += [&] { ++runs; };
		auto conn = cb += [&] { runs += 1000; };
		{
			nytl::TrackedUniqueConnection guard(conn);
			VH_CHECK(guard.connected(), "connected", "");
			if(rng.chance(1, 2)) { auto c = conn; c.disconnect(); } else cb.disconnect(conn.id());
			VH_CHECK(!guard.connected(), "connected", "guard of removed function");
			for(auto i = 0u; i < n; ++i) cb += [&] { ++runs; };
		}
		cb();
		VH_CHECK(runs == int(2 * n), "wrong-functions", runs);
	});

	// Tracked guards that outlive the callback do nothing (AddressSanitizer watches the destroyed object).
	auto outlive = [&](auto cbTag, vh::Rng& rng) {
		using CB = typename decltype(cbTag)::type;
		auto cb = std::make_unique<CB>();
		std::vector<nytl::TrackedUniqueConnection> guards;
		std::vector<nytl::TrackedConnection> conns;
		auto n = 1 + rng.below(6);
		for(auto i = 0u; i < n; ++i) {
			conns.push_back(cb->add([] {}));
			if(rng.chance(3, 4)) guards.emplace_back(conns.back());
		}
		if(rng.chance(1, 3) && !guards.empty()) guards.pop_back();
		if(rng.chance(1, 6)) cb->clear();
		cb.reset();
		vh::Hash h;
		for(auto& c : conns) VH_CHECK(!c.connected(), "connected", "connection of destroyed callback");
		for(auto& g : guards) {
			VH_CHECK(!g.connected(), "connected", "guard of destroyed callback");
			auto k = rng.below(5);
			h.add(k);
			if(k == 0) g.disconnect();
			else if(k == 1) g = {};
			else if(k == 2) { auto other = std::move(g); VH_CHECK(!other.connected(), "connected", "moved"); }
			else if(k == 3) { auto c = g.release(); VH_CHECK(!c.connected(), "connected", "released"); }
		}
		vh::nontrivial(h.add(n).v);
	};
	vh::section("outlive-callback", 300, 20000, [&](vh::Rng& rng, std::uint64_t) { outlive(vh::Tag<nytl::TrackedCallback<void()>>{}, rng); });
	vh::section("outlive-recursive", 300, 20000, [&](vh::Rng& rng, std::uint64_t) { outlive(vh::Tag<nytl::TrackedRecursiveCallback<void()>>{}, rng); });

	// Connectables whose disconnect throws: the exception leaves neither the destructor
	// nor the move assignment, which takes over the new connection all the same.
	vh::section("throwing-disconnect", 1500, 100000, [&](vh::Rng& rng, std::uint64_t) {
		struct Error : std::exception { const char* what() const noexcept override { return "refused"; } };
		struct Thrower : nytl::Connectable {
			std::vector<std::int64_t> log; std::set<std::int64_t> bad;
			bool disconnect(const nytl::ConnectionID& id) override {
				log.push_back(id.value);
				if(bad.count(id.value)) throw Error {};
				return true;
			}
		} obj[2];
		std::vector<std::int64_t> want[2];
		std::int64_t next = 0;
		vh::Hash h;
		auto n = 1 + rng.below(7);
		std::vector<nytl::UniqueConnection> conns;
		std::vector<M> ms;
		auto fresh = [&] {
			M m {int(rng.below(2)), ++next};
			if(rng.chance(1, 2)) obj[m.obj].bad.insert(m.id);
			h.add(m.obj).add(obj[m.obj].bad.count(m.id));
			return m;
		};
		auto owner = [&](M& m) { return m.obj < 0 ? nytl::UniqueConnection() : nytl::UniqueConnection(obj[m.obj], nytl::ConnectionID{m.id}); };
		auto gone = [&](M& m) { if(m.obj >= 0) { want[m.obj].push_back(m.id); if(obj[m.obj].bad.count(m.id)) vh::count("throwing_disconnects"); } m = {}; };
		auto check = [&](const char* what) {
			for(int i = 0; i < 2; ++i)
				VH_CHECK(obj[i].log == want[i], "throwing-disconnect", what << ": " << obj[i].log.size() << " disconnects, expected " << want[i].size());
			for(auto i = 0u; i < ms.size(); ++i)
				VH_CHECK(conns[i].connected() == (ms[i].obj >= 0) && conns[i].id().get() == ms[i].id &&
					conns[i].connectable() == (ms[i].obj >= 0 ? &obj[ms[i].obj] : nullptr), "throwing-disconnect", what << ": connection " << i);
		};
		conns.reserve(n);
		for(auto i = 0u; i < n; ++i) { auto m = fresh(); ms.push_back(m); conns.push_back(owner(m)); }
		auto steps = 1 + rng.below(12);
		for(auto s = 0u; s < steps; ++s) {
			auto a = rng.below(n), b = rng.below(n), k = rng.below(5);
			h.add(k).add(a).add(b);
			if(k == 0 && a != b) { conns[a] = std::move(conns[b]); gone(ms[a]); ms[a] = ms[b]; ms[b] = {}; check("move assignment"); }
			else if(k == 1) { auto m = fresh(); conns[a] = owner(m); gone(ms[a]); ms[a] = m; check("assignment of a temporary"); }
			else if(k == 2) {
				auto m = fresh();
				{ auto u = owner(m); }
				gone(m);
				check("destruction");
			} else if(k == 3 && ms[a].obj >= 0) {
				// the caller of disconnect gets the exception; whether the object still
				// refers to the connection afterwards is not specified
				auto bad = obj[ms[a].obj].bad.count(ms[a].id) != 0, caught = false;
				try { conns[a].disconnect(); } catch(const Error&) { caught = true; }
				VH_CHECK(caught == bad, "throwing-disconnect", "explicit disconnect: exception " << (bad ? "lost" : "from nowhere"));
				auto m = ms[a];
				gone(ms[a]);
				if(conns[a].connected()) { VH_CHECK(bad, "throwing-disconnect", "connected after disconnect"); ms[a] = m; }
				check("explicit disconnect");
			} else if(k == 4 && ms[a].obj >= 0) {
				auto c = conns[a].release(); // nothing may happen
				VH_CHECK(c.connectable() == &obj[ms[a].obj] && c.id().get() == ms[a].id, "release", "throwing connectable");
				ms[a] = {};
				check("release");
			}
			if(vh::hasViolation()) return;
		}
		while(!conns.empty()) { conns.pop_back(); gone(ms.back()); ms.pop_back(); check("destruction"); }
		vh::nontrivial(h.v);
	});
	return vh::finish();
}
