// C04: disconnect removes one function and reports it truthfully.
#include "cblong.hpp"
using namespace cbm;

#if PART == 0
using CB = nytl::Callback<void(int)>;
#elif PART == 1
using CB = nytl::TrackedCallback<int(int)>;
#elif PART == 2
using CB = nytl::RecursiveCallback<void(int)>;
#elif PART == 3
using CB = nytl::TrackedRecursiveCallback<void(int)>;
#elif PART == 4
using CB = nytl::TrackedRecursiveCallback<int(int)>;
#endif

template<typename R, typename F> std::function<R(int)> wrap(F f) {
	return [f](int a) -> R { f(a); if constexpr(!std::is_void_v<R>) return a; };
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::QuietCerr q;
	Options o;
	o.report = catDisc | catSet;
	o.reentrant = Traits<CB>::recursive;
	vh::section("small", 5000, 250000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 14; opt.initial = 5; opt.maxDepth = 3;
		runProgram<CB>(rng, opt);
	});
	vh::section("flat", 2500, 120000, [&](vh::Rng& rng, std::uint64_t) {
		// one call level, here the running call shows what was removed
		auto opt = o; opt.maxOps = 40; opt.initial = 8; opt.maxDepth = 1; opt.report |= catOrder;
		runProgram<CB>(rng, opt);
	});
	vh::section("nested", 1500, 70000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 70; opt.initial = 6; opt.maxDepth = 6;
		runProgram<CB>(rng, opt);
	});
	if(Traits<CB>::recursive) vh::section("very-deep", 6, 100, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 1500; opt.initial = 5; opt.maxDepth = 400; opt.climb = true;
		runProgram<CB>(rng, opt);
	});
	vh::section("many", 40, 1500, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 600; opt.initial = 300; opt.maxDepth = 2; opt.many = true;
		runProgram<CB>(rng, opt);
	});
	vh::section("huge", 2, 12, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 150; opt.initial = 4000; opt.maxDepth = 2; opt.many = true;
		runProgram<CB>(rng, opt);
	});

	// Random bulk removal with full bookkeeping, also of stale ids.
	vh::section("bulk", 60, 2500, [&](vh::Rng& rng, std::uint64_t i) {
		CB cb;
		std::vector<typename CB::Connection> conns;
		std::vector<int> state; // 0: removed
		std::vector<int> ran;
		auto n = i % 8 == 0 ? 1 + rng.below(3) : 1 + rng.below(400);
		vh::Hash h;
		auto add = [&] {
			int k = int(conns.size());
			std::function<void(int)> f = [&ran, k](int) { ran.push_back(k); };
			conns.push_back(cb.add(wrap<typename Traits<CB>::Ret>(f)));
			state.push_back(1);
		};
		for(auto k = 0u; k < n; ++k) add();
		std::vector<int> order;
		for(auto k = 0u; k < n; ++k) order.push_back(int(k));
		auto how = rng.below(3); // random, forward, backward
		if(how == 0) for(auto k = n; k > 1; --k) std::swap(order[k - 1], order[rng.below(k)]);
		if(how == 2) std::reverse(order.begin(), order.end());
		auto ids = conns; // copies, tracked ids share their value
		unsigned step = 0;
		for(auto k : order) {
			h.add(k);
			if(rng.chance(1, 9)) add();
			bool ret = cb.disconnect(conns[k].id());
			VH_CHECK(ret, "disconnect-false-for-registered", "function " << k << " of " << n);
			state[k] = 0;
			VH_CHECK(!cb.disconnect(ids[k].id()), "disconnect-true-for-removed", "function " << k << " of " << n);
			if constexpr(Traits<CB>::tracked) {
				VH_CHECK(!conns[k].connected() && !ids[k].connected(), "tracked-stale", "function " << k);
			}
			if(++step % 16 == 0 || step + 3 > order.size()) {
				ran.clear();
				cb(1);
				std::vector<int> want;
				for(auto j = 0u; j < state.size(); ++j) if(state[j]) want.push_back(int(j));
				if(!VH_CHECK(ran == want, "wrong-functions-left", "after removing " << step << " of " << n << " functions "
					<< ran.size() << " run, expected " << want.size())) return;
				if constexpr(Traits<CB>::tracked) {
					for(auto j = 0u; j < state.size(); ++j) {
						VH_CHECK(conns[j].connected() == bool(state[j]), "tracked-wrong", "connection " << j);
					}
				}
			}
		}
		vh::nontrivial(h.v);
	});

	// empty connections do nothing
	vh::section("empty-connection", 20, 200, [&](vh::Rng& rng, std::uint64_t) {
		CB cb;
		int runs = 0;
		auto c = cb.add(wrap<typename Traits<CB>::Ret>([&](int) { ++runs; }));
		typename CB::Connection empty;
		VH_CHECK(!empty.connected() && !empty.connectable() && empty.id().get() == 0, "empty", "default constructed connection is not empty");
		auto n = 1 + rng.below(4);
		for(auto i = 0u; i < n; ++i) empty.disconnect();
		VH_CHECK(c.connected(), "empty-disconnects", "disconnecting an empty connection affected another");
		cb(1);
		VH_CHECK(runs == 1, "empty-disconnects", "disconnecting an empty connection removed a function");
	});
	longLivedSections<CB>("", Traits<CB>::recursive);
	return vh::finish();
}
