// C02: histories without access from inside of functions, both classes.
#include "cblong.hpp"
using namespace cbm;

// more functions at once than fit 16 bit counters
template<typename CB> void crowded(vh::Rng& rng) {
	using Ret = typename Traits<CB>::Ret;
	CB cb;
	std::vector<std::pair<int, typename CB::Connection>> reg;
	std::vector<int> ran;
	int uids = 0;
	auto add = [&] {
		int uid = uids++;
		reg.emplace_back(uid, cb.add(std::function<Ret(int)>([&ran, uid](int a) -> Ret { ran.push_back(uid); if constexpr(!std::is_void_v<Ret>) return uid ^ a; })));
	};
	auto call = [&] {
		ran.clear();
		auto a = int(rng.below(1000));
		bool good = true;
		if constexpr(std::is_void_v<Ret>) cb(a);
		else {
			auto ret = cb(a);
			good = ret.size() == reg.size();
			for(std::size_t i = 0; good && i < ret.size(); ++i) good = ret[i] == (reg[i].first ^ a);
		}
		good = good && ran.size() == reg.size();
		for(std::size_t i = 0; good && i < ran.size(); ++i) good = ran[i] == reg[i].first;
		VH_CHECK(good, "crowded", ran.size() << " functions were run with " << reg.size() << " registered ones, or in another order, or with other results");
		if constexpr(!Traits<CB>::recursive) {
			bool same = cb.subscriptions().size() == reg.size();
			for(std::size_t i = 0; same && i < reg.size(); ++i) same = cb.subscriptions()[i].id.get() == reg[i].second.id().get();
			VH_CHECK(same, "crowded", "subscriptions of " << reg.size() << " functions");
		}
		vh::count("crowded_calls");
	};
	auto remove = [&](std::size_t k) {
		VH_CHECK(cb.disconnect(reg[k].second.id()), "crowded", "disconnect of function " << k << " of " << reg.size());
		reg.erase(reg.begin() + std::ptrdiff_t(k));
	};
	auto n = 65530 + rng.below(12);
	while(reg.size() < n) add();
	for(int k = 0; k < 12; ++k) { call(); add(); if(k % 4 == 3) { remove(rng.below(reg.size())); remove(0); remove(reg.size() - 1); } }
	for(int k = 0; k < 10; ++k) add();
	call();
	cb.clear();
	reg.clear();
	call();
	add();
	call();
	vh::nontrivial(rng.next());
}

template<typename CB> void all(const std::string& n) {
	Options o;
	o.report = catOrder | catSet | catRet;
	o.reentrant = false;
	vh::section(n + "/small", 4000, 200000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 10; opt.initial = 5;
		runProgram<CB>(rng, opt);
	});
	vh::section(n + "/medium", 800, 40000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 80; opt.initial = 12;
		runProgram<CB>(rng, opt);
	});
	vh::section(n + "/many", 20, 600, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 500; opt.initial = 400; opt.many = true;
		runProgram<CB>(rng, opt);
	});
	vh::section(n + "/huge", 2, 10, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 30; opt.initial = vh::run().thorough ? 100000 : 9000; opt.many = true;
		runProgram<CB>(rng, opt);
	});
	vh::section(n + "/crowded", 1, 6, [&](vh::Rng& rng, std::uint64_t) { crowded<CB>(rng); });
	longLivedSections<CB>(n + "/", false);
}

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::QuietCerr q;
#if PART == 0
	all<nytl::Callback<void(int)>>("callback-void");
#elif PART == 1
	all<nytl::Callback<int(int)>>("callback-int");
#elif PART == 2
	all<nytl::TrackedCallback<int(int)>>("tracked-callback-int");
#elif PART == 3
	all<nytl::TrackedCallback<void(int)>>("tracked-callback-void");
#elif PART == 4
	all<nytl::RecursiveCallback<void(int)>>("recursive-void");
#elif PART == 5
	all<nytl::RecursiveCallback<int(int)>>("recursive-int");
#elif PART == 6
	all<nytl::TrackedRecursiveCallback<int(int)>>("tracked-recursive-int");
#endif
	return vh::finish();
}
