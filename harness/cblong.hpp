// Long-lived callback objects: hundred thousands of registrations and calls on one object, so that
// internal counters become large. Where the (protected) counters can be reached under their current
// names they are additionally moved forward, as if the object had already lived for years.
#pragma once
#include "cbmodel.hpp"
#include <deque>

namespace cbm {

template<typename CB>
struct Aged : CB {
	using CB::operator=;

	template<typename S> static auto ageSubs(S& s, std::int64_t v, int) -> decltype(void(s.subID_), true) { return set(s.subID_, v); }
	template<typename S> static bool ageSubs(S&, std::int64_t, long) { return false; }
	template<typename S> static auto ageCalls(S& s, std::int64_t v, int) -> decltype(void(s.callID_), true) { return set(s.callID_, v); }
	template<typename S> static bool ageCalls(S&, std::int64_t, long) { return false; }

	template<typename I> static bool set(I& i, std::int64_t v) {
		if constexpr(std::is_integral_v<I>) {
			i = I(std::min<std::uint64_t>(std::uint64_t(v), std::uint64_t(std::numeric_limits<I>::max()) - 5));
			return true;
		} else {
			return false;
		}
	}

	// call before anything else
	void age(vh::Rng& rng) {
		static const std::int64_t points[] = {
			(1ll << 15) - 5, (1ll << 16) - 5, (1ll << 24) - 5, (1ll << 31) - 5, (1ll << 32) - 5, (1ll << 53) - 5, 1ll << 62};
		if(rng.chance(3, 4) && ageSubs(*this, points[rng.below(7)], 0)) vh::count("aged_ids");
		if(rng.chance(3, 4) && ageCalls(*this, points[rng.below(7)], 0)) vh::count("aged_calls");
	}
};

template<typename CB>
void longLived(vh::Rng& rng, unsigned rounds, bool inside, bool aged) {
	using Tr = Traits<CB>;
	using Ret = typename Tr::Ret;
	struct Ent { int uid; typename CB::Connection conn; };

	Aged<CB> cb;
	if(aged) cb.age(rng);
	std::vector<Ent> reg;
	std::deque<Ent> old; // removed ones
	std::vector<std::vector<int>> ran; // per running call
	int uids = 0, actor = -1;
	bool bad = false;
	std::function<void()> add, removeOne, call;
	auto makeFn = [&](int uid) {
		return [&, uid](int a) -> Ret {
			ran.back().push_back(uid);
			if(uid == actor) {
				actor = -1;
				auto what = rng.below(4);
				if(what == 0 || what == 3) removeOne();
				if(what == 1 || what == 3) add();
				if(what == 2) { removeOne(); call(); }
			}
			if constexpr(!std::is_void_v<Ret>) return uid ^ a;
		};
	};
	add = [&] {
		int uid = uids++;
		auto conn = cb.add(std::function<Ret(int)>(makeFn(uid)));
		if(!conn.connected() || conn.id().get() <= 0) bad = !VH_CHECK(false, "not-connected-after-add", "registration number " << uid);
		reg.push_back({uid, conn});
	};
	removeOne = [&] {
		if(reg.empty()) return;
		auto k = rng.below(reg.size());
		auto e = reg[k];
		reg.erase(reg.begin() + std::ptrdiff_t(k));
		bool ret = cb.disconnect(e.conn.id());
		if(!ret) bad = !VH_CHECK(false, "disconnect-false-for-registered", "registration number " << e.uid);
		if constexpr(Tr::tracked) {
			if(e.conn.connected()) bad = !VH_CHECK(false, "tracked-stale", "registration number " << e.uid);
		}
		old.push_back(e);
		if(old.size() > 64) old.pop_front();
	};
	unsigned calls = 0;
	call = [&] {
		std::vector<int> want;
		for(auto& e : reg) want.push_back(e.uid);
		ran.emplace_back();
		++calls;
		if constexpr(std::is_void_v<Ret>) cb(int(calls));
		else {
			auto n = int(calls);
			auto ret = cb(n);
			bool same = ret.size() == want.size();
			for(std::size_t i = 0; same && i < ret.size(); ++i) same = ret[i] == (want[i] ^ n);
			if(!same) bad = !VH_CHECK(false, "return-values", "call number " << n);
		}
		if(ran.back() != want) {
			bad = !VH_CHECK(false, "wrong-functions", "call number " << calls << " after " << uids << " registrations ran " <<
				ran.back().size() << " functions, expected " << want.size());
		}
		ran.pop_back();
	};

	vh::Hash h;
	for(auto i = 0u; i < rounds && !bad; ++i) {
		auto k = rng.below(8);
		if(k < 3 && reg.size() < 6) add();
		else if(k < 4 || reg.size() > 8) removeOne();
		else if(k < 5 && !old.empty()) {
			auto& e = old[rng.below(old.size())];
			if(cb.disconnect(e.conn.id())) bad = !VH_CHECK(false, "disconnect-true-for-removed", "registration number " << e.uid);
		} else {
			if(inside && !reg.empty() && rng.chance(1, 2)) actor = reg[rng.below(reg.size())].uid;
			call();
			actor = -1;
		}
		h.add(k);
	}
	vh::count("long_lived_calls", calls);
	vh::count("long_lived_registrations", std::uint64_t(uids));
	vh::nontrivial(h.v);
}

// quick: one object beyond 2^16 calls and registrations, some aged ones
template<typename CB>
void longLivedSections(const std::string& name, bool inside) {
	vh::section(name + "long-lived", 1, 3, [&](vh::Rng& rng, std::uint64_t) {
		longLived<CB>(rng, vh::run().thorough ? 2000000 : 250000, inside, false);
	});
	vh::section(name + "aged", 60, 3000, [&](vh::Rng& rng, std::uint64_t) {
		longLived<CB>(rng, 120, inside, true);
	});
}

} // namespace cbm
