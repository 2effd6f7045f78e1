// C07: exceptions that leave a call although no function throws: copying
// arguments, moving results and allocating the result storage fail.
#include "common.hpp"
#include <new>
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <memory>

#include "oomnew.hpp"

struct Fault { int id; };

// Throws from copies and, if requested, from moves.
template<int Kind> struct Val {
	static inline long live = 0;
	static inline std::int64_t countdown = -1;
	static inline int thrown = 0; // id of the last fault
	static inline bool moves = false;
	static void step() { if(countdown > 0 && --countdown == 0) { countdown = -1; throw Fault {++thrown}; } }
	std::uint64_t v = 0;
	const void* self = this;
	Val(std::uint64_t x) : v(x) { ++live; }
	Val(const Val& o) : v(o.v) { step(); ++live; }
	Val(Val&& o) noexcept(Kind == 0) : v(o.v) { if(Kind && moves) step(); o.v = 0xdead; ++live; }
	Val& operator=(const Val&) = delete;
	~Val() { if(self != this) std::abort(); --live; v = 0xdddd; }
};
using Arg = Val<0>;
using Res = Val<1>;

#if PART == 0
using TheCB = nytl::Callback<void(Arg)>;
#elif PART == 1
using TheCB = nytl::Callback<Res(Arg, int&)>;
#elif PART == 2
using TheCB = nytl::RecursiveCallback<void(Arg)>;
#elif PART == 3
using TheCB = nytl::RecursiveCallback<Res(Arg, int&)>;
#elif PART == 4
using TheCB = nytl::TrackedRecursiveCallback<Res(Arg, int&)>;
#endif
constexpr bool recursive = PART >= 2;
constexpr bool hasRes = PART == 1 || PART >= 3;

template<typename CB> struct Program {
	struct Frame { std::vector<int> snap; std::size_t pos = 0; std::uint64_t value; };
	vh::Rng& rng;
	std::unique_ptr<CB> cb = std::make_unique<CB>();
	std::vector<typename CB::Connection> conns;
	std::vector<bool> live;
	std::vector<Frame> frames;
	std::vector<int> tokens; // live function objects by id
	vh::Hash hash;
	int ops = 0, maxOps, faults = 0, ran = 0;

	struct Token {
		Program* p; int id;
		Token(Program& pr, int i) : p(&pr), id(i) { ++p->tokens[id]; }
		Token(const Token& o) : p(o.p), id(o.id) { ++p->tokens[id]; }
		~Token() { --p->tokens[id]; }
	};

	Program(vh::Rng& r, int n) : rng(r), maxOps(n) {}

	// nothing may fail within the monitor
	struct Pause {
		std::int64_t a, b, c; bool m;
		Pause() : a(Arg::countdown), b(Res::countdown), c(cbm::failCountdown()), m(Res::moves) { Arg::countdown = Res::countdown = cbm::failCountdown() = -1; }
		~Pause() { Arg::countdown = a; Res::countdown = b; cbm::failCountdown() = c; Res::moves = m; }
	};

	std::vector<int> liveList() const {
		std::vector<int> l;
		for(std::size_t i = 0; i < live.size(); ++i) if(live[i]) l.push_back(int(i));
		return l;
	}

	void add() {
		int id = int(live.size());
		live.push_back(true);
		tokens.push_back(0);
		Token t(*this, id);
		if constexpr(hasRes) conns.push_back(cb->add([t](const Arg& a, int& r) -> Res { ++r; t.p->run(t.id, a); return Res(t.id * 7 + 1); }));
		else conns.push_back(cb->add([t](const Arg& a) { t.p->run(t.id, a); }));
		hash.add(1);
	}

	void disc(int id) {
		bool was = live[id];
		bool got = conns[id].connectable() ? conns[id].connectable()->disconnect(conns[id].id()) : false;
		(void) was; (void) got;
		VH_CHECK(got == was, "disconnect", "function " << id << " was " << (was ? "" : "not ") << "registered, disconnect returned " << got);
		live[id] = false;
		hash.add(2).add(id);
	}

	void run(int id, const Arg& a) {
		Pause pause;
		++ran;
		auto& f = frames.back();
		if(VH_CHECK(f.pos < f.snap.size(), "surplus", "function " << id << " is run after the last one of its call"))
			VH_CHECK(f.snap[f.pos] == id, "order", "function " << id << " is run, expected " << f.snap[f.pos] << " (depth " << frames.size() << ")");
		++f.pos;
		VH_CHECK(a.v == f.value, "argument", "function " << id << " got " << a.v << ", passed " << f.value);
		if(recursive) body();
	}

	void body() {
		int n = int(rng.below(3));
		for(int i = 0; i < n && ops < maxOps; ++i) {
			++ops;
			auto k = rng.below(10);
			if(k < 2) add();
			else if(k < 6 && !live.empty()) disc(int(rng.below(live.size())));
			else if(k < 9 && frames.size() < 4) call(true);
			else if(k == 9 && rng.chance(1, 4)) { cb->clear(); live.assign(live.size(), false); hash.add(3); }
		}
	}

	// returns whether the call was left by an exception
	bool call(bool inject) {
		frames.push_back({liveList(), 0, rng.next()});
		auto depth = frames.size();
		int kind = inject ? int(rng.below(5)) : -1;
		auto n = std::int64_t(1 + rng.below(2 + 3 * frames.back().snap.size()));
		bool thrown = false, alloc = false;
		int faultId = 0;
		hash.add(4).add(kind).add(n);
		Arg arg(frames.back().value);
		int ref = 0;
		int before = Arg::thrown, beforeR = Res::thrown;
		{
			Pause pause;
			cbm::failHappened() = false;
			if(kind == 0 || kind == 1) Arg::countdown = n;
			Res::moves = true;
			if(kind == 2 || kind == 3) Res::countdown = n;
			if(kind == 4) cbm::failCountdown() = 1;
			try {
				if constexpr(hasRes) {
					auto res = (*cb)(arg, ref);
					cbm::failCountdown() = Arg::countdown = Res::countdown = -1;
					VH_CHECK(res.size() == frames.back().snap.size(), "results", res.size() << " results of " << frames.back().snap.size() << " functions");
					for(std::size_t i = 0; i < std::min(res.size(), frames.back().snap.size()); ++i)
						VH_CHECK(res[i].v == std::uint64_t(frames.back().snap[i] * 7 + 1), "result", "result " << i << " is " << res[i].v);
				} else {
					(*cb)(arg);
				}
			} catch(const Fault& f) {
				thrown = true;
				faultId = f.id;
				cbm::failCountdown() = Arg::countdown = Res::countdown = -1;
				VH_CHECK(f.id == Arg::thrown || f.id == Res::thrown, "other-exception", "fault " << f.id);
				VH_CHECK(Arg::thrown > before || Res::thrown > beforeR, "spurious", "exception that was not thrown by this call");
			} catch(const std::bad_alloc&) {
				thrown = alloc = true;
				VH_CHECK(cbm::failHappened(), "spurious", "bad_alloc without failed allocation");
			}
			cbm::failCountdown() = Arg::countdown = Res::countdown = -1;
		}
		VH_CHECK(arg.v == frames.back().value, "argument-changed", "the caller's argument");
		if(!VH_CHECK(frames.size() == depth, "frames", "monitor")) return thrown;
		if(!thrown) VH_CHECK(frames.back().pos == frames.back().snap.size(), "missing", frames.back().pos << " of " << frames.back().snap.size() << " functions were run");
		else ++faults;
		frames.pop_back();
		hash.add(thrown);
		if(frames.empty()) objects();
		else if(thrown && rng.chance(1, 3)) { // passes on through the outer call
			vh::count("passed_on");
			if(alloc) { cbm::failHappened() = true; throw std::bad_alloc(); }
			throw Fault {faultId};
		}
		return thrown;
	}

	void objects() {
		for(std::size_t i = 0; i < live.size(); ++i)
			VH_CHECK((tokens[i] > 0) == live[i], "object", "function object " << i << " exists " << tokens[i] << " times, registered: " << live[i]);
		VH_CHECK(Res::live == 0, "result-objects", Res::live << " result objects are left");
	}

	void go() {
		int initial = int(rng.below(9));
		for(int i = 0; i < initial; ++i) add();
		while(ops < maxOps) {
			++ops;
			auto k = rng.below(10);
			if(k < 2) add();
			else if(k < 3 && !live.empty()) { disc(int(rng.below(live.size()))); objects(); }
			else if(k < 4 && rng.chance(1, 5)) { cb->clear(); live.assign(live.size(), false); hash.add(3); objects(); }
			else if(call(true)) call(false); // usable as if nothing had happened
		}
		call(false);
		if(faults && ran > 1) { vh::nontrivial(hash.v); vh::count("programs_with_faults"); }
		vh::count("faults", faults);
		vh::count("functions_run", ran);
		cb.reset();
		for(std::size_t i = 0; i < live.size(); ++i) VH_CHECK(tokens[i] == 0, "leak", "function object " << i << " outlives its callback");
		VH_CHECK(Arg::live == 0 && Res::live == 0, "values", Arg::live << " argument, " << Res::live << " result objects left");
		Arg::live = Res::live = 0;
	}
};

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::QuietCerr q;
	vh::section("transfer-small", 6000, 300000, [&](vh::Rng& rng, std::uint64_t) { Program<TheCB>(rng, 12).go(); });
	vh::section("transfer", 800, 40000, [&](vh::Rng& rng, std::uint64_t) { Program<TheCB>(rng, 120).go(); });
	return vh::finish();
}
