// Shared runtime for all monitors: deterministic per-case random numbers,
// verdict/violation recording, coverage counters and the state file that
// tells the driver where the process was when it crashed or hung.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <chrono>
#include <thread>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace vh {

inline std::uint64_t mix64(std::uint64_t x) {
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}

inline std::uint64_t hashStr(const char* s) {
	std::uint64_t h = 1469598103934665603ull;
	for(; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
	return h;
}

// incremental hash of a case
struct Hash {
	std::uint64_t v = 0x1234567;
	Hash& add(std::uint64_t x) { v = mix64(v ^ x); return *this; }
	Hash& addf(double d) { std::uint64_t u; std::memcpy(&u, &d, 8); return add(u); }
	Hash& adds(const std::string& s) { return add(hashStr(s.c_str())); }
};

struct Rng {
	std::uint64_t s;
	explicit Rng(std::uint64_t seed) : s(mix64(seed)) {}
	std::uint64_t next() { s += 0x9e3779b97f4a7c15ull; std::uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31); }
	// [0, n)
	std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
	// [lo, hi]
	std::int64_t range(std::int64_t lo, std::int64_t hi) {
		return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi - lo) + 1)); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	// [0, 1)
	double unit() { return (next() >> 11) * 0x1.0p-53; }
	double uniform(double a, double b) { return a + (b - a) * unit(); }
	double normal() { double s2 = 0; for(int i = 0; i < 12; ++i) s2 += unit(); return s2 - 6.0; }
	double sign() { return (next() & 1) ? 1.0 : -1.0; }
	template<typename C> auto& pick(C& c) { return c[below(c.size())]; }
	template<typename T, std::size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
};

template<typename T> struct Tag { using type = T; };

struct Violation { std::string key, msg, section; std::uint64_t caseId; };

struct State { // mmapped, read by the driver after crashes and hangs
	char section[120];
	volatile std::uint64_t caseId;
	volatile std::uint64_t checks;
};

struct Run {
	std::uint64_t seed = 1;
	bool thorough = false;
	double scale = 1.0; // multiplies all case counts (slow instrumentation)
	std::string onlySection;
	std::int64_t onlyCase = -1;
	std::string out;
	State* state = nullptr;
	State dummy {};
	std::string cur = "init";
	std::uint64_t curCase = 0;

	std::uint64_t evaluations = 0;
	std::uint64_t checks = 0;
	std::unordered_set<std::uint64_t> distinct;
	std::uint64_t distinctOverflow = 0;
	std::map<std::string, std::uint64_t> counters;
	std::map<std::string, std::uint64_t> sections;
	std::vector<std::string> samples;
	std::vector<Violation> violations;
	std::map<std::string, std::uint64_t> violationCount;
};

inline Run& run() { static Run r; return r; }

inline void violation(const std::string& what, const std::string& msg) {
	auto& r = run();
	auto key = r.cur + ":" + what;
	if(++r.violationCount[key] > 1) return;
	r.violations.push_back({key, msg, r.cur, r.curCase});
	std::fprintf(stderr, "[violation] %s case %llu: %s\n", key.c_str(),
		(unsigned long long) r.curCase, msg.c_str());
}

inline bool hasViolation() { return !run().violations.empty(); }
inline void count(const char* name, std::uint64_t n = 1) { run().counters[name] += n; }

// Registers the current case as non-trivial, identified by its hash.
inline void nontrivial(std::uint64_t h) {
	auto& r = run();
	if(r.distinct.size() < 1500000) r.distinct.insert(h ^ hashStr(r.cur.c_str()));
	else ++r.distinctOverflow;
}

inline void sample(const std::string& s, std::size_t perRun = 12) {
	auto& r = run();
	if(r.samples.size() < perRun) r.samples.push_back("[" + r.cur + "#" + std::to_string(r.curCase) + "] " + s);
}

template<typename F>
bool check(bool ok, const char* what, F&& msg) {
	auto& r = run();
	++r.checks;
	if(__builtin_expect(!ok, 0)) violation(what, msg());
	return ok;
}

#ifdef __clang__
#define VH_COLD __attribute__((cold, minsize, no_sanitize("address", "undefined")))
#else
#define VH_COLD __attribute__((cold))
#endif

// VH_CHECK(cond, "stable-key", "stream " << expr)
#define VH_CHECK(cond, key, ...) \
	::vh::check(static_cast<bool>(cond), key, [&]() VH_COLD { std::ostringstream vh_os; \
		vh_os.precision(20); vh_os << __VA_ARGS__; return vh_os.str(); })

inline void init(int argc, char** argv) {
	auto& r = run();
	std::string statePath;
	for(int i = 1; i + 1 < argc; i += 2) {
		std::string a = argv[i], v = argv[i + 1];
		if(a == "--seed") r.seed = std::strtoull(v.c_str(), nullptr, 10);
		else if(a == "--tier") r.thorough = (v == "thorough");
		else if(a == "--scale") r.scale = std::atof(v.c_str());
		else if(a == "--section") r.onlySection = v;
		else if(a == "--case") r.onlyCase = std::atoll(v.c_str());
		else if(a == "--out") r.out = v;
		else if(a == "--state") statePath = v;
	}
	r.state = &r.dummy;
	if(!statePath.empty()) {
		int fd = ::open(statePath.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if(fd >= 0 && ::ftruncate(fd, sizeof(State)) == 0) {
			void* p = ::mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if(p != MAP_FAILED) r.state = static_cast<State*>(p);
		}
	}
	std::snprintf(r.state->section, sizeof(r.state->section), "init");
}

inline std::uint64_t scaled(std::uint64_t n) {
	auto s = static_cast<std::uint64_t>(n * run().scale);
	return (s == 0 && n > 0) ? 1 : s;
}

// What the library does must not depend on where it is used: some cases run in destructors while an
// exception is unwinding the stack, some in a thread of their own (some in both).
struct InFlight {};
template<typename F> struct Unwound {
	F& f;
	std::exception_ptr& error;
	~Unwound() {
		try { f(); } catch(...) { error = std::current_exception(); }
	}
};

template<typename F> void inContext(std::uint64_t i, F&& f) {
	std::exception_ptr error;
	auto unwinding = [&] {
		if(i % 4 != 1) {
			try { f(); } catch(...) { error = std::current_exception(); }
			return;
		}
		count("cases_while_unwinding");
		try {
			Unwound<std::remove_reference_t<F>> u {f, error};
			throw InFlight {};
		} catch(const InFlight&) {}
	};
	if(i % 32 == 3 || i % 32 == 5) {
		count("cases_in_threads");
		std::thread(unwinding).join();
	} else {
		unwinding();
	}
	if(error) std::rethrow_exception(error);
}

// Runs cases [0, n) of a section, each with its own generator derived from
// (seed, section, case), so that every case can be replayed alone.
template<typename F>
void section(const std::string& name, std::uint64_t quick, std::uint64_t thorough, F&& f) {
	auto& r = run();
	if(!r.onlySection.empty() && r.onlySection != name) return;
	r.cur = name;
	std::snprintf(r.state->section, sizeof(r.state->section), "%s", name.c_str());
	auto t0 = std::chrono::steady_clock::now();
	std::uint64_t n = scaled(r.thorough ? thorough : quick);
	std::uint64_t b = 0, e = n;
	if(r.onlyCase >= 0) { b = r.onlyCase; e = b + 1; }
	for(auto i = b; i < e; ++i) {
		r.curCase = i;
		r.state->caseId = i;
		r.state->checks = r.checks;
		Rng rng(mix64(r.seed * 0x9e3779b97f4a7c15ull + hashStr(name.c_str())) ^ (i * 0xd1342543de82ef95ull));
		try {
			inContext(i, [&] { f(rng, i); });
		} catch(const std::exception& err) {
			violation("unexpected-exception", std::string(typeid(err).name()) + ": " + err.what());
		} catch(...) {
			violation("unexpected-exception", "unknown exception type");
		}
		++r.evaluations;
		++r.sections[name];
		if(r.violations.size() >= 40) break;
	}
	if(std::getenv("VH_TIMES")) {
		std::fprintf(stderr, "[time] %s %.2fs\n", name.c_str(), std::chrono::duration<double>(
			std::chrono::steady_clock::now() - t0).count());
	}
	r.cur = "between";
	std::snprintf(r.state->section, sizeof(r.state->section), "after %s", name.c_str());
}

inline std::string jsonStr(const std::string& s) {
	std::string o = "\"";
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { o += '\\'; o += char(c); }
		else if(c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += char(c);
	}
	return o + "\"";
}

inline int finish() {
	auto& r = run();
	std::ostringstream os;
	os << "{\"evaluations\":" << r.evaluations << ",\"oracle_checks\":" << r.checks
		<< ",\"distinct\":" << r.distinct.size() << ",\"distinct_overflow\":" << r.distinctOverflow
		<< ",\"counters\":{";
	bool first = true;
	for(auto& c : r.counters) { os << (first ? "" : ",") << jsonStr(c.first) << ":" << c.second; first = false; }
	os << "},\"sections\":{";
	first = true;
	for(auto& c : r.sections) { os << (first ? "" : ",") << jsonStr(c.first) << ":" << c.second; first = false; }
	os << "},\"samples\":[";
	first = true;
	for(auto& s : r.samples) { os << (first ? "" : ",") << jsonStr(s); first = false; }
	os << "],\"violations\":[";
	first = true;
	for(auto& v : r.violations) {
		os << (first ? "" : ",") << "{\"key\":" << jsonStr(v.key) << ",\"msg\":" << jsonStr(v.msg)
			<< ",\"section\":" << jsonStr(v.section) << ",\"case\":" << v.caseId
			<< ",\"count\":" << r.violationCount[v.key] << "}";
		first = false;
	}
	os << "]}\n";
	if(!r.out.empty()) {
		FILE* f = std::fopen(r.out.c_str(), "w");
		if(!f) return 3;
		auto s = os.str();
		std::fwrite(s.data(), 1, s.size(), f);
		std::fclose(f);
	} else {
		std::cout << os.str();
	}
	std::snprintf(r.state->section, sizeof(r.state->section), "exit");
	return 0;
}

// The library prints warnings to cerr, swallow (and count) them.
struct QuietCerr {
	std::ostringstream buf;
	std::streambuf* old;
	QuietCerr() : old(std::cerr.rdbuf(buf.rdbuf())) {}
	~QuietCerr() { std::cerr.rdbuf(old); }
	std::string take() { auto s = buf.str(); buf.str({}); return s; }
};

} // namespace vh
