// C01: reentrant programs on RecursiveCallback against the snapshot model.
#include "cblong.hpp"
using namespace cbm;

#if PART == 0
using CB = nytl::RecursiveCallback<void(int)>;
#elif PART == 1
using CB = nytl::RecursiveCallback<int(int)>;
#elif PART == 2
using CB = nytl::TrackedRecursiveCallback<void(int)>;
#else
using CB = nytl::TrackedRecursiveCallback<int(int)>;
#endif

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::QuietCerr q;
	Options o;
	o.report = catOrder | catSet | catRet;
	vh::section("small", 6000, 300000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 12; opt.initial = 4; opt.maxDepth = 4;
		runProgram<CB>(rng, opt);
	});
	vh::section("medium", 3000, 150000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 60; opt.initial = 6; opt.maxDepth = 6;
		runProgram<CB>(rng, opt);
	});
	vh::section("deep", 60, 3000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 500; opt.initial = 3; opt.maxDepth = 60;
		runProgram<CB>(rng, opt);
	});
	vh::section("very-deep", 12, 200, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 2500; opt.initial = 5; opt.maxDepth = 700; opt.climb = true;
		runProgram<CB>(rng, opt);
	});
	vh::section("many", 60, 3000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 700; opt.initial = 200; opt.maxDepth = 2; opt.many = true;
		runProgram<CB>(rng, opt);
	});
	vh::section("huge", 2, 12, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 150; opt.initial = 3000; opt.maxDepth = 2; opt.many = true;
		runProgram<CB>(rng, opt);
	});
	vh::section("toplevel", 500, 20000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 60; opt.initial = 10; opt.reentrant = false;
		runProgram<CB>(rng, opt);
	});
	longLivedSections<CB>("", true);
	return vh::finish();
}
