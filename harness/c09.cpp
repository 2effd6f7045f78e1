// C09: every allocation of a registration fails once.
#include "cbmodel.hpp"
#include "oomnew.hpp"
using namespace cbm;

#if PART == 0
using CB = nytl::Callback<void(int)>;
#elif PART == 1
using CB = nytl::RecursiveCallback<void(int)>;
#elif PART == 2
using CB = nytl::TrackedRecursiveCallback<int(int)>;
#elif PART == 3
using CB = nytl::RecursiveCallback<void(int), LogID>;
#elif PART == 4
using CB = nytl::TrackedCallback<int(int)>;
#endif

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::QuietCerr q;
	Options o;
	o.report = catOom | catOrder | catSet | catRet | catDisc | catLife;
	o.reentrant = Traits<CB>::recursive;
	o.oom = true;
	vh::section("small", 4000, 200000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 14; opt.initial = 3; opt.maxDepth = 3;
		runProgram<CB>(rng, opt);
	});
	vh::section("medium", 1000, 60000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 70; opt.initial = 6; opt.maxDepth = 6;
		runProgram<CB>(rng, opt);
	});
	vh::section("many", 10, 500, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 300; opt.initial = 60; opt.maxDepth = 2; opt.many = true;
		runProgram<CB>(rng, opt);
	});
	return vh::finish();
}
