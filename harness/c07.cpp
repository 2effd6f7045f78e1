// C07: exceptions thrown by functions.
#include "cbmodel.hpp"
using namespace cbm;

#if PART == 0
using CB = nytl::Callback<void(int)>;
#elif PART == 1
using CB = nytl::Callback<int(int)>;
#elif PART == 2
using CB = nytl::RecursiveCallback<void(int)>;
#elif PART == 3
using CB = nytl::RecursiveCallback<int(int)>;
#elif PART == 4
using CB = nytl::TrackedRecursiveCallback<int(int)>;
#endif

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::QuietCerr q;
	Options o;
	o.report = catExc | catOrder | catSet | catRet | catDisc | catLife;
	o.reentrant = Traits<CB>::recursive;
	o.throws = true;
	vh::section("small", 5000, 250000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 14; opt.initial = 5; opt.maxDepth = 3;
		runProgram<CB>(rng, opt);
	});
	vh::section("medium", 1500, 80000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 70; opt.initial = 6; opt.maxDepth = 6;
		runProgram<CB>(rng, opt);
	});
	if(Traits<CB>::recursive) vh::section("very-deep", 6, 100, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 1500; opt.initial = 5; opt.maxDepth = 400; opt.climb = true;
		runProgram<CB>(rng, opt);
	});
	vh::section("many", 30, 1500, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 400; opt.initial = 100; opt.maxDepth = 3; opt.many = true;
		runProgram<CB>(rng, opt);
	});
	vh::section("deep", 40, 1500, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 300; opt.initial = 3; opt.maxDepth = 40;
		runProgram<CB>(rng, opt);
	});
	return vh::finish();
}
