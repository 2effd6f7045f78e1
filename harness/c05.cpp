// C05: protocol of the id notifications, observed by a recording id class.
#include "cbmodel.hpp"
using namespace cbm;

#if PART == 0
using CB = nytl::Callback<void(int), LogID>;
#elif PART == 1
using CB = nytl::RecursiveCallback<void(int), LogID>;
#elif PART == 2
using CB = nytl::RecursiveCallback<int(int), LogID>;
#elif PART == 3
using CB = nytl::TrackedRecursiveCallback<void(int)>;
#elif PART == 4
using CB = nytl::TrackedCallback<void(int)>;
#endif

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::QuietCerr q;
	Options o;
	o.report = Traits<CB>::logged ? catId : catDisc;
	o.reentrant = Traits<CB>::recursive;
	vh::section("small", 5000, 250000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 14; opt.initial = 5; opt.maxDepth = 3;
		runProgram<CB>(rng, opt);
	});
	vh::section("medium", 1500, 80000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 70; opt.initial = 6; opt.maxDepth = 6;
		runProgram<CB>(rng, opt);
	});
	vh::section("throws", 1500, 80000, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 40; opt.initial = 6; opt.maxDepth = 4; opt.throws = true;
		runProgram<CB>(rng, opt);
	});
	if(Traits<CB>::recursive) vh::section("very-deep", 6, 100, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 1500; opt.initial = 5; opt.maxDepth = 400; opt.climb = true;
		runProgram<CB>(rng, opt);
	});
	vh::section("many", 40, 1500, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 600; opt.initial = 300; opt.maxDepth = 2; opt.many = true;
		runProgram<CB>(rng, opt);
	});
	vh::section("deep", 30, 1500, [&](vh::Rng& rng, std::uint64_t) {
		auto opt = o; opt.maxOps = 300; opt.initial = 3; opt.maxDepth = 40;
		runProgram<CB>(rng, opt);
	});
	return vh::finish();
}
