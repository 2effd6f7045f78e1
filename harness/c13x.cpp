// C13: writes to dynamic buffers that fail for lack of memory.
#include "common.hpp"
#include "oomnew.hpp"
#include <nytl/bytes.hpp>
#include <nytl/vec.hpp>

using nytl::DynWriteBuf;
using nytl::ReadBuf;
struct Big { unsigned char b[300]; };

int main(int argc, char** argv) {
	vh::init(argc, argv);
	vh::section("no-memory", 8000, 400000, [&](vh::Rng& rng, std::uint64_t) {
		DynWriteBuf buf, model;
		model.reserve(200000);
		vh::Hash h;
		int failed = 0;
		for(int i = 0, n = 1 + int(rng.below(12)); i < n; ++i) {
			if(rng.chance(1, 4)) buf.shrink_to_fit();
			auto kind = rng.below(6);
			std::vector<std::uint32_t> v(rng.chance(1, 8) ? rng.below(3000) : rng.below(40));
			for(auto& x : v) x = std::uint32_t(rng.next());
			Big b; for(auto& x : b.b) x = (unsigned char) rng.next();
			nytl::Vec3f vec {float(i), 2.f, 3.f};
			std::uint64_t u = rng.next();
			unsigned char c = (unsigned char) u;
			ReadBuf bytes = kind == 0 ? nytl::bytes(std::as_const(v)) : kind == 1 ? nytl::bytes(std::as_const(b)) : kind == 2 ? nytl::bytes(std::as_const(vec)) :
				kind == 3 ? nytl::bytes(std::as_const(u)) : kind == 4 ? nytl::bytes(std::as_const(c)) : ReadBuf {reinterpret_cast<const std::byte*>(b.b), 1 + rng.below(299)};
			h.add(kind).add(bytes.size());
			for(int fail = rng.chance(1, 2) ? 1 : 0; ; ) {
				cbm::failCountdown() = fail ? fail : -1;
				cbm::failHappened() = false;
				bool thrown = false;
				try {
					switch(kind) {
						case 0: nytl::write(buf, v); break;
						case 1: nytl::write(buf, b); break;
						case 2: nytl::write(buf, vec); break;
						case 3: nytl::write(buf, u); break;
						case 4: nytl::write(buf, c); break;
						default: nytl::write(buf, bytes);
					}
				} catch(const std::bad_alloc&) { thrown = true; }
				cbm::failCountdown() = -1;
				VH_CHECK(thrown == cbm::failHappened(), "exception", "allocation failed: " << cbm::failHappened() << ", reported: " << thrown);
				if(!thrown) model.insert(model.end(), bytes.begin(), bytes.end());
				else { ++failed; ++fail; vh::count("failed_writes"); }
				VH_CHECK(buf == model, thrown ? "changed-by-failed-write" : "written", "write of " << bytes.size() << " bytes, buffer has " << buf.size() << " of " << model.size());
				if(!thrown) break;
			}
		}
		if(failed) vh::nontrivial(h.v);
		if(failed && rng.chance(1, 100)) vh::sample(std::to_string(failed) + " failed writes, buffer of " + std::to_string(buf.size()) + " bytes afterwards", 4);
	});
	return vh::finish();
}
