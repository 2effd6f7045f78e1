// C14 with the default handler (assert) and with a handler that is a function.
// Every operation is run in a child process on shared memory: the parent sees
// whether it was aborted and what was written until then.
#undef NDEBUG
#if PART == 1
#include <cstdlib>
static void customAssert(bool ok) { if(!ok) std::abort(); }
#define NYTL_BYTES_ASSERT(x) customAssert(x)
#endif
#include <nytl/bytes.hpp>
#include "common.hpp"
#include <sys/wait.h>
#include <sys/resource.h>
#include <csignal>

using nytl::ReadBuf;
using nytl::WriteBuf;

struct P12 { std::uint32_t a, b, c; };
constexpr std::size_t pad = 4096, cap = 4096;
struct Shared {
	std::byte a[pad + cap + pad]; // destination
	std::byte b[pad + cap + pad]; // source
	bool done;
	const std::byte* data; std::size_t size; // buffer after the operation
};

int main(int argc, char** argv) {
	vh::init(argc, argv);
	auto* sh = static_cast<Shared*>(::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if(sh == MAP_FAILED) return 1;
	struct rlimit nocore {0, 0};
	::setrlimit(RLIMIT_CORE, &nocore);
	std::vector<std::byte> ma(sizeof(sh->a)), mb(sizeof(sh->b));

	vh::section("abort", 2500, 60000, [&](vh::Rng& rng, std::uint64_t) {
		for(std::size_t i = 0; i < ma.size(); ++i) { sh->a[i] = ma[i] = std::byte(rng.next()); sh->b[i] = mb[i] = std::byte(rng.next()); }
		bool large = rng.chance(1, 6);
		std::size_t n = large ? rng.below(cap) : rng.below(40), m = rng.chance(1, 2) ? n + rng.below(5) - std::min<std::size_t>(n, rng.below(5)) : rng.below(large ? cap : 48);
		if(m > cap) m = cap;
		std::size_t op = rng.below(11);
		auto* pa = sh->a + pad; auto* pb = sh->b + pad;
		sh->done = false; sh->data = nullptr; sh->size = 0;
		bool bad = m > n; // by default an operation of m bytes on a buffer of n
		switch(op) {
			case 4: case 5: m = sizeof(P12); bad = n < m; break;
			case 6: bad = n != m; break;
			case 7: m = sizeof(P12); bad = n < m; break;
			case 8: m = sizeof(P12); bad = n != m; break;
			case 9: case 10: if(rng.chance(1, 3)) { m = ~std::size_t(0) - rng.below(20); bad = true; } break;
			default: break;
		}
		std::fflush(nullptr);
		auto pid = ::fork();
		if(pid < 0) { vh::count("fork_failed"); return; }
		if(pid == 0) {
			int fd = ::open("/dev/null", O_WRONLY);
			if(fd >= 0) ::dup2(fd, 2);
			std::signal(SIGABRT, SIG_DFL);
			::alarm(20);
			WriteBuf w(pa, n); ReadBuf r(pb, n);
			P12 p; bool useW = false;
			switch(op) {
				case 0: nytl::write(w, ReadBuf(pb, m)); useW = true; break;
				case 1: { std::vector<std::uint8_t> v(m, 7); nytl::write(w, v); useW = true; break; }
				case 2: nytl::read(r, WriteBuf(pa, m)); break;
				case 3: { std::vector<std::uint8_t> v(m, 7); nytl::read(r, v); if(m) std::memcpy(pa, v.data(), m); break; }
				case 4: std::memcpy(&p, sh->b, sizeof(p)); nytl::write(w, p); useW = true; break;
				case 5: p = nytl::read<P12>(r); std::memcpy(pa, &p, sizeof(p)); break;
				case 6: nytl::copy(ReadBuf(pb, m), w); break;
				case 7: p = nytl::copy<P12>(r); std::memcpy(pa, &p, sizeof(p)); break;
				case 8: p = nytl::copyExact<P12>(r); std::memcpy(pa, &p, sizeof(p)); break;
				case 9: nytl::skip(r, m); break;
				default: nytl::skip(w, m); useW = true; break;
			}
			sh->data = useW ? w.data() : r.data();
			sh->size = useW ? w.size() : r.size();
			sh->done = true;
			::_exit(0);
		}
		int st = 0;
		::waitpid(pid, &st, 0);
		bool aborted = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
		static const char* names[] = {"write", "write-vector", "read", "read-vector", "write-object", "read-object", "copy", "copy-object", "copy-exact", "skip", "skip-write"};
		VH_CHECK(bad == aborted, names[op], (bad ? "not caught: " : "aborted or died: ") << m << " bytes with a buffer of " << n << ", status " << st);
		VH_CHECK(sh->done == !bad, names[op], "the operation " << (bad ? "continued" : "did not finish") << ": " << m << " bytes with a buffer of " << n);
		if(!bad) {
			if(op == 1) std::fill(ma.begin() + pad, ma.begin() + pad + m, std::byte(7));
			else if(op == 4) std::copy(mb.begin(), mb.begin() + m, ma.begin() + pad);
			else if(op < 9) std::copy(mb.begin() + pad, mb.begin() + pad + m, ma.begin() + pad);
			bool w = op == 0 || op == 1 || op == 4 || op == 10;
			if(sh->done && op != 6 && op != 7 && op != 8)
				VH_CHECK(sh->data == (w ? pa : pb) + m && sh->size == n - m, names[op], "buffer after " << m << " bytes of " << n);
		}
		VH_CHECK(std::equal(ma.begin(), ma.end(), sh->a) && std::equal(mb.begin(), mb.end(), sh->b), names[op], "memory after " << m << " bytes with a buffer of " << n);
		vh::count(bad ? "aborted" : "completed");
		vh::nontrivial(vh::Hash().add(op).add(n).add(m).v);
		if(rng.chance(1, 100)) vh::sample(std::string(names[op]) + " of " + std::to_string(m) + " bytes with a buffer of " + std::to_string(n) + (bad ? ": aborted" : ": completed"), 4);
	});
	return vh::finish();
}
