// Replaces the global allocation functions, include in one translation unit.
// failCountdown() > 0: the n-th allocation from now on fails once.
#pragma once
#include "oomstate.hpp"
#include <new>
#include <cstdlib>

namespace oom {
inline void* alloc(std::size_t n) {
	auto& c = cbm::failCountdown();
	if(c > 0 && --c == 0) {
		c = -1;
		cbm::failHappened() = true;
		throw std::bad_alloc();
	}
	void* p = std::malloc(n ? n : 1);
	if(!p) throw std::bad_alloc();
	return p;
}
} // namespace oom

void* operator new(std::size_t n) { return oom::alloc(n); }
void* operator new[](std::size_t n) { return oom::alloc(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
