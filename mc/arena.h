// Deterministic allocator for the broker harness.
//
// std::map<std::shared_ptr<worker>, ...> makes the order of heap addresses observable (which idle worker is
// picked).  To own that nondeterminism every execution allocates from a fresh region at a fixed address, with
// addresses strictly increasing ("up") or strictly decreasing ("down") in allocation order.  Memory is not
// reused within an execution.  Regions with objects that outlive the execution (function-local statics) are
// left alone; a region is recycled only when its live count is zero.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <sys/mman.h>

namespace arena
{
	constexpr std::uintptr_t BASE = 0x600000000000ull;
	constexpr std::size_t CHUNK = 4u << 20;
	constexpr std::size_t NCHUNK = 2048;
	struct state {
		bool mapped = false;
		bool active = false;
		bool down = false;
		int cur = -1;
		std::size_t used = 0;
		std::uint32_t live[NCHUNK] = {};
		bool in_use[NCHUNK] = {};
	};
	inline state S;

	inline void map_once()
	{
		if (S.mapped) return;
		void *p = mmap((void *) BASE, CHUNK * NCHUNK, PROT_READ | PROT_WRITE,
			MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (p != (void *) BASE) {
			std::perror("arena mmap");
			std::_Exit(3);
		}
		S.mapped = true;
	}
	inline void next_chunk()
	{
		for (std::size_t i = 0; i < NCHUNK; ++i) {
			if (S.live[i] == 0) {
				S.cur = (int) i;
				S.used = 0;
				return;
			}
		}
		std::fprintf(stderr, "arena exhausted\n");
		std::_Exit(3);
	}
	inline void begin(bool down)
	{
		map_once();
		S.down = down;
		next_chunk();
		S.active = true;
	}
	inline void end()
	{
		S.active = false;
	}
	inline bool owns(void *p)
	{
		auto a = (std::uintptr_t) p;
		return a >= BASE && a < BASE + CHUNK * NCHUNK;
	}
	inline void *alloc(std::size_t n)
	{
		n = (n + 31) & ~std::size_t(15); // at least 16 bytes of slack between objects
		if (n > CHUNK) return std::malloc(n);
		if (S.used + n > CHUNK) next_chunk();
		std::uintptr_t base = BASE + (std::uintptr_t) S.cur * CHUNK;
		S.live[S.cur]++;
		S.used += n;
		return S.down ? (void *) (base + CHUNK - S.used) : (void *) (base + S.used - n);
	}
	inline void release(void *p)
	{
		S.live[((std::uintptr_t) p - BASE) / CHUNK]--;
	}
} // namespace arena

#ifdef VERIF_ARENA
void *operator new(std::size_t n)
{
	void *p = arena::S.active ? arena::alloc(n) : std::malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	return p;
}
void *operator new[](std::size_t n)
{
	return operator new(n);
}
void operator delete(void *p) noexcept
{
	if (!p) return;
	if (arena::owns(p)) {
		arena::release(p);
	} else {
		std::free(p);
	}
}
void operator delete[](void *p) noexcept
{
	operator delete(p);
}
void operator delete(void *p, std::size_t) noexcept
{
	operator delete(p);
}
void operator delete[](void *p, std::size_t) noexcept
{
	operator delete(p);
}
#endif
