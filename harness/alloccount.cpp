// Counting global allocator: every operator new/delete pair is balanced or it is a leak. Large blocks are
// recycled through per-size free lists (poisoned while free, guarded at both ends) because fresh mappings
// are slow; small blocks come from the sanitizer's own allocator.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif
namespace mc {
static long live = 0; long liveAllocations() { return live; }
static const uint64_t MAGIC = 0x7db1a0c4e55a11b3ull, FREED = 0x5eaf00d5eaf00d11ull;
static const std::size_t BIG = 60000, HEAD = 4096, TAIL = 4096;   // guard sizes
struct Block { uint64_t magic; std::size_t size, cap; Block* next; bool kept; };
static std::size_t keptBytes = 0; static const std::size_t KEEP = 768u << 20;   // free memory a process holds on to
static Block* freeList[64];
static int classOf(std::size_t n) { int c = 0; std::size_t k = 65536; while (k < n) { k += k / 2; ++c; } return c; }
static std::size_t capOf(int c) { std::size_t k = 65536; while (c--) k += k / 2; return k; }
}
using namespace mc;
// big blocks are page aligned + 64 so that they can be told from malloc blocks by their header registry
static char* arena = 0; static std::size_t arenaUsed = 0;
static const std::size_t ARENA = 96ull << 30;
#include <sys/mman.h>
extern "C" void mc_onAlloc(void*, std::size_t) __attribute__((weak));
static void* get(std::size_t n) {
    ++live;
    if (n < BIG) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (mc_onAlloc) mc_onAlloc(p, n ? n : 1); return p; }
    if (n > (1ull << 40)) { --live; throw std::bad_alloc(); }
    int c = classOf(n); Block* b = c < 64 ? freeList[c] : 0;
    if (b) { UNPOISON(b, sizeof(Block)); freeList[c] = b->next; if (b->kept) { keptBytes -= b->cap; b->kept = false; } }
    else {
        if (!arena) { arena = (char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (arena == MAP_FAILED) abort(); }
        std::size_t cap = capOf(c), need = (HEAD + cap + TAIL + 4095) & ~(std::size_t)4095;
        if (arenaUsed + need > ARENA) { --live; throw std::bad_alloc(); }
        b = (Block*)(arena + arenaUsed); arenaUsed += need; b->cap = cap; b->kept = false;
    }
    b->magic = MAGIC; b->size = n; char* p = (char*)b + HEAD;
    UNPOISON(p, n); if (!mc_onAlloc) std::memset(p, 0xC5, n < 8192 ? n : 8192);
    POISON(p + n, b->cap + TAIL - n); POISON((char*)b + sizeof(Block), HEAD - sizeof(Block));
    POISON(b, sizeof(Block));
    return p;
}
static void put(void* q) {
    if (!q) return; --live;
    char* p = (char*)q;
    if (arena && p >= arena && p < arena + ARENA) {
        Block* b = (Block*)(p - HEAD);
        if ((((uintptr_t)p) & 4095)) abort();
        UNPOISON(b, sizeof(Block));
        if (b->magic != MAGIC) abort();   // double free or bad pointer
        b->magic = FREED; int c = classOf(b->cap); b->next = freeList[c]; freeList[c] = b;
        POISON(b, HEAD + b->cap + TAIL);
        UNPOISON(b, sizeof(Block)); b->kept = keptBytes + b->cap <= KEEP; if (b->kept) keptBytes += b->cap; else madvise(p, b->cap & ~(std::size_t)4095, MADV_DONTNEED); POISON(b, sizeof(Block));
        return;
    }
    std::free(q);
}
void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return get(n); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t) noexcept { put(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { put(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { put(p); }
