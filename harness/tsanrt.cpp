// Replacement for the ThreadSanitizer runtime: every instrumented access inside a parallel region is checked
// with vector clocks; program points whose accesses are unordered become scheduling points of the explorer.
// Compiled without -fsanitize=thread.
#include "omprt.hpp"
#include "tsanrt.hpp"
#include <cstring>
#include <unordered_map>
namespace tsr {
static const int T = 8;
struct VC { uint32_t c[T]; };
static VC vc[T]; static std::unordered_map<uint64_t, VC> sync_; static std::set<uintptr_t> racy_, pending_; static size_t fresh_ = 0; static bool on = false; static uint64_t accesses_ = 0;
struct Rec { uint32_t clk; uint8_t tid, mask, wr; uintptr_t pc; };
struct Cell { uint64_t key; uint32_t epoch; uint8_t n; Rec r[6]; };
static const size_t N = 1 << 16; static Cell* tab = 0; static uint32_t epoch = 1;
static void join(VC& a, VC const& b) { for (int i = 0; i < T; ++i) if (a.c[i] < b.c[i]) a.c[i] = b.c[i]; }
static void onSync(int kind, int tid, int arg) {
    switch (kind) {
    case omprt::REGION_BEGIN: ++epoch; memset(vc, 0, sizeof vc); for (int i = 0; i < T; ++i) vc[i].c[i] = 1; sync_.clear(); break;
    case omprt::BARRIER: { VC m = vc[0]; for (int i = 1; i < T; ++i) join(m, vc[i]); for (int i = 0; i < T; ++i) { vc[i] = m; ++vc[i].c[i]; } break; }
    case omprt::ACQUIRE: { auto it = sync_.find((uint32_t)arg); if (it != sync_.end()) join(vc[tid], it->second); break; }
    case omprt::RELEASE: sync_[(uint32_t)arg] = vc[tid]; ++vc[tid].c[tid]; break;
    default: break;
    }
}
static Cell* cell(uint64_t key) {
    size_t h = (key * 0x9e3779b97f4a7c15ull) >> 48;
    for (int i = 0; i < 64; ++i, h = (h + 1) & (N - 1)) { Cell& c = tab[h]; if (c.epoch != epoch) { c.epoch = epoch; c.key = key; c.n = 0; return &c; } if (c.key == key) return &c; }
    return 0;   // table full: this access is not tracked
}
static void note(uintptr_t pc) { if (!racy_.count(pc) && pending_.insert(pc).second) ++fresh_; }
static void access(void const* p, size_t n, bool wr, uintptr_t pc) {
    if (!on) return; int t = omprt::currentFiber(); if (t < 0 || omprt::onOwnStack(p)) return;
    if (!racy_.empty() && racy_.count(pc)) omprt::yieldPoint();
    ++accesses_; uintptr_t a = (uintptr_t)p, e = a + n;
    while (a < e) {
        uint64_t key = a >> 3; uintptr_t top = (key + 1) << 3; if (top > e) top = e; uint8_t mask = 0; for (uintptr_t q = a; q < top; ++q) mask |= 1 << (q & 7);
        Cell* c = cell(key);
        if (c) {
            int k = 0; for (int i = 0; i < c->n; ++i) {
                Rec& r = c->r[i]; bool ordered = vc[t].c[r.tid] >= r.clk;
                if ((r.mask & mask) && (r.wr || wr) && r.tid != t && !ordered) { note(r.pc); note(pc); }
                if (r.tid == t && r.mask == mask && (wr || !r.wr)) continue;   // superseded by the new access
                c->r[k++] = r; }
            if (k == 6) { for (int i = 1; i < 6; ++i) c->r[i - 1] = c->r[i]; k = 5; }
            c->r[k++] = Rec{vc[t].c[t], (uint8_t)t, mask, (uint8_t)wr, pc}; c->n = (uint8_t)k;
        }
        a = top;
    }
}
static void atomicOp(void const* p) {
    if (!on) return; int t = omprt::currentFiber(); if (t < 0 || omprt::onOwnStack(p)) return;
    omprt::yieldPoint(); VC& s = sync_[(uint64_t)(uintptr_t)p | 1ull << 63]; join(vc[t], s); s = vc[t]; ++vc[t].c[t];
}
void start() { if (!tab) tab = new Cell[N](); racy_.clear(); pending_.clear(); fresh_ = 0; on = true; omprt::onSync = onSync; ++epoch; }
void stop() { on = false; omprt::onSync = 0; }
size_t takeFresh(bool promote) { size_t f = fresh_; fresh_ = 0; if (promote) racy_.insert(pending_.begin(), pending_.end()); pending_.clear(); return f; }
std::set<uintptr_t> const& racy() { return racy_; }
uint64_t accesses() { return accesses_; }
} // namespace tsr
extern "C" void mc_onAlloc(void* p, size_t n) {   // memory handed out afresh carries no history
    using namespace tsr; if (!on || omprt::currentFiber() < 0 || n > 4096) return;
    for (uint64_t k = (uintptr_t)p >> 3; k <= ((uintptr_t)p + n - 1) >> 3; ++k) { Cell* c = cell(k); if (c) c->n = 0; }
}
#define PC (uintptr_t)__builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void* p) { tsr::access(p, N, false, PC); } void __tsan_write##N(void* p) { tsr::access(p, N, true, PC); } \
  void __tsan_unaligned_read##N(void* p) { tsr::access(p, N, false, PC); } void __tsan_unaligned_write##N(void* p) { tsr::access(p, N, true, PC); } \
  void __tsan_volatile_read##N(void* p) { tsr::access(p, N, false, PC); } void __tsan_volatile_write##N(void* p) { tsr::access(p, N, true, PC); } \
  void __tsan_unaligned_volatile_read##N(void* p) { tsr::access(p, N, false, PC); } void __tsan_unaligned_volatile_write##N(void* p) { tsr::access(p, N, true, PC); } \
  void __tsan_read_write##N(void* p) { tsr::access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { tsr::access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { tsr::access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { tsr::access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { tsr::access(p, 8, false, PC); }
#define AT(N, TY) \
  TY __tsan_atomic##N##_load(TY const volatile* p, int) { tsr::atomicOp((void*)p); return *p; } \
  void __tsan_atomic##N##_store(TY volatile* p, TY v, int) { tsr::atomicOp((void*)p); *p = v; } \
  TY __tsan_atomic##N##_exchange(TY volatile* p, TY v, int) { tsr::atomicOp((void*)p); TY o = *p; *p = v; return o; } \
  TY __tsan_atomic##N##_fetch_add(TY volatile* p, TY v, int) { tsr::atomicOp((void*)p); TY o = *p; *p = o + v; return o; } \
  TY __tsan_atomic##N##_fetch_sub(TY volatile* p, TY v, int) { tsr::atomicOp((void*)p); TY o = *p; *p = o - v; return o; } \
  TY __tsan_atomic##N##_fetch_and(TY volatile* p, TY v, int) { tsr::atomicOp((void*)p); TY o = *p; *p = o & v; return o; } \
  TY __tsan_atomic##N##_fetch_or(TY volatile* p, TY v, int) { tsr::atomicOp((void*)p); TY o = *p; *p = o | v; return o; } \
  TY __tsan_atomic##N##_fetch_xor(TY volatile* p, TY v, int) { tsr::atomicOp((void*)p); TY o = *p; *p = o ^ v; return o; } \
  TY __tsan_atomic##N##_fetch_nand(TY volatile* p, TY v, int) { tsr::atomicOp((void*)p); TY o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(TY volatile* p, TY* e, TY v, int, int) { tsr::atomicOp((void*)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(TY volatile* p, TY* e, TY v, int, int) { tsr::atomicOp((void*)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  TY __tsan_atomic##N##_compare_exchange_val(TY volatile* p, TY e, TY v, int, int) { tsr::atomicOp((void*)p); TY o = *p; if (o == e) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void* __real_memcpy(void*, void const*, size_t); void* __real_memmove(void*, void const*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, void const* s, size_t n) { if (n) { tsr::access(s, n, false, PC); tsr::access(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, void const* s, size_t n) { if (n) { tsr::access(s, n, false, PC); tsr::access(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) tsr::access(d, n, true, PC); return __real_memset(d, c, n); }
}
