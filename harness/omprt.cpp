#include "omprt.hpp"
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <map>
#include <stdexcept>
#include <sys/mman.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define ASAN 1
#else
#define ASAN 0
#endif

// minimal x86-64 context switch (ucontext is intercepted by the sanitizer and costs system calls)
struct Cx { void* sp; };
extern "C" void omprt_switch(Cx* from, Cx* to);
extern "C" void omprt_start();
asm(R"(
.text
.globl omprt_switch
.type omprt_switch,@function
omprt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq (%rsi), %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size omprt_switch,.-omprt_switch
)");
namespace omprt {
void (*onSync)(int, int, int) = 0;
namespace {
const size_t STACK = 256 * 1024;
const int MAXT = 8;

// dying fibers leave their frames poisoned
void unpoison(char* st) {
#if ASAN
    __asan_unpoison_memory_region(st, STACK);
#else
    (void)st;
#endif
}

struct Fiber {
    Cx ctx; char* stack = 0; int id = 0;
    int state = 0;                 // 0 unused, 1 runnable, 2 blocked on barrier, 3 blocked on lock, 4 finished
    void* lock = 0; size_t ws = 0; // number of work shares met
    long lstart = 0, lend = 0; void* curws = 0;
    void* fake = 0;
};
struct WS { bool init = false; bool up = true; unsigned long long next = 0, end = 0, incr = 1, chunk = 1; int arrived = 0; int singles = 0; void* copy = 0; };
struct Team { int n; int arrived; void (*fn)(void*); void* data; std::vector<WS*> ws; };

Fiber fib[MAXT]; Team* team = 0; Fiber* cur = 0; Cx mainCtx; void* mainFake = 0;
bool originMain = false; void const* mainBottom = 0; size_t mainSize = 0;
int nthreads = 2, policy = 0; Devs devs; size_t devPos = 0; std::vector<uint8_t> pts; bool armed = false, divg = false;
uint64_t nreg = 0, nstep = 0; std::exception_ptr pend; bool dead = false;
std::map<void*, int> lockOwner; int lastRun = 0; int criticalKey; int atomicKey;

void toFiber(Fiber* f, bool fromMain, Fiber* from) {
#if ASAN
    void** save = fromMain ? &mainFake : &from->fake;
    __sanitizer_start_switch_fiber(save, f->stack, STACK);
#endif
    cur = f; originMain = fromMain;
    omprt_switch(fromMain ? &mainCtx : &from->ctx, &f->ctx);
#if ASAN
    __sanitizer_finish_switch_fiber(fromMain ? mainFake : from->fake, 0, 0);
#endif
}
void toMain(Fiber* from, bool dying) {
#if ASAN
    __sanitizer_start_switch_fiber(dying ? 0 : &from->fake, mainBottom, mainSize);
#endif
    cur = 0;
    omprt_switch(&from->ctx, &mainCtx);
#if ASAN
    __sanitizer_finish_switch_fiber(from->fake, 0, 0);
#endif
}
int choose(int n) { // n >= 2 enabled
    int c = 0;
    if (armed) {
        uint32_t idx = pts.size();
        pts.push_back((uint8_t)n);
        if (devPos < devs.size() && devs[devPos].first == idx) {
            c = devs[devPos].second; ++devPos;
            if (c >= n) { divg = true; c = 0; }
        }
    }
    return c;
}
// next fiber to run; preferred (still runnable) first, then ascending ids after it
Fiber* pick(Fiber* pref) {
    Fiber* en[MAXT]; int n = 0;
    if (policy == 0) { // keep running the same thread, then ascending ids
        if (pref && pref->state == 1) en[n++] = pref;
        for (int i = 0; i < team->n; ++i) if (&fib[i] != pref && fib[i].state == 1) en[n++] = &fib[i];
    }
    else { // policy 1: round robin upwards; policy 2: round robin downwards
        int base = pref ? pref->id : lastRun;
        for (int d = 1; d <= team->n; ++d) {
            int i = policy == 1 ? (base + d) % team->n : (base - d + 2 * team->n) % team->n;
            if (fib[i].state == 1) en[n++] = &fib[i];
        }
    }
    if (n == 0) return 0;
    Fiber* r = en[n >= 2 ? choose(n) : 0]; lastRun = r->id; return r;
}
void yield_() {
    if (!cur || !team || team->n < 2) return;
    ++nstep;
    Fiber* me = cur; Fiber* f = pick(me);
    if (f != me) toFiber(f, false, me);
}
void block() { // me->state already set
    Fiber* me = cur; Fiber* f = pick(0);
    if (!f) { dead = true; toMain(me, false); return; }
    if (f != me) toFiber(f, false, me);
}
void entry() {
#if ASAN
    if (originMain) __sanitizer_finish_switch_fiber(0, &mainBottom, &mainSize);
    else __sanitizer_finish_switch_fiber(0, 0, 0);
#endif
    Fiber* me = cur;
    try { team->fn(team->data); } catch (...) { if (!pend) pend = std::current_exception(); me->state = 4; toMain(me, true); }
    me->state = 4;
    Fiber* f = pick(0);
    if (f) {
#if ASAN
        __sanitizer_start_switch_fiber(0, f->stack, STACK);
#endif
        cur = f; originMain = false; omprt_switch(&me->ctx, &f->ctx);
    }
    bool all = true; for (int i = 0; i < team->n; ++i) if (fib[i].state != 4) all = false;
    if (!all) dead = true;
    toMain(me, true);
}
WS* workshare() {
    Fiber* me = cur; size_t k = me->ws++;
    while (team->ws.size() <= k) team->ws.push_back(new WS);
    return team->ws[k];
}
void barrier_() {
    if (!cur || !team || team->n < 2) return;
    yield_();
    Fiber* me = cur;
    if (++team->arrived == team->n) {
        team->arrived = 0;
        if (onSync) onSync(BARRIER, me->id, 0);
        for (int i = 0; i < team->n; ++i) if (fib[i].state == 2) fib[i].state = 1;
    } else { me->state = 2; block(); }
}
void acquire(void* l) {
    if (!cur) return;
    yield_();
    while (lockOwner.count(l)) { cur->state = 3; cur->lock = l; block(); }
    lockOwner[l] = cur->id;
    if (onSync) onSync(ACQUIRE, cur->id, (int)(size_t)l);
}
void release(void* l) {
    if (!cur) return;
    if (onSync) onSync(RELEASE, cur->id, (int)(size_t)l);
    lockOwner.erase(l);
    for (int i = 0; i < team->n; ++i) if (fib[i].state == 3 && fib[i].lock == l) fib[i].state = 1;
    yield_();
}
void runTeam(void (*fn)(void*), void* data, int n) {
    if (team || n <= 1) { // nested or single: run inline
        Team t; t.n = 1; t.arrived = 0; t.fn = fn; t.data = data; Team* save = team; Fiber* sc = cur;
        Fiber* f = new Fiber; f->id = 0; f->state = 1; team = &t; cur = f; ++nreg;
        try { fn(data); } catch (...) { team = save; cur = sc; delete f; for (WS* w : t.ws) delete w; throw; }
        team = save; cur = sc; delete f; for (WS* w : t.ws) delete w; return;
    }
    if (n > MAXT) n = MAXT;
    Team t; t.n = n; t.arrived = 0; t.fn = fn; t.data = data; team = &t; ++nreg; lockOwner.clear(); dead = false; lastRun = 0; pend = 0;
    for (int i = 0; i < n; ++i) {
        Fiber& f = fib[i];
        if (!f.stack) f.stack = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        f.id = i; f.state = 1; f.ws = 0; f.fake = 0;
        unpoison(f.stack);
        void** sp = (void**)(f.stack + STACK); *--sp = 0; *--sp = (void*)entry; for (int k = 0; k < 6; ++k) *--sp = 0; f.ctx.sp = sp;
    }
    if (onSync) onSync(REGION_BEGIN, 0, n);
    Fiber* f = pick(&fib[0]);
    toFiber(f, true, 0);
    cur = 0; team = 0;
    if (onSync) onSync(REGION_END, 0, n);
    for (WS* w : t.ws) delete w;
    if (pend) { std::exception_ptr p = pend; pend = 0; std::rethrow_exception(p); }
    if (dead) throw std::runtime_error("DEADLOCK: no enabled thread in a parallel region");
}
} // namespace

void setPolicy(int p) { policy = p; }
void setThreads(int n) { nthreads = n < 1 ? 1 : n > MAXT ? MAXT : n; }
int getThreads() { return nthreads; }
void arm(Devs const& d) { devs = d; devPos = 0; pts.clear(); armed = true; divg = false; }
void disarm() { if (armed && devPos != devs.size()) divg = true; armed = false; }
std::vector<uint8_t> const& points() { return pts; }
uint64_t regions() { return nreg; }
uint64_t steps() { return nstep; }
bool diverged() { return divg; }
int currentFiber() { return cur && team && team->n > 1 ? cur->id : -1; }
int teamSize() { return team ? team->n : 1; }
bool onOwnStack(void const* p) { return cur && cur->stack && (char const*)p >= cur->stack && (char const*)p < cur->stack + STACK; }
void yieldPoint() { yield_(); }
} // namespace omprt

using namespace omprt;
typedef unsigned long long ull;
static bool loopNext(WS* w, ull* s, ull* e) {
    yield_();
    if (w->up ? w->next >= w->end : (long long)w->next <= (long long)w->end) return false;
    ull step = w->incr * w->chunk; *s = w->next;
    if (w->up) { ull left = w->end - w->next; w->next = (left < step) ? w->end : w->next + step; }
    else { w->next += step; if ((long long)w->next < (long long)w->end) w->next = w->end; }
    *e = w->next; return true;
}
static WS* loopStart(bool up, ull start, ull end, ull incr, ull chunk) {
    WS* w = workshare(); cur->curws = w;
    if (!w->init) { w->init = true; w->up = up; w->next = start; w->end = end; w->incr = incr; w->chunk = chunk ? chunk : 1; }
    return w;
}
// signed ranges are shifted so that unsigned comparison works
static const ull BIAS = 1ull << 63;
static bool lstart(long s, long e, long incr, long chunk, long* is, long* ie) {
    if (!cur) { *is = s; *ie = e; return incr > 0 ? s < e : s > e; }
    WS* w = incr > 0 ? loopStart(true, (ull)s ^ BIAS, (ull)e ^ BIAS, incr, chunk) : loopStart(false, s, e, incr, chunk);
    ull a, b; if (!loopNext(w, &a, &b)) return false;
    *is = w->up ? (long)(a ^ BIAS) : (long)a; *ie = w->up ? (long)(b ^ BIAS) : (long)b; return true;
}
static bool lnext(long* is, long* ie) {
    if (!cur) return false;
    WS* w = (WS*)cur->curws; ull a, b; if (!loopNext(w, &a, &b)) return false;
    *is = w->up ? (long)(a ^ BIAS) : (long)a; *ie = w->up ? (long)(b ^ BIAS) : (long)b; return true;
}
static bool ustart(bool up, ull s, ull e, ull incr, ull chunk, ull* is, ull* ie) {
    if (!cur) { *is = s; *ie = e; return up ? s < e : s > e; }
    WS* w = loopStart(up, s, e, incr, chunk); return loopNext(w, is, ie);
}
static bool unext(ull* is, ull* ie) { if (!cur) return false; return loopNext((WS*)cur->curws, is, ie); }
struct PL { void (*fn)(void*); void* data; };
static void parLoop(void (*fn)(void*), void* data, unsigned nt, long s, long e, long incr, long chunk) {
    // combined construct: every thread starts with the work share already set up
    int n = nt ? (int)nt : nthreads;
    struct D { void (*fn)(void*); void* data; long s, e, incr, chunk; } d = {fn, data, s, e, incr, chunk};
    runTeam([](void* p) { D* d = (D*)p; if (d->incr > 0) loopStart(true, (ull)d->s ^ BIAS, (ull)d->e ^ BIAS, d->incr, d->chunk); else loopStart(false, d->s, d->e, d->incr, d->chunk); d->fn(d->data); }, &d, n);
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { runTeam(fn, data, nt ? (int)nt : nthreads); }
#define LOOPS(K) \
  bool GOMP_loop_##K##_start(long s, long e, long i, long c, long* a, long* b) { return lstart(s, e, i, c, a, b); } \
  bool GOMP_loop_##K##_next(long* a, long* b) { return lnext(a, b); } \
  bool GOMP_loop_ull_##K##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return ustart(up, s, e, i, c, a, b); } \
  bool GOMP_loop_ull_##K##_next(ull* a, ull* b) { return unext(a, b); } \
  void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { parLoop(fn, d, nt, s, e, i, c); }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define RLOOPS(K) \
  bool GOMP_loop_##K##_start(long s, long e, long i, long* a, long* b) { return lstart(s, e, i, 1, a, b); } \
  bool GOMP_loop_##K##_next(long* a, long* b) { return lnext(a, b); } \
  bool GOMP_loop_ull_##K##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { return ustart(up, s, e, i, 1, a, b); } \
  bool GOMP_loop_ull_##K##_next(ull* a, ull* b) { return unext(a, b); } \
  void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { parLoop(fn, d, nt, s, e, i, 1); }
RLOOPS(runtime) RLOOPS(nonmonotonic_runtime) RLOOPS(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier_(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier_(); return false; }
void GOMP_barrier() { barrier_(); }
bool GOMP_barrier_cancel() { barrier_(); return false; }
bool GOMP_single_start() { if (!cur) return true; WS* w = workshare(); yield_(); return w->singles++ == 0; }
void* GOMP_single_copy_start() { if (!cur) return 0; WS* w = workshare(); cur->curws = w; yield_(); if (w->singles++ == 0) return 0; barrier_(); return w->copy; }
void GOMP_single_copy_end(void* p) { if (!cur) return; ((WS*)cur->curws)->copy = p; barrier_(); }
void GOMP_critical_start() { acquire(&criticalKey); }
void GOMP_critical_end() { release(&criticalKey); }
void GOMP_critical_name_start(void** p) { acquire(p); }
void GOMP_critical_name_end(void** p) { release(p); }
void GOMP_atomic_start() { acquire(&atomicKey); }
void GOMP_atomic_end() { release(&atomicKey); }
unsigned GOMP_sections_start(unsigned n) { if (!cur) return n ? 1 : 0; WS* w = loopStart(true, 1, n + 1ull, 1, 1); ull a, b; return loopNext(w, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { if (!cur) return 0; ull a, b; return loopNext((WS*)cur->curws, &a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { barrier_(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned nt, unsigned cnt, unsigned) { parLoop(fn, data, nt, 1, cnt + 1, 1, 1); }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
    yield_();
    if (cpy) { char* b = (char*)malloc(sz + al); char* a = (char*)(((size_t)b + al - 1) & ~(size_t)(al - 1)); cpy(a, data); fn(a); free(b); }
    else { char* b = (char*)malloc(sz + al + 1); char* a = (char*)(((size_t)b + al - 1) & ~(size_t)(al - 1)); memcpy(a, data, sz); fn(a); free(b); }
}
int omp_get_thread_num() { return cur && team ? cur->id : 0; }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_max_threads() { return nthreads; }
int omp_get_num_procs() { return nthreads; }
int omp_get_thread_limit() { return MAXT; }
int omp_in_parallel() { return team && team->n > 1; }
void omp_set_num_threads(int n) { setThreads(n); }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_level() { return team ? 1 : 0; }
double omp_get_wtime() { return (double)clock() / CLOCKS_PER_SEC; }
double omp_get_wtick() { return 1e-6; }
void omp_init_lock(void* l) { memset(l, 0, sizeof(int)); }
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { acquire(l); }
void omp_unset_lock(void* l) { release(l); }
int omp_test_lock(void* l) { if (!cur) return 1; yield_(); if (lockOwner.count(l)) return 0; lockOwner[l] = cur->id; if (onSync) onSync(ACQUIRE, cur->id, (int)(size_t)l); return 1; }
}
