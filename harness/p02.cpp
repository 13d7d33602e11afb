// P02: parallel algorithms under every schedule up to a bounded number of deviations from a base schedule.
// Built twice: with AddressSanitizer (scheduling points: every runtime entry, user callbacks), and with
// instrumented memory accesses (RACES), where unordered accesses become scheduling points as well.
#include "model.hpp"
#ifdef RACES
#include "tsanrt.hpp"
#endif
using namespace model; using namespace tdzdd;
static bool gYield = false;
// the copy of a specification that a thread uses is its own: scratch data written before a preemption is there after it
template<int AR> struct Scratchy : DdSpec<Scratchy<AR>, int, AR> {
    Table<AR> const* t; int a, b; explicit Scratchy(Table<AR> const& t) : t(&t), a(0), b(0) {}
    int getRoot(int& s) { s = t->stateOf(t->root); return t->levelOf(t->root); }
    int getChild(int& s, int level, int v) { a = level; b = s; if (gYield) omprt::yieldPoint(); int c = t->at(a, b, v); s = t->stateOf(c); return t->levelOf(c); }
    size_t hashCode(int const& s) const { return s * 2654435761u; }
};
struct Obj { int key; std::string* heap; Obj() : key(0), heap(new std::string("state")) {} Obj(Obj const& o) : key(o.key), heap(new std::string(*o.heap)) {} Obj& operator=(Obj const& o) { key = o.key; *heap = *o.heap; return *this; } ~Obj() { delete heap; } bool operator==(Obj const& o) const { return key == o.key && *heap == *o.heap; } friend std::ostream& operator<<(std::ostream& os, Obj const& o) { return os << o.key; } };
template<int AR> struct ObjSpec : DdSpec<ObjSpec<AR>, Obj, AR> {
    Table<AR> const* t; explicit ObjSpec(Table<AR> const& t) : t(&t) {}
    int getRoot(Obj& s) const { s.key = t->stateOf(t->root); return t->levelOf(t->root); }
    int getChild(Obj& s, int level, int b) const { int c = t->at(level, s.key, b); s.key = t->stateOf(c); return t->levelOf(c); }
    size_t hashCode(Obj const& s) const { return s.key; }
};
// one state in all levels but the same hash: everything lands in one task
template<int AR> struct OneTask : DdSpec<OneTask<AR>, int, AR> {
    Table<AR> const* t; explicit OneTask(Table<AR> const& t) : t(&t) {}
    int getRoot(int& s) const { s = t->stateOf(t->root); return t->levelOf(t->root); }
    int getChild(int& s, int level, int b) const { int c = t->at(level, s, b); s = t->stateOf(c); return t->levelOf(c); }
    size_t hashCode(int const&) const { return 7; }
};
template<int AR> struct CountEval : DdEval<CountEval<AR>, uint64_t> {   // accepted paths, weighted by level; uses scratch data of its own copy
    uint64_t a = 0; std::vector<uint64_t> lv; int destructed = 0;
    void initialize(int n) { lv.assign(n + 2, 1); for (int i = 1; i <= n; ++i) lv[i] = lv[i - 1] * 3 + i; }
    void evalTerminal(uint64_t& v, bool one) const { v = one; }
    void evalNode(uint64_t& v, int level, DdValues<uint64_t, AR> const& w) { a = 0; for (int b = 0; b < AR; ++b) { a = a * 5 + w.get(b) * (b + 1) + lv[w.getLevel(b)] * (w.get(b) != 0); if (gYield) omprt::yieldPoint(); } v = a + lv[level]; }
    void destructLevel(int) { ++destructed; }
};
template<int AR> struct VecEval : DdEval<VecEval<AR>, std::vector<int>, std::vector<int>> {   // heap values: lexicographically first accepted path
    void evalTerminal(std::vector<int>& v, int id) { v.clear(); v.push_back(id ? 1 : 0); }
    void evalNode(std::vector<int>& v, int level, DdValues<std::vector<int>, AR> const& w) { v.assign(1, 0); for (int b = 0; b < AR; ++b) if (w.get(b)[0]) { v = w.get(b); v.push_back(level * 10 + b); return; } }
    std::vector<int> getValue(std::vector<int> const& v) { return v; }
};
enum Op { CONSTRUCT, SUBSET, ZRED, BRED, QRED, EVAL, PIPE, NOP };
static char const* ON[] = {"construction", "subsetting", "ZDD reduction", "BDD reduction", "QDD reduction", "evaluation", "construction+subsetting+reduction+evaluation"};
static char const* KN[] = {"scalar", "array", "hybrid", "scratch", "object", "one-task"};
template<int AR> static DdStructure<AR> make(Table<AR> const& t, int kind, bool mp) {
    switch (kind) { case 0: return DdStructure<AR>(TScalar<AR, PInt>(t), mp); case 1: return DdStructure<AR>(TArray<AR, unsigned char>(t, 3, 1), mp); case 2: return DdStructure<AR>(THybrid<AR, short, int>(t, 2, 1), mp); case 3: return DdStructure<AR>(Scratchy<AR>(t), mp); case 4: return DdStructure<AR>(ObjSpec<AR>(t), mp); default: return DdStructure<AR>(OneTask<AR>(t), mp); }
}
template<int AR> static void sub(DdStructure<AR>& d, Table<AR> const& t, int kind) {
    switch (kind) { case 0: d.zddSubset(TScalar<AR, PInt>(t)); break; case 1: d.zddSubset(TArray<AR, unsigned char>(t, 3, 1)); break; case 2: d.zddSubset(THybrid<AR, short, int>(t, 2, 1)); break; case 3: d.zddSubset(Scratchy<AR>(t)); break; case 4: d.zddSubset(ObjSpec<AR>(t)); break; default: d.zddSubset(OneTask<AR>(t)); }
}
template<int AR> static void red(DdStructure<AR>& d, int op) { if (op == ZRED) d.zddReduce(); else if (op == BRED) d.bddReduce(); else d.qddReduce(); }
template<int AR> struct Job {
    Table<AR> t, u; int op, kind; Canon<AR> raw{RAW}, zdd{ZDD}; DdStructure<AR> base, want; int ref = 0; size_t size = 0; uint64_t val = 0; std::vector<int> vec; bool warm = false;
    Job(Table<AR> const& t, Table<AR> const& u, int op, int kind) : t(t), u(u), op(op), kind(kind) {   // serial reference
        base = make(op == SUBSET ? this->u : this->t, 0, false); bool y = gYield; gYield = false;
        switch (op) {
        case CONSTRUCT: want = make(this->t, kind, false); ref = this->t.canon(raw); if (ref != canonOf(raw, want)) throw Fail("serial", "serial construction differs from the table"); break;
        case SUBSET: want = base; sub(want, this->t, kind); { int a = this->t.canon(zdd), b = this->u.canon(zdd); ref = combine(zdd, a, b, true); if (ref != canonOf(zdd, want)) throw Fail("serial", "serial subsetting differs from the intersection"); } break;
        case ZRED: case BRED: case QRED: want = base; red(want, op); ref = canonOf(raw, want); break;
        case EVAL: want = base; val = want.evaluate(CountEval<AR>()); vec = want.evaluate(VecEval<AR>()); break;
        default: want = make(this->t, kind, false); { DdStructure<AR> x = make(this->u, 0, false); want.zddSubset(x); } want.zddReduce(); ref = canonOf(raw, want); val = want.evaluate(CountEval<AR>()); }
        size = want.size(); gYield = y; base.useMultiProcessors(true);
    }
    void exec(Ctx& cx) {
        long live = liveAllocations();
        { DdStructure<AR> d; int got = -1; size_t sz = 0; cx.op();
        switch (op) {
        case CONSTRUCT: d = make(t, kind, true); omprt::disarm(); got = canonOf(raw, d); cx.require(got == ref, "function", [&] { return str("accepted paths ", raw.text(got), " instead of ", raw.text(ref)); }); break;
        case SUBSET: d = base; sub(d, t, kind); omprt::disarm(); got = canonOf(zdd, d); cx.require(got == ref, "function", [&] { return str("family ", zdd.text(got), " instead of ", zdd.text(ref)); }); break;
        case ZRED: case BRED: case QRED: d = base; red(d, op); omprt::disarm(); got = canonOf(raw, d); cx.require(got == ref, "function", [&] { return str("paths ", raw.text(got), " instead of ", raw.text(ref)); }); cx.require(d == want, "equal", [&] { return "the reduced diagrams compare unequal"; }); break;
        case EVAL: { d = base; uint64_t v = d.evaluate(CountEval<AR>()); auto w = d.evaluate(VecEval<AR>()); omprt::disarm(); cx.require(v == val, "value", [&] { return str("value ", v, " instead of ", val); }); cx.require(w == vec, "value", [&] { return "object value differs"; }); break; }
        default: { d = make(t, kind, true); DdStructure<AR> x = make(u, 0, true); d.zddSubset(x); d.zddReduce(); uint64_t v = d.evaluate(CountEval<AR>()); omprt::disarm(); got = canonOf(raw, d); cx.require(got == ref, "function", [&] { return str("paths ", raw.text(got), " instead of ", raw.text(ref)); }); cx.require(d == want, "equal", [&] { return "the reduced diagrams compare unequal"; }); cx.require(v == val, "value", [&] { return str("value ", v, " instead of ", val); }); } }
        sz = d.size(); cx.require(sz == size && (op == CONSTRUCT || op == SUBSET || sz == reachable(d)), "size", [&] { return str(sz, " nodes instead of ", size); }); cx.trace(); }
#ifndef RACES
        if (warm) cx.require(liveAllocations() == live, "memory", [&] { return str(liveAllocations() - live, " allocations left"); });
#endif
        warm = true; (void)live;
    }
};
static std::string devText(omprt::Devs const& d) { std::string s; for (auto& x : d) s += str(" ", x.first, ":", (int)x.second); return s; }
// all schedules with at most D deviations whose first deviation falls into this bucket
template<typename J> static void explore(Ctx& cx, J& job, int D, unsigned bucket, unsigned K, std::string const& what) {
    bool again = true; int rounds = 0; omprt::arm(omprt::Devs()); job.exec(cx);
#ifdef RACES
    tsr::start();
#endif
    while (again) {
        again = false; ++rounds;
        std::function<void(omprt::Devs&)> rec = [&](omprt::Devs& d) {
            cx.desc = str(what, " schedule:", devText(d)); omprt::arm(d); job.exec(cx); std::vector<uint8_t> p = omprt::points(); cx.points += p.size(); cx.maxdepth = std::max<uint64_t>(cx.maxdepth, p.size());
#ifdef RACES
            if (tsr::takeFresh(rounds < 8) && rounds < 8) { again = true; return; }   // new racy program points: start over with finer scheduling
#endif
            if (omprt::diverged()) { cx.capped = true; return; }   // the schedule could not be followed: no verdict from this branch
            if ((int)d.size() >= D) return;
            for (uint32_t i = d.empty() ? 0 : d.back().first + 1; i < p.size(); ++i) { if (d.empty() && i % K != bucket) continue; for (uint8_t c = 1; c < p[i]; ++c) { d.push_back({i, c}); rec(d); d.pop_back(); if (again) return; } } };
        omprt::Devs d; rec(d);
        if (!again) { std::vector<uint8_t> a; omprt::arm(omprt::Devs()); job.exec(cx); a = omprt::points(); omprt::arm(omprt::Devs()); job.exec(cx); if (a != omprt::points()) cx.capped = true; cx.outcome(mix(mix(hashStr(what), a.size()), D)); }
    }
#ifdef RACES
    cx.outcome(mix(tsr::racy().size(), 99)); tsr::stop();
#endif
}
template<int AR> static Table<AR> gen(uint64_t seed, int n, int w) {   // fixed pseudo-random tables, mostly non-terminal, all arcs valid
    Table<AR> t; t.n = n; t.w = w; t.root = Table<AR>::code(n, 0, w); t.ch.assign(n * w * AR, 0); uint64_t x = seed * 0x9e3779b97f4a7c15ull + 12345;
    for (int i = 1; i <= n; ++i) for (int s = 0; s < w; ++s) for (int b = 0; b < AR; ++b) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; int r = x >> 20 & 15, l = i - 1; if (r < 4 && l > 1) l = 1 + (x >> 30) % l; t.ch[((i - 1) * w + s) * AR + b] = l == 0 ? (int)(x >> 40 & 1) : r == 15 ? 1 : r == 14 ? 0 : Table<AR>::code(l, (x >> 36) % w, w); }
    if (seed & 2) for (int i = 1; i < n; ++i) for (int b = 0; b < AR; ++b) t.ch[((i - 1) * w + w - 1) * AR + b] = 0;   // dead states at every level: sweeping
    return t;
}
template<int AR> static Table<AR> dense(int n, int w) {   // every level full, every arc to the next level: input diagrams with many nodes per level
    Table<AR> t; t.n = n; t.w = w; t.root = Table<AR>::code(n, 0, w); t.ch.assign(n * w * AR, 0);
    for (int i = 1; i <= n; ++i) for (int s = 0; s < w; ++s) for (int b = 0; b < AR; ++b) t.ch[((i - 1) * w + s) * AR + b] = i == 1 ? (s + b != 1) : Table<AR>::code(i - 1, (s + b * (i + 1) + (i == n ? b : 0)) % w, w);
    return t;
}
template<int AR> static void battery(Scopes& s, std::string name, uint64_t seeds, int n, int w, std::vector<int> ops, std::vector<int> kinds, std::vector<int> threads, int D, unsigned K, bool th = false, bool yield = false) {
    std::string ot, kt, tt; for (int o : ops) ot += str(ot.empty() ? "" : ", ", ON[o]); for (int k : kinds) kt += str(kt.empty() ? "" : ", ", KN[k]); for (int k : threads) tt += str(tt.empty() ? "" : "/", k);
    s.add(name, str("all schedules with at most ", D, " deviations from each of 3 base schedules, ", tt, " threads; ", ot, "; ", kt, " states", yield ? " with preemption inside user callbacks" : "", "; ", seeds, " tables of ", n, " levels, ", widthText(w), ", arity ", AR), seeds * ops.size() * kinds.size() * threads.size() * 3 * K, [=](uint64_t x, Ctx& cx) {
        Dec d(x); unsigned bucket = d(K); int pol = d(3), th = threads[d(threads.size())], kind = kinds[d(kinds.size())], op = ops[d(ops.size())]; uint64_t seed = d(seeds);
        Table<AR> t = gen<AR>(seed * 2 + 1, n, w), u = op == SUBSET && seed % 2 == 0 ? dense<AR>(n, w) : gen<AR>(seed * 2 + 2, n, w); omprt::setThreads(th); omprt::setPolicy(pol); gYield = yield; Job<AR> job(t, u, op, kind);
        explore(cx, job, D, bucket, K, str(ON[op], ", ", KN[kind], " states, ", th, " threads, base schedule ", pol, ", ", t.text(), op == SUBSET || op == PIPE ? " with " + u.text() : std::string())); }, 1, 120);
    s.v.back().thorough = th;
}
template<int AR> static void every(Scopes& s, std::string name, int n, int w, std::vector<int> ops, int D, uint64_t step = 1, bool th = false) {   // all tables
    uint64_t N = Table<AR>::count(n, w) / step;
    s.add(name, str(step == 1 ? "all" : str("every ", step, "th of the"), " tables of ", n, " levels, ", widthText(w), ", arity ", AR, ": all schedules with at most ", D, " deviations, 2 threads, base schedule and state kind rotating"), N * ops.size(), [=](uint64_t x, Ctx& cx) {
        Dec d(x); int op = ops[d(ops.size())]; uint64_t k = d(N) * step; k += step > 1 ? k / step * 7 % step : 0; Table<AR> t, u; t.decode(k, n, w); u.decode(Table<AR>::count(n, w) - 1 - k, n, w); int pol = k / 7 % 3, kind = k / 3 % 6; omprt::setThreads(2); omprt::setPolicy(pol); gYield = false; Job<AR> job(t, u, op, kind);
        explore(cx, job, D, 0, 1, str(ON[op], ", ", KN[kind], " states, 2 threads, base schedule ", pol, ", ", t.text(), op == SUBSET || op == PIPE ? " with " + u.text() : std::string())); }, 0, 120);
    s.v.back().thorough = th;
}
// root -> two nodes at level 4 whose arcs end at 0, a dead node at level 3, level 2, level 1 or 1: which rows may be swept when depends on
// the lowest level any thread has reached
static Table<2> sweepy(int k) {
    Table<2> t; t.n = 5; t.w = 2; t.root = Table<2>::code(5, 0, 2); t.ch.assign(5 * 2 * 2, 0); auto set = [&](int l, int s, int b, int c) { t.ch[((l - 1) * 2 + s) * 2 + b] = c; }; auto C = [&](int l, int s) { return Table<2>::code(l, s, 2); };
    int to[] = {0, C(3, 0), C(2, 0), C(1, 0), 1}; set(5, 0, 0, C(4, 0)); set(5, 0, 1, C(4, 1)); for (int s = 0; s < 2; ++s) for (int b = 0; b < 2; ++b) { set(4, s, b, to[k % 5]); k /= 5; }
    set(2, 0, 0, C(1, 1)); set(2, 0, 1, C(1, 0)); set(1, 0, 1, 1); set(1, 1, 0, 1); set(1, 1, 1, 1); return t;
}
static void sweeps(Scopes& s, std::string name, int D, std::vector<int> threads, bool th = false) {
    s.add(name, str("all 625 five-level diagrams whose two level-4 nodes reach different depths over a dead node: all schedules with at most ", D, " deviations, construction and subsetting"), 625 * 2 * threads.size() * 3, [=](uint64_t x, Ctx& cx) {
        Dec d(x); int pol = d(3), nt = threads[d(threads.size())], op = d(2) ? SUBSET : CONSTRUCT; Table<2> t = sweepy((int)d.x), u = t; for (size_t i = 0; i < u.ch.size(); ++i) { int l = (int)i / 4 + 1; u.ch[i] = l == 1 ? 1 : Table<2>::code(l - 1, l == 5 ? i & 1 : i / 2 & 1, 2); } u.root = Table<2>::code(5, 0, 2);
        omprt::setThreads(nt); omprt::setPolicy(pol); gYield = false; Job<2> job(t, u, op, 0); explore(cx, job, D, 0, 1, str(ON[op], ", ", nt, " threads, base schedule ", pol, ", ", t.text())); }, 4, 120);
    s.v.back().thorough = th;
}
SCOPES(s) {
    (void)mcReg_; std::vector<int> all{CONSTRUCT, SUBSET, ZRED, BRED, QRED, EVAL}, top{CONSTRUCT, SUBSET}, low{ZRED, BRED, QRED, EVAL}, kinds{0, 1, 2, 3, 4, 5};
#ifndef RACES
    battery<2>(s, "top2", 1, 3, 3, top, kinds, {2}, 2, 4);
    battery<2>(s, "top2b", 2, 3, 4, top, {0}, {2}, 2, 8);
    battery<2>(s, "low2", 4, 3, 3, low, {0}, {2}, 2, 2);
    battery<2>(s, "long2", 2, 5, 3, top, {0}, {2}, 2, 16);
    battery<2>(s, "top3", 2, 4, 4, top, {0, 4}, {3, 4}, 1, 1);
    battery<2>(s, "low3", 4, 4, 6, low, {0}, {3, 4}, 1, 1);
    battery<2>(s, "low3d", 1, 3, 4, low, {0}, {3}, 2, 8);
    battery<3>(s, "ter", 2, 3, 3, all, {0, 2}, {2, 3}, 1, 1);
    battery<2>(s, "call", 2, 3, 3, {CONSTRUCT, SUBSET, EVAL}, {3}, {2, 3}, 1, 1, false, true);
    battery<2>(s, "call2", 2, 3, 2, {CONSTRUCT, SUBSET, EVAL}, {3}, {2}, 2, 4, false, true);
    battery<2>(s, "pipe", 4, 4, 4, {PIPE}, {0, 3, 4}, {2, 3}, 1, 1);
    battery<2>(s, "wide", 2, 4, 30, all, {0}, {2, 3, 8}, 1, 2);
    every<2>(s, "all22", 2, 2, {CONSTRUCT, SUBSET, ZRED, BRED, QRED, EVAL, PIPE}, 1);
    every<2>(s, "g32", 3, dag(2, 4), {CONSTRUCT, SUBSET, ZRED, EVAL}, 1);
    every<2>(s, "g42", 4, dag(2, 4), {CONSTRUCT, SUBSET, ZRED, PIPE}, 1, 19); every<2>(s, "g52", 5, dag(2, 5), {CONSTRUCT, SUBSET}, 1, 997); every<2>(s, "T-g42", 4, dag(2, 5), {CONSTRUCT, SUBSET, ZRED, BRED, PIPE}, 1, 7, true); every<2>(s, "T-g32", 3, dag(3, 6), {CONSTRUCT, SUBSET, ZRED, BRED, QRED, EVAL, PIPE}, 1, 1, true);
    sweeps(s, "sweep", 1, {2}); sweeps(s, "T-sweep", 2, {2, 3}, true);
    battery<2>(s, "T-top3", 1, 2, 2, top, {0}, {2}, 3, 32, true);
    battery<2>(s, "T-low3", 2, 2, 3, low, {0}, {2}, 3, 32, true);
    battery<2>(s, "T-top2", 6, 4, 4, top, kinds, {2}, 2, 16, true);
    battery<2>(s, "T-thr3", 2, 3, 3, all, {0, 4}, {3}, 2, 16, true);
    battery<2>(s, "T-pipe", 2, 3, 3, {PIPE}, {0, 3}, {2}, 2, 32, true);
    every<2>(s, "T-all32", 3, 2, {CONSTRUCT, SUBSET, ZRED, BRED, QRED, EVAL}, 1, 11, true);
#else
    sweeps(s, "sweep", 1, {2}); sweeps(s, "T-sweep", 2, {2}, true);
    battery<2>(s, "top2", 2, 3, 3, top, {0, 3}, {2}, 2, 8);
    battery<2>(s, "low2", 2, 3, 4, low, {0}, {2}, 2, 4);
    battery<2>(s, "top3", 2, 4, 4, top, {0, 4}, {3}, 1, 1);
    battery<2>(s, "low3", 4, 5, 5, low, {0}, {3, 4}, 1, 1);
    battery<2>(s, "pipe", 4, 5, 4, {PIPE}, {0, 3}, {2, 3}, 1, 2);
    battery<2>(s, "wide", 1, 4, 20, all, {0}, {2, 4}, 1, 2);
    every<2>(s, "all22", 2, 2, {SUBSET, ZRED, PIPE}, 1, 4);
    every<2>(s, "g32", 3, dag(2, 4), {ZRED, CONSTRUCT}, 1, 5); every<2>(s, "T-g32", 3, dag(2, 5), {CONSTRUCT, SUBSET, ZRED, BRED, QRED, EVAL}, 1, 1, true);
    battery<2>(s, "T-top2", 6, 4, 4, top, {0, 3, 4}, {2}, 2, 16, true);
    battery<2>(s, "T-low2", 6, 4, 4, low, {0}, {2, 3}, 2, 16, true);
    battery<2>(s, "T-pipe", 2, 3, 3, {PIPE}, {0}, {2}, 2, 32, true);
    every<2>(s, "T-all32", 3, 2, {CONSTRUCT, SUBSET, ZRED, BRED, QRED, EVAL}, 1, 101, true);
#endif
}
