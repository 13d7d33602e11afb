// P13: every state object is constructed, copied and destroyed exactly once; live states never overlap; none remains.
#include "model.hpp"
#include <tdzdd/dd/PathCounter.hpp>
using namespace model; using namespace tdzdd;
struct Reg { std::map<uintptr_t, size_t> live; std::string bad; uint64_t made = 0;
    void note(std::string const& s) { if (bad.empty()) bad = s; }
    void add(void* p, size_t n) { uintptr_t a = (uintptr_t)p; auto it = live.upper_bound(a); if (it != live.begin()) { auto q = it; --q; if (q->first + q->second > a) note("a state was created on top of a live state"); } if (it != live.end() && a + n > it->first) note("a state was created overlapping a live state"); live[a] = n; ++made; }
    void del(void* p) { if (!live.erase((uintptr_t)p)) note("a state was destroyed that is not alive (twice, or never created)"); }
    bool has(void const* p) { if (live.count((uintptr_t)p)) return true; note("a state was used that is not alive"); return false; } };
inline Reg R;
template<int PAD> struct Tr { int key; std::string* heap; char pad[PAD];
    Tr() : key(0), heap(new std::string("s")) { R.add(this, sizeof *this); } Tr(Tr const& o) : key(-9), heap(0) { if (R.has(&o)) { key = o.key; heap = new std::string(*o.heap); } R.add(this, sizeof *this); }
    Tr& operator=(Tr const& o) { if (R.has(this) && R.has(&o)) key = o.key; return *this; } ~Tr() { if (R.live.count((uintptr_t)this)) delete heap; R.del(this); key = -77; }
    bool operator==(Tr const& o) const { return R.has(this) && R.has(&o) && key == o.key; } friend std::ostream& operator<<(std::ostream& os, Tr const& o) { R.has(&o); return os << o.key; } };
// merge answers: 0 always, or by pseudo-choice on a counter (all of 0,1,2 occur)
inline int gMerge, gAt;
static int answer() { return gMerge == 0 ? 0 : (gMerge + gAt++) % 3; }
template<int AR, int PAD> struct TS : DdSpec<TS<AR, PAD>, Tr<PAD>, AR> {
    typedef Tr<PAD> T; Table<AR> t; explicit TS(Table<AR> const& t) : t(t) {}
    int getRoot(T& s) const { if (!R.has(&s)) return 0; s.key = t.stateOf(t.root); return t.levelOf(t.root); }
    int getChild(T& s, int level, int b) const { if (!R.has(&s)) return 0; int c = t.at(level, s.key, b); s.key = t.stateOf(c); return t.levelOf(c); }
    int mergeStates(T& a, T& b) { R.has(&a); R.has(&b); return answer(); }
    size_t hashCode(T const& s) const { R.has(&s); return s.key; }
};
template<int AR, int PAD> struct TH : HybridDdSpec<TH<AR, PAD>, Tr<PAD>, short, AR> {
    typedef Tr<PAD> T; Table<AR> t; explicit TH(Table<AR> const& t) : t(t) { this->setArraySize(3); }
    int getRoot(T& s, short* a) const { if (!R.has(&s)) return 0; s.key = t.stateOf(t.root); a[0] = a[1] = a[2] = 5; return t.levelOf(t.root); }
    int getChild(T& s, short* a, int level, int b) const { if (!R.has(&s)) return 0; int c = t.at(level, s.key, b); s.key = t.stateOf(c); a[0] = 5; return t.levelOf(c); }
    int mergeStates(T& s, short*, T& r, short*) { R.has(&s); R.has(&r); return answer(); }
    size_t hashCode(T const& s) const { R.has(&s); return s.key; }
    bool equalTo(T const& a, T const& b) const { return a == b; }
};
static int const NOPS = 17;
static char const* ON[NOPS] = {"construct", "construct-mp", "subset", "subset-mp", "dump", "find", "count", "count-fast", "count64", "zlook", "blook", "zunred", "bunred", "and", "or", "intersect", "union"};
template<int AR, typename SP> static void use(SP const& sp, int how) {   // run a wrapper through a consumer
    switch (how) { case 0: { DdStructure<AR> d(sp); break; } case 1: { DdStructure<AR> d(sp, true); break; } case 2: { DdStructure<AR> d(4); d.zddSubset(sp); break; } case 3: { DdStructure<AR> d(4, true); d.zddSubset(sp); break; } case 4: { std::ostringstream o; sp.dumpDot(o, "t"); break; } case 5: { try { (void)sp.findOneInstance(); } catch (std::runtime_error&) {} break; } case 6: { SP c(sp); (void)countPaths(c); break; } case 7: { SP c(sp); (void)countPaths(c, true); break; } default: { SP c(sp); (void)countPaths64(c); } }
}
template<typename SP> static void binop(SP const& a, SP const& b, int op, int how) {
    switch (op) { case 13: use<2>(bddAnd(a, b), how); break; case 14: use<2>(bddOr(a, b), how); break; case 15: use<2>(zddIntersection(a, b), how); break; default: use<2>(zddUnion(a, b), how); }
}
static void finish(Ctx& cx, std::string const& what) {
    cx.op(R.made); cx.check(R.bad.empty(), "life", what + ": " + R.bad); cx.require(R.live.empty(), "alive", [&] { return str(what, ": ", R.live.size(), " of ", R.made, " states are still alive at the end"); }); cx.outcome(mix(R.made, hashStr(what))); cx.trace();
}
template<int AR, typename SP> static void one(Ctx& cx, Table<AR> const& t, int op, int how, int merge, Table<AR> const* t2 = 0) {
    R = Reg(); gMerge = merge; gAt = 0; { SP s(t);
        if (op < 9) use<AR>(s, op); else if (op == 9) use<AR>(zddLookahead(s), how); else if (op == 10) use<AR>(bddLookahead(s), how); else if (op == 11) use<AR>(zddUnreduction(s, t.n + how % 2), how); else if (op == 12) use<AR>(bddUnreduction(s, t.n + how % 2), how); }
    (void)t2; finish(cx, str(ON[op], op > 8 ? str(" used by ", ON[how]) : "", " merge rule ", merge));
}
template<int AR, typename SP> static void sweep(Scopes& s, std::string name, int n, int w, uint64_t step = 1) {
    s.add(name, str(step > 1 ? str("every ", step, "th of the") : std::string("all"), " tables with ", n, " levels, ", widthText(w), ", arity ", AR, " x every operation and consumer x merge rules"), Table<AR>::count(n, w) / step, [=](uint64_t x, Ctx& cx) {
        x = x * step + (step > 1 ? (x * 5) % step : 0); Table<AR> t; t.decode(x, n, w); cx.desc = t.text(); omprt::setThreads(1 + x % 3); omprt::setPolicy(x % 3);
        for (int op = 0; op < 13; ++op) for (int how = 0; how < (op < 9 ? 1 : 9); ++how) for (int mg = 0; mg < (op < 5 ? 4 : op < 9 ? 1 : how < 5 ? 2 : 1); ++mg) one<AR, SP>(cx, t, op, how, mg); });
}
template<typename SP> static void pairs(Scopes& s, std::string name, int n, int m, int op) {
    uint64_t A = Table<2>::count(n, 1), B = Table<2>::count(m, 1) + (m == 0);
    s.add(name, str("all pairs of one-state tables with ", n, " and ", m, " levels (0: constants), ", ON[op], " through every consumer"), (n == 0 ? 2 : A) * (m == 0 ? 2 : B), [=](uint64_t x, Ctx& cx) {
        Dec q(x); Table<2> a, b; a.decode(q(n == 0 ? 2 : A), n, 1); b.decode(q(m == 0 ? 2 : B), m, 1); if (n == 0) a.w = 1; if (m == 0) b.w = 1; cx.desc = a.text() + " with " + b.text(); omprt::setThreads(2); omprt::setPolicy(0);
        for (int how = 0; how < 9; ++how) { R = Reg(); gMerge = 0; { SP u(a), v(b); binop(u, v, op, how); } finish(cx, str(ON[op], " used by ", ON[how])); }
        if (x % 3 == 0) { R = Reg(); { SP u(a), v(b); DdStructure<2> d(zddUnion(zddIntersection(u, v), zddLookahead(v), u), x & 1); DdStructure<2> e(bddOr(bddAnd(v, u, v), bddLookahead(u)), x & 2); std::ostringstream o; zddIntersection(zddUnreduction(u, 3), v).dumpDot(o); } finish(cx, "nested"); } });
}
SCOPES(s) {
#if PART == 0
    s.add("constants", "constant specifications, every operation and consumer", 2, [](uint64_t x, Ctx& cx) { Table<2> t; t.n = 0; t.root = (int)x; cx.desc = t.text(); omprt::setThreads(2); for (int op = 0; op < 13; ++op) for (int how = 0; how < (op < 9 ? 1 : 9); ++how) one<2, TS<2, 12>>(cx, t, op, how, 0); });
    sweep<2, TS<2, 12>>(s, "n2w2", 2, 2); sweep<2, TS<2, 12>>(s, "n3w1", 3, 1); sweep<2, TS<2, 12>>(s, "g3w4", 3, dag(4, 7)); sweep<2, TS<2, 12>>(s, "g4w2k5", 4, dag(2, 5)); s.v.back().thorough = true; sweep<2, TS<2, 12>>(s, "g4w2k4", 4, dag(2, 4)); sweep<2, TS<2, 12>>(s, "g5w2k4", 5, dag(2, 4)); sweep<2, TS<2, 12>>(s, "n3w2full", 3, 2); s.v.back().thorough = true; sweep<2, TS<2, 12>>(s, "n4w1", 4, 1); s.v.back().thorough = true;
#elif PART == 1
    sweep<2, TH<2, 4>>(s, "hybrid-n2w2", 2, 2); sweep<2, TH<2, 4>>(s, "hybrid-n3w1", 3, 1); sweep<3, TS<3, 1>>(s, "3n2w1", 2, 1);
#else
    for (int op = 11 + PART; op < 12 + PART; ++op) { pairs<TS<2, 8>>(s, str(ON[op], "22"), 2, 2, op); pairs<TS<2, 8>>(s, str(ON[op], "31"), 3, 1, op); pairs<TS<2, 8>>(s, str(ON[op], "12"), 1, 2, op); pairs<TS<2, 8>>(s, str(ON[op], "02"), 0, 2, op); pairs<TS<2, 8>>(s, str(ON[op], "20"), 2, 0, op); pairs<TS<2, 8>>(s, str(ON[op], "00"), 0, 0, op); }
#endif
}
