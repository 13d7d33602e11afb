// P31: an exception thrown by user code at any call reaches the caller; all other diagrams keep their meaning; nothing is lost or corrupted.
#include "model.hpp"
#include <tdzdd/dd/PathCounter.hpp>
using namespace model; using namespace tdzdd;
struct Boom { int kind; long at; };
inline long gLeft = 0, gCalls = 0; inline int gKind = 0;   // kind of callback that fails, number of calls until it does
static void tick(int kind) { if (kind != gKind) return; ++gCalls; if (gLeft > 0 && --gLeft == 0) throw Boom{kind, gCalls}; }
enum { ROOT, CHILD, MERGE, PRINT, TERM, NODE, VALUE, INIT, HASH, EQUAL, NKIND };
static char const* KN[] = {"getRoot", "getChild", "mergeStates", "printState", "evalTerminal", "evalNode", "getValue", "initialize", "hashCode", "equalTo"};
template<int AR> struct FS : DdSpec<FS<AR>, int, AR> {
    Table<AR> t; explicit FS(Table<AR> const& t) : t(t) {}
    int getRoot(int& s) const { tick(ROOT); s = t.stateOf(t.root); return t.levelOf(t.root); }
    int getChild(int& s, int level, int b) const { tick(CHILD); int c = t.at(level, s, b); s = t.stateOf(c); return t.levelOf(c); }
    int mergeStates(int&, int&) const { tick(MERGE); return 0; }
    void printState(std::ostream& os, int const& s) const { tick(PRINT); os << s; }
    size_t hashCode(int const& s) const { tick(HASH); return s & 1; } bool equalTo(int const& a, int const& b) const { tick(EQUAL); return a == b; }
};
template<int AR> struct FA : PodArrayDdSpec<FA<AR>, short, AR> {
    Table<AR> t; explicit FA(Table<AR> const& t) : t(t) { this->setArraySize(5); }
    int getRoot(short* a) const { for (int i = 0; i < 5; ++i) a[i] = 0; tick(ROOT); a[3] = t.stateOf(t.root); return t.levelOf(t.root); }
    int getChild(short* a, int level, int b) const { tick(CHILD); int c = t.at(level, a[3], b); a[3] = t.stateOf(c); return t.levelOf(c); }
    int mergeStates(short*, short*) const { tick(MERGE); return 0; }
    void printState(std::ostream& os, short const* a) const { tick(PRINT); os << a[3]; }
};
template<int AR> struct FE : DdEval<FE<AR>, std::string, std::string> {   // values own heap memory
    void initialize(int) { tick(INIT); }
    void evalTerminal(std::string& v, int x) { v = x ? "a value long enough to live on the heap: 1" : "a value long enough to live on the heap: 0"; tick(TERM); }
    void evalNode(std::string& v, int l, DdValues<std::string, AR> const& c) { v = "(" + std::to_string(l); tick(NODE); uint64_t h = l; for (int b = 0; b < AR; ++b) h = mix(h, hashStr(c.get(b))); v += " padding padding padding " + std::to_string(h); }
    std::string getValue(std::string const& v) { tick(VALUE); return v; }
};
static int const NOPS = 19;
static char const* ON[NOPS] = {"construct", "subset", "subset-by-combination", "evaluate", "evaluate-reduced", "spec-dump", "count", "count-fast", "count64", "find", "zlook", "blook", "zunred", "bunred", "union", "and", "construct-assign", "subset-alone", "reduce-rebuild"};
template<int AR, typename SP> struct World {
    Canon<AR> cn{RAW}; Table<AR> const &t, &u; DdStructure<AR> d, c, r; int cd, cr; SP st, su; std::string val;
    World(Table<AR> const& t, Table<AR> const& u) : t(t), u(u), d(SP(t)), c(d), r(c), st(t), su(u) { r.zddReduce(); cd = canonOf(cn, c); cr = canonOf(cn, r); val = c.evaluate(FE<AR>()); }
    // runs one operation; returns its result as text (same every time it succeeds)
    std::string run(int op) {
        auto show = [&](DdStructure<AR> const& x) { return str(canonOf(cn, x), "/", x.size(), "/", x.root()); };
        switch (op) {
        case 0: { DdStructure<AR> x(st); return show(x); }
        case 1: { d.zddSubset(su); return show(d); }
        case 2: { if constexpr (AR == 2) d.zddSubset(zddUnion(su, st)); return show(d); }
        case 3: return d.evaluate(FE<AR>());
        case 4: return r.evaluate(FE<AR>());
        case 5: { std::ostringstream o; st.dumpDot(o, "t"); return o.str(); }
        case 6: { SP s(st); return countPaths(s); }
        case 7: { SP s(st); return countPaths(s, true); }
        case 8: { SP s(st); return str(countPaths64(s)); }
        case 9: { try { auto v = st.findOneInstance(); return str("found"); } catch (std::runtime_error& e) { return e.what(); } }
        case 10: { DdStructure<AR> x(zddLookahead(st)); return show(x); }
        case 11: { DdStructure<AR> x(bddLookahead(st)); return show(x); }
        case 12: { DdStructure<AR> x(zddUnreduction(st, t.n + 1)); return show(x); }
        case 13: { DdStructure<AR> x(bddUnreduction(st, t.n + 1)); return show(x); }
        case 14: { if constexpr (AR == 2) { DdStructure<AR> x(zddUnion(st, su)); return show(x); } return ""; }
        case 15: { if constexpr (AR == 2) { DdStructure<AR> x(bddAnd(su, st)); return show(x); } return ""; }
        case 16: { d = DdStructure<AR>(su); return show(d); }
        case 17: { DdStructure<AR> x(st), y; y = x; x.zddSubset(su); y.zddSubset(su); x.zddReduce(); return show(x); }
        default: { DdStructure<AR> x(st); x.zddReduce(); x = DdStructure<AR>(su); x.bddReduce(); return show(x); }
        }
    }
};
template<int AR, typename SP> static void explore(Ctx& cx, Table<AR> const& t, Table<AR> const& u, int op) {
    gLeft = 0; std::string good; { World<AR, SP> w(t, u); good = w.run(op); }
    for (int kind = 0; kind < NKIND; ++kind) {
        gKind = kind; gLeft = 0; gCalls = 0; { World<AR, SP> w(t, u); gCalls = 0; std::srand(1); (void)w.run(op); } long total = gCalls;
        for (long k = 1; k <= total; ++k) {
            auto at = [&] { return str(ON[op], " with an exception from call ", k, " of ", total, " of ", KN[kind]); };
            long live0 = liveAllocations();
            {   World<AR, SP> w(t, u); bool thrown = false; gCalls = 0; gLeft = k; std::srand(1);
                try { (void)w.run(op); } catch (Boom& b) { thrown = b.kind == kind && b.at == k; } catch (std::exception& e) { cx.fail("other", at() + ": the caller got another exception: " + e.what()); }
                gLeft = 0; cx.op();
                cx.require(thrown, "lost", [&] { return at() + ": the exception did not reach the caller"; });
                cx.require(canonOf(w.cn, w.c) == w.cd, "copy", [&] { return at() + ": a copy of the diagram changed its meaning"; });
                cx.require(canonOf(w.cn, w.r) == w.cr, "other-diagram", [&] { return at() + ": a diagram derived earlier changed its meaning"; });
                cx.require(w.c.evaluate(FE<AR>()) == w.val, "value", [&] { return at() + ": a copy of the diagram has another value"; });
                if (op == 3 || op == 4 || (op == 16)) cx.require(canonOf(w.cn, w.d) == w.cd, "operand", [&] { return at() + ": the operand of a constant operation changed"; });
                w.d = w.c; std::string again = w.run(op);   // the failed object can be assigned and used again
                cx.require(again == good, "again", [&] { return at() + ": repeated after the failure, the operation gives " + again + " instead of " + good; });
                cx.trace(); }
            cx.require(liveAllocations() == live0, "leak", [&] { return at() + str(": ", liveAllocations() - live0, " memory blocks are lost"); });
            cx.outcome(mix(hashStr(good), kind * 100 + k));
        }
    }
}
// ---- states that own memory: whatever fails, no state is destroyed twice, used after its end or created over a live one
struct Reg { std::map<uintptr_t, size_t> live; std::string bad; uint64_t made = 0;
    void note(std::string const& s) { if (bad.empty()) bad = s; }
    void add(void* p, size_t n) { live[(uintptr_t)p] = n; ++made; }   // memory of a lost state may be used again
    void del(void* p) { if (!live.erase((uintptr_t)p)) note("a state was destroyed that is not alive (twice, or never created)"); }
    bool has(void const* p) { if (live.count((uintptr_t)p)) return true; note("a state was used that is not alive"); return false; } };
inline Reg R;
enum { COPY = NKIND };
struct Tr { int key; char pad[12];
    Tr() : key(0) { R.add(this, sizeof *this); } Tr(Tr const& o) : key(-9) { if (R.has(&o)) key = o.key; tick(COPY); R.add(this, sizeof *this); }
    Tr& operator=(Tr const& o) { if (R.has(this) && R.has(&o)) key = o.key; return *this; } ~Tr() { R.del(this); key = -77; }
    bool operator==(Tr const& o) const { return R.has(this) && R.has(&o) && key == o.key; } friend std::ostream& operator<<(std::ostream& os, Tr const& o) { R.has(&o); tick(PRINT); return os << o.key; } };
inline int gMerge, gAt;
template<int AR> struct TS : DdSpec<TS<AR>, Tr, AR> {
    Table<AR> t; explicit TS(Table<AR> const& t) : t(t) {}
    int getRoot(Tr& s) const { if (!R.has(&s)) return 0; tick(ROOT); s.key = t.stateOf(t.root); return t.levelOf(t.root); }
    int getChild(Tr& s, int level, int b) const { if (!R.has(&s)) return 0; tick(CHILD); int c = t.at(level, s.key, b); s.key = t.stateOf(c); return t.levelOf(c); }
    int mergeStates(Tr& a, Tr& b) { R.has(&a); R.has(&b); tick(MERGE); return gMerge == 0 ? 0 : (gMerge + gAt++) % 3; }
    size_t hashCode(Tr const& s) const { R.has(&s); tick(HASH); return s.key; }
};
static int const NU = 15; static char const* UN[NU] = {"construct", "subset", "dump", "find", "count", "count-fast", "count64", "zlook", "blook", "zunred", "bunred", "union", "and", "zlook-dump", "union-subset"};
static int const UK[] = {ROOT, CHILD, MERGE, PRINT, HASH, COPY};
static void use(Table<2> const& t, Table<2> const& u, int op) {
    TS<2> st(t), su(u);
    switch (op) { case 0: { DdStructure<2> d(st); break; } case 1: { DdStructure<2> d(3); d.zddSubset(st); break; } case 2: { std::ostringstream o; st.dumpDot(o, "t"); break; } case 3: { try { (void)st.findOneInstance(); } catch (std::runtime_error&) {} break; }
    case 4: (void)countPaths(st); break; case 5: (void)countPaths(st, true); break; case 6: (void)countPaths64(st); break; case 7: { DdStructure<2> d(zddLookahead(st)); break; } case 8: { DdStructure<2> d(bddLookahead(st)); break; } case 9: { DdStructure<2> d(zddUnreduction(st, t.n + 1)); break; } case 10: { DdStructure<2> d(bddUnreduction(st, t.n + 1)); break; }
    case 11: { DdStructure<2> d(zddUnion(st, su)); break; } case 12: { DdStructure<2> d(bddAnd(st, su)); break; } case 13: { std::ostringstream o; zddLookahead(st).dumpDot(o, "t"); break; } default: { DdStructure<2> d(3); d.zddSubset(zddUnion(su, st)); } }
}
static void states(Ctx& cx, Table<2> const& t, Table<2> const& u, int op, int merge) {
    for (int kind : UK) {
        R = Reg(); gKind = kind; gLeft = 0; gCalls = 0; gMerge = merge; gAt = 0; std::srand(1); use(t, u, op); long total = gCalls; cx.check(R.bad.empty() && R.live.empty(), "life", "without a failure: " + R.bad);
        for (long k = 1; k <= total; ++k) { auto at = [&] { return str(UN[op], " with an exception from call ", k, " of ", total, " of ", kind == COPY ? "the state's copy constructor" : KN[kind], ", merge rule ", merge); };
            R = Reg(); gCalls = 0; gLeft = k; gAt = 0; std::srand(1); bool thrown = false; try { use(t, u, op); } catch (Boom& b) { thrown = b.kind == kind && b.at == k; } gLeft = 0; cx.op(R.made);
            cx.require(thrown, "lost", [&] { return at() + ": the exception did not reach the caller"; });
            cx.require(R.bad.empty(), "life", [&] { return at() + ": " + R.bad; });
            if (!R.live.empty()) cx.known("aborted-states", at() + str(": ", R.live.size(), " of ", R.made, " states were never destroyed"));
            cx.outcome(mix(R.made, op * 1000 + kind * 100 + k)); cx.trace(); } }
}
template<int AR, typename SP> static void sweep(Scopes& s, std::string name, int n, int w, uint64_t step, bool thorough = false) {
    uint64_t N = Table<AR>::count(n, w) / step;
    s.add(name, str(step > 1 ? str("every ", step, "th of the") : std::string("all"), " tables with ", n, " levels, ", widthText(w), ", arity ", AR, ", second operand from the same space; every operation; an exception at every call of every kind of callback"), N * NOPS, [=](uint64_t x, Ctx& cx) {
        int op = x % NOPS; uint64_t y = (x / NOPS) * step; Table<AR> t, u; t.decode(y, n, w); u.decode((y * 7 + 11 + y / 3) % Table<AR>::count(n, w), n, w); cx.desc = t.text() + " with " + u.text() + " op " + ON[op]; explore<AR, SP>(cx, t, u, op); });
    s.v.back().thorough = thorough;
}
SCOPES(s) {
    if (PART == 0) { sweep<2, FS<2>>(s, "n1w1", 1, 1, 1); sweep<2, FS<2>>(s, "n2w1", 2, 1, 1); sweep<2, FS<2>>(s, "n2w2", 2, 2, 1); sweep<2, FS<2>>(s, "n3w1", 3, 1, 1); sweep<2, FS<2>>(s, "g3w2k4", 3, dag(2, 4), 1); sweep<2, FS<2>>(s, "g4w2k4", 4, dag(2, 4), 7); sweep<2, FS<2>>(s, "T-g4w2k4", 4, dag(2, 4), 1, true); sweep<2, FS<2>>(s, "T-n3w2", 3, 2, 23, true); sweep<2, FS<2>>(s, "T-n4w1", 4, 1, 7, true); }
    else if (PART == 2) {
        auto add = [&](std::string name, int n, int w, uint64_t step, bool th) { uint64_t N = Table<2>::count(n, w) / step;
            s.add(name, str(step > 1 ? str("every ", step, "th of the") : std::string("all"), " tables with ", n, " levels, ", widthText(w), "; states with a life cycle; every consumer x merge rules x an exception at every call of every kind including state copies"), N * NU, [=](uint64_t x, Ctx& cx) {
                int op = x % NU; uint64_t y = (x / NU) * step; Table<2> t, u; t.decode(y, n, w); u.decode((y * 7 + 11 + y / 3) % Table<2>::count(n, w), n, w); cx.desc = t.text() + " with " + u.text() + " op " + UN[op]; for (int m = 0; m < (op < 3 ? 4 : op < 11 ? 1 : 2); ++m) states(cx, t, u, op, m); }); s.v.back().thorough = th; };
        add("life-n1w1", 1, 1, 1, false); add("life-n2w2", 2, 2, 1, false); add("life-n3w1", 3, 1, 1, false); add("life-g3w2", 3, dag(2, 5), 1, false); add("T-life-n3w2", 3, 2, 11, true);
    }
    else { sweep<2, FA<2>>(s, "arr-n2w2", 2, 2, 3); sweep<2, FA<2>>(s, "arr-n3w1", 3, 1, 5); sweep<3, FS<3>>(s, "3n2w1", 2, 1, 3); sweep<3, FS<3>>(s, "T-3n2w2", 2, 2, 997, true); }
}
