// P10: evaluation visits every node once, bottom up, with its true children's values and levels; frees after last use.
#include "model.hpp"
#include <tdzdd/DdEval.hpp>
using namespace model; using namespace tdzdd;
// value types: plain, small object with life check, string
inline long gLive; inline std::string gBad;
struct Plain { uint64_t h; int level; };
struct Life { uint64_t h; int level; unsigned magic; std::string* heap;
    Life() : h(0), level(-1), magic(0x11fe), heap(new std::string("v")) { ++gLive; } Life(Life const& o) : h(o.h), level(o.level), magic(0x11fe), heap(new std::string(*o.heap)) { ++gLive; }
    Life& operator=(Life const& o) { if (magic != 0x11fe || o.magic != 0x11fe) gBad = "assignment to or from a value that is not alive"; h = o.h; level = o.level; return *this; }
    ~Life() { if (magic != 0x11fe) gBad = "value destroyed twice"; magic = 0xdead; delete heap; --gLive; } };
inline bool alive(Plain const&) { return true; }
inline bool alive(Life const& l) { return l.magic == 0x11fe; }
struct Log { std::multiset<std::pair<int, uint64_t>> nodes; std::vector<int> terms; int last = 0; std::set<int> freed; int inits = 0, initLevel = -1, gets = 0; std::string bad; int objs = 0; std::set<int> fibers; std::map<int, int> freedCount; };
inline Log* L;
template<int AR, typename T, bool SAFE, bool MSG> struct Ev : DdEval<Ev<AR, T, SAFE, MSG>, T, uint64_t> {
    int inited = -1; bool main = true; std::set<int> gone;
    bool isThreadSafe() const { return SAFE; }
    bool showMessages() const { return MSG; }
    void initialize(int level) { inited = level; ++L->inits; L->initLevel = level; }
    void evalTerminal(T& v, int id) { v.h = 1000 + id; v.level = 0; L->terms.push_back(id); if (inited < 0) L->bad = "evalTerminal before initialize"; }
    void evalNode(T& v, int level, DdValues<T, AR> const& vs) {
        if (inited < 0) L->bad = "evalNode on an evaluator that was not initialised";
        L->fibers.insert(omprt::currentFiber());
        if (level < L->last) L->bad = str("level ", level, " evaluated after level ", L->last);
        L->last = level; uint64_t h = mix(17, level);
        if (!alive(v)) L->bad = "node value is not a live object";
        for (int b = 0; b < AR; ++b) {
            T const& c = vs.get(b); int l = vs.getLevel(b);
            if (!alive(c)) L->bad = "child value is not a live object";
            if (c.level != l) L->bad = str("level ", l, " passed for a child whose value was computed at level ", c.level);
            if (l >= level) L->bad = "child level not below node level";
            if (gone.count(l)) L->bad = str("level ", l, " used after destructLevel");
            h = mix(h, c.h);
        }
        v.h = h; v.level = level; L->nodes.insert({level, h});
    }
    void destructLevel(int i) { gone.insert(i); L->freed.insert(i); ++L->freedCount[i]; }
    uint64_t getValue(T const& v) { ++L->gets; if (!alive(v)) L->bad = "root value is not alive"; return v.h; }
};
template<int AR, typename T, bool SAFE, bool MSG> static void ev(Ctx& cx, DdStructure<AR>& d, bool mp, uint64_t want, std::multiset<std::pair<int, uint64_t>> const& all, char const* what) {
    Log lg; L = &lg; gBad.clear(); d.useMultiProcessors(mp); long live = gLive; Ev<AR, T, SAFE, MSG> e;
    uint64_t r = d.evaluate(e); cx.op(all.size());
    cx.check(lg.bad.empty(), "order", str(what, mp ? " (parallel): " : ": ", lg.bad)); cx.check(gBad.empty(), "life", str(what, ": ", gBad));
    cx.require(r == want, "value", [&] { return str(what, mp ? " (parallel)" : "", ": the returned value is not the root's value"); });
    cx.require(lg.nodes == all, "visits", [&] { return str(what, mp ? " (parallel)" : "", ": ", lg.nodes.size(), " node evaluations differ from the ", all.size(), " nodes of the diagram"); });
    cx.check(lg.terms.size() == 2 && lg.terms[0] + lg.terms[1] == 1, "terminals", "terminals not evaluated once each");
    cx.check(lg.gets == 1 && lg.initLevel == d.topLevel(), "calls", "getValue or initialize called wrongly"); cx.check(e.inited == -1, "calls", "the caller's evaluator object was modified");
    if (!SAFE) cx.check(lg.fibers.size() <= 1 && (lg.fibers.empty() || *lg.fibers.begin() <= 0), "threads", "an evaluator that is not thread safe was run on another thread");
    cx.check(gLive == live, "leak", "node values leaked"); cx.trace();
}
template<int AR> static void one(Ctx& cx, DdStructure<AR>& d, int threads, int pol) {
    // reference: hashes over every node in the table
    std::map<uint64_t, uint64_t> memo; std::function<uint64_t(NodeId)> H = [&](NodeId f) -> uint64_t {
        if (f.row() == 0) return 1000 + f.col(); auto it = memo.find(f.code()); if (it != memo.end()) return it->second; uint64_t h = mix(17, f.row()); for (int b = 0; b < AR; ++b) h = mix(h, H(d.child(f, b))); return memo[f.code()] = h; };
    std::multiset<std::pair<int, uint64_t>> all; for (int i = 1; i <= d.topLevel(); ++i) for (size_t j = 0; j < (*d.getDiagram())[i].size(); ++j) all.insert({i, H(NodeId(i, j))});
    uint64_t want = H(d.root()); DdStructure<AR> keep(d); Canon<AR> cn(PLAIN); int c0 = canonOf(cn, d);
    omprt::setThreads(threads); omprt::setPolicy(pol);
    ev<AR, Plain, true, false>(cx, d, false, want, all, "plain"); ev<AR, Plain, true, false>(cx, d, true, want, all, "plain"); ev<AR, Plain, false, true>(cx, d, true, want, all, "not thread safe");
    ev<AR, Life, true, false>(cx, d, false, want, all, "object values"); ev<AR, Life, true, false>(cx, d, true, want, all, "object values");
    cx.check(canonOf(cn, d) == c0 && d.root() == keep.root() && d.size() == keep.size(), "changed", "the diagram changed"); cx.outcome(want);
}
template<int AR> static void tables(Scopes& s, std::string name, int n, int w, uint64_t step = 1) {
    s.add(name, str(step > 1 ? str("every ", step, "th of the") : std::string("all"), " tables with ", n, " levels, ", widthText(w), ", arity ", AR, "; raw, reduced, and again after subsetting/reducing the evaluated diagram"), Table<AR>::count(n, w) / step, [=](uint64_t x, Ctx& cx) {
        x = x * step + (step > 1 ? x % step : 0); Table<AR> t; t.decode(x, n, w); cx.desc = t.text(); int th = 1 + x % 3; DdStructure<AR> d = build(t, x & 4);
        one(cx, d, th, x % 3); DdStructure<AR> k(d);   // the index built by evaluation must not survive a change
        switch ((x / 5) % 3) { case 0: d.zddReduce(); break; case 1: d.bddReduce(); break; default: d.qddReduce(); }
        one(cx, d, th, (x + 1) % 3); { Table<AR> t2; t2.decode((x ^ 0x5a5) % Table<AR>::count(n, w), n, w); if (x % 7 == 0) k.zddSubset(TScalar<AR, PInt>(t2)); } one(cx, k, th, x % 3);
    });
}
SCOPES(s) {
#if PART == 0
    s.add("terminals", "terminal-only and universal diagrams with 0..40 levels", 42, [](uint64_t x, Ctx& cx) { cx.desc = str("universe ", (int)x - 1); DdStructure<2> d; if (x) d = DdStructure<2>((int)x - 1); one(cx, d, 1 + x % 3, x % 3); });
    tables<2>(s, "n2w2", 2, 2); tables<2>(s, "n3w1", 3, 1); tables<2>(s, "n4w1", 4, 1); tables<2>(s, "g3w4", 3, dag(4, 7)); tables<2>(s, "g4w2k6", 4, dag(2, 6)); tables<2>(s, "g6w2k4", 6, dag(2, 4)); tables<2>(s, "g5w2k5", 5, dag(2, 5)); tables<2>(s, "g7w2k4", 7, dag(2, 4)); tables<2>(s, "g5w2k6", 5, dag(2, 6)); s.v.back().thorough = true; tables<2>(s, "n3w2", 3, 2); s.v.back().thorough = true; tables<2>(s, "n5w1", 5, 1, 16); tables<2>(s, "n5w1full", 5, 1); s.v.back().thorough = true;
#elif PART == 1
    tables<3>(s, "3n2w2", 2, 2); tables<3>(s, "3n3w1", 3, 1); tables<3>(s, "3g3w2k3", 3, dag(2, 3)); tables<4>(s, "4n2w1", 2, 1); tables<1>(s, "1n4w1", 4, 1); tables<1>(s, "1n3w2", 3, 2);
#else
    s.add("roots", "every node of every three-level one-state diagram as root of the same table", Table<2>::count(3, 1), [](uint64_t x, Ctx& cx) { Table<2> t; t.decode(x, 3, 1); DdStructure<2> d = build(t); for (int i = 0; i <= 3; ++i) for (size_t j = 0; j < (*d.getDiagram())[i].size(); ++j) { DdStructure<2> e(d); e.root() = NodeId(i, j); cx.desc = t.text() + str(" rooted at ", i, ":", j); one(cx, e, 2, 0); } });
    s.add("print", "printing the child values of every one-level node", 4, [](uint64_t x, Ctx& cx) { cx.desc = str("values ", x); int a = x & 1, b = x >> 1; DdValues<int, 2> v; v.setReference(0, a); v.setReference(1, b); v.setLevel(0, a * 3); v.setLevel(1, 7); std::string w = str("(", a, "@", a * 3, ",", b, "@7)"); cx.require(str(v) == w, "print", [&] { return "printed " + str(v) + " expected " + w; }); cx.trace(); cx.op(); });
    s.add("tall", "65536 and 65537 levels, 1..4 threads", 8, [](uint64_t x, Ctx& cx) { int n = TALL_N[2 + x % 2], th = 1 + x / 2; cx.desc = str(n, " levels, ", th, " threads"); DdStructure<2> d{Tall(n)}; uint64_t z = 0, o = 1; for (int l = 1; l <= n; ++l) { uint64_t nz = mix(mix(l, z), o), no = mix(mix(l, o), 0); z = nz; o = no; } struct E : DdEval<E, uint64_t> { void evalTerminal(uint64_t& v, int t) const { v = t; } void evalNode(uint64_t& v, int l, DdValues<uint64_t, 2> const& c) const { v = mix(mix(l, c.get(0)), c.get(1)); } }; omprt::setThreads(th); omprt::setPolicy(0); cx.check(d.evaluate(E()) == z, "value", "value differs"); d.useMultiProcessors(true); cx.check(d.evaluate(E()) == z, "value", "value differs in parallel mode"); cx.op(2); cx.trace(2); cx.outcome(z); }, 1, 200);
    s.add("huge", "levels of 65535, 65536, 65537 and 70001 nodes, 1..4 threads", 16, [](uint64_t x, Ctx& cx) { unsigned M = HUGE_M[x % 4]; int th = 1 + x / 4; cx.desc = str(M, " nodes per level, ", th, " threads"); Huge<2> sp(23, M); uint64_t want = sp.fold<uint64_t>([](int l, uint64_t* c) { return mix(mix(l, c[0]), c[1]); }); DdStructure<2> d(sp); struct E : DdEval<E, uint64_t> { void evalTerminal(uint64_t& v, int t) const { v = t; } void evalNode(uint64_t& v, int l, DdValues<uint64_t, 2> const& c) const { v = mix(mix(l, c.get(0)), c.get(1)); if (c.getLevel(0) != l - 1 && c.get(0) > 1) v = 0; } };
        omprt::setThreads(th); omprt::setPolicy(0); cx.check(d.evaluate(E()) == want, "value", "value differs"); d.useMultiProcessors(true); cx.check(d.evaluate(E()) == want, "value", "value differs in parallel mode"); cx.op(2); cx.trace(2); cx.outcome(want); }, 1, 200);
    s.add("wide", "levels with 1..40 nodes, 1..4 threads (static partition of every size)", 40 * 4, [](uint64_t x, Ctx& cx) { int k = 1 + x % 40, th = 1 + x / 40; cx.desc = str(k, " nodes, ", th, " threads"); struct W : DdSpec<W, int, 2> { int k; W(int k) : k(k) {} int getRoot(int& s) const { s = 0; return 8; } int getChild(int& s, int l, int v) const { s = l > 3 ? (2 * s + v) % k : (s / 2 + v * l) % k; return l == 1 ? (s % 2 ? -1 : 0) : l - 1; } }; DdStructure<2> d{W(k)}; for (int p = 0; p < 3; ++p) one(cx, d, th, p); });
#endif
}
