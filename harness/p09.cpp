// P09: == answers structural identity (up to sharing); equivalence relation; meaning on reduced diagrams; != negates.
#include "model.hpp"
using namespace model; using namespace tdzdd;
template<int AR> static void pair(Ctx& cx, DdStructure<AR> const& a, DdStructure<AR> const& b, bool want, char const* what) {
    bool e = a == b, f = b == a, ne = a != b; cx.op(3);
    cx.require(e == want, "equality", [&] { return str(what, ": == answers ", e, " for ", want ? "structurally identical" : "different", " diagrams of sizes ", a.size(), " and ", b.size()); });
    cx.require(f == want, "symmetry", [&] { return str(what, ": swapped == answers ", f, ", expected ", want); });
    cx.require(ne == !want && (b != a) == !want, "negation", [&] { return str(what, ": != is not the negation of =="); });
}
template<int AR> static void pairs(Scopes& s, std::string name, int n, int w, bool mp) {
    uint64_t N = Table<AR>::count(n, w);
    s.add(name, str("all ordered pairs of the ", N, " tables with ", n, " levels, ", widthText(w), ", arity ", AR, mp ? " (second built in parallel mode)" : ""), N, [=](uint64_t x, Ctx& cx) {
        static thread_local std::vector<DdStructure<AR>> all; static thread_local std::vector<int> id; static thread_local std::vector<Table<AR>> tt; static thread_local Canon<AR>* cn;
        static thread_local std::string cur;
        if (cur != name) { cur = name; cn = new Canon<AR>(PLAIN); all.clear(); id.clear(); tt.clear(); for (uint64_t y = 0; y < N; ++y) { Table<AR> t; t.decode(y, n, w); tt.push_back(t); all.push_back(build(t, mp)); id.push_back(canonOf(*cn, all.back())); } }
        Table<AR> t; t.decode(x, n, w); DdStructure<AR> d = build(t, false); int c = canonOf(*cn, d);
        for (uint64_t y = 0; y < N; ++y) { cx.desc = t.text() + "  vs  " + tt[y].text(); pair(cx, d, all[y], c == id[y], "raw"); cx.trace(); }
        pair(cx, d, d, true, "itself"); DdStructure<AR> k(d); pair(cx, d, k, true, "copy"); cx.outcome(mix(c, AR));
    });
}
// each table against itself rebuilt, reduced forms, every single-branch mutant and every sub-root
template<int AR> static void mutants(Scopes& s, std::string name, int n, int w, bool thorough = false) {
    s.add(name, str("every table with ", n, " levels, ", widthText(w), ", arity ", AR, " against its rebuild, its reductions, every one-branch mutant and every other root"), Table<AR>::count(n, w), [=](uint64_t x, Ctx& cx) {
        Table<AR> t; t.decode(x, n, w); cx.desc = t.text(); Canon<AR> cn(PLAIN); DdStructure<AR> d = build(t), e = build(t, true); int c = canonOf(cn, d);
        pair(cx, d, e, true, "rebuilt in parallel mode"); DdStructure<AR> q(e); q.useMultiProcessors(false); q.qddReduce(); pair(cx, d, q, canonOf(cn, q) == c, "with QDD reduction"); DdStructure<AR> z(d); z.zddReduce(); pair(cx, d, z, canonOf(cn, z) == c, "with ZDD reduction"); DdStructure<AR> bd(e); bd.bddReduce(); pair(cx, d, bd, canonOf(cn, bd) == c, "with BDD reduction");
        pair(cx, z, bd, canonOf(cn, z) == canonOf(cn, bd), "ZDD vs BDD reduced"); cx.trace(4); cx.outcome(mix(c, x & 1023));
        std::vector<char> seen(2 + n * t.w); std::vector<int> st{t.root};
        while (!st.empty()) { int k = st.back(); st.pop_back(); if (k < 2 || seen[k]) continue; seen[k] = 1;
            for (int b = 0; b < AR; ++b) { int& ch = t.ch[(k - 2) * AR + b]; int old = ch; st.push_back(old); int lim = 2 + t.w * ((k - 2) / t.w);
                for (int v = 0; v < lim; ++v) if (v != old) { ch = v; DdStructure<AR> m = build(t); bool same = canonOf(cn, m) == c; if (!same || (v & 1)) pair(cx, d, m, same, "one-branch mutant"); cx.trace(); }
                ch = old; } }
        for (int i = 1; i <= d.topLevel(); ++i) for (size_t j = 0; j < (*d.getDiagram())[i].size(); ++j) { DdStructure<AR> sub(d); sub.root() = NodeId(i, j); pair(cx, d, sub, canonOf(cn, sub) == c, "other root on the same table"); DdStructure<AR> e2(e); 
            for (int i2 = i; i2 <= i; ++i2) for (size_t j2 = 0; j2 < (*e2.getDiagram())[i2].size(); ++j2) { e2.root() = NodeId(i2, j2); pair(cx, sub, e2, canonOf(cn, sub) == canonOf(cn, e2), "roots of two tables"); } }
    });
    s.v.back().thorough = thorough;
}
static void fams(Scopes& s, std::string name, int n, uint64_t step) {
    s.add(name, str("families on ", n, " items: reduced ZDDs (BDDs) from two different constructions are equal exactly when the family (function) is; all members against all multiples of ", step), 1ull << (1 << n), [=](uint64_t x, Ctx& cx) {
        uint64_t N = 1ull << (1 << n); static std::vector<DdStructure<2>> z, b; static int cur = -1;
        if (cur != n) { cur = n; z.clear(); b.clear(); for (uint64_t y = 0; y < N; y += step) { DdStructure<2> d(FamSpec(n, y)); z.push_back(d); z.back().zddReduce(); b.push_back(d); b.back().bddReduce(); } }
        cx.desc = famText(n, x); DdStructure<2> d(ZddLookahead<FamSpec>(FamSpec(n, x)), true); d.useMultiProcessors(x & 1); d.zddReduce();
        DdStructure<2> e(BddLookahead<FamSpec>(FamSpec(n, x)), true); e.useMultiProcessors(x & 2); e.bddReduce();
        for (uint64_t y = 0, k = 0; y < N; y += step, ++k) { pair(cx, d, z[k], x == y, "reduced ZDDs"); pair(cx, e, b[k], x == y, "reduced BDDs"); cx.trace(2); }
        DdStructure<2> own(FamSpec(n, x)); own.zddReduce(); pair(cx, d, own, true, "reduced ZDDs of one family"); cx.outcome(x);
    });
}
SCOPES(s) {
    omprt::setThreads(2); omprt::setPolicy(0);
#if PART == 0
    s.add("terminals", "terminal-only diagrams in every combination", 16, [](uint64_t x, Ctx& cx) {
        cx.desc = str("terminals ", x); auto mk = [](int k) { DdStructure<2> d; if (k == 1) return DdStructure<2>(0); if (k == 2) { DdStructure<2> e(3); e.zddSubset(FamSpec(3, 0)); e.zddReduce(); return e; } if (k == 3) { DdStructure<2> e(3); e.zddSubset(FamSpec(3, 1)); e.zddReduce(); return e; } return d; };
        int a = x / 4, b = x % 4; pair(cx, mk(a), mk(b), a % 2 == b % 2, "terminal"); cx.outcome(x); cx.trace(); });
    pairs<2>(s, "pairs-n2w2", 2, 2, false); pairs<2>(s, "pairs-n2w2mp", 2, 2, true); pairs<2>(s, "pairs-n3w1", 3, 1, false); pairs<2>(s, "pairs-n1w1", 1, 1, false);
    pairs<2>(s, "pairs-g3w2k4", 3, dag(2, 4), false); pairs<2>(s, "T-pairs-g3w2", 3, dag(2, 5), true); s.v.back().thorough = true; mutants<2>(s, "mut-g3w2", 3, dag(2, 5)); mutants<2>(s, "mut-g4w2k5", 4, dag(2, 5)); mutants<2>(s, "mut-g6w2k4", 6, dag(2, 4), true); mutants<2>(s, "mut-n3w2", 3, 2, true);
    s.add("mut-n3w2-q", "one eighth slice (index = 5 mod 8) of the two-state three-level tables, as mut-n3w2", Table<2>::count(3, 2) / 8, [](uint64_t, Ctx&) {}); { auto f = s.v[s.v.size() - 2].run; s.v.back().run = [f](uint64_t x, Ctx& cx) { f(x * 8 + 5, cx); }; }
    fams(s, "fam2", 2, 1); fams(s, "fam3", 3, 1); fams(s, "fam4", 4, 911);
#else
    pairs<3>(s, "pairs3-n2w1", 2, 1, false); mutants<3>(s, "mut3-n2w2", 2, 2); mutants<4>(s, "mut4-n2w1", 2, 1); mutants<2>(s, "mut-n4w1", 4, 1); 
    s.add("huge", "levels of 65535, 65536, 65537 and 70001 nodes: rebuilt, reduced, and with one accepting end changed", 4 * 3, [](uint64_t x, Ctx& cx) {
        unsigned M = HUGE_M[x % 4], fl = (unsigned[]){0, 40000, 0}[x / 4]; if (x / 4 == 2) fl = M - 1; cx.desc = str(M, " nodes per level, end ", fl, " changed"); DdStructure<2> a(Huge<2>(23, M)), b(Huge<2>(23, M), true), c(Huge<2>(23, M, 3, fl)); pair(cx, a, b, true, "rebuilt"); pair(cx, a, c, false, "one end changed"); DdStructure<2> az(a), bz(b), cz(c); az.zddReduce(); bz.bddReduce(); bz = b; bz.zddReduce(); cz.zddReduce(); pair(cx, az, bz, true, "reduced"); pair(cx, az, cz, false, "reduced, one end changed"); cx.trace(4); cx.outcome(x); }, 1, 200);
    s.add("dups", "layered diagrams with k duplicate nodes per level, k up to 5 on either side, depth up to 4, every order of the duplicates' creation", 4 * 25 * 16, [](uint64_t x, Ctx& cx) {
        Dec q(x); int depth = 1 + q(4), ka = 1 + q(5), kb = 1 + q(5), sh = q(16); cx.desc = str("depth ", depth, " copies ", ka, "/", kb, " shuffle ", sh);
        // a chain of "don't care" levels where each level holds k equal states reached by (state*7+b*sh) mod k
        auto mk = [&](int k, int sh) { Table<2> t; t.n = depth + 1; t.w = k; t.root = Table<2>::code(depth + 1, 0, k); t.ch.assign(t.n * k * 2, 0);
            for (int l = 1; l <= t.n; ++l) for (int st = 0; st < k; ++st) for (int b = 0; b < 2; ++b) t.ch[((l - 1) * k + st) * 2 + b] = l == 1 ? 1 : Table<2>::code(l - 1, (st * (1 + sh % 4) + b * (sh / 4) + l) % k, k); return t; };
        Table<2> ta = mk(ka, sh), tb = mk(kb, 15 - sh); DdStructure<2> a = build(ta), b = build(tb); pair(cx, a, b, true, "don't-care chains"); DdStructure<2> u(depth + 1); pair(cx, a, u, true, "don't-care chain vs universe"); cx.trace(2);
        tb.ch[0] = 0; DdStructure<2> c = build(tb); Canon<2> cn(PLAIN); pair(cx, a, c, canonOf(cn, a) == canonOf(cn, c), "one leaf changed"); cx.outcome(mix(a.size(), b.size())); });
#endif
}
