// P03: every reduction rule on every bounded diagram, against the canonical minimal diagram.
#include "model.hpp"
using namespace model; using namespace tdzdd;
template<int AR> static void reduceBy(DdStructure<AR>& d, Kind k) { if (k == RAW) d.qddReduce(); else if (k == ZDD) d.zddReduce(); else d.bddReduce(); }
static char const* KN[] = {"qdd", "zdd", "bdd"};
template<int AR> struct Cns { Canon<AR> c[3]; Cns() : c{Canon<AR>(RAW), Canon<AR>(ZDD), Canon<AR>(BDD)} {} };
// no node that is a duplicate, that the rule deletes or that is unreachable
template<int AR> static void exact(Ctx& cx, Canon<AR>& cn, DdStructure<AR> const& d, int ref, char const* what) {
    int got = canonOf(cn, d); size_t want = cn.count(ref);
    cx.require(got == ref, "meaning", [&] { return str(what, ": represents ", cn.text(got), " expected ", cn.text(ref)); });
    cx.require(d.size() == want, "minimal", [&] { return str(what, ": ", d.size(), " nodes, minimal diagram has ", want); });
    cx.require(reachable(d) == want, "minimal", [&] { return str(what, ": ", reachable(d), " reachable nodes, minimal diagram has ", want); });
    cx.require(d.topLevel() == cn.level(ref), "root", [&] { return str(what, ": top level ", d.topLevel()); });
    // the shortcut along 0-edges (marks set by the reducers) agrees with the edges
    NodeTableEntity<AR> const& nt = *d.getDiagram();
    auto zero = [&](NodeId f) { for (int s = 0; s <= f.row(); ++s) { NodeId g = f; while (g.row() > s) g = nt.child(g, 0); NodeId z = nt.getZeroDescendant(f, s); cx.require(z == g, "zero-descendant", [&] { return str(what, ": 0-edges of ", f, " lead to ", g, " above level ", s, ", getZeroDescendant says ", z); }); } };
    zero(d.root()); for (int i = d.topLevel(); i > 0; --i) for (size_t j = 0; j < nt[i].size(); ++j) for (int b = 0; b < AR; ++b) zero(nt.child(i, j, b));
    cx.trace();
}
template<int AR> static void all(Ctx& cx, Cns<AR>& cns, std::function<DdStructure<AR>(bool)> make, bool full) {
    for (int k = 0; k < 3; ++k) {
        Canon<AR>& cn = cns.c[k]; cn.gc();
        DdStructure<AR> r[2];
        for (int mp = 0; mp < 2; ++mp) {
            DdStructure<AR> d = make(mp); int ref = canonOf(cn, d);
            d.useMultiProcessors(mp); DdStructure<AR> keep(d); size_t ks = keep.size();
            reduceBy(d, (Kind)k); cx.op();
            exact(cx, cn, d, ref, str(KN[k], mp ? " parallel" : " serial").c_str());
            cx.check(keep.size() == ks && canonOf(cn, keep) == ref, "alias", "reducing a copy changed the original");
            cx.outcome(mix(mix(ref, k), AR));
            if (full) {
                DdStructure<AR> e(d); e.useMultiProcessors(!mp); reduceBy(e, (Kind)k); cx.op();
                exact(cx, cn, e, ref, str(KN[k], " repeated").c_str());
                cx.check(e == d && d == e, "idempotent", "second reduction gives an unequal diagram");
                for (int k2 = 0; k2 < 3; ++k2) if (k2 != k) {
                    DdStructure<AR> g(d); int ref2 = canonOf(cns.c[k2], g); reduceBy(g, (Kind)k2); cx.op();
                    exact(cx, cns.c[k2], g, ref2, str(KN[k], " then ", KN[k2], mp ? " parallel" : "").c_str());
                }
            }
            r[mp] = d;
        }
        cx.check(r[0] == r[1] && r[1] == r[0], "canonical", str(KN[k], ": serial and parallel reductions are unequal"));
    }
}
template<int AR> static void tables(Scopes& s, char const* name, int n, int w, bool full, bool thorough = false) {
    s.add(name, str("all transition tables with ", n, " levels, ", widthText(w), ", arity ", AR, ": qdd/bdd/zdd reduction, serial and parallel", full ? ", repeated and chained" : ""), Table<AR>::count(n, w), [=](uint64_t x, Ctx& cx) {
        static Cns<AR> cns; Table<AR> t; t.decode(x, n, w); cx.desc = t.text();
        all<AR>(cx, cns, [&](bool mp) { return build(t, mp); }, full); });
    s.v.back().thorough = thorough;
}
// two different derivations of one function must become equal diagrams
struct Skip : DdSpec<Skip, uint64_t, 2> {      // family spec that jumps ahead: skips levels whose 1-branch is dead (ZDD) or whose branches agree (BDD)
    FamSpec f; int mode; Skip(int n, uint64_t fam, int mode) : f(n, fam), mode(mode) {}
    int norm(uint64_t& s, int l) const {
        while (l > 0) {
            uint64_t a = s, b = s; f.getChild(a, l, 0); f.getChild(b, l, 1);
            bool skip = mode == 1 ? b == 0 : mode == 2 ? a == b : false;
            if (!skip) { if (mode && s == 0) return 0; return l; }
            s = a; --l;
        }
        return (s & 1) ? -1 : 0;
    }
    int getRoot(uint64_t& s) const { s = f.fam; return f.n ? norm(s, f.n) : (s & 1) ? -1 : 0; }
    int getChild(uint64_t& s, int level, int b) const { f.getChild(s, level, b); return level == 1 ? ((s & 1) ? -1 : 0) : norm(s, level - 1); }
};
static void families(Scopes& s, char const* name, int n, uint64_t step, bool thorough) {
    uint64_t tot = n == 6 ? 0 : 1ull << (1 << n);
    s.add(name, str("families/functions on ", n, " variables", step > 1 ? str(" (every ", step, "th)") : std::string(" (all)"), ", built with and without level skipping: equal after reduction, minimal size"), tot / step, [=](uint64_t x, Ctx& cx) {
        uint64_t fam = x * step; cx.desc = famText(n, fam);
        static Cns<2> cns;
        for (int k = 1; k <= 2; ++k) {
            Canon<2>& cn = cns.c[k]; cn.gc();
            DdStructure<2> a(FamSpec(n, fam), false), b(Skip(n, fam, k), false), c(Skip(n, fam, k), true); cx.op(3);
            c.useMultiProcessors(true);
            int ref = canonOf(cn, a);
            reduceBy(a, (Kind)k); reduceBy(b, (Kind)k); reduceBy(c, (Kind)k); cx.op(3);
            exact(cx, cn, a, ref, "plain"); exact(cx, cn, b, ref, "skipping"); exact(cx, cn, c, ref, "parallel");
            cx.check(a == b && b == c && c == a, "canonical", "equal functions give unequal reduced diagrams");
            if (k == 1) cx.require(zddFamily(a) == fam, "meaning", [&] { return "family is " + famText(n, zddFamily(a)); });
            else cx.require(bddTable(a, n) == fam, "meaning", [&] { return "truth table is " + str(bddTable(a, n)); });
            cx.outcome(mix(fam, k + 10 * n));
        } });
    s.v.back().thorough = thorough;
}
// wide levels: random-looking but fixed node populations, shared and duplicated heavily
template<int AR> struct Wide : DdSpec<Wide<AR>, int, AR> {
    int n, w, m; Wide(int n, int w, int m) : n(n), w(w), m(m) {}
    int getRoot(int& s) const { s = 0; return n; }
    int getChild(int& s, int level, int b) const {   // w states per level, only m behaviours
        unsigned r = (unsigned)((s % m) * 7 + b * 3 + level * 5); s = (int)((unsigned)(s * AR + b + 1) % (unsigned)w);
        if (r % 11 == 0) return 0;
        int l = level - 1 - (r % 5 == 0 ? 1 : 0);
        if (l <= 0) return r % 3 ? -1 : 0;
        return l;
    }
};
SCOPES(s) {
    (void)mcReg_; omprt::setThreads(2); omprt::setPolicy(1);
#if PART == 0
    s.add("terminal", "terminal-only diagrams", 4, [](uint64_t x, Ctx& cx) {
        Cns<2> cns; Cns<3> c3; cx.desc = str("terminal ", x);
        all<2>(cx, cns, [&](bool mp) { Table<2> t; t.n = 0; t.root = x & 1; DdStructure<2> d(TScalar<2, PInt>(t), mp); if (x & 2) { d = DdStructure<2>(0); if (!(x & 1)) d = DdStructure<2>(); } return d; }, true); });
    tables<2>(s, "t2n1w1", 1, 1, true); tables<2>(s, "t2n2w1", 2, 1, true); tables<2>(s, "t2n2w2", 2, 2, true); tables<2>(s, "t2n2w3", 2, 3, true); tables<2>(s, "t2n3w1", 3, 1, true); tables<2>(s, "t2n4w1", 4, 1, true);
    tables<2>(s, "g2n3w4", 3, dag(4, 7), true); tables<2>(s, "g2n4w2k5", 4, dag(2, 5), true); tables<2>(s, "g2n4w2k6", 4, dag(2, 6), false); tables<2>(s, "g2n4w2", 4, dag(2, 7), false, true); tables<2>(s, "g2n5w2k5", 5, dag(2, 5), false); tables<2>(s, "g2n6w2k4", 6, dag(2, 4), true); tables<2>(s, "t2n3w2", 3, 2, false, true); tables<2>(s, "g2n5w2k6", 5, dag(2, 6), false, true); tables<2>(s, "t2n5w1", 5, 1, false, true);
    families(s, "fam1", 1, 1, false); families(s, "fam2", 2, 1, false); families(s, "fam3", 3, 1, false); families(s, "fam4", 4, 1, false); families(s, "fam5", 5, 40009, true);
#elif PART == 1
    tables<3>(s, "t3n2w1", 2, 1, true); tables<3>(s, "t3n3w1", 3, 1, true); tables<3>(s, "t3n2w2", 2, 2, false);
    tables<4>(s, "t4n2w1", 2, 1, true); tables<4>(s, "g4n2w2", 2, dag(2, 3), true); tables<3>(s, "g3n3w2k3", 3, dag(2, 3), true); tables<3>(s, "g3n3w2k4", 3, dag(2, 4), false, true); tables<4>(s, "t4n2w2", 2, 2, false, true); tables<3>(s, "g3n4w2k4", 4, dag(2, 4), false, true);
#else
    s.add("wide", "level populations 1..600 with 1..7 behaviours, arities 2-3 (hash growth and task distribution)", 600 * 2, [](uint64_t x, Ctx& cx) {
        int w = 1 + (int)(x / 2); cx.desc = str("width ", w, " arity ", 2 + x % 2);
        int m = 1 + w % 7;
        if (x % 2 == 0) { Cns<2> c; all<2>(cx, c, [&](bool mp) { return DdStructure<2>(Wide<2>(13, w, m), mp); }, false); }
        else { Cns<3> c; all<3>(cx, c, [&](bool mp) { return DdStructure<3>(Wide<3>(8, w, m), mp); }, false); } });
    s.add("huge", "levels of 65535, 65536, 65537 and 70001 nodes, three rules, serial and parallel", 4, [](uint64_t x, Ctx& cx) {
        unsigned M = HUGE_M[x]; cx.desc = str(M, " nodes per level"); for (int k = 0; k < 3; ++k) { Canon<2> cn((Kind)k); Huge<2> sp(23, M); int ref = sp.canon(cn); for (int mp = 0; mp < 2; ++mp) { DdStructure<2> d(sp, mp); d.useMultiProcessors(mp); reduceBy(d, (Kind)k); cx.op(); exact(cx, cn, d, ref, str(KN[k], mp ? " parallel" : " serial").c_str()); cx.trace(); cx.outcome(mix(M, k)); } } }, 1, 200);
    s.add("tall", "65537 levels, three rules, serial and parallel", 6, [](uint64_t x, Ctx& cx) { Dec e(x); int k = e(3); bool mp = e(2); int n = TALL_N[3]; cx.desc = str(n, " levels ", KN[k]); DdStructure<2> d(Tall(n), mp); d.useMultiProcessors(mp); reduceBy(d, (Kind)k); cx.op(); std::string w = Tall::wrong(d, n, k == ZDD ? 1 : 2); cx.check(w.empty(), "reduced", w); cx.trace(); cx.outcome(mix(n, k)); }, 1, 200);
    s.add("deep", "universal, single-path and alternating diagrams of every depth 1..120", 120 * 3, [](uint64_t x, Ctx& cx) {
        int n = 1 + (int)(x / 3); cx.desc = str("depth ", n, " form ", x % 3); Cns<2> c;
        all<2>(cx, c, [&](bool mp) -> DdStructure<2> {
            if (x % 3 == 0) return DdStructure<2>(n, mp);
            Table<2> t; t.n = n; t.w = 2; t.root = Table<2>::code(n, 0, 2); t.ch.assign(n * 2 * 2, 0);
            for (int l = 1; l <= n; ++l) for (int q = 0; q < 2; ++q) for (int b = 0; b < 2; ++b) {
                int v; if (x % 3 == 1) v = b == (l + q) % 2 ? (l == 1 ? 1 : Table<2>::code(l - 1, 0, 2)) : 0;
                else v = l == 1 ? (q ^ b) : Table<2>::code(l - 1 - (l > 2 && l % 4 == 0 && b), q ^ b, 2);
                t.ch[((l - 1) * 2 + q) * 2 + b] = v;
            }
            return build(t, mp); }, true); });
#endif
}
