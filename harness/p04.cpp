// P04: zddSubset on every pair of bounded diagrams and specifications, against set intersection.
#include "model.hpp"
using namespace model; using namespace tdzdd;
// forms of the left operand: 0 as built, 1 ZDD reduced, 2 QDD reduced, 3 as built with MP flag, 4 reduced with MP flag
template<int AR> static DdStructure<AR> form(DdStructure<AR> d, int f) { if (f == 1 || f == 4) d.zddReduce(); if (f == 2) d.qddReduce(); d.useMultiProcessors(f >= 3); return d; }
template<int AR, typename SPEC> static void one(Ctx& cx, Canon<AR>& cn, DdStructure<AR> const& d0, SPEC const& sp, int ref, char const* what) {
    int before = canonOf(cn, d0); size_t sz = d0.size();
    DdStructure<AR> d(d0); d.zddSubset(sp); cx.op();
    int got = canonOf(cn, d);
    cx.require(got == ref, "subset", [&] { return str(what, ": result ", cn.text(got), " expected ", cn.text(ref)); });
    cx.require(canonOf(cn, d0) == before && d0.size() == sz, "alias", [&] { return str(what, ": a copy made before subsetting changed"); });
    d.zddReduce(); cx.op();
    cx.require(canonOf(cn, d) == ref && d.size() == cn.count(ref), "subset-reduce", [&] { return str(what, ": after reduction ", cn.text(canonOf(cn, d)), " with ", d.size(), " nodes, expected ", cn.count(ref)); });
    cx.trace(); cx.outcome(mix(ref, AR));
}
template<int AR> static void pairs(Scopes& s, char const* name, int n1, int w1, int n2, int w2, int specForms, bool thorough = false) {
    uint64_t a = Table<AR>::count(n1, w1), b = Table<AR>::count(n2, w2);
    s.add(name, str("all pairs of diagrams from transition tables (", n1, " levels, ", widthText(w1), ") and specifications (", n2, " levels, ", widthText(w2), "), arity ", AR, ", 5 operand forms"), a * b, [=](uint64_t x, Ctx& cx) {
        static Canon<AR> cn(ZDD);
        Dec d(x); uint64_t y = d(b), z = d(a); Table<AR> t, u; t.decode(z, n1, w1); u.decode(y, n2, w2);
        cx.desc = "diagram " + t.text() + " | spec " + u.text();
        // operand forms are shared between consecutive cases with the same left table
        static uint64_t last = ~0ull; static std::vector<DdStructure<AR>> fs; static char const* lastName = 0;
        if (last != z || lastName != name) { cn.gc(); fs.clear(); for (int f = 0; f < 5; ++f) { DdStructure<AR> d0 = build(t, f == 3); fs.push_back(form(d0, f)); } last = z; lastName = name; }
        int ref = combine(cn, t.canon(cn), u.canon(cn), true);
        for (int f = 0; f < 5; ++f) {
            if (specForms == 1 && (f == 2 || (f + y) % 2)) continue;
            one(cx, cn, fs[f], TScalar<AR, PInt>(u), ref, "scalar spec");
        }
        if (specForms > 1) {
            one(cx, cn, fs[y % 5], TArray<AR, short>(u, 3, 1), ref, "array spec");
            one(cx, cn, fs[(y + 1) % 5], THybrid<AR, char, int>(u, 2, 1), ref, "hybrid spec");
            if (w2 == 1) one(cx, cn, fs[(y + 2) % 5], TStateless<AR>(u), ref, "stateless spec");
            DdStructure<AR> e = build(u); one(cx, cn, fs[(y + 3) % 5], e, ref, "diagram as spec");
            e.zddReduce(); one(cx, cn, fs[(y + 4) % 5], e, ref, "reduced diagram as spec");
        } });
    s.v.back().thorough = thorough;
}
SCOPES(s) {
    (void)mcReg_; omprt::setThreads(2); omprt::setPolicy(1);
#if PART == 0
    s.add("terminals", "terminal-only operands on either side", 2 * 2 * 10, [](uint64_t x, Ctx& cx) {
        Dec d(x); int a = d(2), b = d(2), k = d(10); Canon<2> cn(ZDD); Table<2> t, u, v; t.n = u.n = 0; t.root = a; u.root = b; v.decode(k * 57 % 576, 3, 1);
        cx.desc = str("terminals ", a, b, " table ", v.text());
        for (int mp = 0; mp < 2; ++mp) {
            DdStructure<2> da = build(t, mp), dv = build(v, mp); dv.zddReduce();
            one(cx, cn, da, TScalar<2, PInt>(u), a & b, "terminal/terminal"); one(cx, cn, da, TScalar<2, PInt>(v), combine(cn, a, v.canon(cn), true), "terminal/table");
            one(cx, cn, dv, TScalar<2, PInt>(u), combine(cn, v.canon(cn), b, true), "table/terminal");
            DdStructure<2> e; one(cx, cn, e, TScalar<2, PInt>(v), 0, "default diagram"); DdStructure<2> un(0, mp); one(cx, cn, un, TScalar<2, PInt>(v), combine(cn, 1, v.canon(cn), true), "unit diagram");
        } });
    pairs<2>(s, "p2n2w1", 2, 1, 2, 1, 2); pairs<2>(s, "p2n2w2", 2, 2, 2, 2, 2); pairs<2>(s, "p2n1n3", 1, 1, 3, 1, 2); pairs<2>(s, "p2n3n1", 3, 1, 1, 1, 2); pairs<2>(s, "p2n2n3", 2, 1, 3, 1, 2); pairs<2>(s, "p2n3n2", 3, 1, 2, 1, 2);
    pairs<2>(s, "p2n3w1", 3, 1, 3, 1, 1); pairs<2>(s, "p2n1n4", 1, 1, 4, 1, 1); pairs<2>(s, "p2n4n1", 4, 1, 1, 1, 1);
    pairs<2>(s, "g2n3n3", 3, dag(2, 4), 3, dag(2, 4), 1); pairs<2>(s, "g2n4n3", 4, dag(2, 3), 3, dag(2, 3), 1); pairs<2>(s, "g2n3n4", 3, dag(2, 3), 4, dag(2, 3), 1); pairs<2>(s, "T-g2n4n3", 4, dag(2, 4), 3, dag(2, 3), 1, true); pairs<2>(s, "T-g2n3n4", 3, dag(2, 3), 4, dag(2, 4), 1, true); pairs<2>(s, "T-g2n3n3", 3, dag(2, 5), 3, dag(2, 5), 1, true); pairs<2>(s, "T-g2n4n4", 4, dag(2, 4), 4, dag(2, 3), 1, true); pairs<2>(s, "p2n4n2", 4, 1, 2, 1, 2, true); pairs<2>(s, "p2n2n4", 2, 1, 4, 1, 2, true); pairs<2>(s, "p2n2w2n3", 2, 2, 3, 1, 2, true);
#elif PART == 1
    pairs<3>(s, "p3n2w1", 2, 1, 2, 1, 1); pairs<3>(s, "p3n1n2", 1, 1, 2, 1, 2); pairs<3>(s, "p3n2n1", 2, 1, 1, 1, 2); pairs<4>(s, "p4n1n1", 1, 1, 1, 1, 2); pairs<4>(s, "p4n1n2", 1, 1, 2, 1, 1, true);
#else
    s.add("fam3", "all pairs of families on 3 items; diagram reduced or not, serial or parallel; two-step chains", 256 * 256, [](uint64_t x, Ctx& cx) {
        static Canon<2> cn(ZDD); Dec d(x); uint64_t g = d(256), f = d(256); cx.desc = famText(3, f) + " subset by " + famText(3, g);
        static uint64_t last = 999; static DdStructure<2> fs[3];
        if (last != f) { cn.gc(); for (int k = 0; k < 3; ++k) { fs[k] = DdStructure<2>(FamSpec(3, f), k == 2); if (k) fs[k].zddReduce(); } last = f; }
        int k = (int)((f + g) % 3); DdStructure<2> dd(fs[k]), keep(dd); dd.zddSubset(FamSpec(3, g)); cx.op();
        cx.require(zddFamily(dd) == (f & g), "subset", [&] { return "result " + famText(3, zddFamily(dd)); });
        uint64_t h = (g * 37 + f * 11) & 255; DdStructure<2> mid(dd); dd.zddSubset(FamSpec(3, h)); cx.op();
        cx.require(zddFamily(dd) == (f & g & h), "subset", [&] { return "second step result " + famText(3, zddFamily(dd)); });
        cx.check(zddFamily(keep) == f && zddFamily(mid) == (f & g), "alias", "earlier copies changed");
        DdStructure<2> rd(fs[0]); rd.zddReduce(); mid.zddReduce(); mid.zddSubset(rd); cx.op(); cx.check(zddFamily(mid) == (f & g), "subset", "diagram as specification");
        cx.trace(); cx.outcome(mix(f, g)); });
    // wide: many spec states per input node, crossing list and hash sizes
    struct Mod : DdSpec<Mod, unsigned, 2> {
        int n; unsigned m; Mod(int n, unsigned m) : n(n), m(m) {}
        int getRoot(unsigned& s) const { s = 0; return n; }
        int getChild(unsigned& s, int level, int b) const { if (b) s = (s * 2 + level) % m; if (level == 1) return s % 2 ? -1 : 0; return level - 1; }
    };
    s.add("tall", "universal diagrams of 65534 to 70000 levels", 10, [](uint64_t x, Ctx& cx) { int n = TALL_N[x / 2]; cx.desc = str(n, " levels"); DdStructure<2> d(n, x & 1); d.useMultiProcessors(x & 1); d.zddSubset(Tall(n)); cx.op(); std::string w = Tall::wrong(d, n, 0); cx.check(w.empty(), "function", w); cx.trace(); cx.outcome(n); }, 1, 200);
    s.add("huge", "diagrams whose subset has more than 65536 nodes on a level", 2 * 3, [](uint64_t x, Ctx& cx) {
        Dec d(x); bool mp = d(2); unsigned M = (unsigned[]){21851, 30011, 66000}[d(3)]; cx.desc = str(M, " nodes per level", mp ? ", parallel" : ""); struct Odd : DdSpec<Odd, int, 2> { int n; Odd(int n) : n(n) {} int getRoot(int& s) const { s = 0; return n; } int getChild(int& s, int level, int b) const { s = (s + (b ? level : 0)) % 3; if (level == 1) { bool a = s != 1; s = 0; return a ? -1 : 0; } return level - 1; } };
        Huge<2> sp(19, M); Canon<2> cn(ZDD); DdStructure<2> dd(sp, mp); dd.useMultiProcessors(mp); DdStructure<2> o(Odd(19), false); int ref = combine(cn, sp.canon(cn), canonOf(cn, o), true); one(cx, cn, dd, Odd(19), ref, "huge"); DdStructure<2> e(Odd(19), mp); one(cx, cn, e, sp, ref, "by huge"); }, 1, 200);
    s.add("wide", "residue specifications with every modulus 1..200 on universal, reduced and residue diagrams of 12 levels", 200 * 3 * 2, [](uint64_t x, Ctx& cx) {
        Dec d(x); unsigned m = 1 + d(200); int kind = d(3); bool mp = d(2); Canon<2> cn(ZDD); cx.desc = str("modulus ", m, " kind ", kind, mp ? " parallel" : " serial");
        DdStructure<2> dd = kind == 0 ? DdStructure<2>(12, mp) : DdStructure<2>(Mod(kind == 1 ? 12 : 10, 7), mp); if (kind == 1) dd.zddReduce(); dd.useMultiProcessors(mp);
        DdStructure<2> e(Mod(12, m), false);
        int ref = combine(cn, canonOf(cn, dd), canonOf(cn, e), true);
        one(cx, cn, dd, Mod(12, m), ref, "residue"); });
#endif
}
