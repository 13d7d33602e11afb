// P05: AND / OR / intersection / union of specifications against combination of canonical diagrams.
#include "model.hpp"
using namespace model; using namespace tdzdd;
typedef Table<2> T2;
typedef TScalar<2, PInt> SI; typedef TScalar<2, PBytes<5>> SB; typedef TArray<2, char> AR_; typedef THybrid<2, short, int> HY; typedef TStateless<2> SL;
static Canon<2> B(BDD), Z(ZDD);
template<typename SPEC> static void one(Ctx& cx, Canon<2>& cn, SPEC const& sp, int ref, char const* what, bool mp, bool red) {
    DdStructure<2> d(sp, mp); cx.op();
    int got = canonOf(cn, d);
    cx.require(got == ref, "function", [&] { return str(what, mp ? " (parallel)" : "", ": ", cn.text(got), " expected ", cn.text(ref)); });
    if (red) { if (cn.kind == BDD) d.bddReduce(); else d.zddReduce(); cx.op(); cx.require(canonOf(cn, d) == ref && d.size() == cn.count(ref), "reduced", [&] { return str(what, " after reduction"); }); }
    cx.trace(); cx.outcome(mix(ref, cn.kind));
}
struct Refs { int a, o, i, u; };
static Refs refs(T2 const& t, T2 const& u) {
    Refs r; int b1 = t.canon(B), b2 = u.canon(B), z1 = t.canon(Z), z2 = u.canon(Z);
    r.a = combine(B, b1, b2, true); r.o = combine(B, b1, b2, false); r.i = combine(Z, z1, z2, true); r.u = combine(Z, z1, z2, false); return r;
}
template<typename S1, typename S2> static void four(Ctx& cx, Refs const& r, S1 const& a, S2 const& b, bool mp, bool red, unsigned mask = 15) {
    if (mask & 1) one(cx, B, bddAnd(a, b), r.a, "bddAnd", mp, red);
    if (mask & 2) one(cx, B, bddOr(a, b), r.o, "bddOr", mp, red);
    if (mask & 4) one(cx, Z, zddIntersection(a, b), r.i, "zddIntersection", mp, red);
    if (mask & 8) one(cx, Z, zddUnion(a, b), r.u, "zddUnion", mp, red);
}
template<int H, typename S1, typename S2> static void half(Ctx& cx, Refs const& r, S1 const& a, S2 const& b) {
    if constexpr (H == 0) { one(cx, B, bddAnd(a, b), r.a, "bddAnd", false, false); one(cx, Z, zddUnion(a, b), r.u, "zddUnion", false, false); }
    else { one(cx, B, bddOr(a, b), r.o, "bddOr", false, false); one(cx, Z, zddIntersection(a, b), r.i, "zddIntersection", false, false); }
}
// operands of any arity, and operators composed with lookahead, unreduction, subsetting
template<int AR, typename SPEC> static void oneN(Ctx& cx, Canon<AR>& cn, SPEC const& sp, int ref, char const* what, bool mp, bool red) {
    DdStructure<AR> d(sp, mp); cx.op(); int got = canonOf(cn, d);
    cx.require(got == ref, "function", [&] { return str(what, mp ? " (parallel)" : "", ": ", cn.text(got), " expected ", cn.text(ref)); });
    if (red) { if (cn.kind == BDD) d.bddReduce(); else d.zddReduce(); cx.op(); cx.require(canonOf(cn, d) == ref && d.size() == cn.count(ref), "reduced", [&] { return str(what, " after reduction"); }); }
    cx.trace(); cx.outcome(mix(ref, cn.kind));
}
template<int AR> static void arity(Scopes& s, std::string name, int n1, int w1, int n2, int w2, uint64_t step) {
    uint64_t a = Table<AR>::count(n1, w1), b = Table<AR>::count(n2, w2);
    s.add(name, str(step > 1 ? str("every ", step, "th of the") : std::string("all"), " pairs of tables of arity ", AR, " (", n1, " levels, ", widthText(w1), ") x (", n2, " levels, ", widthText(w2), "): four operators, serial or parallel; three operands"), a * b / step, [=](uint64_t x, Ctx& cx) {
        bool mp = x & 1; x = x * step + (step > 1 ? (x * 7) % step : 0); static Canon<AR> CB(BDD), CZ(ZDD); CB.gc(); CZ.gc(); Dec d(x); Table<AR> t, u; t.decode(d(a), n1, w1); u.decode(d(b), n2, w2); cx.desc = t.text() + " with " + u.text(); TScalar<AR, PInt> p(t), q(u);
        int b1 = t.canon(CB), b2 = u.canon(CB), z1 = t.canon(CZ), z2 = u.canon(CZ), ra = combine(CB, b1, b2, true), ro = combine(CB, b1, b2, false), ri = combine(CZ, z1, z2, true), ru = combine(CZ, z1, z2, false);
        oneN<AR>(cx, CB, bddAnd(p, q), ra, "bddAnd", mp, true); oneN<AR>(cx, CB, bddOr(p, q), ro, "bddOr", mp, true); oneN<AR>(cx, CZ, zddIntersection(p, q), ri, "zddIntersection", mp, true); oneN<AR>(cx, CZ, zddUnion(p, q), ru, "zddUnion", mp, true);
        if (x % 4 == 0) { oneN<AR>(cx, CZ, zddUnion(p, q, p), ru, "zddUnion/3", mp, false); oneN<AR>(cx, CZ, zddIntersection(p, q, q), ri, "zddIntersection/3", mp, false); oneN<AR>(cx, CB, bddAnd(q, p, q), ra, "bddAnd/3", mp, false); oneN<AR>(cx, CB, bddOr(q, p, p), ro, "bddOr/3", mp, false); } });
}
static void gcAll();
static void composed(Scopes& s, std::string name, int n, int w, uint64_t step) {
    uint64_t a = T2::count(n, w);
    s.add(name, str(step > 1 ? str("every ", step, "th of the") : std::string("all"), " pairs of tables with ", n, " levels, ", widthText(w), ": operators over and under lookahead and unreduction (n to n+2 variables), combined specification used for subsetting, two compositions per pair"), a * a / step, [=](uint64_t x0, Ctx& cx) {
        gcAll(); uint64_t x = x0 * step + (step > 1 ? (x0 * 7) % step : 0); Dec d(x); T2 t, u; t.decode(d(a), n, w); u.decode(d(a), n, w); cx.desc = t.text() + " with " + u.text(); Refs r = refs(t, u); SI p(t), q(u); int nv = n + x0 / 8 % 3; bool mp = x0 / 24 % 2; Canon<2> P(PLAIN);
        switch (x0 % 8) {
        case 0: one(cx, Z, zddLookahead(zddUnion(p, q)), r.u, "zddLookahead(union)", mp, true); one(cx, B, bddLookahead(bddAnd(p, q)), r.a, "bddLookahead(and)", mp, true); break;
        case 1: one(cx, Z, zddLookahead(zddIntersection(p, q)), r.i, "zddLookahead(intersection)", mp, true); one(cx, B, bddLookahead(bddOr(p, q)), r.o, "bddLookahead(or)", mp, true); break;
        case 2: one(cx, Z, zddUnion(zddLookahead(p), zddUnreduction(q, nv)), r.u, "union(lookahead,unreduction)", mp, true); one(cx, B, bddAnd(bddUnreduction(p, nv), bddLookahead(q)), r.a, "and(unreduction,lookahead)", mp, true); break;
        case 3: one(cx, Z, zddIntersection(zddUnreduction(p, nv), zddLookahead(q)), r.i, "intersection(unreduction,lookahead)", mp, true); one(cx, B, bddOr(bddLookahead(p), bddUnreduction(q, nv)), r.o, "or(lookahead,unreduction)", mp, true); break;
        case 4: one(cx, Z, zddUnreduction(zddUnion(p, q), nv), r.u, "zddUnreduction(union)", mp, true); one(cx, B, bddUnreduction(bddOr(p, q), nv), r.o, "bddUnreduction(or)", mp, true); break;
        case 5: one(cx, Z, zddUnreduction(zddIntersection(p, q), nv), r.i, "zddUnreduction(intersection)", mp, true); one(cx, B, bddUnreduction(bddAnd(p, q), nv), r.a, "bddUnreduction(and)", mp, true); break;
        case 6: { DdStructure<2> e(p, mp); e.zddSubset(zddUnion(p, q)); cx.op(); int z1 = t.canon(Z); cx.require(canonOf(Z, e) == combine(Z, z1, r.u, true), "subset", [&] { return str("subset by union"); }); DdStructure<2> f(zddUnion(p, q), mp); f.zddSubset(q); cx.op(); cx.require(canonOf(Z, f) == u.canon(Z), "subset", [&] { return str("union subsetted by its operand"); }); cx.trace(); break; }
        default: { DdStructure<2> e(p, mp); e.zddSubset(zddLookahead(zddIntersection(p, q))); cx.op(); cx.require(canonOf(Z, e) == r.i, "subset", [&] { return str("subset by lookahead of intersection"); }); DdStructure<2> f(p, mp), g(q, mp); f.zddReduce(); one(cx, Z, zddUnion(f, zddLookahead(g)), r.u, "union(diagram,lookahead(diagram))", mp, true); cx.trace(); break; }
        } });
}
static void gcAll() { B.gc(); Z.gc(); }
static void pairs(Scopes& s, char const* name, int n1, int w1, int n2, int w2, bool alt, bool thorough = false) {
    uint64_t a = T2::count(n1, w1), b = T2::count(n2, w2);
    s.add(name, str("all pairs of tables (", n1, " levels, ", widthText(w1), ") x (", n2, " levels, ", widthText(w2), "), four operators", alt ? " (two per pair)" : ", serial and parallel"), a * b, [=](uint64_t x, Ctx& cx) {
        gcAll(); Dec d(x); uint64_t y = d(b), z = d(a); T2 t, u; t.decode(z, n1, w1); u.decode(y, n2, w2); cx.desc = t.text() + " with " + u.text();
        Refs r = refs(t, u);
        if (alt) { four(cx, r, SI(t), SI(u), (y ^ z) & 2, false, (y ^ z) & 1 ? 5 : 10); }
        else { four(cx, r, SI(t), SI(u), false, true); four(cx, r, SI(t), SI(u), true, false); } });
    s.v.back().thorough = thorough;
}
SCOPES(s) {
    (void)mcReg_; omprt::setThreads(2); omprt::setPolicy(1);
#if PART == 0
    s.add("terminals", "terminal operands on either side", 4 + 2 * 36 * 2, [](uint64_t x, Ctx& cx) {
        T2 t, u; t.n = 0; u.n = 0;
        if (x < 4) { t.root = x & 1; u.root = x >> 1; cx.desc = str("terminals ", t.root, u.root); four(cx, refs(t, u), SI(t), SI(u), false, true); four(cx, refs(t, u), SL(t), AR_(u, 2, 0), true, true); return; }
        Dec d(x - 4); t.root = d(2); int sw = d(2); u.decode(d(36), 2, 1); cx.desc = str("terminal ", t.root, " with ", u.text());
        if (sw) { four(cx, refs(t, u), SI(t), SI(u), false, true); four(cx, refs(t, u), SL(t), HY(u, 1, 0), true, true); }
        else { four(cx, refs(u, t), SI(u), SI(t), false, true); four(cx, refs(u, t), HY(u, 1, 0), SL(t), true, true); } });
    pairs(s, "n1n1", 1, 1, 1, 1, false); pairs(s, "n2n2", 2, 1, 2, 1, false); pairs(s, "n2w2n2w2", 2, 2, 2, 2, false); pairs(s, "n1n3", 1, 1, 3, 1, false); pairs(s, "n3n1", 3, 1, 1, 1, false);
    pairs(s, "n2n3", 2, 1, 3, 1, false); pairs(s, "n3n2", 3, 1, 2, 1, false); pairs(s, "n3n3", 3, 1, 3, 1, true); pairs(s, "g3n3", 3, dag(2, 4), 3, dag(2, 4), true); pairs(s, "g4n3", 4, dag(2, 3), 3, dag(2, 3), true); pairs(s, "g3n4", 3, dag(2, 3), 4, dag(2, 3), true); pairs(s, "T-g4n3", 4, dag(2, 4), 3, dag(2, 3), true, true); pairs(s, "T-g3n4", 3, dag(2, 3), 4, dag(2, 4), true, true); pairs(s, "T-g3n3", 3, dag(2, 5), 3, dag(2, 5), true, true); pairs(s, "T-g4n4", 4, dag(2, 4), 4, dag(2, 3), true, true); pairs(s, "n4n1", 4, 1, 1, 1, false, true); pairs(s, "n1n4", 1, 1, 4, 1, false, true); pairs(s, "n4n2", 4, 1, 2, 1, true, true);
#elif PART <= 4
    s.add(str("kinds", PART - 1), "all pairs of 2-level tables with every pair of operand kinds (scalar, array, hybrid, stateless), two operators per kind pair", 36 * 36 * 4, [](uint64_t x, Ctx& cx) {
        gcAll(); Dec d(x); constexpr int k1 = PART - 1; int k2 = d(4); T2 t, u; t.decode(d(36), 2, 1); u.decode(d(36), 2, 1); cx.desc = str("kinds ", k1, k2, " ", t.text(), " with ", u.text());
        Refs r = refs(t, u);
        SI a0(t); AR_ a1(t, 3, 2); HY a2(t, 2, 1); SL a3(t); auto const& a = std::get<k1>(std::tie(a0, a1, a2, a3));
        if (k2 == 0) half<(k1 + 0) % 2>(cx, r, a, SI(u)); else if (k2 == 1) half<(k1 + 1) % 2>(cx, r, a, AR_(u, 3, 2)); else if (k2 == 2) half<(k1 + 2) % 2>(cx, r, a, HY(u, 2, 1)); else half<(k1 + 3) % 2>(cx, r, a, SL(u)); });
#elif PART == 5
    s.add("diagrams", "all pairs of 2-level tables with diagrams (raw / reduced) as operands", 36 * 36, [](uint64_t x, Ctx& cx) {
        gcAll(); Dec d(x); T2 t, u; t.decode(d(36), 2, 1); u.decode(d(36), 2, 1); cx.desc = "diagram operands " + t.text() + " with " + u.text(); Refs r = refs(t, u);
        DdStructure<2> a = build(t), b = build(u), az(a), bz(b), ab(a), bb(b); az.zddReduce(); bz.zddReduce(); ab.bddReduce(); bb.bddReduce();
        four(cx, r, a, b, false, true); four(cx, r, az, bz, false, true, 12); four(cx, r, ab, bb, false, true, 3); four(cx, r, az, b, true, false, 12); four(cx, r, a, bb, true, false, 3); });
#elif PART == 6
    s.add("triples", "all triples of 2-level stateless tables, three operands and nested forms", 36 * 36 * 36, [](uint64_t x, Ctx& cx) {
        gcAll(); Dec d(x); T2 t, u, v; t.decode(d(36), 2, 1); u.decode(d(36), 2, 1); v.decode(d(36), 2, 1); cx.desc = t.text() + " / " + u.text() + " / " + v.text();
        int b1 = t.canon(B), b2 = u.canon(B), b3 = v.canon(B), z1 = t.canon(Z), z2 = u.canon(Z), z3 = v.canon(Z);
        bool mp = x & 4;
        switch (x % 4) {
        case 0: one(cx, B, bddAnd(SI(t), SI(u), SI(v)), combine(B, b1, combine(B, b2, b3, true), true), "bddAnd/3", mp, false);
                one(cx, Z, zddUnion(zddIntersection(SI(t), SI(u)), SI(v)), combine(Z, combine(Z, z1, z2, true), z3, false), "(a*b)+c", mp, false); break;
        case 1: one(cx, B, bddOr(SI(t), SI(u), SI(v)), combine(B, b1, combine(B, b2, b3, false), false), "bddOr/3", mp, false);
                one(cx, Z, zddIntersection(zddUnion(SI(t), SI(u)), SI(v)), combine(Z, combine(Z, z1, z2, false), z3, true), "(a+b)*c", mp, false); break;
        case 2: one(cx, Z, zddIntersection(SI(t), SI(u), SI(v)), combine(Z, z1, combine(Z, z2, z3, true), true), "zddIntersection/3", mp, false);
                one(cx, B, bddOr(SI(t), bddAnd(SI(u), SI(v))), combine(B, b1, combine(B, b2, b3, true), false), "a|(b&c)", mp, false); break;
        default: one(cx, Z, zddUnion(SI(t), SI(u), SI(v)), combine(Z, z1, combine(Z, z2, z3, false), false), "zddUnion/3", mp, false);
                one(cx, B, bddAnd(bddOr(SI(t), SI(u)), SI(v)), combine(B, combine(B, b1, b2, false), b3, true), "(a|b)&c", mp, false); break;
        } });
#elif PART == 7
    s.add("quads", "all quadruples of 1-level and 2-level tables (4 operands), mixed kinds", 4 * 36 * 4 * 36, [](uint64_t x, Ctx& cx) {
        gcAll(); Dec d(x); T2 t, u, v, w; t.decode(d(4), 1, 1); u.decode(d(36), 2, 1); v.decode(d(4), 1, 1); w.decode(d(36), 2, 1); cx.desc = t.text() + " / " + u.text() + " / " + v.text() + " / " + w.text();
        SL a(t); SI b(u); AR_ c(v, 1, 0); HY e(w, 2, 1); Canon<2>& k = (x & 1) ? B : Z; bool meet = x & 2;
        int ref = combine(k, combine(k, t.canon(k), u.canon(k), meet), combine(k, v.canon(k), w.canon(k), meet), meet);
        if (x & 1) { if (meet) one(cx, B, bddAnd(a, b, c, e), ref, "bddAnd/4", x & 4, true); else one(cx, B, bddOr(a, b, c, e), ref, "bddOr/4", x & 4, true); }
        else { if (meet) one(cx, Z, zddIntersection(a, b, c, e), ref, "zddIntersection/4", x & 4, true); else one(cx, Z, zddUnion(a, b, c, e), ref, "zddUnion/4", x & 4, true); } });
#elif PART == 9
    arity<3>(s, "a3n1", 1, 1, 1, 1, 1); arity<3>(s, "a3n1n2", 1, 1, 2, 1, 1); arity<3>(s, "a3n2n1", 2, 1, 1, 1, 1); arity<3>(s, "a3n2", 2, 1, 2, 1, 1); arity<3>(s, "a3g3", 3, dag(1, 3), 3, dag(1, 3), 1009); arity<4>(s, "a4n2", 2, 1, 2, 1, 23); arity<5>(s, "a5n1", 1, 1, 1, 1, 1);
#elif PART == 10
    composed(s, "comp-n2w1", 2, 1, 1); composed(s, "comp-n2w2", 2, 2, 1); composed(s, "comp-n3w1", 3, 1, 1); composed(s, "comp-g4", 4, dag(2, 3), 5);
#else
    s.add("quads2", "the same quadruples in the other operator assignment and operand order", 4 * 36 * 4 * 36, [](uint64_t x, Ctx& cx) {
        gcAll(); Dec d(x); T2 t, u, v, w; t.decode(d(4), 1, 1); u.decode(d(36), 2, 1); v.decode(d(4), 1, 1); w.decode(d(36), 2, 1); cx.desc = u.text() + " / " + t.text() + " / " + w.text() + " / " + v.text();
        SL a(t); SI b(u); AR_ c(v, 1, 0); HY e(w, 2, 1); Canon<2>& k = (x & 1) ? Z : B; bool meet = !(x & 2);
        int ref = combine(k, combine(k, t.canon(k), u.canon(k), meet), combine(k, v.canon(k), w.canon(k), meet), meet);
        if (!(x & 1)) { if (meet) one(cx, B, bddAnd(b, a, e, c), ref, "bddAnd/4", x & 4, true); else one(cx, B, bddOr(b, a, e, c), ref, "bddOr/4", x & 4, true); }
        else { if (meet) one(cx, Z, zddIntersection(b, a, e, c), ref, "zddIntersection/4", x & 4, true); else one(cx, Z, zddUnion(b, a, e, c), ref, "zddUnion/4", x & 4, true); } });
#endif
}
