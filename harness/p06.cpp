// P06: lookahead, unreduction, BDD<->ZDD conversion on every bounded specification/diagram.
#include "model.hpp"
using namespace model; using namespace tdzdd;
template<int AR> static int expand(Canon<AR>& to, Canon<AR>& from, int f, int level, std::map<std::pair<int, int>, int>& memo) {
    // meaning of f (in `from` semantics) over levels level..1 as a canonical diagram of `to`
    if (level == 0) return f;
    auto k = std::make_pair(f, level); auto it = memo.find(k); if (it != memo.end()) return it->second;
    int c[AR]; for (int b = 0; b < AR; ++b) { int g = from.level(f) == level ? from.child(f, b) : (from.kind == BDD || b == 0) ? f : 0; c[b] = expand(to, from, g, level - 1, memo); }
    return memo[k] = to.mk(level, c);
}
template<int AR> static void noSkip(Ctx& cx, DdStructure<AR> const& d, int n, char const* what) {
    NodeId r = d.root();
    cx.require(r == 0 || (n == 0 ? r == 1 : r.row() == n), "skip", [&] { return str(what, ": root level ", r.row(), " expected ", n); });
    std::vector<NodeId> st{r}; std::unordered_set<uint64_t> seen;
    while (!st.empty()) {
        NodeId f = st.back(); st.pop_back(); if (f.row() == 0 || !seen.insert(f.code()).second) continue;
        for (int b = 0; b < AR; ++b) { NodeId g = d.child(f, b); cx.require(g == 0 || g.row() == f.row() - 1, "skip", [&] { return str(what, ": edge from level ", f.row(), " to ", g.row()); }); st.push_back(g); }
    }
}
// every state lookahead stops at must be one its rule cannot skip by looking one step ahead
template<int AR, typename L, typename SPEC> static void stops(Ctx& cx, L l, SPEC sp, bool bdd) {
    size_t n = sp.datasize() ? sp.datasize() : 1; typedef std::vector<uint64_t> Buf; auto buf = [&] { return Buf((n + 7) / 8); };
    std::function<void(Buf&, int)> rec = [&](Buf& p, int level) {
        if (level < 1) return; Buf c0 = buf(); bool skip = true; int l0 = 0;
        for (int b = 0; b < AR; ++b) { Buf c = buf(); sp.get_copy(c.data(), p.data()); int lb = sp.get_child(c.data(), level, b); if (b == 0) { l0 = lb; sp.get_copy(c0.data(), c.data()); } else if (bdd ? lb != l0 || (l0 > 0 && !sp.equal_to(c0.data(), c.data(), l0)) : lb != 0) skip = false; sp.destruct(c.data()); }
        sp.destruct(c0.data()); cx.require(!skip, "lookahead-stop", [&] { return str(bdd ? "bddLookahead" : "zddLookahead", " stops at level ", level, " although its rule removes that node"); });
        for (int b = 0; b < AR; ++b) { Buf c = buf(); l.get_copy(c.data(), p.data()); int lb = l.get_child(c.data(), level, b); cx.op(); rec(c, lb); l.destruct(c.data()); } };
    Buf p = buf(); int r = l.get_root(p.data()); rec(p, r); l.destruct(p.data());
}
template<int AR, typename SPEC> static void look(Ctx& cx, Canon<AR>& B, Canon<AR>& Z, SPEC const& sp, bool mp) {
    DdStructure<AR> d(sp, mp), lb(bddLookahead(sp), mp), lz(zddLookahead(sp), mp); cx.op(3);
    cx.check(canonOf(B, lb) == canonOf(B, d), "lookahead", "bddLookahead changed the function"); cx.check(canonOf(Z, lz) == canonOf(Z, d), "lookahead", "zddLookahead changed the family");
    stops<AR>(cx, bddLookahead(sp), sp, true); stops<AR>(cx, zddLookahead(sp), sp, false);
    cx.require(lb.size() <= d.size(), "lookahead-size", [&] { return str("bddLookahead diagram has ", lb.size(), " nodes, original ", d.size()); });
    cx.require(lz.size() <= d.size(), "lookahead-size", [&] { return str("zddLookahead diagram has ", lz.size(), " nodes, original ", d.size()); });
    cx.trace(2);
}
template<int AR, typename SPEC> static void unred(Ctx& cx, Canon<AR>& B, Canon<AR>& Z, SPEC const& sp, int top, bool mp, int extra) {
    DdStructure<AR> d(sp, mp); int rb = canonOf(B, d), rz = canonOf(Z, d);
    for (int n = 0; n <= top + extra; ++n) {
        DdStructure<AR> ub(bddUnreduction(sp, n), mp), uz(zddUnreduction(sp, n), mp); cx.op(2); int m = std::max(n, top);
        cx.require(canonOf(B, ub) == rb, "unreduction", [&] { return str("bddUnreduction over ", n, " variables: ", B.text(canonOf(B, ub)), " expected ", B.text(rb)); });
        cx.require(canonOf(Z, uz) == rz, "unreduction", [&] { return str("zddUnreduction over ", n, " variables: ", Z.text(canonOf(Z, uz)), " expected ", Z.text(rz)); });
        noSkip(cx, ub, m, "bddUnreduction"); noSkip(cx, uz, m, "zddUnreduction"); cx.trace(2);
    }
}
template<int AR> static void conv(Ctx& cx, Canon<AR>& B, Canon<AR>& Z, DdStructure<AR> const& d, int extra) {
    int rb = canonOf(B, d), rz = canonOf(Z, d), top = d.topLevel();
    for (int n = top; n <= top + extra; ++n) {
        std::map<std::pair<int, int>, int> m1, m2; int eb = expand(Z, B, rb, n, m1), ez = expand(B, Z, rz, n, m2);
        DdStructure<AR> z = d.bdd2zdd(n), b = d.zdd2bdd(n); cx.op(2);
        cx.require(canonOf(Z, z) == eb, "bdd2zdd", [&] { return str("over ", n, " variables: ", Z.text(canonOf(Z, z)), " expected ", Z.text(eb)); });
        cx.require(canonOf(B, b) == ez, "zdd2bdd", [&] { return str("over ", n, " variables: ", B.text(canonOf(B, b)), " expected ", B.text(ez)); });
        DdStructure<AR> rb1(d); rb1.bddReduce(); DdStructure<AR> back = z.zdd2bdd(n); back.bddReduce(); cx.check(back == rb1 && back.size() == rb1.size(), "roundtrip", str("bdd -> zdd -> bdd over ", n, " variables is not the original"));
        DdStructure<AR> rz1(d); rz1.zddReduce(); back = b.bdd2zdd(n); back.zddReduce(); cx.check(back == rz1 && back.size() == rz1.size(), "roundtrip", str("zdd -> bdd -> zdd over ", n, " variables is not the original"));
        cx.op(6); cx.trace(4); cx.outcome(mix(mix(eb, ez), n));
    }
}
template<int AR> static void tables(Scopes& s, char const* name, int n, int w, int extra, bool thorough = false) {
    s.add(name, str("all transition tables with ", n, " levels, ", widthText(w), ", arity ", AR, "; variable counts 0..", n + extra), Table<AR>::count(n, w), [=](uint64_t x, Ctx& cx) {
        static Canon<AR> B(BDD), Z(ZDD); B.gc(); Z.gc(); Table<AR> t; t.decode(x, n, w); cx.desc = t.text(); bool mp = x & 1;
        TScalar<AR, PInt> sp(t);
        look(cx, B, Z, sp, mp); unred(cx, B, Z, sp, n, mp, extra);
        DdStructure<AR> d = build(t, mp); conv(cx, B, Z, d, extra);
        if (x % 3 == 0) { d.zddReduce(); conv(cx, B, Z, d, 1); } else if (x % 3 == 1) { d.bddReduce(); conv(cx, B, Z, d, 1); } });
    s.v.back().thorough = thorough;
}
SCOPES(s) {
    (void)mcReg_; omprt::setThreads(2); omprt::setPolicy(1);
#if PART == 0
    s.add("terminals", "terminal-only diagrams over 0..4 variables", 2 * 2, [](uint64_t x, Ctx& cx) {
        Canon<2> B(BDD), Z(ZDD); Table<2> t; t.n = 0; t.root = x & 1; cx.desc = str("terminal ", t.root); bool mp = x & 2;
        TScalar<2, PInt> sp(t); look(cx, B, Z, sp, mp); unred(cx, B, Z, sp, 0, mp, 4); conv(cx, B, Z, build(t, mp), 4); });
    tables<2>(s, "t2n1w1", 1, 1, 4); tables<2>(s, "t2n2w1", 2, 1, 3); tables<2>(s, "t2n2w2", 2, 2, 3); tables<2>(s, "t2n3w1", 3, 1, 2);
    tables<2>(s, "g2n3w3", 3, dag(3, 6), 2); tables<2>(s, "g2n4w2k5", 4, dag(2, 5), 1); tables<2>(s, "T-g2n4w2k6", 4, dag(2, 6), 1, true); tables<2>(s, "g2n5w2k4", 5, dag(2, 4), 1); tables<2>(s, "T-g2n5w2k5", 5, dag(2, 5), 1, true); tables<2>(s, "t2n3w2", 3, 2, 1, true); tables<2>(s, "t2n4w1", 4, 1, 1);
#elif PART == 1
    tables<3>(s, "t3n1w1", 1, 1, 2); tables<3>(s, "t3n2w1", 2, 1, 2); tables<3>(s, "g3n3w2k3", 3, dag(2, 3), 1); tables<3>(s, "T-g3n3w2k4", 3, dag(2, 4), 1, true); tables<4>(s, "g4n2w2k3", 2, dag(2, 3), 1); tables<3>(s, "t3n3w1", 3, 1, 1, true); tables<3>(s, "t3n2w2", 2, 2, 1, true);
    tables<4>(s, "t4n1w1", 1, 1, 2); tables<4>(s, "t4n2w1", 2, 1, 1);
#elif PART == 2
    s.add("kinds", "all 2-level tables (w=2) through array and hybrid states, all 3-level stateless tables", 256 + 576, [](uint64_t x, Ctx& cx) {
        static Canon<2> B(BDD), Z(ZDD); Table<2> t;
        if (x < 256) { t.decode(x, 2, 2); cx.desc = t.text(); TArray<2, char> a(t, 3, 2); THybrid<2, short, int> h(t, 2, 0); look(cx, B, Z, a, false); unred(cx, B, Z, a, 2, false, 2); look(cx, B, Z, h, true); unred(cx, B, Z, h, 2, true, 2); }
        else { t.decode(x - 256, 3, 1); cx.desc = t.text(); TStateless<2> a(t); look(cx, B, Z, a, false); unred(cx, B, Z, a, 3, true, 2); } });
    s.add("nested", "lookahead of unreduction and unreduction of lookahead, all 2-level tables", 256, [](uint64_t x, Ctx& cx) {
        Canon<2> B(BDD), Z(ZDD); Table<2> t; t.decode(x, 2, 2); cx.desc = t.text(); TScalar<2, PInt> sp(t); DdStructure<2> d(sp);
        DdStructure<2> a(zddLookahead(zddUnreduction(zddLookahead(sp), 4))), b(bddLookahead(bddUnreduction(bddLookahead(sp), 4))); cx.op(2);
        cx.check(canonOf(Z, a) == canonOf(Z, d), "nested", "zdd chain changed the family"); cx.check(canonOf(B, b) == canonOf(B, d), "nested", "bdd chain changed the function"); cx.trace(2);
        DdStructure<2> az(d); az.zddReduce(); a.zddReduce(); cx.check(a == az, "nested", "zdd chain not canonical after reduction"); });
#else
    s.add("fam4", "all functions/families on 4 variables converted over 4..5 variables", 65536, [](uint64_t x, Ctx& cx) {
        cx.desc = famText(4, x); DdStructure<2> d(FamSpec(4, x), x & 1);
        // as a truth table: bit s of x is the value on assignment s
        DdStructure<2> b(d); b.bddReduce(); DdStructure<2> z = b.bdd2zdd(4), z5 = b.bdd2zdd(5); cx.op(2);
        cx.check(zddFamily(z) == x, "bdd2zdd", "family " + famText(4, zddFamily(z)));
        uint64_t want = x | x << 16; cx.check((zddFamily(z5) & 0xffffffffull) == (want & 0xffffffffull) , "bdd2zdd", "over 5 variables " + famText(5, zddFamily(z5)));
        DdStructure<2> q(d); q.zddReduce(); DdStructure<2> w = q.zdd2bdd(4), w5 = q.zdd2bdd(5); cx.op(2);
        cx.check(bddTable(w, 4) == x, "zdd2bdd", str("table ", bddTable(w, 4))); cx.check(bddTable(w5, 5) == x, "zdd2bdd", str("over 5 variables: table ", bddTable(w5, 5)));
        z.zddReduce(); w.bddReduce(); cx.check(z == q && w == b, "canonical", "converted diagram is not the canonical one"); cx.trace(4); cx.outcome(x); });
    s.add("deep", "conversions over 1..100 variables of a 3-variable diagram", 100 * 4, [](uint64_t x, Ctx& cx) {
        Dec d(x); int n = 3 + d(100); uint64_t fam = (uint64_t[]){0x96, 0x80, 0x17, 0xff}[d(4)]; cx.desc = str("family ", fam, " over ", n); Canon<2> B(BDD), Z(ZDD);
        DdStructure<2> dd(FamSpec(3, fam)); std::map<std::pair<int, int>, int> m1, m2; int eb = expand(Z, B, canonOf(B, dd), n, m1), ez = expand(B, Z, canonOf(Z, dd), n, m2);
        cx.check(canonOf(Z, dd.bdd2zdd(n)) == eb, "bdd2zdd", "deep"); cx.check(canonOf(B, dd.zdd2bdd(n)) == ez, "zdd2bdd", "deep"); cx.op(2); cx.trace(2); });
#endif
}
