// P07: cardinalities as exact decimal strings, against independent big-number counting on the walked diagram.
#include "model.hpp"
#include <tdzdd/DdEval.hpp>
#include <tdzdd/eval/Cardinality.hpp>
using namespace model; using namespace tdzdd;
template<int AR> static Big zcount(DdStructure<AR> const& d) {
    std::unordered_map<uint64_t, Big> memo;
    std::function<Big(NodeId)> rec = [&](NodeId f) -> Big { if (f == 0) return Big(0); if (f == 1) return Big(1); auto it = memo.find(f.code()); if (it != memo.end()) return it->second; Big r(0); for (int b = 0; b < AR; ++b) r += rec(d.child(f, b)); return memo[f.code()] = r; };
    return rec(d.root());
}
template<int AR> static Big bcount(DdStructure<AR> const& d, int n) {
    std::unordered_map<uint64_t, Big> memo;
    auto up = [&](Big x, int k) { for (int i = 0; i < k; ++i) x.mul(AR); return x; };
    std::function<Big(NodeId)> rec = [&](NodeId f) -> Big { if (f == 0) return Big(0); if (f == 1) return Big(1); auto it = memo.find(f.code()); if (it != memo.end()) return it->second; Big r(0); for (int b = 0; b < AR; ++b) { NodeId g = d.child(f, b); r += up(rec(g), f.row() - g.row() - 1); } return memo[f.code()] = r; };
    return up(rec(d.root()), n - d.topLevel());
}
static bool fits(Big const& b, char const* lim) { std::string s = b.text(), l = lim; return s.size() < l.size() || (s.size() == l.size() && s <= l); }
template<int AR> static void one(Ctx& cx, DdStructure<AR> const& d, std::vector<int> const& vars, bool numeric) {
    Big z = zcount(d); std::string got = d.zddCardinality(); cx.op();
    cx.require(got == z.text(), "zddCardinality", [&] { return str("got ", got, " expected ", z.text()); });
    got = d.evaluate(ZddCardinality<std::string, AR>()); cx.op(); cx.require(got == z.text(), "zddCardinality", [&] { return str("evaluator: got ", got, " expected ", z.text()); });
    cx.outcome(hashStr(z.text())); cx.trace();
    if (numeric) {
        if (fits(z, "2147483647")) cx.check(str(d.evaluate(ZddCardinality<int, AR>())) == z.text(), "numeric", "ZddCardinality<int>");
        if (fits(z, "18446744073709551615")) cx.check(str(d.evaluate(ZddCardinality<uint64_t, AR>())) == z.text(), "numeric", "ZddCardinality<uint64_t>");
        if (fits(z, "9007199254740992")) { double v = d.evaluate(ZddCardinality<double, AR>()); cx.check(str((uint64_t)v) == z.text(), "numeric", "ZddCardinality<double>"); }
        cx.op(3);
    }
    for (int n : vars) if (n >= d.topLevel()) {
        Big b = bcount(d, n); got = d.bddCardinality(n); cx.op();
        cx.require(got == b.text(), "bddCardinality", [&] { return str("over ", n, " variables: got ", got, " expected ", b.text()); });
        cx.outcome(hashStr(b.text()) + 1); cx.trace();
        if (numeric) {
            if (fits(b, "2147483647")) cx.check(str(d.evaluate(BddCardinality<int, AR>(n))) == b.text(), "numeric", str("BddCardinality<int> over ", n));
            if (fits(b, "18446744073709551615")) cx.check(str(d.evaluate(BddCardinality<uint64_t, AR>(n))) == b.text(), "numeric", str("BddCardinality<uint64_t> over ", n));
            if (fits(b, "9007199254740992")) { double v = d.evaluate(BddCardinality<double, AR>(n)); cx.check(str((uint64_t)v) == b.text(), "numeric", "BddCardinality<double>"); }
            cx.op(3);
        }
    }
}
template<int AR> static void tables(Scopes& s, char const* name, int n, int w, bool thorough = false) {
    s.add(name, str("all transition tables with ", n, " levels, ", widthText(w), ", arity ", AR, ", raw and reduced, several variable counts"), Table<AR>::count(n, w), [=](uint64_t x, Ctx& cx) {
        Table<AR> t; t.decode(x, n, w); cx.desc = t.text(); DdStructure<AR> d = build(t, x & 1); d.useMultiProcessors(x & 2);
        std::vector<int> v; for (int i = 0; i <= n + 2; ++i) v.push_back(i); if (x % 16 == 0) { for (int k : {31, 32, 62, 63, 64, 65, 126, 127, 128}) v.push_back(k); }
        one(cx, d, v, true); if (x % 3 == 0) d.zddReduce(); else if (x % 3 == 1) d.bddReduce(); else d.qddReduce(); one(cx, d, v, false); });
    s.v.back().thorough = thorough;
}
// layered diagrams with prescribed skips: carries and shifts at every word boundary
template<int AR> struct Lay : DdSpec<Lay<AR>, int, AR> {
    int n, kind, j; Lay(int n, int kind, int j) : n(n), kind(kind), j(j) {}
    int getRoot(int& s) const { s = 0; return n; }
    int getChild(int& s, int level, int b) const {
        int l = level - 1;
        switch (kind) {
        case 0: break;                                                       // universal
        case 1: if (b == 0) l = level - j; break;                            // long 0-edges
        case 2: if (b == AR - 1 && level % j == 0) { if (s >= 3) return 0; ++s; } break;       // bounded use
        case 3: if (b && level % j == 0) return level > j ? 0 : -1; break;   // early terminals
        case 4: if (b == 0) { l = level - 1; } else { s = 1; l = level - j; } break;
        case 5: if (b == AR - 1) return -1; break;                           // sum of a geometric series
        case 6: if (b == 0 && level > j) return 0; break;
        }
        if (l <= 0) { int r = (kind == 2) ? s <= 2 : 1; s = 0; return r ? -1 : 0; }
        return l;
    }
};
template<int AR> static void lay(Scopes& s, char const* name, int maxn) {
    s.add(name, str("7 layered shapes x every depth 1..", maxn, " x 4 skip distances, arity ", AR, ", variable counts depth..depth+130"), (uint64_t)maxn * 7 * 4, [](uint64_t x, Ctx& cx) {
        Dec d(x); int kind = d(7), j = (int[]){1, 2, 5, 64}[d(4)], n = 1 + d(100000); bool mp = (n + kind) % 2; cx.desc = str("shape ", kind, " depth ", n, " skip ", j, " arity ", AR);
        DdStructure<AR> dd(Lay<AR>(n, kind, j), mp); std::vector<int> v = {n, n + 1, n + 2, n + 40, n + 63, n + 130, 62, 63, 64, 126, 127, 189, 190};
        one(cx, dd, v, n < 40); });
}
SCOPES(s) {
    (void)mcReg_; omprt::setThreads(2); omprt::setPolicy(1);
#if PART == 0
    s.add("tall", "65534 to 70000 levels", 5, [](uint64_t x, Ctx& cx) { int n = TALL_N[x]; cx.desc = str(n, " levels"); DdStructure<2> d{Tall(n)}; std::string a = d.zddCardinality(); d.zddReduce(); std::string b = d.zddCardinality(); cx.op(2); cx.check(a == str(n) && b == str(n), "zddCardinality", a + " / " + b); cx.trace(); cx.outcome(n); }, 1, 200); s.v.back().thorough = true;
    s.add("huge", "levels of 65535, 65536, 65537 and 70001 nodes", 4, [](uint64_t x, Ctx& cx) { unsigned M = HUGE_M[x]; cx.desc = str(M, " nodes per level"); Huge<2> sp(19, M); uint64_t want = sp.fold<uint64_t>([](int, uint64_t* c) { return c[0] + c[1]; }); DdStructure<2> d(sp); for (int r = 0; r < 2; ++r) { cx.check(d.zddCardinality() == str(want), "zddCardinality", d.zddCardinality()); cx.check(d.evaluate(ZddCardinality<uint64_t, 2>()) == want, "numeric", "ZddCardinality<uint64_t>"); if (!r) { cx.check(d.bddCardinality(19) == str(want) && d.bddCardinality(20) == str(2 * want), "bddCardinality", d.bddCardinality(20)); d.zddReduce(); } cx.op(3); } cx.trace(); cx.outcome(want); }, 1, 200);
    s.add("terminals", "terminal-only diagrams over 0..400 variables, arities 2..5", 2 * 401, [](uint64_t x, Ctx& cx) {
        int one_ = x & 1, n = (int)(x / 2); cx.desc = str("terminal ", one_, " over ", n);
        { Table<2> t; t.n = 0; t.root = one_; one(cx, build(t), {n}, true); } { Table<3> t; t.n = 0; t.root = one_; one(cx, build(t), {n}, true); } { Table<5> t; t.n = 0; t.root = one_; one(cx, build(t), {n}, true); } });
    tables<2>(s, "t2n2w2", 2, 2); tables<2>(s, "t2n3w1", 3, 1); tables<2>(s, "t2n4w1", 4, 1); tables<2>(s, "g2n3w4", 3, dag(4, 7)); tables<2>(s, "g2n4w2k6", 4, dag(2, 6)); tables<2>(s, "g2n6w2k4", 6, dag(2, 4)); tables<2>(s, "t2n3w2", 3, 2, true); lay<2>(s, "layers2", 300);
#elif PART == 1
    tables<3>(s, "t3n2w1", 2, 1); tables<3>(s, "t3n3w1", 3, 1); tables<3>(s, "g3n3w2k3", 3, dag(2, 3)); tables<3>(s, "T-g3n3w2k4", 3, dag(2, 4), true); lay<3>(s, "layers3", 130);
#else
    tables<4>(s, "t4n2w1", 2, 1); tables<5>(s, "t5n2w1", 2, 1); lay<4>(s, "layers4", 100); lay<5>(s, "layers5", 80); lay<10>(s, "layers10", 45);
    s.add("universal", "universal diagrams DdStructure(n) for n 0..2000 step 1..: 2^n, 3^n", 160, [](uint64_t x, Ctx& cx) { int n = x < 130 ? (int)x : (int)(x - 130) * 65 + 130; cx.desc = str("universal ", n); one(cx, DdStructure<2>(n), {n, n + 5}, false); if (n < 700) one(cx, DdStructure<3>(n), {n, n + 5}, false); });
#endif
}
