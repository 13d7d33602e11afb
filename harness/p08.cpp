// P08: iteration over binary ZDDs yields every member set exactly once; iterators are independent.
#include "model.hpp"
using namespace model; using namespace tdzdd;
typedef std::set<int> S;
static std::string st(S const& s) { std::string r = "{"; for (int x : s) r += str(x, " "); return r + "}"; }
static void paths(DdStructure<2> const& d, std::multiset<S>& out) {
    S cur; std::function<void(NodeId)> rec = [&](NodeId f) { if (f == 0) return; if (f == 1) { out.insert(cur); return; } rec(d.child(f, 0)); cur.insert(f.row()); rec(d.child(f, 1)); cur.erase(f.row()); };
    rec(d.root());
}
static void one(Ctx& cx, DdStructure<2> const& d, bool deep) {
    std::multiset<S> want; paths(d, want);
    std::vector<S> seq; size_t lim = want.size() + 3;
    for (DdStructure<2>::const_iterator t = d.begin(); t != d.end(); ++t) { cx.op(); seq.push_back(*t); cx.check(*t == *t.operator->(), "deref", "-> and * differ"); cx.require(seq.size() < lim, "endless", [&] { return str("more than ", want.size(), " sets produced"); }); }
    std::multiset<S> got(seq.begin(), seq.end());
    cx.require(got == want, "sets", [&] { std::string a, b; for (auto& x : got) a += st(x); for (auto& x : want) b += st(x); return "produced " + a + " expected " + b; });
    cx.check((d.begin() == d.end()) == want.empty(), "end", "begin()==end() does not tell emptiness");
    cx.check(!(d.begin() != d.begin()), "equal", "begin() != begin()"); cx.trace(); cx.outcome(mix(want.size(), seq.empty() ? 0 : hashStr(st(seq[0]))));
    if (!deep) return;
    // histories: at every position, copy, run the copy to the end, resume the original; and two iterators in lock step with an offset
    DdStructure<2>::const_iterator a = d.begin();
    for (size_t i = 0; i < seq.size(); ++i) {
        DdStructure<2>::const_iterator c(a); cx.check(c == a, "equal", "copy differs from original");
        size_t k = i; for (; c != d.end(); ++c, ++k) { cx.op(); cx.check(k < seq.size() && *c == seq[k], "copy", "a copied iterator continues differently"); }
        cx.check(k == seq.size(), "copy", "a copied iterator ends early");
        cx.check(*a == seq[i], "copy", "advancing a copy changed the original"); ++a; cx.op();
    }
    cx.check(a == d.end() && !(a != d.end()), "end", "iterator does not end");
    for (size_t off = 1; off <= 2 && off < seq.size(); ++off) {
        DdStructure<2>::const_iterator p = d.begin(), q = d.begin(); for (size_t i = 0; i < off; ++i) ++q;
        for (size_t i = 0; i + off < seq.size(); ++i, ++p, ++q) { cx.op(2); cx.check(*p == seq[i] && *q == seq[i + off], "interleave", "interleaved iterators disturb each other"); cx.check(p != q, "equal", "iterators at different positions compare equal"); }
    }
    cx.trace();
}
static void tables(Scopes& s, char const* name, int n, int w, bool thorough = false) {
    s.add(name, str("all binary transition tables with ", n, " levels, ", widthText(w), ": raw (dead branches, skips) and QDD reduced"), Table<2>::count(n, w), [=](uint64_t x, Ctx& cx) {
        Table<2> t; t.decode(x, n, w); cx.desc = t.text(); DdStructure<2> d = build(t, false); one(cx, d, x % 4 == 0 || n < 3); if (x % 2) { d.qddReduce(); one(cx, d, false); } });
    s.v.back().thorough = thorough;
}
static void fams(Scopes& s, char const* name, int n, bool deep) {
    s.add(name, str("all families on ", n, " items, unreduced and ZDD reduced"), 1ull << (1 << n), [=](uint64_t x, Ctx& cx) {
        cx.desc = famText(n, x); DdStructure<2> d(FamSpec(n, x)); one(cx, d, deep); d.zddReduce(); one(cx, d, deep);
        uint64_t f = 0; for (auto const& q : d) { uint64_t m = 0; for (int i : q) m |= 1ull << (i - 1); cx.check(!(f >> m & 1), "twice", "set produced twice"); f |= 1ull << m; }
        cx.require(f == x, "sets", [&] { return "iterated family " + famText(n, f); }); });
}
SCOPES(s) {
    (void)mcReg_; omprt::setThreads(1);
    s.add("terminals", "empty family, unit family, default diagram", 3, [](uint64_t x, Ctx& cx) { cx.desc = str("terminal ", x); DdStructure<2> d; if (x == 1) d = DdStructure<2>(0); if (x == 2) { Table<2> t; t.n = 0; t.root = 1; d = build(t); } one(cx, d, true); });
    fams(s, "fam1", 1, true); fams(s, "fam2", 2, true); fams(s, "fam3", 3, true); fams(s, "fam4", 4, false);
    tables(s, "n2w2", 2, 2); tables(s, "n3w1", 3, 1); tables(s, "n4w1", 4, 1); tables(s, "g3w4", 3, dag(4, 7)); tables(s, "g4w2", 4, dag(2, 7)); tables(s, "g5w2k5", 5, dag(2, 5)); tables(s, "g7w2k4", 7, dag(2, 4)); tables(s, "n3w2", 3, 2, true); tables(s, "g5w2k6", 5, dag(2, 6)); tables(s, "n5w1", 5, 1, true);
    s.add("huge", "levels of 65537 and 70001 nodes, unreduced and reduced: every set once", 4, [](uint64_t x, Ctx& cx) {
        unsigned M = HUGE_M[2 + x / 2]; int n = 18; Huge<2> sp(n, M); cx.desc = str(M, " nodes per level", x % 2 ? ", reduced" : ""); DdStructure<2> d(sp); if (x % 2) d.zddReduce(); std::vector<char> seen(1u << n); size_t k = 0;
        for (auto const& q : d) { unsigned m = 0; for (int i : q) { if (i < 1 || i > n) cx.fail("sets", "item out of range"); m |= 1u << (i - 1); } if (seen[m]) cx.fail("twice", "set produced twice"); seen[m] = 1; ++k; if (!sp.accept(m % M)) cx.fail("sets", str("set ", m, " is not a member")); } size_t want = 0; for (unsigned m = 0; m < (1u << n); ++m) want += sp.accept(m % M); cx.op(k); cx.check(k == want, "sets", str(k, " sets instead of ", want)); cx.trace(); cx.outcome(k); }, 1, 200);
    s.add("chains", "deep chains: every depth 1..200, singletons and complements", 200 * 3, [](uint64_t x, Ctx& cx) {
        int n = 1 + x / 3, k = x % 3; cx.desc = str("depth ", n, " kind ", k); Table<2> t; t.n = n; t.w = 2; t.root = Table<2>::code(n, 0, 2); t.ch.assign(n * 4, 0);
        auto C = [&](int l, int q) { return l == 0 ? (q == 1) : Table<2>::code(l, q, 2); };
        for (int l = 1; l <= n; ++l) { int* c0 = &t.ch[((l - 1) * 2 + 0) * 2], *c1 = &t.ch[((l - 1) * 2 + 1) * 2];
            if (k == 0) { c0[0] = l == 1 ? 0 : C(l - 1, 0); c0[1] = l == 1 ? 1 : C(l - 1, 1); c1[0] = C(l - 1, 1); c1[1] = 0; }        // exactly one
            else if (k == 1) { c0[0] = l == 1 ? 0 : C(l - 1, 1); c0[1] = l == 1 ? 1 : C(l - 1, 0); c1[0] = 0; c1[1] = C(l - 1, 1); }
            else { c0[0] = 0; c0[1] = l == 1 ? 1 : C(l - 1, 0); c1[0] = 0; c1[1] = 0; } }
        DdStructure<2> d = build(t); one(cx, d, n < 30); d.zddReduce(); one(cx, d, n < 30); });
}
