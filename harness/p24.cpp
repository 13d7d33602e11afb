// P24: counting the paths of a specification without building its diagram.
#include "model.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <tdzdd/dd/PathCounter.hpp>
#include <tdzdd/op/Lookahead.hpp>
#include <tdzdd/op/Unreduction.hpp>
using namespace model; using namespace tdzdd;
typedef boost::multiprecision::cpp_int Z;
inline std::string dec(Z const& z) { std::ostringstream o; o << z; return o.str(); }
inline uint64_t low64(Z const& z) { return (uint64_t)(z & Z(~0ull)); }
template<typename SPEC> void three(Ctx& cx, SPEC spec, Z const& ref, char const* what, unsigned mask = 7) {
    std::string e = dec(ref), s; uint64_t u = 0;
    if (mask & 1) { s = countPaths(spec); cx.op(); cx.require(s == e, "count", [&] { return str(what, ": countPaths = ", s, " expected ", e); }); }
    if (mask & 2) { s = countPaths(spec, true); cx.op(); cx.require(s == e, "count-fast", [&] { return str(what, ": countPaths(fast) = ", s, " expected ", e); }); }
    if (mask & 4) { u = countPaths64(spec); cx.op(); cx.require(u == low64(ref), "count64", [&] { return str(what, ": countPaths64 = ", u, " expected ", low64(ref), " (= ", e, " mod 2^64)"); }); }
    cx.trace(); cx.outcome(hashStr(e));
}
// exact number of accepting paths of a table
template<int AR> Z paths(Table<AR> const& t) {
    std::vector<Z> v(2 + t.n * t.w); v[1] = 1;
    for (int c = 2; c < (int)v.size(); ++c) for (int b = 0; b < AR; ++b) v[c] += v[t.ch[(c - 2) * AR + b]];
    return v[t.root];
}
template<int AR> void tableCase(Ctx& cx, Table<AR> const& t, bool all) {
    cx.desc = t.text(); Z r = paths(t);
    three(cx, TScalar<AR, PInt>(t), r, "scalar states");
    if (!all) return;
    if (t.w == 1) three(cx, TStateless<AR>(t), r, "stateless");
    three(cx, TScalar<AR, PBytes<9>>(t), r, "9-byte states"); three(cx, TArray<AR, char>(t, 3, 2), r, "array states"); three(cx, THybrid<AR, short, int>(t, 2, 1), r, "hybrid states");
    three(cx, DdStructure<AR>(TScalar<AR, PInt>(t)), r, "diagram");
}
// wrapped specifications: the number of paths of the wrapper is that of the diagram it builds
template<typename SPEC> void wrapped(Ctx& cx, SPEC const& sp, char const* what) {
    DdStructure<2> d(sp); std::unordered_map<uint64_t, Z> memo;
    std::function<Z(NodeId)> rec = [&](NodeId f) -> Z { if (f.row() == 0) return f.col(); auto it = memo.find(f.code()); if (it != memo.end()) return it->second; Z r = rec(d.child(f, 0)) + rec(d.child(f, 1)); return memo[f.code()] = r; };
    three(cx, sp, rec(d.root()), what);
}
// a specification given by a function; state = int
template<int AR> struct Fn : DdSpec<Fn<AR>, int, AR> {
    typedef std::function<std::pair<int, int>(int, int, int)> F; int n; std::shared_ptr<F> f;
    Fn(int n, F f) : n(n), f(std::make_shared<F>(f)) {}
    int getRoot(int& s) const { s = 0; return n; }
    int getChild(int& s, int l, int b) const { auto r = (*f)(l, s, b); s = r.second; return r.first; }
    Z ref() const {
        std::vector<std::map<int, Z>> m(n + 1); Z tot = 0; m[n][0] = 1;
        for (int l = n; l > 0; --l) for (auto& k : m[l]) for (int b = 0; b < AR; ++b) { auto r = (*f)(l, k.first, b); if (r.first < 0) tot += k.second; else if (r.first) m[r.first][r.second] += k.second; }
        return tot;
    }
};
typedef std::pair<int, int> LS;
// depth sweep: skip pattern p of the arcs
template<int AR> Fn<AR> layered(int n, int p) {
    return Fn<AR>(n, [=](int l, int s, int b) -> LS {
        switch (p) {
        case 0: return l == 1 ? LS(-1, 0) : LS(l - 1, 0);                                   // full
        case 1: return b == 0 && l > 2 ? LS(l - 2, 0) : l == 1 ? LS(-1, 0) : LS(l - 1, 0);   // one arc skips a level
        case 2: return b == 0 ? LS(-1, 0) : l == 1 ? LS(-1, 0) : LS(l - 1, (s + 1) % 3);     // early acceptance, rotating states
        case 3: return b == 0 ? (l > 70 ? LS(l - 70, 1) : LS(0, 0)) : l == 1 ? LS(-1, 0) : LS(l - 1, s);   // long skips into other states
        case 4: return b == 0 ? LS((l + 1) / 2 < l ? (l + 1) / 2 : -1, 0) : l == 1 ? LS(-1, 0) : LS(l - 1, 0);  // halving skips
        default: return l == 1 ? LS(s ? -1 : 0, 0) : LS(l - 1, (s + b) % 5);                 // residues
        } });
}
// W parallel branches doubling for D levels, then all but the first jump over L levels into the node
// the first reaches step by step, then R more levels
template<int AR> Fn<AR> jump(int logW, int D, int L, int R, int shape) {
    int n = logW + D + L + R, a = n - logW, T = a - D, M = T - L;
    return Fn<AR>(n, [=](int l, int s, int b) -> LS {
        auto go = [&](int l2, int s2) { return l2 <= 0 ? LS(-1, 0) : LS(l2, s2); };
        if (l > a) return b < 2 ? go(l - 1, s * 2 + b) : LS(0, 0);
        if (l > T) return go(l - 1, s);
        if (l > M) {
            if (shape == 3) return s == 0 && l == T && b == 0 ? go(M, 0) : go(l - 1, l - 1 > M ? s : 0);   // one early jump, everything else keeps doubling
            if (s == 0) return go(l - 1, 0);
            if (shape == 1 && l == T && L > 1) return go(l - 1, s);          // jump one level later, from every branch
            if (shape == 2 && b == 0) return go(l - 1, l - 1 > M ? s : 0);   // branches jump again and again while walking
            return go(M, 0);
        }
        return go(l - 1, 0); });
}
template<int AR> void tables(Scopes& s, int n, int w, bool all, bool th = false) {
    s.add(str("table-a", AR, "-n", n, "w", w), str("all tables of arity ", AR, " with ", n, " levels and ", widthText(w), "", all ? ", every kind of state and the diagram itself" : ""), Table<AR>::count(n, w), [=](uint64_t x, Ctx& cx) { Table<AR> t; t.decode(x, n, w); tableCase(cx, t, all); });
    s.v.back().thorough = th;
}
template<int AR> void sweeps(Scopes& s, int maxn) {
    s.add(str("depth-a", AR), str("arity ", AR, ", every depth 1-", maxn, ", six arc patterns"), (uint64_t)maxn * 6, [](uint64_t x, Ctx& cx) {
        int p = x % 6, n = x / 6 + 1; cx.desc = str("arity ", AR, " depth ", n, " pattern ", p); auto sp = layered<AR>(n, p); three(cx, sp, sp.ref(), "layered"); });
    static const int LW[] = {0, 1, 2, 4, 6}, LL[] = {1, 2, 3, 20, 30, 31, 32, 41, 42, 61, 62, 63, 64, 65, 100, 125, 126, 127}, RR[] = {0, 1, 3};
    static const int lg = AR == 2 ? 1 : AR <= 4 ? 2 : 3;
    // doubling depths that bring the numbers just around one and two words
    static std::vector<int> DD; DD.clear(); for (int k : {0, 63, 126}) for (int d = -5; d <= 3; ++d) { int v = (int)((k + d) / (AR == 2 ? 1.0 : AR == 3 ? 1.585 : AR == 4 ? 2.0 : 2.3219) + 0.5); if (v >= 0 && (DD.empty() || DD.back() < v)) DD.push_back(v); }
    (void)lg;
    s.add(str("jump-a", AR), str("arity ", AR, ": 1-64 parallel branches whose numbers approach a word boundary, then jumps of 1-127 levels into a node that is also reached step by step, four jump shapes"), 5ull * DD.size() * 18 * 3 * 4, [](uint64_t x, Ctx& cx) {
        Dec d(x); int shape = d(4), R = RR[d(3)], L = LL[d(18)], lw = LW[d(5)], D = DD[d(DD.size())]; if (lw + D + L + R == 0) return;
        cx.desc = str("arity ", AR, " branches 2^", lw, " doubling ", D, " jump ", L, " rest ", R, " shape ", shape); auto sp = jump<AR>(lw, D, L, R, shape); three(cx, sp, sp.ref(), "jumps"); });
}
SCOPES(s) {
    (void)mcReg_;
#if PART == 0
    s.add("terminals", "terminal specifications of every arity and kind", 2, [](uint64_t x, Ctx& cx) {
        { Table<2> t; t.n = 0; t.root = x; tableCase(cx, t, true); } { Table<1> t; t.n = 0; t.root = x; cx.desc = str("terminal ", x); three(cx, TScalar<1, PInt>(t), x, "terminal"); } { Table<4> t; t.n = 0; t.root = x; tableCase(cx, t, true); } });
    tables<1>(s, 1, 2, true); tables<1>(s, 2, 2, true); tables<1>(s, 3, 2, true); tables<1>(s, 4, 1, true);
    tables<2>(s, 1, 1, true); tables<2>(s, 2, 2, true); tables<2>(s, 3, 1, true); tables<2>(s, 2, 3, true); tables<2>(s, 4, 1, true); tables<2>(s, 3, dag(4, 7), true); tables<2>(s, 4, dag(2, 6), false); tables<2>(s, 6, dag(2, 4), false); tables<3>(s, 3, dag(2, 3), true); tables<2>(s, 5, dag(2, 5), false, true); tables<2>(s, 3, 2, false, true);
    tables<3>(s, 1, 1, true); tables<3>(s, 2, 1, true); tables<3>(s, 2, 2, true); tables<3>(s, 3, 1, true); tables<4>(s, 2, 1, true); tables<4>(s, 1, 1, true); tables<4>(s, 2, 2, false, true);
    s.add("lifted", "all 4-level state graphs of at most 2 states per level and 5 in total below a doubling top of 62 levels", Table<2>::count(4, dag(2, 5)), [](uint64_t x, Ctx& cx) {
        Table<2> t; t.decode(x, 4, dag(2, 5)); cx.desc = t.text() + " below 62 doubling levels";
        Fn<2> sp(66, [&](int l, int st, int b) -> LS { if (l > 4) return LS(l - 1, 0); int c = t.at(l, st, b); return LS(t.levelOf(c), t.stateOf(c)); });
        three(cx, sp, sp.ref(), "lifted table", (x & 7) == 0 ? 7 : (x & 1) ? 1 : 2); });
#elif PART == 1
    s.add("wrappers", "all 2-level 2-state, 3-level and 4-level tables behind lookahead, unreduction and operators", 256 + 576 + 14400, [](uint64_t x, Ctx& cx) {
        Table<2> t; if (x < 256) t.decode(x, 2, 2); else if (x < 832) t.decode(x - 256, 3, 1); else t.decode(x - 832, 4, 1);
        cx.desc = "wrapped " + t.text(); TScalar<2, PInt> a(t); TArray<2, short> b(t, 2, 1);
        wrapped(cx, zddLookahead(a), "zddLookahead"); wrapped(cx, bddLookahead(b), "bddLookahead"); wrapped(cx, zddUnreduction(a, t.n + 1), "zddUnreduction"); wrapped(cx, bddUnreduction(b, t.n), "bddUnreduction");
        wrapped(cx, zddIntersection(a, b), "zddIntersection"); wrapped(cx, bddOr(a, b), "bddOr"); });
    s.add("tall", "65534 to 70000 levels", 5, [](uint64_t x, Ctx& cx) { int n = TALL_N[x]; cx.desc = str(n, " levels"); Tall sp(n); std::string a = countPaths(sp), b = countPaths(sp, true); cx.op(3); cx.check(a == str(n) && b == str(n) && countPaths64(sp) == (uint64_t)n, "count", a + " / " + b); cx.trace(); cx.outcome(n); }, 1, 200);
    s.add("huge", "levels of 65535, 65536, 65537 and 70001 states, arities 2 and 3", 8, [](uint64_t x, Ctx& cx) { unsigned M = HUGE_M[x % 4]; cx.desc = str(M, " states per level, arity ", 2 + x / 4); auto sum = [](auto AR) { return [AR](int, uint64_t* c) { uint64_t r = 0; for (int b = 0; b < AR; ++b) r += c[b]; return r; }; };
        auto go = [&](auto sp, uint64_t want) { cx.check(countPaths(sp) == str(want) && countPaths(sp, true) == str(want) && countPaths64(sp) == want, "count", str("counted ", countPaths(sp), " / ", countPaths(sp, true), " / ", countPaths64(sp), " expected ", want)); cx.op(3); cx.trace(); cx.outcome(want); };
        if (x < 4) { Huge<2> sp(19, M); go(sp, sp.fold<uint64_t>(sum(2))); } else { Huge<3> sp(13, M); go(sp, sp.fold<uint64_t>(sum(3))); } }, 1, 200);
    s.add("pairs", "all pairs of 2-level tables under union and conjunction", 36 * 36, [](uint64_t x, Ctx& cx) {
        Dec d(x); Table<2> t, u; t.decode(d(36), 2, 1); u.decode(d(36), 2, 1); cx.desc = t.text() + " with " + u.text(); wrapped(cx, zddUnion(TScalar<2, PInt>(t), TScalar<2, PBytes<5>>(u)), "zddUnion"); wrapped(cx, bddAnd(TStateless<2>(t), TScalar<2, PInt>(u)), "bddAnd"); });
#elif PART == 2
    sweeps<2>(s, 400);
#elif PART == 3
    sweeps<3>(s, 200);
#elif PART == 4
    sweeps<4>(s, 200);
#else
    sweeps<5>(s, 150);
#endif
}
