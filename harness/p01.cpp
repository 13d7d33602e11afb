#include "model.hpp"
using namespace model; using namespace tdzdd;
static int fs = 0;
// compare a built diagram with the table
template<int AR, typename SPEC> static void one(Ctx& cx, Table<AR> const& t, Canon<AR>& cn, int ref, SPEC const& sp, char const* what, bool mp) {
    DdStructure<AR> dd(sp, mp); cx.op();
    int got = canonOf(cn, dd);
    cx.require(got == ref, "function", [&] { return str(what, mp ? " (parallel)" : "", ": accepted paths ", cn.text(got), " expected ", cn.text(ref), " for ", t.text()); });
    size_t mx = t.reachableStates();
    cx.require(dd.size() <= mx, "sharing", [&] { return str(what, ": ", dd.size(), " nodes but only ", mx, " reachable (level,state) pairs: ", t.text()); });
    cx.require(reachable(dd) <= mx, "sharing", [&] { return str(what, ": more reachable nodes than states"); });
    cx.trace();
}
template<int AR> static void tables(Scopes& s, char const* name, int n, int w, bool thorough = false) {
    s.add(name, str("all transition tables with ", n, " levels, ", widthText(w), ", arity ", AR), Table<AR>::count(n, w), [=](uint64_t x, Ctx& cx) {
        static Canon<AR> cn(RAW); cn.gc();
        Table<AR> t; t.decode(x, n, w); cx.desc = t.text();
        int ref = t.canon(cn); cx.outcome(mix(ref, AR));
        one(cx, t, cn, ref, TScalar<AR, PInt>(t), "scalar(int)", false);
        switch (x % 5) {   // every base class sees every residue of the enumeration, each with its own serial/parallel flag
        case 0: one(cx, t, cn, ref, TArray<AR, unsigned char>(t, 3, 2), "array", x & 8); break;
        case 1: one(cx, t, cn, ref, THybrid<AR, short, int>(t, 3, 1), "hybrid", x & 8); break;
        case 2: one(cx, t, cn, ref, TScalar<AR, PBytes<5>>(t), "scalar(5 bytes)", x & 8); break;
        case 3: one(cx, t, cn, ref, TScalar<AR, PInt>(t), "scalar(int)", true); break;
        default: if (w == 1) one(cx, t, cn, ref, TStateless<AR>(t), "stateless", x & 8); else one(cx, t, cn, ref, TScalar<AR, PDouble>(t), "scalar(double)", x & 8);
        }
    });
    s.v.back().thorough = thorough;
}
// the full cross product of base classes on the smaller spaces
template<int AR, int HALF> static void allBases(Scopes& s, char const* name, int n, int w) {
    s.add(name, str("all transition tables with ", n, " levels, ", widthText(w), ", arity ", AR, ", for every base class / state size / array length, serial and parallel"), Table<AR>::count(n, w), [=](uint64_t x, Ctx& cx) {
        static Canon<AR> cn(RAW); cn.gc();
        Table<AR> t; t.decode(x, n, w); cx.desc = t.text();
        int ref = t.canon(cn); cx.outcome(mix(ref, AR + 100));
        for (int mp = 0; mp < 2; ++mp) {
            if constexpr (HALF == 0) {
            one(cx, t, cn, ref, TScalar<AR, PChar>(t), "char", mp);
            one(cx, t, cn, ref, TScalar<AR, PShort>(t), "short", mp);
            one(cx, t, cn, ref, TScalar<AR, PLong>(t), "long", mp);
            one(cx, t, cn, ref, TScalar<AR, PBytes<3>>(t), "3 bytes", mp);
            one(cx, t, cn, ref, TScalar<AR, PBytes<6>>(t), "6 bytes", mp);
            one(cx, t, cn, ref, TScalar<AR, PBytes<12>>(t), "12 bytes", mp);
            one(cx, t, cn, ref, TScalar<AR, PBytes<17>>(t), "17 bytes", mp);
            one(cx, t, cn, ref, TScalar<AR, PBytes<24>>(t), "24 bytes", mp);
            } else if constexpr (HALF == 1) {
            one(cx, t, cn, ref, THybrid<AR, char, char>(t, 1, 0), "hybrid char/char", mp);
            one(cx, t, cn, ref, THybrid<AR, long, short>(t, 9, 8), "hybrid long/short", mp);
            one(cx, t, cn, ref, THybrid<AR, int, long>(t, 2, 1), "hybrid int/long", mp);
            one(cx, t, cn, ref, THybrid<AR, int, long>(t, 0, 0), "hybrid empty array", mp);
            } else {
            one(cx, t, cn, ref, TArray<AR, char>(t, 1, 0), "array char[1]", mp);
            one(cx, t, cn, ref, TArray<AR, char>(t, 7, 6), "array char[7]", mp);
            one(cx, t, cn, ref, TArray<AR, char>(t, 9, 8), "array char[9]", mp);
            one(cx, t, cn, ref, TArray<AR, short>(t, 5, 4), "array short[5]", mp);
            one(cx, t, cn, ref, TArray<AR, int>(t, 3, 2), "array int[3]", mp);
            one(cx, t, cn, ref, TArray<AR, long>(t, 4, 3), "array long[4]", mp);
            if (w == 1) { one(cx, t, cn, ref, TStateless<AR>(t), "stateless", mp); one(cx, t, cn, ref, TArray<AR, int>(t, 0, 0), "array int[0]", mp); }
            }
        }
    });
}
// parametric: residue automaton with modulus m over n levels; per-level population grows to m
template<int AR> struct Residue : DdSpec<Residue<AR>, unsigned, AR> {
    int n; unsigned m, mul, stride, hashMode; Residue(int n, unsigned m, unsigned mul, unsigned stride, unsigned hm) : n(n), m(m), mul(mul), stride(stride), hashMode(hm) {}
    int getRoot(unsigned& s) const { s = 1 % m; return n; }
    int getChild(unsigned& s, int level, int b) const {
        s = (s * mul + b + (level % 3)) % m;
        int l = level - 1 - ((stride && s % stride == 0) ? 1 : 0);
        if (stride && s % (7 * stride) == 3) return 0;
        if (l <= 0) { bool ok = s % 3 != 1; s = 0; return ok ? -1 : 0; }
        return l;
    }
    size_t hashCode(unsigned const& s) const { return hashMode == 0 ? s * 314159257ull : hashMode == 1 ? s : s % 4; }
    int canon(Canon<AR>& cn) const {
        std::map<std::pair<int, unsigned>, int> memo;
        std::function<int(int, unsigned)> rec = [&](int l, unsigned s) -> int {
            if (l <= 0) return l < 0;
            auto k = std::make_pair(l, s); auto it = memo.find(k); if (it != memo.end()) return it->second;
            int c[AR]; for (int b = 0; b < AR; ++b) { unsigned t = s; int ll = getChild(t, l, b); c[b] = rec(ll, t); }
            return memo[k] = cn.mk(l, c);
        };
        unsigned s; int l = getRoot(s); int r = rec(l, s); states = memo.size(); return r;
    }
    mutable size_t states = 0;
};
template<int AR> static void residue(Ctx& cx, int n, unsigned m, unsigned mul, unsigned stride, unsigned hm, bool mp) {
    Canon<AR> cn(RAW); Residue<AR> sp(n, m, mul, stride, hm);
    cx.desc = str("residue automaton arity ", AR, " levels ", n, " modulus ", m, " multiplier ", mul, " stride ", stride, " hash mode ", hm, mp ? " parallel" : " serial");
    int ref = sp.canon(cn); DdStructure<AR> dd(sp, mp); cx.op(); int got = canonOf(cn, dd);
    cx.check(got == ref, "function", "constructed diagram differs from the specification");
    cx.check(dd.size() <= sp.states, "sharing", str(dd.size(), " nodes for ", sp.states, " states"));
    cx.outcome(mix(dd.size(), m)); cx.trace();
}
// big array states: element count sweeps across memory-block boundaries
struct BigArr : PodArrayDdSpec<BigArr, long, 2> {
    int n, len; BigArr(int n, int len) : n(n), len(len) { setArraySize(len); }
    int getRoot(long* a) const { for (int i = 0; i < len; ++i) a[i] = i; a[len - 1] = 0; return n; }
    int getChild(long* a, int level, int b) const {
        for (int i = 0; i < len - 1; ++i) if (a[i] != i) throw Fail("state-corrupt", str("element ", i));
        a[len - 1] = (a[len - 1] * 2 + b) % 5; if (level == 1) { bool ok = a[len - 1] != 2; return ok ? -1 : 0; } return level - 1;
    }
};
// deep, long-skip diagrams
struct Deep : DdSpec<Deep, int, 2> {
    int n, jump; Deep(int n, int jump) : n(n), jump(jump) {}
    int getRoot(int& s) const { s = 0; return n; }
    int getChild(int& s, int level, int b) const {
        if (b) ++s; if (s > 2) return 0;
        int l = b ? level - jump : level - 1;
        if (l <= 0) return s == 2 ? -1 : 0;
        return l;
    }
    int canon(Canon<2>& cn) const {
        std::vector<std::array<int, 3>> v(n + 1);
        for (int l = 1; l <= n; ++l) for (int s = 0; s <= 2; ++s) { int c[2]; for (int b = 0; b < 2; ++b) { int t = s; int ll = getChild(t, l, b); c[b] = ll <= 0 ? (ll < 0) : v[ll][t]; } v[l][s] = cn.mk(l, c); }
        return n ? v[n][0] : 0;
    }
};
#ifndef PART
#define PART 0
#endif
SCOPES(s) {
    (void)mcReg_;
    omprt::setThreads(2); omprt::setPolicy(1);
#if PART == 0
    s.add("roots", "terminal-only specifications of every base class", 2, [](uint64_t x, Ctx& cx) {
        Canon<2> cn(RAW); Table<2> t; t.n = 0; t.w = 1; t.root = (int)x; cx.desc = str("root terminal ", x);
        for (int mp = 0; mp < 2; ++mp) {
            one(cx, t, cn, (int)x, TScalar<2, PInt>(t), "scalar", mp); one(cx, t, cn, (int)x, TStateless<2>(t), "stateless", mp);
            one(cx, t, cn, (int)x, TArray<2, int>(t, 2, 0), "array", mp); one(cx, t, cn, (int)x, THybrid<2, int, int>(t, 2, 0), "hybrid", mp);
        }
        cx.outcome(x);
    });
    tables<2>(s, "t2n1w1", 1, 1); tables<2>(s, "t2n2w1", 2, 1); tables<2>(s, "t2n2w2", 2, 2); tables<2>(s, "t2n2w3", 2, 3);
    tables<2>(s, "t2n3w1", 3, 1); tables<2>(s, "t2n3w2", 3, 2); tables<2>(s, "t2n4w1", 4, 1); tables<2>(s, "t2n5w1", 5, 1, true);
    tables<2>(s, "g2n4w2", 4, dag(2, 7)); tables<2>(s, "g2n4w3", 4, dag(3, 7), true); tables<2>(s, "g2n5w2k6", 5, dag(2, 6)); tables<2>(s, "g2n6w2k5", 6, dag(2, 5));
#elif PART == 1
    tables<3>(s, "t3n2w2", 2, 2); tables<3>(s, "t3n3w1", 3, 1); 
#elif PART == 2
    tables<4>(s, "t4n2w1", 2, 1); tables<4>(s, "t4n2w2", 2, 2); tables<4>(s, "t4n3w1", 3, 1, true);
    tables<5>(s, "t5n2w1", 2, 1);
#elif PART <= 5
    allBases<2, PART - 3>(s, PART == 3 ? "b2n2w2-scalar" : PART == 4 ? "b2n2w2-hybrid" : "b2n2w2-array", 2, 2);
    allBases<2, PART - 3>(s, PART == 3 ? "b2n3w1-scalar" : PART == 4 ? "b2n3w1-hybrid" : "b2n3w1-array", 3, 1);
    allBases<3, PART - 3>(s, PART == 3 ? "b3n2w1-scalar" : PART == 4 ? "b3n2w1-hybrid" : "b3n2w1-array", 2, 1);
#else
    s.add("residue", "residue automata: every modulus 1..130 x 3 strides x 3 hash functions x serial/parallel", 130 * 3 * 3 * 2, [](uint64_t x, Ctx& cx) {
        Dec d(x); unsigned m = 1 + d(130); unsigned st = d(3); unsigned hm = d(3); bool mp = d(2);
        residue<2>(cx, 14, m, 2, st * 2, hm, mp); residue<3>(cx, 7, m, 3, st * 2, hm, mp); });
    s.add("residue-big", "residue automata with large per-level populations", 8 * 2, [](uint64_t x, Ctx& cx) {
        static const unsigned M[] = {199, 397, 997, 1999, 5003, 10007, 20011, 40009};
        Dec d(x); bool mp = d(2); unsigned m = M[d(8)]; residue<2>(cx, 18, m, 2, 2, 0, mp); }, 1);
    s.add("huge", "levels of 65535, 65536, 65537 and 70001 nodes, arities 2 and 3, serial and parallel", 16, [](uint64_t x, Ctx& cx) {
        Dec d(x); bool mp = d(2); unsigned M = HUGE_M[d(4)]; int ar = 2 + d(2); cx.desc = str(M, " nodes per level, arity ", ar, mp ? " parallel" : " serial");
        auto go = [&](auto tag) { constexpr int AR = decltype(tag)::value; Huge<AR> sp(AR == 2 ? 19 : 13, M); Canon<AR> cn(RAW); int ref = sp.canon(cn); DdStructure<AR> dd(sp, mp); cx.op(); cx.check(canonOf(cn, dd) == ref, "function", "constructed diagram differs from the specification"); size_t st = sp.states(); cx.check(dd.size() <= st, "sharing", str(dd.size(), " nodes for ", st, " states")); cx.outcome(mix(M, AR)); cx.trace(); };
        if (ar == 2) go(std::integral_constant<int, 2>()); else go(std::integral_constant<int, 3>()); }, 1, 200);
    s.add("tall", "65534 to 70000 levels, serial and parallel", 10, [](uint64_t x, Ctx& cx) { int n = TALL_N[x / 2]; cx.desc = str(n, " levels"); DdStructure<2> d(Tall(n), x & 1); cx.op(); std::string w = Tall::wrong(d, n, 0); cx.check(w.empty(), "function", w); cx.trace(); cx.outcome(n); }, 1, 200);
    s.add("array-size", "array states of every length 1..64 longs and lengths around block boundaries", 64 + 14, [](uint64_t x, Ctx& cx) {
        static const int L[] = {100, 499, 998, 999, 1000, 1001, 2000, 4998, 4999, 5000, 5001, 10000, 49999, 50001};
        int len = x < 64 ? (int)x + 1 : L[x - 64]; cx.desc = str("array of ", len, " longs");
        std::string first;
        for (int mp = 0; mp < 2; ++mp) for (int n : {1, 4, 6}) {
            Canon<2> cn(RAW); BigArr sp(n, len); DdStructure<2> dd(sp, mp); cx.op();
            std::function<int(int, long)> rec = [&](int l, long v) -> int { int c[2]; for (int b = 0; b < 2; ++b) { long u = (v * 2 + b) % 5; c[b] = l == 1 ? (u != 2) : rec(l - 1, u); } return cn.mk(l, c); };
            cx.check(canonOf(cn, dd) == rec(n, 0), "function", "diagram differs"); cx.trace(); cx.outcome(dd.size());
            cx.check(dd.size() <= (size_t)5 * n, "sharing", "equal array states not shared");
        } }, 1);
    s.add("deep", "every depth 1..70 and selected depths to 3000, with jumps 1..69", 70 * 8 + 4, [](uint64_t x, Ctx& cx) {
        static const int J[] = {1, 2, 3, 5, 10, 30, 50, 69};
        int n, j; if (x < 560) { n = 1 + x / 8; j = J[x % 8]; } else { n = (int[]){200, 500, 1000, 3000}[x - 560]; j = 37; }
        cx.desc = str("depth ", n, " jump ", j);
        for (int mp = 0; mp < 2; ++mp) { Canon<2> cn(RAW); Deep sp(n, j); DdStructure<2> dd(sp, mp); cx.op(); cx.check(canonOf(cn, dd) == sp.canon(cn), "function", "diagram differs"); cx.outcome(dd.size()); cx.trace(); } });
#endif
}
