// P20: IntRange, SizeConstraint, DegreeConstraint, LinearConstraints against brute force over all selections.
#include "graphs.hpp"
#include <tdzdd/spec/SizeConstraint.hpp>
#include <tdzdd/spec/DegreeConstraint.hpp>
#include <tdzdd/spec/LinearConstraints.hpp>
#include <climits>
using namespace mc; using namespace model; using namespace tdzdd; using namespace graphs;
struct Sub : IntSubset {   // explicit subset of 0..31, bounds tight or left at their defaults
    uint32_t m; bool tight; Sub(uint32_t m = 0, bool tight = false) : m(m), tight(tight) {}
    bool contains(int x) const { return x >= 0 && x < 32 && (m >> x & 1); }
    int lowerBound() const { if (!tight || !m) return IntSubset::lowerBound(); return __builtin_ctz(m); }
    int upperBound() const { if (!tight || !m) return IntSubset::upperBound(); return 31 - __builtin_clz(m); }
    std::string text() const { std::string s = tight ? "tight{" : "{"; for (int i = 0; i < 32; ++i) if (m >> i & 1) s += str(i, ","); return s + "}"; }
};
#if PART == 0
static void range(uint64_t x, Ctx& cx) {
    Dec d(x); int mins[] = {-4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, INT_MAX}, lo = mins[d(12)], his[] = {-4, -3, -1, 0, 1, 2, 3, 4, 5, 6, 7, INT_MAX}, hi = his[d(12)], st = 1 + d(5);
    cx.desc = str("IntRange(", lo, ",", hi, ",", st, ")"); IntRange r(lo, hi, st);
    auto probe = [&](int v) { bool want = false; for (int64_t y = lo; y <= hi && y <= v; y += st) if (y == v) { want = true; break; } else if (y < (int64_t)v - 100 && hi == INT_MAX) y += ((int64_t)v - 50 - y) / st * st; 
        cx.op(); cx.check(r.contains(v) == want, "range", str("contains(", v, ") should be ", want)); };
    for (int v = -8; v <= 12; ++v) probe(v); if (lo >= 0) { probe(INT_MAX); probe(INT_MAX - 1); }
    cx.check(r.lowerBound() == lo && r.upperBound() == hi, "bounds", "bounds differ"); if (st == 1) { IntRange q(lo, hi); for (int v = -8; v <= 12; ++v) cx.check(q.contains(v) == (lo <= v && v <= hi), "range", "default step"); if (hi == INT_MAX) { IntRange p(lo); cx.check(p.upperBound() == INT_MAX && p.contains(lo) , "range", "default end"); } }
    IntRange def; cx.check(def.contains(0) && def.contains(INT_MAX) && !def.contains(-1), "range", "default range"); Sub s(5); cx.check(s.lowerBound() == 0 && s.upperBound() == INT_MAX, "bounds", "default bounds of a subset"); cx.trace(); cx.outcome(x);
}
static void sizeOne(Ctx& cx, int n, IntSubset const* c, bool byRef) {
    SizeConstraint spec = byRef && c ? SizeConstraint(n, *c) : SizeConstraint(n, c);
    for (int mp = 0; mp < 2; ++mp) { DdStructure<2> dd(spec, mp == 1); cx.op(); uint64_t h = 0;
        for (unsigned s = 0; s < 1u << n; ++s) { bool want = !c || c->contains(__builtin_popcount(s)); NodeId f = dd.root(); int l = n; bool zsup = true; 
            while (f.row() > 0) { for (; l > f.row(); --l) if (s >> (l - 1) & 1) zsup = false; l = f.row() - 1; f = dd.child(f, s >> (f.row() - 1) & 1); } for (; l > 0; --l) if (s >> (l - 1) & 1) zsup = false;
            bool bdd = f == 1, zdd = bdd && zsup; cx.require(bdd == want && zdd == want, "size", [&] { return str("selection ", s, " of ", n, " items: accepted as BDD ", bdd, " as ZDD ", zdd, " expected ", want); }); h = mix(h, want); }
        cx.outcome(h); }
    cx.trace();
}
SCOPES(s) {
    (void)mcReg_;
    s.add("range", "integer ranges over all small starts, ends (incl. INT_MAX) and steps 1-5, membership of every small value", 12 * 12 * 5, range);
    for (int n = 1; n <= 8; ++n) { uint64_t k = 1u << (n + 2); s.add(str("size", n), str("every subset of {0..", n + 1, "} as size constraint on ", n, " items, tight and default bounds, both constructors, all 2^", n, " selections"), k * 4, [=](uint64_t x, Ctx& cx) { Dec d(x); Sub c(d(k), d(2)); bool r = d(2); cx.desc = str("SizeConstraint(", n, ", ", c.text(), ")"); sizeOne(cx, n, &c, r); }); s.v.back().thorough = n > 7; }
    s.add("size-range", "every integer range (start 0..13, end 0..14, step 1..4) and no constraint on 1-11 items", 11 * (14 * 15 * 4 + 1), [](uint64_t x, Ctx& cx) { Dec d(x); int n = 1 + d(11); if (d.x == 0) { cx.desc = str("SizeConstraint(", n, ", none)"); sizeOne(cx, n, 0, false); return; } --d.x; int lo = d(14), hi = d(15), st = 1 + d(4); if (hi == 14) hi = INT_MAX; cx.desc = str("SizeConstraint(", n, ", ", lo, "..", hi, " step ", st, ")"); IntRange r(lo, hi, st); sizeOne(cx, n, &r, true); });
}
#elif PART == 1
static void sameD(Ctx& cx, G const& g, Fam const& got, Fam const& want, char const* sig, std::string const& what) { sameK(cx, g, got, want, sig, what, "degree-edgeless", [&](unsigned, bool acc) { return g.m() == 0 && !acc; }); }
static void degree(Ctx& cx, G const& g, std::vector<IntSubset const*> const& c, IntSubset const* uni, bool uniform, int byName) {
    Graph gr = g.make(); int m = g.m(); Fam want(1u << m);
    for (unsigned s = 0; s < 1u << m; ++s) { bool ok = true; for (int v = 0; v < g.V; ++v) { if (!g.has(v)) continue; int d = 0; for (int i = 0; i < m; ++i) if ((s >> i & 1) && (g.e[i].first == v || g.e[i].second == v)) ++d; IntSubset const* q = uniform ? uni : c[v]; if (q && !q->contains(d)) ok = false; } want[s] = ok; }
    for (int la = 0; la < 2; ++la) {
        DegreeConstraint spec(gr, uniform ? uni : 0, la == 1);
        if (!uniform) for (int v = 0; v < g.V; ++v) if (g.has(v)) { if (byName) spec.setConstraint(G::name(v), c[v]); else spec.setConstraint(gr.getVertex(G::name(v)), c[v]); }
        DdStructure<2> dd(spec); cx.op(); sameD(cx, g, famOf(dd, m), want, "degree", la ? "DegreeConstraint with lookahead" : "DegreeConstraint");
        if (la == 0) { DegreeConstraint s2(spec); DdStructure<2> d2(s2, true); sameD(cx, g, famOf(d2, m), want, "degree", "copied DegreeConstraint"); }
    }
    if (uniform && uni) { DegreeConstraint spec(gr, uni); DdStructure<2> dd(spec); sameD(cx, g, famOf(dd, m), want, "degree", "DegreeConstraint with default lookahead"); }
    cx.trace(); cx.outcome(famHash(want));
}
static IntSubset const* pick(int k, Sub* pool) { static Sub* S = [] { Sub* s = new Sub[5]; s[0] = Sub(1, true); s[1] = Sub(2, true); s[2] = Sub(4, false); s[3] = Sub(5, true); s[4] = Sub(10, false); return s; }(); (void)pool; return k == 0 ? 0 : &S[k - 1]; }
SCOPES(s) {
    (void)mcReg_;
    s.add("deg4", "every sequence of distinct edges on 4 vertices, every uniform constraint (all subsets of {0..3}, tight/default bounds, none), lookahead on/off", seqsCount(4, 6) * 33, [](uint64_t x, Ctx& cx) { Dec d(x); int k = d(33); G g = seqs(4, 6, d.x); Sub c(k / 2, k & 1); bool none = k == 32; cx.desc = str(g.text(), " degrees ", none ? "any" : c.text()); degree(cx, g, {}, none ? 0 : &c, true, 0); });
    s.add("deg4v", "every graph on 4 vertices in 4 edge orders, every per-vertex assignment of {none,{0},{1},{2},{0,2},{1,3}}", 64 * 4 * 1296, [](uint64_t x, Ctx& cx) { Dec d(x); std::vector<IntSubset const*> c; std::string t; for (int v = 0; v < 4; ++v) { int k = d(6); c.push_back(pick(k, 0)); t += str(" ", k ? static_cast<Sub const*>(c[v])->text() : "any"); } G g = subset(4, d(64), d(4)); cx.desc = str(g.text(), " degrees", t); degree(cx, g, c, 0, false, x & 1); });
    s.add("deg5", "every graph on 5 vertices in lexicographic order with at most 7 edges, every uniform subset of {0..4}", 1024 * 32, [](uint64_t x, Ctx& cx) { Dec d(x); Sub c(d(32), true); uint64_t mk = d(1024); if (__builtin_popcountll(mk) > 7) return; G g = subset(5, mk); cx.desc = str(g.text(), " degrees ", c.text()); degree(cx, g, {}, &c, true, 0); });
    s.add("deg5full", "every graph on 5 vertices in 4 orders, every uniform subset of {0..4}", 1024 * 4 * 32, [](uint64_t x, Ctx& cx) { Dec d(x); Sub c(d(32), d.x & 1); G g = subset(5, d(1024), d(4)); cx.desc = str(g.text(), " degrees ", c.text()); degree(cx, g, {}, &c, true, 0); }); s.v.back().thorough = true;
    s.add("deg5seq", "every sequence of up to 5 distinct edges on 5 vertices, 9 uniform constraints", seqsCount(5, 5) * 9, [](uint64_t x, Ctx& cx) { static uint32_t const m[] = {1, 2, 4, 3, 5, 6, 7, 10, 0}; Dec d(x); Sub c(m[d(9)], true); G g = seqs(5, 5, d.x); cx.desc = str(g.text(), " degrees ", c.text()); degree(cx, g, {}, &c, true, 0); }); s.v.back().thorough = true;
}
#else
template<typename T> struct Con { std::map<int, T> w; T lb, ub; };
template<typename T> static std::string ctext(Con<T> const& c) { std::string s = str(c.lb, "<="); for (auto& p : c.w) s += str(p.second < 0 ? "" : "+", p.second, "x", p.first); return s + str("<=", c.ub); }
template<typename T> static void linear(Ctx& cx, int n, std::vector<Con<T>> const& cs) {
    LinearConstraints<T> spec(n); for (auto& c : cs) spec.addConstraint(c.w, c.lb, c.ub); spec.update();
    DdStructure<2> dd(spec); cx.op(); uint64_t h = 0;
    uint64_t got = zddFamily(dd), gotB = bddTable(dd, n);
    for (unsigned s = 0; s < 1u << n; ++s) { bool ok = true; for (auto& c : cs) { T v = 0; for (auto& p : c.w) if (s >> (p.first - 1) & 1) v += p.second; if (v < c.lb || c.ub < v) ok = false; }
        cx.require(((got >> s & 1) != 0) == ok && ((gotB >> s & 1) != 0) == ok, "linear", [&] { return str("selection with mask ", s, " should be ", ok ? "accepted" : "rejected"); }); h = mix(h, ok); }
    cx.trace(); cx.outcome(h);
}
template<typename T> static Con<T> con(Dec& d, int n, std::vector<int> const& W, std::vector<std::pair<int, int>> const& B, double scale) {   // W: weight alphabet, 99 = absent
    Con<T> c; for (int i = 1; i <= n; ++i) { int w = W[d(W.size())]; if (w != 99) c.w[i] = T(w * scale); } auto b = B[d(B.size())]; c.lb = T(b.first * scale); c.ub = T(b.second * scale); return c; }
static std::vector<std::pair<int, int>> bounds(int lo, int hi) { std::vector<std::pair<int, int>> b; for (int i = lo; i <= hi; ++i) for (int j = lo; j <= hi; ++j) b.push_back({i, j}); return b; }
static uint64_t ipow(uint64_t a, int k) { uint64_t r = 1; while (k-- > 0) r *= a; return r; }
template<typename T> static void lin(Scopes& s, std::string nm, int n, int k, std::vector<int> W, std::vector<std::pair<int, int>> B, double scale, bool th) {
    uint64_t one = ipow(W.size(), n) * B.size(); std::string ws; for (int w : W) ws += w == 99 ? "absent " : str(w * scale, " ");
    s.add(nm, str("all ", k, "-constraint systems on ", n, " variables, weights ", ws, "and ", B.size(), " bound pairs"), ipow(one, k), [=](uint64_t x, Ctx& cx) { Dec d(x); std::vector<Con<T>> cs; cx.desc = str("LinearConstraints(", n, ")"); for (int i = 0; i < k; ++i) { cs.push_back(con<T>(d, n, W, B, scale)); cx.desc += " [" + ctext(cs.back()) + "]"; } linear<T>(cx, n, cs); }); s.v.back().thorough = th;
}
SCOPES(s) {
    (void)mcReg_;
    std::vector<int> W6{99, -2, -1, 0, 1, 2}, W4{99, -1, 1, 2}, W3{99, -1, 1}; auto B7 = bounds(-3, 3), B3 = bounds(-1, 1); std::vector<std::pair<int, int>> B4{{0, 0}, {1, 1}, {-1, 0}, {1, 9}}, B9{{0, 0}, {1, 1}, {-1, 0}, {1, 9}, {-9, 0}, {-9, 9}, {2, 2}, {-2, -1}, {1, 0}};
    s.add("linear-none", "no constraints, 1-6 variables", 6, [](uint64_t x, Ctx& cx) { cx.desc = "no constraints"; linear<int>(cx, x + 1, {}); });
    for (int n = 1; n <= 3; ++n) lin<int>(s, str("lin1n", n), n, 1, W6, B7, 1, false);
    lin<int>(s, "lin1n4", 4, 1, W6, B7, 1, false); lin<long>(s, "lin1n3long", 3, 1, W6, B7, 3000000000.0, false); lin<double>(s, "lin1n3half", 3, 1, W6, B7, 0.5, false);
    lin<int>(s, "lin2n2", 2, 2, W4, B9, 1, false); lin<int>(s, "lin2n3", 3, 2, W4, B9, 1, false); lin<int>(s, "lin2n4", 4, 2, W3, B4, 1, false); lin<int>(s, "lin3n2", 2, 3, W3, B9, 1, false);
    lin<int>(s, "lin3n3", 3, 3, W3, B3, 1, true); lin<int>(s, "lin1n5", 5, 1, W6, B7, 1, true); lin<double>(s, "lin2n3half", 3, 2, W4, B9, 0.5, true);
}
#endif
