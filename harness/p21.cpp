// P21: PathZdd / HamiltonPathZdd / CycleZdd / HamiltonCycleZdd / PathZddByStdMap against brute force over all edge subsets.
#include "graphs.hpp"
#include <tdzdd/spec/PathZdd.hpp>
#include <tdzdd/spec/PathZddByStdMap.hpp>
using namespace mc; using namespace model; using namespace tdzdd; using namespace graphs;
// per-subset facts of a graph: degree pattern etc. are recomputed per colouring (graphs are tiny)
static bool isPaths(G const& g, unsigned s, std::vector<int> const& col, bool ham) {
    int deg[32] = {0}; UF uf(g.V); bool any = false;
    for (int i = 0; i < g.m(); ++i) if (s >> i & 1) { ++deg[g.e[i].first]; ++deg[g.e[i].second]; if (!uf.u(g.e[i].first, g.e[i].second)) return false; }
    for (int v = 0; v < g.V; ++v) { if (col[v]) { any = true; if (deg[v] != 1) return false; for (int u = 0; u < v; ++u) if (col[u] && (col[u] == col[v]) != (uf.f(u) == uf.f(v))) return false; } else { if (deg[v] != 0 && deg[v] != 2) return false; if (ham && deg[v] == 0 && g.has(v)) return false; } }
    return any;
}
static bool isCycle(G const& g, unsigned s, bool ham) {
    int deg[32] = {0}; UF uf(g.V); int extra = 0; if (!s) return false;
    for (int i = 0; i < g.m(); ++i) if (s >> i & 1) { ++deg[g.e[i].first]; ++deg[g.e[i].second]; if (!uf.u(g.e[i].first, g.e[i].second)) ++extra; }
    if (extra != 1) return false; int root = -1;
    for (int v = 0; v < g.V; ++v) { if (deg[v] != 0 && deg[v] != 2) return false; if (deg[v]) { if (root < 0) root = uf.f(v); else if (root != uf.f(v)) return false; } else if (ham && g.has(v)) return false; }
    return true;
}
template<typename SPEC, typename P> static void oneK(Ctx& cx, G const& g, SPEC const& spec, Fam const& want, char const* nm, char const* key, P const& pred) {
    DdStructure<2> dd(spec); cx.op(); sameK(cx, g, famOf(dd, g.m()), want, nm, nm, key, pred);
}
template<typename SPEC> static void one(Ctx& cx, G const& g, SPEC const& spec, Fam const& want, char const* nm, bool red) {
    DdStructure<2> dd(spec); cx.op(); same(cx, g, famOf(dd, g.m()), want, nm, nm);
    if (red) { DdStructure<2> d2(spec, true); d2.zddReduce(); cx.op(); same(cx, g, famOf(d2, g.m()), want, nm, str(nm, " (parallel, reduced)")); }
}
static void cycles(Ctx& cx, G const& g) {
    cx.desc = g.text(); if (!g.m()) return; Graph gr = g.make(); int m = g.m(); Fam c(1u << m), h(1u << m);
    for (unsigned s = 0; s < 1u << m; ++s) { c[s] = isCycle(g, s, false); h[s] = c[s] && isCycle(g, s, true); }
    auto hk = [&](unsigned s, bool acc) { return acc && c[s] && outsideWindow(g, gr, s, true); };
    for (int la = 0; la < 2; ++la) { one(cx, g, CycleZdd(gr, la), c, "CycleZdd", false); oneK(cx, g, HamiltonCycleZdd(gr, la), h, "HamiltonCycleZdd", "hamilton-cycle", hk); }
    one(cx, g, CycleZdd(gr), c, "CycleZdd(default)", true); oneK(cx, g, HamiltonCycleZdd(gr), h, "HamiltonCycleZdd(default)", "hamilton-cycle", hk); cx.trace(); cx.outcome(mix(famHash(c), famHash(h)));
}
static void colourings(G const& g, std::vector<std::vector<int>>& out, int maxCol) {   // all sets of disjoint vertex pairs among the graph's vertices
    std::vector<int> col(g.V); std::function<void(int, int)> rec = [&](int v, int c) {
        while (v < g.V && (col[v] || !g.has(v))) ++v; if (v >= g.V) { if (c > 0) out.push_back(col); return; }
        rec(v + 1, c); if (c < maxCol) for (int u = v + 1; u < g.V; ++u) if (!col[u] && g.has(u)) { col[v] = col[u] = c + 1; rec(v + 1, c + 1); col[v] = col[u] = 0; }
    };
    // rec(v+1) after leaving v uncoloured; vertices before v are final
    rec(0, 0);
}
static void paths(Ctx& cx, G const& g, int maxCol) {
    cx.desc = g.text(); if (!g.m()) return; std::vector<std::vector<int>> cols; colourings(g, cols, maxCol); int m = g.m(); uint64_t h0 = 0;
    if (cols.empty()) { Graph gr = g.make(); Fam none(1u << m); one(cx, g, CycleZdd(gr), [&] { Fam f(1u << m); for (unsigned s = 0; s < 1u << m; ++s) f[s] = isCycle(g, s, false); return f; }(), "CycleZdd", false); }
    for (auto& col : cols) {
        cx.desc = g.text() + " pairs"; for (int c = 1; c <= g.V; ++c) { std::string t; for (int v = 0; v < g.V; ++v) if (col[v] == c) t += (t.empty() ? " " : "~") + G::name(v); cx.desc += t; }
        Graph gr = g.make(col); Fam p(1u << m), h(1u << m); for (unsigned s = 0; s < 1u << m; ++s) { p[s] = isPaths(g, s, col, false); h[s] = p[s] && isPaths(g, s, col, true); }
        for (int la = 0; la < 2; ++la) { one(cx, g, PathZdd(gr, la), p, "PathZdd", false); oneK(cx, g, HamiltonPathZdd(gr, la), h, "HamiltonPathZdd", "hamilton-path", [&](unsigned s, bool acc) { return acc && p[s] && outsideWindow(g, gr, s, false); }); }
        bool multi = *std::max_element(col.begin(), col.end()) > 1; oneK(cx, g, PathZddByStdMap(gr), p, "PathZddByStdMap", "stdmap-pairs", [&](unsigned, bool) { return multi; }); one(cx, g, PathZdd(gr), p, "PathZdd(default)", true); h0 = mix(h0, famHash(p)); cx.trace();
    }
    cx.outcome(h0);
}
// larger boards: enumerate the solutions by depth-first search and compare family and size
static void bigGrid(Ctx& cx, int r, int c) {
    G g = grid(r, c); int m = g.m(); cx.desc = str("grid ", r, "x", c); std::vector<std::vector<std::pair<int, int>>> adj(g.V); for (int i = 0; i < m; ++i) { adj[g.e[i].first].push_back({g.e[i].second, i}); adj[g.e[i].second].push_back({g.e[i].first, i}); }
    auto member = [&](DdStructure<2> const& dd, uint64_t s) { NodeId f = dd.root(); uint64_t left = s; while (f.row() > 0) { int i = m - f.row(); bool t = s >> i & 1; if (t) left &= ~(1ull << i); for (int j = 0; j < i; ++j) if (left >> j & 1) return false; f = dd.child(f, t); } return f == 1 && left == 0; };
    for (int t = 1; t < g.V; ++t) {   // paths 0..t
        std::vector<int> col(g.V); col[0] = col[t] = 1; Graph gr = g.make(col); uint64_t n = 0, nh = 0; DdStructure<2> p{PathZdd(gr)}, q{PathZdd(gr, false)}, h{HamiltonPathZdd(gr)}, k{PathZddByStdMap(gr)}; p.zddReduce(); q.zddReduce(); h.zddReduce(); k.zddReduce(); cx.op(4);
        std::vector<char> vis(g.V); int cnt = 1; vis[0] = 1; std::function<void(int, uint64_t)> dfs = [&](int v, uint64_t s) { if (v == t) { ++n; cx.check(member(p, s) && member(q, s) && member(k, s), "grid", "a path is missing"); bool ham = cnt == g.V; if (!ham && outsideWindow(g, gr, s, false) && member(h, s)) { cx.known("hamilton-path", "grid"); ham = true; } nh += ham; cx.check(member(h, s) == ham, "grid", "Hamilton path family differs"); return; } for (auto& x : adj[v]) if (!vis[x.first]) { vis[x.first] = 1; ++cnt; dfs(x.first, s | 1ull << x.second); --cnt; vis[x.first] = 0; } };
        dfs(0, 0); cx.check(p.zddCardinality() == str(n) && q.zddCardinality() == str(n) && k.zddCardinality() == str(n) && h.zddCardinality() == str(nh), "grid-count", str("paths from 1 to ", t + 1, ": expected ", n, " and ", nh, " Hamiltonian, got ", p.zddCardinality(), " ", q.zddCardinality(), " ", k.zddCardinality(), " ", h.zddCardinality())); cx.check(p == q && q == k, "grid-eq", "variants differ"); cx.trace(); cx.outcome(mix(n, nh));
    }
    Graph gr = g.make(); DdStructure<2> cy{CycleZdd(gr)}, cn{CycleZdd(gr, false)}, hc{HamiltonCycleZdd(gr)}; cy.zddReduce(); cn.zddReduce(); hc.zddReduce(); uint64_t n = 0, nh = 0;
    for (int s0 = 0; s0 < g.V; ++s0) { std::vector<char> vis(g.V); vis[s0] = 1; int cnt = 1; std::function<void(int, uint64_t, int)> dfs = [&](int v, uint64_t s, int first) { for (auto& x : adj[v]) { if (x.first == s0 && cnt >= 3 && first < v) { ++n; uint64_t z = s | 1ull << x.second; bool ham = cnt == g.V; if (!ham && outsideWindow(g, gr, z, true) && member(hc, z)) { cx.known("hamilton-cycle", "grid"); ham = true; } nh += ham; cx.check(member(cy, z) && member(hc, z) == ham, "grid", "cycle families differ"); } if (x.first > s0 && !vis[x.first]) { vis[x.first] = 1; ++cnt; dfs(x.first, s | 1ull << x.second, first < 0 ? x.first : first); --cnt; vis[x.first] = 0; } } }; dfs(s0, 0, -1); }
    cx.check(cy.zddCardinality() == str(n) && cy == cn && hc.zddCardinality() == str(nh), "grid-count", str("expected ", n, " cycles and ", nh, " Hamiltonian, got ", cy.zddCardinality(), " ", hc.zddCardinality()));
}
static bool inSet(int k, std::initializer_list<int> l) { for (int x : l) if (x == k) return true; return false; }
SCOPES(s) {
    (void)mcReg_;
    s.add("cyc4", "cycles: every sequence of distinct edges on 4 vertices", seqsCount(4, 6), [](uint64_t x, Ctx& cx) { cycles(cx, seqs(4, 6, x)); });
    s.add("path4", "paths: every sequence of distinct edges on 4 vertices, every set of disjoint terminal pairs", seqsCount(4, 6), [](uint64_t x, Ctx& cx) { paths(cx, seqs(4, 6, x), 2); });
    s.add("cyc5", "cycles: every sequence of up to 5 distinct edges on 5 vertices", seqsCount(5, 5), [](uint64_t x, Ctx& cx) { cycles(cx, seqs(5, 5, x)); });
    s.add("path5", "paths: every sequence of up to 4 distinct edges on 5 vertices, every set of disjoint terminal pairs", seqsCount(5, 4), [](uint64_t x, Ctx& cx) { paths(cx, seqs(5, 4, x), 2); });
    s.add("cyc5o", "cycles: every graph on 5 vertices in 4 edge orders and every rotation of its edge order", 1024 * 4 * 10, [](uint64_t x, Ctx& cx) { Dec d(x); G g = subset(5, d(1024), d(4)); int r = d(10); if (r >= g.m()) return; std::rotate(g.e.begin(), g.e.begin() + r, g.e.end()); cycles(cx, g); });
    s.add("path5o", "paths: every graph on 5 vertices in 4 edge orders, every set of disjoint terminal pairs", 1024 * 4, [](uint64_t x, Ctx& cx) { Dec d(x); G g = subset(5, d(1024), d(4)); paths(cx, g, 2); });
    s.add("cyc5k8q", "Hamilton cycles closing before later chords: every order of the 8-edge graphs on 5 vertices that starts with one given 4-cycle", 24 * 720, [](uint64_t x, Ctx& cx) {
        Dec d(x); int out = 4, pat = 0, p4 = d(24), p6 = d(720); std::vector<int> v; for (int i = 0; i < 5; ++i) if (i != out) v.push_back(i); if (pat == 1) std::swap(v[2], v[3]); if (pat == 2) std::swap(v[1], v[2]);
        std::vector<std::pair<int, int>> c{{v[0], v[1]}, {v[1], v[2]}, {v[2], v[3]}, {v[3], v[0]}}, r{{v[0], v[2]}, {v[1], v[3]}, {v[0], out}, {v[1], out}, {v[2], out}, {v[3], out}}; G g; g.V = 5; for (int n = 4; n > 0; --n) { int j = p4 % n; p4 /= n; g.e.push_back(c[j]); c.erase(c.begin() + j); } for (int n = 6; n > 2; --n) { int j = p6 % n; p6 /= n; g.e.push_back(r[j]); r.erase(r.begin() + j); } cycles(cx, g); });
    s.add("cyc5k8", "Hamilton cycles closing before later chords: every order of the 8-edge graphs on 5 vertices that starts with a 4-cycle", 3 * 5 * 24 * 720, [](uint64_t x, Ctx& cx) {
        Dec d(x); int out = d(5), pat = d(3), p4 = d(24), p6 = d(720); std::vector<int> v; for (int i = 0; i < 5; ++i) if (i != out) v.push_back(i); if (pat == 1) std::swap(v[2], v[3]); if (pat == 2) std::swap(v[1], v[2]);
        std::vector<std::pair<int, int>> c{{v[0], v[1]}, {v[1], v[2]}, {v[2], v[3]}, {v[3], v[0]}}, r{{v[0], v[2]}, {v[1], v[3]}, {v[0], out}, {v[1], out}, {v[2], out}, {v[3], out}}; G g; g.V = 5; for (int n = 4; n > 0; --n) { int j = p4 % n; p4 /= n; g.e.push_back(c[j]); c.erase(c.begin() + j); } for (int n = 6; n > 2; --n) { int j = p6 % n; p6 /= n; g.e.push_back(r[j]); r.erase(r.begin() + j); } cycles(cx, g); }); s.v.back().thorough = true;
    s.add("path6", "paths: every graph on 6 vertices with 5 or 6 edges in lexicographic order, every set of up to 3 disjoint terminal pairs", 32768, [](uint64_t x, Ctx& cx) { if (__builtin_popcountll(x) > 6 || __builtin_popcountll(x) < 5) return; paths(cx, subset(6, x), 3); });
    s.add("cyc6", "cycles: every graph on 6 vertices with at most 9 edges in lexicographic order", 32768, [](uint64_t x, Ctx& cx) { if (__builtin_popcountll(x) > 9) return; cycles(cx, subset(6, x)); });
    s.add("grids", "grids up to 4x4: every terminal of a path from the first corner, all cycles", 9, [](uint64_t x, Ctx& cx) { int r = 2 + x / 3, c = 2 + x % 3; bigGrid(cx, r, c); }, 1, 120);
    s.add("cyc5-6", "cycles: every sequence of exactly 6 distinct edges on 5 vertices", seqCount(5, 6), [](uint64_t x, Ctx& cx) { cycles(cx, seq(5, 6, x)); }); s.v.back().thorough = true;
    s.add("cyc5-8", "cycles: every sequence of exactly 8 distinct edges on 5 vertices", seqCount(5, 8), [](uint64_t x, Ctx& cx) { cycles(cx, seq(5, 8, x)); }); s.v.back().thorough = true;
    s.add("path5-5", "paths: every sequence of exactly 5 distinct edges on 5 vertices, every set of disjoint terminal pairs", seqCount(5, 5), [](uint64_t x, Ctx& cx) { paths(cx, seq(5, 5, x), 2); }); s.v.back().thorough = true;
    s.add("path5-6", "paths: every sequence of exactly 6 distinct edges on 5 vertices, every set of disjoint terminal pairs", seqCount(5, 6), [](uint64_t x, Ctx& cx) { paths(cx, seq(5, 6, x), 2); }); s.v.back().thorough = true;
    s.add("path6full", "paths: every graph on 6 vertices with at most 10 edges in 3 orders, every set of up to 3 disjoint terminal pairs", 32768 * 3, [](uint64_t x, Ctx& cx) { Dec d(x); uint64_t k = d(32768); if (__builtin_popcountll(k) > 10) return; paths(cx, subset(6, k, d(3)), 3); }); s.v.back().thorough = true;
    s.add("cyc6full", "cycles: every graph on 6 vertices in 3 orders", 32768 * 3, [](uint64_t x, Ctx& cx) { Dec d(x); uint64_t k = d(32768); cycles(cx, subset(6, k, d(3))); }); s.v.back().thorough = true;
    s.add("grids5", "grids up to 5x5: every terminal of a path from the first corner, all cycles", 4, [](uint64_t x, Ctx& cx) { int r = x < 2 ? 2 + x : x + 2; bigGrid(cx, r, 5); }, 1, 900); s.v.back().thorough = true;
    s.add("edgeless", "the five specifications on a graph without edges", 5, [](uint64_t x, Ctx& cx) {
        static char const* NM[] = {"PathZdd", "HamiltonPathZdd", "CycleZdd", "HamiltonCycleZdd", "PathZddByStdMap"}; cx.desc = str(NM[x], " of a graph without edges"); cx.op(); cx.trace();
        int r = inChild([&] { Graph gr; gr.update(); DdStructure<2> d = x == 0 ? DdStructure<2>(PathZdd(gr)) : x == 1 ? DdStructure<2>(HamiltonPathZdd(gr)) : x == 2 ? DdStructure<2>(CycleZdd(gr)) : x == 3 ? DdStructure<2>(HamiltonCycleZdd(gr)) : DdStructure<2>(PathZddByStdMap(gr)); return d.root() == 0; });
        if (r) { std::string msg = str("a graph without edges has no path and no cycle; outcome ", r, " (1 wrong, 2 exception, 3 crash, 4 endless)"); if (x < 4) cx.known("path-edgeless", msg); else cx.fail("edgeless", msg); } cx.outcome(x); });
    (void)inSet;
}
