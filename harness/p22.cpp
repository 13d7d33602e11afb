// P22: FrontierBasedSearch against brute force over all edge subsets.
#include "graphs.hpp"
#include <tdzdd/spec/FrontierBasedSearch.hpp>
using namespace mc; using namespace model; using namespace tdzdd; using namespace graphs;
struct Facts { bool loop, ok; int uec; };
static Facts facts(G const& g, unsigned s, std::vector<int> const& col) {
    Facts r{false, true, 0}; UF uf(g.V); int deg[16] = {0};
    for (int i = 0; i < g.m(); ++i) if (s >> i & 1) { ++deg[g.e[i].first]; ++deg[g.e[i].second]; if (!uf.u(g.e[i].first, g.e[i].second)) r.loop = true; }
    bool colored[16] = {false};
    for (int v = 0; v < g.V; ++v) if (col[v]) { colored[uf.f(v)] = true; for (int u = 0; u < v; ++u) if (col[u] && (col[u] == col[v]) != (uf.f(u) == uf.f(v))) r.ok = false; }
    for (int v = 0; v < g.V; ++v) if (uf.f(v) == v && !colored[v]) { bool e = false; for (int u = 0; u < g.V; ++u) if (uf.f(u) == v && deg[u]) e = true; if (e) ++r.uec; }
    return r;
}
static void colourings(G const& g, std::vector<std::vector<int>>& out, int maxCol) {
    std::vector<int> col(g.V); std::function<void(int, int)> rec = [&](int v, int c) { if (v == g.V) { out.push_back(col); return; } rec(v + 1, c); if (!g.has(v)) return; for (int k = 1; k <= c + 1 && k <= maxCol; ++k) { col[v] = k; rec(v + 1, std::max(c, k)); col[v] = 0; } }; rec(0, 0);
}
static void fbs(Ctx& cx, G const& g, int maxCol, int maxUec, std::vector<int> const* only = 0) {
    if (!g.m()) return;
    std::vector<std::vector<int>> cols; if (only) cols.push_back(*only); else colourings(g, cols, maxCol); int m = g.m(); uint64_t h = 0;
    for (auto& col : cols) {
        std::string ct = g.text() + " colours"; for (int v = 0; v < g.V; ++v) ct += str(" ", col[v]); Graph gr = g.make(col); std::vector<Facts> f; for (unsigned s = 0; s < 1u << m; ++s) f.push_back(facts(g, s, col));
        for (int uec = -1; uec <= maxUec; ++uec) for (int nl = 0; nl < 2; ++nl) {
            Fam want(1u << m); for (unsigned s = 0; s < 1u << m; ++s) want[s] = f[s].ok && (uec < 0 || f[s].uec == uec) && !(nl && f[s].loop);
            for (int la = 0; la < 2; ++la) {
                cx.desc = str(ct, " uec=", uec, nl ? " no loops" : "", la ? " lookahead" : ""); DdStructure<2> dd(FrontierBasedSearch(gr, uec, nl, la)); cx.op(); same(cx, g, famOf(dd, m), want, "fbs", "FrontierBasedSearch");
                if (la && nl == 0) { DdStructure<2> d2(FrontierBasedSearch(gr, uec), true); d2.zddReduce(); cx.op(); same(cx, g, famOf(d2, m), want, "fbs", "FrontierBasedSearch (defaults, parallel, reduced)"); }
            }
            h = mix(h, famHash(want)); cx.trace();
        }
    }
    cx.outcome(h);
}
SCOPES(s) {
    (void)mcReg_;
    s.add("edgeless", "a graph without edges, any, 0 and 1 uncoloured components", 3, [](uint64_t x, Ctx& cx) { int uec = (int)x - 1; cx.desc = str("FrontierBasedSearch of a graph without edges, uec=", uec); cx.op(); cx.trace(); cx.outcome(x);
        int r = inChild([&] { Graph gr; gr.update(); DdStructure<2> d{FrontierBasedSearch(gr, uec)}; return d.root() == (uec <= 0 ? 1 : 0); }); if (r) cx.known("fbs-edgeless", str("outcome ", r, " (1 wrong, 2 exception, 3 crash, 4 endless)")); });
    s.add("fbs4", "every sequence of up to 4 distinct edges on 4 vertices, every colouring, 0-2 or any number of uncoloured components, loops allowed/forbidden, lookahead on/off", seqsCount(4, 4), [](uint64_t x, Ctx& cx) { fbs(cx, seqs(4, 4, x), 4, 2); });
    s.add("fbs4o", "every graph on 4 vertices in 4 edge orders and every rotation, every colouring", 64 * 4 * 6, [](uint64_t x, Ctx& cx) { Dec d(x); G g = subset(4, d(64), d(4)); int r = d(6); if (r >= std::max(1, g.m())) return; if (g.m()) std::rotate(g.e.begin(), g.e.begin() + r, g.e.end()); fbs(cx, g, 4, 2); });
    s.add("fbs5", "every graph on 5 vertices with at most 6 edges in lexicographic and interleaved order, every colouring with up to 2 colours", 1024 * 2, [](uint64_t x, Ctx& cx) { Dec d(x); uint64_t k = d(1024); if (__builtin_popcountll(k) > 6) return; fbs(cx, subset(5, k, 2 * d(2)), 2, 2); });
    s.add("fbs6", "every graph on 6 vertices with exactly 5 edges in 2 orders, uncoloured, and with the colour classes {1,4},{1,2,6},{2,5}+{3,4}", 32768 * 2, [](uint64_t x, Ctx& cx) { Dec d(x); uint64_t k = d(32768); if (__builtin_popcountll(k) != 5) return; G g = subset(6, k, d(2)); static std::vector<int> const C[] = {{0, 0, 0, 0, 0, 0}, {1, 0, 0, 1, 0, 0}, {1, 1, 0, 0, 0, 1}, {0, 1, 2, 2, 1, 0}}; for (auto& c : C) { bool ok = true; for (int v = 0; v < 6; ++v) if (c[v] && !g.has(v)) ok = false; if (ok) fbs(cx, g, 0, 3, &c); } });
    s.add("fbs4full", "every sequence of distinct edges on 4 vertices, every colouring", seqsCount(4, 6), [](uint64_t x, Ctx& cx) { fbs(cx, seqs(4, 6, x), 4, 2); }); s.v.back().thorough = true;
    s.add("fbs5full", "every graph on 5 vertices with at most 8 edges in 4 orders, every colouring", 1024 * 4, [](uint64_t x, Ctx& cx) { Dec d(x); uint64_t k = d(1024); if (__builtin_popcountll(k) > 8) return; fbs(cx, subset(5, k, d(4)), 5, 2); }, 1, 600); s.v.back().thorough = true;
    s.add("fbs5seq", "every sequence of up to 5 distinct edges on 5 vertices, every colouring with up to 2 colours", seqsCount(5, 5), [](uint64_t x, Ctx& cx) { fbs(cx, seqs(5, 5, x), 2, 2); }, 0, 100); s.v.back().thorough = true;
    s.add("fbs6full", "every graph on 6 vertices with 6 or 7 edges in 4 orders, 12 colour classes", 32768 * 4, [](uint64_t x, Ctx& cx) { Dec d(x); uint64_t k = d(32768); if (__builtin_popcountll(k) < 6 || __builtin_popcountll(k) > 7) return; G g = subset(6, k, d(4)); static std::vector<int> const C[] = {{0, 0, 0, 0, 0, 0}, {1, 0, 0, 1, 0, 0}, {1, 1, 0, 0, 0, 1}, {0, 1, 2, 2, 1, 0}, {1, 2, 3, 1, 2, 3}, {1, 2, 0, 2, 0, 1}, {1, 1, 1, 2, 2, 2}, {0, 0, 1, 0, 1, 1}, {1, 1, 1, 1, 1, 1}, {1, 2, 2, 0, 3, 1}, {0, 0, 0, 0, 1, 1}, {1, 2, 3, 3, 2, 1}}; for (auto& c : C) { bool ok = true; for (int v = 0; v < 6; ++v) if (c[v] && !g.has(v)) ok = false; if (ok) fbs(cx, g, 0, 3, &c); } }); s.v.back().thorough = true;
}
