// Small-graph enumeration shared by the graph harnesses, and brute-force helpers over edge subsets.
#pragma once
#include "model.hpp"
#include <tdzdd/util/MessageHandler.hpp>
#include <tdzdd/util/Graph.hpp>
namespace graphs {
using namespace mc;
struct G {                       // simple graph given as an edge sequence over vertices 0..V-1
    int V = 0; std::vector<std::pair<int, int>> e;
    int m() const { return (int)e.size(); }
    std::string text() const { std::string s = "edges"; for (auto& x : e) s += str(" ", name(x.first), "-", name(x.second)); return s; }
    static std::string name(int v) { return str(v + 1); }
    tdzdd::Graph make(std::vector<int> const& color = std::vector<int>()) const {   // color 0: none
        tdzdd::Graph g; for (auto& x : e) g.addEdge(name(x.first), name(x.second));
        for (size_t v = 0; v < color.size(); ++v) if (color[v]) g.setColor(name((int)v), str("c", color[v]));
        g.update(); return g;
    }
    bool has(int v) const { for (auto& x : e) if (x.first == v || x.second == v) return true; return false; }
};
inline std::vector<std::pair<int, int>> allPairs(int V) { std::vector<std::pair<int, int>> p; for (int a = 0; a < V; ++a) for (int b = a + 1; b < V; ++b) p.push_back({a, b}); return p; }
// ordered sequences of k distinct edges of K_V
inline uint64_t seqCount(int V, int k) { uint64_t n = V * (V - 1) / 2, r = 1; for (int i = 0; i < k; ++i) r *= n - i; return r; }
inline G seq(int V, int k, uint64_t x) { G g; g.V = V; auto p = allPairs(V); for (int i = 0; i < k; ++i) { int j = x % p.size(); x /= p.size(); g.e.push_back(p[j]); p.erase(p.begin() + j); } return g; }
// all sequences of up to kmax edges
inline uint64_t seqsCount(int V, int kmax) { uint64_t r = 0; for (int k = 0; k <= kmax; ++k) r += seqCount(V, k); return r; }
inline G seqs(int V, int kmax, uint64_t x) { for (int k = 0; k <= kmax; ++k) { uint64_t c = seqCount(V, k); if (x < c) return seq(V, k, x); x -= c; } return G(); }
// edge subset of K_V in one of several fixed orders: 0 lexicographic, 1 reverse, 2 interleaved, 3 endpoints swapped
inline G subset(int V, uint64_t mask, int order = 0) {
    G g; g.V = V; auto p = allPairs(V); std::vector<std::pair<int, int>> q;
    for (size_t i = 0; i < p.size(); ++i) if (mask >> i & 1) q.push_back(p[i]);
    if (order == 1) std::reverse(q.begin(), q.end());
    if (order == 2) { std::vector<std::pair<int, int>> r; for (size_t i = 0; i < q.size(); i += 2) r.push_back(q[i]); for (size_t i = 1; i < q.size(); i += 2) r.push_back(q[i]); q = r; }
    if (order == 3) for (auto& x : q) std::swap(x.first, x.second);
    g.e = q; return g;
}
inline G grid(int r, int c) { G g; g.V = r * c; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { if (j + 1 < c) g.e.push_back({i * c + j, i * c + j + 1}); if (i + 1 < r) g.e.push_back({i * c + j, (i + 1) * c + j}); } return g; }
typedef std::vector<bool> Fam;   // indexed by edge subset; bit i = edge i (edge i sits at level m - i)
template<typename DD> Fam famOf(DD const& dd, int m) {
    Fam f(1u << m);
    std::function<void(tdzdd::NodeId, unsigned)> rec = [&](tdzdd::NodeId p, unsigned s) {
        if (p == 0) return; if (p == 1) { f[s] = true; return; }
        if (p.row() > m) throw Fail("level", str("node at level ", p.row(), " of ", m));
        rec(dd.child(p, 0), s); rec(dd.child(p, 1), s | 1u << (m - p.row()));
    };
    rec(dd.root(), 0); return f;
}
inline std::string edgesText(G const& g, unsigned s) { std::string r = "{"; for (int i = 0; i < g.m(); ++i) if (s >> i & 1) r += str(" ", G::name(g.e[i].first), "-", G::name(g.e[i].second)); return r + " }"; }
inline void same(Ctx& cx, G const& g, Fam const& got, Fam const& want, char const* sig, std::string const& what) {
    if (got == want) return;
    for (size_t s = 0; s < want.size(); ++s) if (got[s] != want[s]) cx.fail(sig, str(what, got[s] ? " wrongly accepts " : " wrongly rejects ", edgesText(g, s)));
}
// the same with listed findings: mismatches for which pred(s) holds are the listed finding `key`, all others are failures
template<typename P> void sameK(Ctx& cx, G const& g, Fam const& got, Fam const& want, char const* sig, std::string const& what, char const* key, P const& pred) {
    if (got == want) return; bool hit = false;
    for (size_t s = 0; s < want.size(); ++s) if (got[s] != want[s]) {
        std::string msg = str(what, got[s] ? " wrongly accepts " : " wrongly rejects ", edgesText(g, s));
        if (!pred((unsigned)s, (bool)got[s])) cx.fail(sig, msg);
        if (!hit) { hit = true; cx.known(key, msg); }
    }
}
// SimpathBasedImpl<..., hamilton> does not look at vertices that have not entered the frontier window when the last selected
// edge closes the solution, nor (cycles) at the first vertex of the window: is that why the non-Hamiltonian solution s is accepted?
inline bool outsideWindow(G const& g, tdzdd::Graph const& gr, uint64_t s, bool cycle) {
    if (!s) return false; int i = 63 - __builtin_clzll(s), v0 = gr.edgeInfo(i).v0, w = gr.maxFrontierSize(); std::set<std::string> cov;
    for (int k = 0; k < g.m(); ++k) if (s >> k & 1) { cov.insert(G::name(g.e[k].first)); cov.insert(G::name(g.e[k].second)); }
    for (int v = 1; v <= gr.vertexSize(); ++v) if (!cov.count(gr.vertexName(v)) && v < v0 + w && !(cycle && v == v0)) return false;
    return true;
}
struct UF { std::vector<int> p; explicit UF(int n) : p(n) { for (int i = 0; i < n; ++i) p[i] = i; } int f(int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; } bool u(int a, int b) { a = f(a); b = f(b); if (a == b) return false; p[a] = b; return true; } };
inline uint64_t famHash(Fam const& f) { uint64_t h = f.size(); for (size_t i = 0; i < f.size(); ++i) if (f[i]) h = mix(h, i); return h; }
}
