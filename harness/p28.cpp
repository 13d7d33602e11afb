// P28: the ddpaths program against brute force over all edge subsets, under every option combination.
#include "graphs.hpp"
#include "app.hpp"
#include <cerrno>
#include <climits>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <unistd.h>
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/spec/PathZdd.hpp>
#include <tdzdd/spec/PathZddByStdMap.hpp>
#include <tdzdd/spec/DegreeConstraint.hpp>
#include <tdzdd/spec/FrontierBasedSearch.hpp>
#include <tdzdd/spec/SizeConstraint.hpp>
namespace dp {
#define main appMain
#include </repo/apps/ddpaths/ddpaths.cpp>
#undef main
}
using namespace mc; using namespace graphs;
static bool isPaths(G const& g, unsigned s, std::vector<int> const& col, bool ham) {
    int deg[32] = {0}; UF uf(g.V); bool any = false;
    for (int i = 0; i < g.m(); ++i) if (s >> i & 1) { ++deg[g.e[i].first]; ++deg[g.e[i].second]; if (!uf.u(g.e[i].first, g.e[i].second)) return false; }
    for (int v = 0; v < g.V; ++v) { if (col[v]) { any = true; if (deg[v] != 1) return false; for (int u = 0; u < v; ++u) if (col[u] && (col[u] == col[v]) != (uf.f(u) == uf.f(v))) return false; } else { if (deg[v] != 0 && deg[v] != 2) return false; if (ham && deg[v] == 0 && g.has(v)) return false; } }
    return any;
}
static bool isCycle(G const& g, unsigned s, bool ham) {
    int deg[32] = {0}; UF uf(g.V); int extra = 0; if (!s) return false;
    for (int i = 0; i < g.m(); ++i) if (s >> i & 1) { ++deg[g.e[i].first]; ++deg[g.e[i].second]; if (!uf.u(g.e[i].first, g.e[i].second)) ++extra; }
    if (extra != 1) return false; int root = -1;
    for (int v = 0; v < g.V; ++v) { if (deg[v] != 0 && deg[v] != 2) return false; if (deg[v]) { if (root < 0) root = uf.f(v); else if (root != uf.f(v)) return false; } else if (ham && g.has(v)) return false; }
    return true;
}
static bool isComp(G const& g, unsigned s, std::vector<int> const& col, int uec, bool forest) {
    UF uf(g.V); int deg[16] = {0}; bool loop = false; int n = 0; bool colored[16] = {false};
    for (int i = 0; i < g.m(); ++i) if (s >> i & 1) { ++deg[g.e[i].first]; ++deg[g.e[i].second]; if (!uf.u(g.e[i].first, g.e[i].second)) loop = true; }
    for (int v = 0; v < g.V; ++v) if (col[v]) { colored[uf.f(v)] = true; for (int u = 0; u < v; ++u) if (col[u] && (col[u] == col[v]) != (uf.f(u) == uf.f(v))) return false; }
    for (int v = 0; v < g.V; ++v) if (uf.f(v) == v && !colored[v]) { bool e = false; for (int u = 0; u < g.V; ++u) if (uf.f(u) == v && deg[u]) e = true; if (e) ++n; }
    return !(forest && loop) && (uec < 0 || n == uec);
}
struct O { int type; bool ham, slow, nola, par, dc, nored; int lb, ub, uec; };   // lb/ub/uec -1: not given
static char const* TYPE[] = {"path", "cycle", "cc", "forest", ""};
static std::string adjText(G const& g, int style) {   // edges in g's order must be grouped by first endpoint, ascending
    std::string t; int v = 0; bool first = true;
    for (auto& e : g.e) { while (v < e.first) { t += "\n"; ++v; first = true; } t += (first ? style & 1 ? " " : "" : style & 1 ? "\t" : " ") + G::name(e.second); first = false; }
    if (!(style & 2)) t += "\n"; return t;
}
static std::string groupText(std::vector<int> const& col, int style) {
    int mc = 0; for (int c : col) mc = std::max(mc, c); std::string t;
    for (int c = 1; c <= mc; ++c) { bool f = true; for (size_t v = 0; v < col.size(); ++v) if (col[v] == c) { t += (f ? "" : " ") + str(v + 1); f = false; } if (c < mc || !(style & 2)) t += "\n"; }
    return t;
}
struct Tmp { std::string name; Tmp(char const* k, std::string const& text) { name = str("/tmp/mc_p28_", (long)getpid(), "_", k); std::ofstream o(name.c_str()); o << text; } ~Tmp() { unlink(name.c_str()); } };
static std::set<unsigned> bits(Fam const& f) { std::set<unsigned> r; for (unsigned s = 0; s < f.size(); ++s) if (f[s]) r.insert(s); return r; }
static Fam expected(G const& g, std::vector<int> col, O const& o, bool given) {
    int m = g.m(); Fam f(1u << m);
    if (o.type == 0 || o.type == 4) if (!given) { std::fill(col.begin(), col.end(), 0); col[0] = 1; col[g.V - 1] = 1; }
    for (unsigned s = 0; s < 1u << m; ++s) {
        int k = __builtin_popcount(s); if (o.lb >= 0 && k < o.lb) continue; if (o.ub >= 0 && k > o.ub) continue;
        f[s] = o.type == 0 || o.type == 4 ? isPaths(g, s, col, o.ham) : o.type == 1 ? isCycle(g, s, o.ham) : isComp(g, s, col, o.uec, o.type == 3);
    }
    return f;
}
// Listed findings of the specifications themselves (see P21): what the program must then report is what they accept.
static void listed(Ctx& cx, G const& g, std::vector<int> col, O const& o, bool given, Fam& want, std::set<unsigned>& ws) {
    bool path = o.type == 0 || o.type == 4; if (!path && o.type != 1) return; if (!path) std::fill(col.begin(), col.end(), 0);
    if (path && !given) { std::fill(col.begin(), col.end(), 0); col[0] = 1; col[g.V - 1] = 1; }
    bool multi = false; for (int c : col) if (c > 1) multi = true; int m = g.m(); bool slow = path && o.slow && !o.ham, win = o.ham; if (!win && !(slow && multi)) return;
    O q = o; q.ham = false; Fam loose = expected(g, col, q, true), acc(1u << m); tdzdd::Graph gr = g.make(col); tdzdd::DdStructure<2> dd;
    if (slow) { dd = tdzdd::DdStructure<2>(tdzdd::PathZddByStdMap(gr)); } else if (path) dd = tdzdd::DdStructure<2>(tdzdd::HamiltonPathZdd(gr, !o.nola)); else dd = tdzdd::DdStructure<2>(tdzdd::HamiltonCycleZdd(gr, !o.nola));
    Fam f = famOf(dd, m); for (unsigned s = 0; s < 1u << m; ++s) { int k = __builtin_popcount(s); if (o.lb >= 0 && k < o.lb) continue; if (o.ub >= 0 && k > o.ub) continue; acc[s] = f[s]; if (o.dc) for (int v = 0; v < g.V; ++v) if (g.has(v)) { int d = 0; for (int i = 0; i < m; ++i) if (s >> i & 1) d += g.e[i].first == v || g.e[i].second == v; if (col[v] ? d != 1 : d != 0 && d != 2) acc[s] = false; } }
    sameK(cx, g, acc, want, "solutions", "the specification", slow ? "stdmap-pairs" : path ? "hamilton-path" : "hamilton-cycle", [&](unsigned s, bool a) { return slow ? multi : a && loose[s] && outsideWindow(g, gr, s, !path); });
    want = acc; ws = bits(want);
}
static void check(Ctx& cx, G const& g, std::vector<int> const& col, bool given, O const& o, int style) {
    std::vector<std::string> av; if (o.type < 4) { av.push_back("-t"); av.push_back(TYPE[o.type]); }
    auto sw = [&](bool b, char const* n) { if (b) av.push_back(n); }; auto num = [&](int v, char const* n) { if (v >= 0) { av.push_back(n); av.push_back(str(v)); } };
    sw(o.ham, "-hamilton"); sw(o.slow, "-slow"); sw(o.nola, "-nola"); sw(o.par, "-p"); sw(o.dc, "-dc"); sw(o.nored, "-nored"); num(o.lb, "-lb"); num(o.ub, "-ub"); num(o.uec, "-uec"); av.push_back("-count");
    int show = style % 3; if (show == 0) av.push_back("-all"); if (show == 1) av.push_back("-zdd"); if (show == 2) av.push_back("-export");
    std::string at = adjText(g, style), gt = groupText(col, style); std::unique_ptr<Tmp> gf, tf; if (style & 4) { gf.reset(new Tmp("g", at)); av.push_back(gf->name); } else av.push_back("-"); if (given) { tf.reset(new Tmp("t", gt)); av.push_back(tf->name); }
    cx.desc = "ddpaths" + app::join(av) + "\ngraph file:\n" + at + (given ? "terminal file:\n" + gt : "");
    Fam want = expected(g, col, o, given); auto ws = bits(want); int m = g.m(); listed(cx, g, col, o, given, want, ws);
    dp::opt.clear(); dp::optNum.clear(); dp::optStr.clear(); dp::graphFileName.clear(); dp::termFileName.clear(); auto r = app::run(dp::appMain, av, gf ? "" : at); tdzdd::MessageHandler::showMessages(false); cx.op(); cx.trace();
    cx.require(r.rc == 0, "exit", [&] { return str("exit code ", r.rc, "\n", r.err); });
    size_t p = r.err.find("#solution = "); cx.require(p != std::string::npos, "report", [&] { return "no solution count reported: " + r.err; });
    cx.require(app::field(r.err, "#solution = ") == str(ws.size()), "count", [&] { return str("reports ", app::field(r.err, "#solution = "), " solutions, there are ", ws.size()); });
    cx.require(app::field(r.err, "#solution = ", p + 1) == str(ws.size()), "count", [&] { return str("-count reports ", app::field(r.err, "#solution = ", p + 1), " solutions, there are ", ws.size()); });
    cx.require(app::field(r.err, "#edge = ") == str(m), "header", [&] { return "reported edge count " + app::field(r.err, "#edge = "); });
    std::multiset<unsigned> got;
    if (show == 0) {
        std::istringstream in(r.out); std::string l; int state = 0; unsigned cur = 0; int e = 0;
        while (std::getline(in, l)) {
            if (l == "graph {") { cx.require(state == 0, "all-syntax", [&] { return r.out; }); state = 1; cur = 0; e = 0; }
            else if (l == "}") { cx.require(state == 1 && e == m, "all-syntax", [&] { return r.out; }); state = 0; got.insert(cur); }
            else if (l.find("--") != std::string::npos) { cx.require(e < m, "all-syntax", [&] { return r.out; }); auto x = g.e[e]; std::string a = str("\"", G::name(x.first), "\"--\"", G::name(x.second), "\""), b = str("\"", G::name(x.second), "\"--\"", G::name(x.first), "\""); cx.require(l.find(a) != std::string::npos || l.find(b) != std::string::npos, "all-edge", [&] { return str("edge ", e, " printed as ", l); }); if (l.find("style=bold") != std::string::npos) cur |= 1u << e; ++e; }
        }
        cx.require(state == 0, "all-syntax", [&] { return r.out; });
    } else if (show == 1) {
        if (r.out.find("digraph") == std::string::npos) cx.fail("zdd", "no diagram printed");
        auto d = dot::parse(r.out, 2); cx.require(d.title == "Result ZDD", "zdd", [&] { return "title " + d.title; });
        if (d.root.empty()) { if (!d.top.empty() && !ws.empty() && ws.size() == 1 && *ws.begin() == 0) got.insert(0); }
        else for (auto& f : app::family(d, [](std::string const& n) { return atoi(n.c_str()); })) { unsigned s = 0; for (int l : f) { cx.require(l >= 1 && l <= m, "zdd-level", [&] { return str("level ", l); }); s |= 1u << (m - l); } got.insert(s); }
    } else {
        std::istringstream in(r.out); std::string w; long ni, no, nn; in >> w >> ni; bool ok = w == "_i" && in; in >> w >> no; ok = ok && w == "_o" && no == 1; in >> w >> nn; ok = ok && w == "_n"; cx.require(ok && nn >= 0 && nn < 100000, "export-syntax", [&] { return r.out; });
        struct N { int lev; std::string c[2]; }; std::map<std::string, N> nd; for (long i = 0; i < nn; ++i) { std::string id; N n; in >> id >> n.lev >> n.c[0] >> n.c[1]; cx.require((bool)in && !nd.count(id), "export-syntax", [&] { return r.out; }); nd[id] = n; }
        std::string root; in >> root; cx.require((bool)in && !(in >> w), "export-syntax", [&] { return r.out; });
        std::function<void(std::string const&, unsigned, int)> rec = [&](std::string const& n, unsigned s, int lim) { if (n == "F") return; if (n == "T") { got.insert(s); return; } auto it = nd.find(n); cx.require(it != nd.end() && it->second.lev < lim && it->second.lev >= 1 && it->second.lev <= ni, "export-node", [&] { return "node " + n + " in\n" + r.out; }); rec(it->second.c[0], s, it->second.lev); rec(it->second.c[1], s | 1u << (m - it->second.lev), it->second.lev); }; rec(root, 0, m + 1);
    }
    std::multiset<unsigned> wm(ws.begin(), ws.end());
    if (got != wm) { for (unsigned s : got) if (!want[s]) cx.fail("solutions", "printed but no solution: " + edgesText(g, s)); for (unsigned s : wm) if (!got.count(s)) cx.fail("solutions", "not printed: " + edgesText(g, s)); cx.fail("solutions", str(got.size(), " solutions printed, expected ", wm.size())); }
    cx.outcome(mix(famHash(want), o.type));
}
static bool full(G const& g) { for (int v = 0; v < g.V; ++v) if (!g.has(v)) return false; return true; }
static void pairs(G const& g, std::vector<std::vector<int>>& out, int maxCol) {
    std::vector<int> col(g.V); std::function<void(int, int)> rec = [&](int v, int c) {
        while (v < g.V && (col[v] || !g.has(v))) ++v; if (v >= g.V) { if (c > 0) out.push_back(col); return; }
        rec(v + 1, c); if (c < maxCol) for (int u = v + 1; u < g.V; ++u) if (!col[u] && g.has(u)) { col[v] = col[u] = c + 1; rec(v + 1, c + 1); col[v] = col[u] = 0; } };
    rec(0, 0);
}
static void groups(G const& g, std::vector<std::vector<int>>& out, int maxCol) {
    std::vector<int> col(g.V); std::function<void(int, int)> rec = [&](int v, int c) { if (v == g.V) { out.push_back(col); return; } rec(v + 1, c); if (!g.has(v)) return; for (int k = 1; k <= c + 1 && k <= maxCol; ++k) { col[v] = k; rec(v + 1, std::max(c, k)); col[v] = 0; } }; rec(0, 0);
}
static O algo(int k, int type) { return O{type, (bool)(k & 1), (bool)(k & 2), (bool)(k & 4), (bool)(k & 8), (bool)(k & 16), (bool)(k & 32), -1, -1, -1}; }
static const int BND[][2] = {{-1, -1}, {0, -1}, {2, -1}, {-1, 2}, {-1, 0}, {1, 3}, {3, 3}, {3, 2}, {5, -1}, {-1, 100}};
static G graph(int V, uint64_t mask, int order) { G g = subset(V, mask, order); std::stable_sort(g.e.begin(), g.e.end(), [](std::pair<int, int> a, std::pair<int, int> b) { return a.first < b.first; }); return g; }
static void pathRun(Ctx& cx, G const& g, int k, int b, int maxCol, int st, int one = -1) {
    std::vector<std::vector<int>> cols; pairs(g, cols, maxCol); std::vector<int> none(g.V); O o = algo(k, 0); o.lb = BND[b][0]; o.ub = BND[b][1]; int n = 0; if (one >= 0 && !cols.empty()) cols = {cols[one % cols.size()]};
    for (auto& c : cols) check(cx, g, c, true, o, (st + ++n) % 12);
    if (full(g)) { check(cx, g, none, false, o, st % 12); o.type = 4; check(cx, g, none, false, o, (st + 1) % 12); }
    o.type = 1; check(cx, g, none, false, o, (st + 2) % 12); if (!cols.empty()) check(cx, g, cols.back(), true, o, (st + 5) % 12);
}
static void compRun(Ctx& cx, G const& g, int k, int b, int uec, int maxCol, int st, int one = -1) {
    std::vector<std::vector<int>> cols; groups(g, cols, maxCol); if (one >= 0) cols = {cols[one % cols.size()]}; O o = algo(k, 2); o.lb = BND[b][0]; o.ub = BND[b][1]; o.uec = uec; int n = 0;
    for (auto& c : cols) { bool any = std::count(c.begin(), c.end(), 0) < g.V; for (int t = 2; t <= 3; ++t) { o.type = t; check(cx, g, c, any, o, (st + ++n) % 12); } }
}
SCOPES(s) {
    (void)mcReg_; omprt::setThreads(2); omprt::setPolicy(1);
    s.add("path4", "every graph on 4 vertices, paths for the default terminals and one set of terminal pairs each, cycles; all 64 algorithm options x 10 size bounds", 63ull * 64 * 10, [](uint64_t x, Ctx& cx) { Dec d(x); int k = d(64), b = d(10); uint64_t mk = 1 + d(63); G g = graph(4, mk, k & 1 ? 3 : 0); pathRun(cx, g, k, b, 2, (int)(x % 97), (int)(x % 89)); });
    s.add("path4c", "every graph on 4 vertices listed from either end, every set of terminal pairs, all 64 algorithm options, size bounds rotating", 63ull * 2 * 64, [](uint64_t x, Ctx& cx) { Dec d(x); int k = d(64); G g = graph(4, 1 + d(63), 3 * d(2)); pathRun(cx, g, k, (int)(x % 73 % 10), 2, (int)(x % 97)); });
    s.add("path5", "every graph on 5 vertices with at most 7 edges, every pair and two pairs, 64 algorithm options rotating over graphs and bounds", 1023ull, [](uint64_t x, Ctx& cx) { uint64_t mk = 1 + x; if (__builtin_popcountll(mk) > 7) return; G g = graph(5, mk, 0); pathRun(cx, g, (int)(mk * 11 % 64), (int)(mk % 10), 2, (int)(x % 97)); });
    s.add("ham5", "every graph on 5 vertices, Hamiltonian cycles, with and without lookahead, degree constraints and -p", 1023ull * 8, [](uint64_t x, Ctx& cx) { Dec d(x); int k = d(8); uint64_t mk = 1 + d(1023); G g = graph(5, mk, 3 * (k & 1)); std::vector<int> none(5); O o = algo(1 | (k & 1 ? 4 : 0) | (k & 2 ? 8 : 0) | (k & 4 ? 16 : 0), 1); check(cx, g, none, false, o, (int)(x % 12)); });
    s.add("comp4", "every graph on 4 vertices, connected components and forests with every colour grouping and every number of uncoloured components, with and without -p, -nored and ineffective options, size bounds rotating", 63ull * 5 * 8, [](uint64_t x, Ctx& cx) { Dec d(x); int k = d(8) * 8, u = (int)d(5) - 1; G g = graph(4, 1 + d(63), 0); compRun(cx, g, k | (u & 7), (int)(x % 73 % 10), u, 4, (int)(x % 97)); });
    s.add("comp4o", "every graph on 4 vertices, one colour grouping each, every number of uncoloured components, all 10 size bounds, 8 option sets", 63ull * 5 * 8 * 10, [](uint64_t x, Ctx& cx) { Dec d(x); int k = d(8) * 8, b = d(10), u = (int)d(5) - 1; G g = graph(4, 1 + d(63), 3 * (b & 1)); compRun(cx, g, k | (b & 7), b, u, 4, (int)(x % 97), (int)(x % 89)); });
    s.add("comp5", "every graph on 5 vertices with at most 6 edges, one colour grouping each, options rotating", 1023ull * 4, [](uint64_t x, Ctx& cx) { Dec d(x); int q = d(4); uint64_t mk = 1 + d(1023); if (__builtin_popcountll(mk) > 6) return; G g = graph(5, mk, 0); compRun(cx, g, (int)((mk * 4 + q) * 11 % 64), (int)((mk + q) % 10), q - 1, 2, (int)(x % 97), (int)(x % 83)); });
    s.add("errors", "every graph on 4 vertices with groupings that are not pairs must be refused for paths; empty graphs, unknown options and missing files are refused", 64 * 4, [](uint64_t x, Ctx& cx) {
        Dec d(x); int v = d(4); G g = graph(4, d(64), 0); std::vector<std::vector<int>> cols; groups(g, cols, 4); auto go = [&](std::vector<std::string> const& av, std::string const& in) { dp::opt.clear(); dp::optNum.clear(); dp::optStr.clear(); dp::graphFileName.clear(); dp::termFileName.clear(); auto r = app::run(dp::appMain, av, in); tdzdd::MessageHandler::showMessages(false); cx.op(); cx.trace(); return r; };
        if (v == 0) { for (auto& c : cols) { std::map<int, int> cnt; for (int y : c) if (y) ++cnt[y]; bool pr = true; for (auto& y : cnt) if (y.second != 2) pr = false; if (cnt.empty()) continue; Tmp t("t", groupText(c, 0)); cx.desc = str("ddpaths - terminals, ", g.text(), " terminals:\n", groupText(c, 0)); auto r = go({"-count", "-", t.name}, adjText(g, 0)); cx.require((r.rc == 0) == (pr && g.m()), "accept", [&] { return str("exit code ", r.rc, ", expected ", pr ? "success" : "refusal"); }); } }
        if (v == 1) { for (char const* t : {"path", "cycle", "cc", "forest"}) { cx.desc = str("ddpaths -t ", t, " - with ", g.text()); auto r = go({"-t", t, "-"}, adjText(g, 0)); if (!g.m()) cx.require(r.rc == 1, "empty", [&] { return str("exit code ", r.rc); }); else if (full(g)) cx.require(r.rc == 0, "exit", [&] { return str("exit code ", r.rc); }); } }
        if (v == 2) { std::string at = adjText(g, 0); for (auto av : std::vector<std::vector<std::string>>{{"-x", "-"}, {"-t", "tree", "-"}, {}, {"-lb"}, {"-", "/tmp/mc_p28_none/a", "b"}, {"/tmp/mc_p28_none/a"}, {"-", "/tmp/mc_p28_none/a"}}) { cx.desc = "ddpaths" + app::join(av); auto r = go(av, at); cx.require(r.rc == 1, "refuse", [&] { return str("exit code ", r.rc, " for bad arguments"); }); } }
        if (v == 3 && g.m() && full(g)) { cx.desc = "ddpaths -graph - with " + g.text(); auto r = go({"-graph", "-t", "cc", "-"}, adjText(g, 0)); std::string w = "graph {\n"; std::vector<int> seen; std::set<std::string> lines; for (auto& e : g.e) lines.insert(str("  \"", G::name(e.first), "\"--\"", G::name(e.second), "\";")); for (int y = 0; y < 4; ++y) lines.insert(str("  \"", y + 1, "\";")); std::istringstream in(r.out); std::string l; std::multiset<std::string> got; while (std::getline(in, l)) if (l != "graph {" && l != "}") { size_t q = l.find("\"--\""); if (q == 4 && l.size() == 11 && l[3] > l[8]) std::swap(l[3], l[8]); got.insert(l); } cx.require(r.rc == 0 && got == std::multiset<std::string>(lines.begin(), lines.end()), "graph", [&] { return r.out; }); }
        cx.outcome(x); });
    s.add("comp4b", "every graph on 4 vertices listed from the far end, all groupings, all options", 63ull * 5 * 64 * 10, [](uint64_t x, Ctx& cx) { Dec d(x); int k = d(64), b = d(10), u = (int)d(5) - 1; G g = graph(4, 1 + d(63), 3); compRun(cx, g, k, b, u, 4, (int)(x % 97)); }); s.v.back().thorough = true;
    s.add("path5b", "every graph on 5 vertices with at most 8 edges, every pair and two pairs, all 64 algorithm options, bounds rotating", 1023ull * 64, [](uint64_t x, Ctx& cx) { Dec d(x); int k = d(64); uint64_t mk = 1 + d(1023); if (__builtin_popcountll(mk) > 8) return; G g = graph(5, mk, 0); pathRun(cx, g, k, (int)((mk + k) % 10), 2, (int)(x % 97)); }); s.v.back().thorough = true;
}
