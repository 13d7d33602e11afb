// P30: the graph-enumeration example program against brute force over all edge subsets, under its option combinations.
#include "graphs.hpp"
#include "app.hpp"
#include <cerrno>
#include <climits>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <memory>
#include <unistd.h>
#include <tdzdd/DdSpecOp.hpp>
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/spec/DegreeConstraint.hpp>
#include <tdzdd/spec/FrontierBasedSearch.hpp>
#include <tdzdd/spec/GraphillionZdd.hpp>
#include <tdzdd/spec/SapporoZdd.hpp>
#include <tdzdd/spec/SizeConstraint.hpp>
#include <tdzdd/eval/ToZBDD.hpp>
namespace ge {
#define main appMain
#include </repo/apps/graphillion/graphillion_example.cpp>
#undef main
}
using namespace mc; using namespace graphs;
struct Tmp { std::string name; Tmp(char const* k, std::string const& text) { name = str("/tmp/mc_p30_", (long)getpid(), "_", k); std::ofstream o(name.c_str()); o << text; } ~Tmp() { unlink(name.c_str()); } };
struct O { bool path, match, span, noloop, st, nola, adj; int uec, lb, ub; uint64_t base; int baseKind; };   // uec/lb/ub -1: not given; baseKind 0 no import
static std::string adjText(G const& g) { std::string t; int v = 0; bool first = true; for (auto& e : g.e) { while (v < e.first) { t += "\n"; ++v; first = true; } t += (first ? "" : " ") + G::name(e.second); first = false; } return t + "\n"; }
static std::string edgeText(G const& g, int style) { std::string t; for (auto& e : g.e) t += G::name(e.first) + (style & 1 ? "\t" : " ") + G::name(e.second) + "\n"; return t; }
static std::string groupText(std::vector<int> const& col) { int mc = 0; for (int c : col) mc = std::max(mc, c); std::string t; for (int c = 1; c <= mc; ++c) { bool f = true; for (size_t v = 0; v < col.size(); ++v) if (col[v] == c) { t += (f ? "" : " ") + str(v + 1); f = false; } t += "\n"; } return t; }
static bool ok(G const& g, unsigned s, std::vector<int> const& col, O const& o) {
    int k = __builtin_popcount(s); if (o.lb >= 0 && k < o.lb) return false; if (o.ub >= 0 && k > o.ub) return false;
    UF uf(g.V); int deg[16] = {0}; bool loop = false, colored[16] = {false}; int n = 0, uec = o.uec < 0 ? o.path ? 0 : -1 : o.uec;
    for (int i = 0; i < g.m(); ++i) if (s >> i & 1) { ++deg[g.e[i].first]; ++deg[g.e[i].second]; if (!uf.u(g.e[i].first, g.e[i].second)) loop = true; }
    for (int v = 0; v < g.V; ++v) if (g.has(v)) {   // the last of the three options decides
        if (o.span && !col[v]) { if (deg[v] < 1) return false; }
        else if (o.match) { if (deg[v] > 1) return false; }
        else if (o.path) { if (col[v] ? deg[v] != 1 : deg[v] != 0 && deg[v] != 2) return false; }
    }
    for (int v = 0; v < g.V; ++v) if (col[v]) { colored[uf.f(v)] = true; for (int u = 0; u < v; ++u) if (col[u] && (col[u] == col[v]) != (uf.f(u) == uf.f(v))) return false; }
    for (int v = 0; v < g.V; ++v) if (uf.f(v) == v && !colored[v]) { bool e = false; for (int u = 0; u < g.V; ++u) if (uf.f(u) == v && deg[u]) e = true; if (e) ++n; }
    return !(o.noloop && loop) && (uec < 0 || n == uec);
}
// a family in the text format of -import: item 1 on top, bit i of a member = item i + 1; shared = merge equal subfamilies
static std::string dump(std::set<unsigned> const& fam, int m, int& top) {
    std::map<std::pair<int, std::set<unsigned>>, int> id; std::vector<std::string> lines; top = 0; int last = 0;
    std::function<std::string(int, std::set<unsigned> const&)> rec = [&](int i, std::set<unsigned> const& f) -> std::string {
        if (f.empty()) return "B"; while (i < m) { bool any = false; for (unsigned s : f) if (s >> i & 1) any = true; if (any) break; ++i; }
        if (i >= m) return "T"; auto k = std::make_pair(i, f); if (id.count(k)) return str(id[k]);
        std::set<unsigned> a, b; for (unsigned s : f) if (s >> i & 1) b.insert(s & ~(1u << i)); else a.insert(s);
        std::string x = rec(i + 1, a), y = rec(i + 1, b); last = std::max(last, i + 1); int n = (int)id.size() + 1; id[k] = n; lines.push_back(str(n, " ", i + 1, " ", x, " ", y)); return str(n); };
    std::string r = rec(0, fam); std::string t; if (lines.empty()) t = r + "\n"; else for (auto& l : lines) t += l + "\n"; top = last; return t + ".\n";
}
static app::Run call(std::vector<std::string> const& av, std::string const& in, Ctx& cx) { ge::opt.clear(); ge::optNum.clear(); ge::optStr.clear(); auto r = app::run(ge::appMain, av, in); tdzdd::MessageHandler::showMessages(false); cx.op(); return r; }
// show: 0 -solutions large, 1 -solutions 1..3, 2 -zdd, 3 -export, 4 -sapporo and -count only
static void check(Ctx& cx, G const& g, std::vector<int> col, O const& o, int show, int style) {
    std::vector<std::string> av; auto sw = [&](bool b, char const* n) { if (b) av.push_back(n); }; auto num = [&](int v, char const* n) { if (v >= 0) { av.push_back(n); av.push_back(str(v)); } };
    bool given = false; for (int c : col) if (c) given = true; int m = g.m(), few = style % 4;
    sw(o.path, "-path"); sw(o.match, "-matching"); sw(o.span, "-spanning"); sw(o.noloop, "-noloop"); num(o.uec, "-uec"); num(o.lb, "-lb"); num(o.ub, "-ub"); sw(o.st, "-st"); sw(o.nola, "-nola"); sw(o.adj, "-a"); av.push_back("-count");
    if (show == 0) { av.push_back("-solutions"); av.push_back("1000000"); } if (show == 1) { av.push_back("-solutions"); av.push_back(str(few)); } if (show == 2) av.push_back("-zdd"); if (show == 3) av.push_back("-export"); if (show == 4) av.push_back("-sapporo");
    std::set<unsigned> base; std::string in; int top = 0; if (o.baseKind) { av.push_back("-import"); for (unsigned s = 0; s < 1u << m; ++s) if (o.base >> (s % 64) & 1) base.insert(s); in = dump(base, m, top); }
    std::string gt = o.adj ? adjText(g) : edgeText(g, style), tt = groupText(col); Tmp gf("g", gt); av.push_back(gf.name); std::unique_ptr<Tmp> tf; if (given) { tf.reset(new Tmp("t", tt)); av.push_back(tf->name); }
    cx.desc = "graphillion_example" + app::join(av) + "\ngraph file:\n" + gt + (given ? "group file:\n" + tt : "") + (o.baseKind ? "stdin:\n" + in : "");
    if (o.st) { tdzdd::Graph q = g.make(); std::string a = q.vertexName(1), b = q.vertexName(q.vertexSize()); col[atoi(a.c_str()) - 1] = 1; col[atoi(b.c_str()) - 1] = 1; }
    std::set<unsigned> ws; for (unsigned s = 0; s < 1u << m; ++s) if ((!o.baseKind || base.count(s)) && ok(g, s, col, o)) ws.insert(s);
    if (o.baseKind && top != m && !base.empty()) {   // listed: what the program then restricts is the family moved towards the last edge
        std::set<unsigned> moved; if (top) for (unsigned s : base) moved.insert(s << (m - top)); std::set<unsigned> w2; for (unsigned s : moved) if (ok(g, s, col, o)) w2.insert(s);
        if (w2 != ws) { cx.known(top ? "import-short" : "import-terminal", "imported family mentions only items up to " + str(top) + " of " + str(m)); ws = w2; }
    }
    auto r = call(av, in, cx); cx.trace(); cx.require(r.rc == 0, "exit", [&] { return str("exit code ", r.rc, "\n", r.err); });
    size_t p = r.err.find("#solution = "); cx.require(p != std::string::npos, "report", [&] { return "no solution count reported: " + r.err; });
    cx.require(app::field(r.err, "#solution = ") == str(ws.size()), "count", [&] { return str("reports ", app::field(r.err, "#solution = "), " solutions, there are ", ws.size()); });
    cx.require(app::field(r.err, "#solution = ", p + 1) == str(ws.size()), "count", [&] { return str("-count reports ", app::field(r.err, "#solution = ", p + 1), " solutions, there are ", ws.size()); });
    cx.require(app::field(r.err, "#edge = ") == str(m), "header", [&] { return "reported edge count " + app::field(r.err, "#edge = "); });
    std::multiset<unsigned> got;
    if (show <= 1) {
        std::istringstream is(r.out); std::string l; int state = 0, e = 0; unsigned cur = 0;
        while (std::getline(is, l)) {
            if (l == "graph {") { cx.require(state == 0, "all-syntax", [&] { return r.out; }); state = 1; cur = 0; e = 0; }
            else if (l == "}") { cx.require(state == 1 && e == m, "all-syntax", [&] { return r.out; }); state = 0; got.insert(cur); }
            else if (l.find("--") != std::string::npos) { cx.require(e < m, "all-syntax", [&] { return r.out; }); auto x = g.e[e]; std::string a = str("\"", G::name(x.first), "\"--\"", G::name(x.second), "\""), b = str("\"", G::name(x.second), "\"--\"", G::name(x.first), "\""); cx.require(l.find(a) != std::string::npos || l.find(b) != std::string::npos, "all-edge", [&] { return str("edge ", e, " printed as ", l); }); if (l.find("style=bold") != std::string::npos) cur |= 1u << e; ++e; }
        }
        cx.require(state == 0, "all-syntax", [&] { return r.out; });
    } else if (show == 2) {
        auto d = dot::parse(r.out, 2); if (d.root.empty()) { if (!d.top.empty() && ws.size() == 1 && *ws.begin() == 0) got.insert(0); }
        else for (auto& f : app::family(d, [](std::string const& n) { return atoi(n.c_str()); })) { unsigned s = 0; for (int l : f) { cx.require(l >= 1 && l <= m, "zdd-level", [&] { return str("level ", l); }); s |= 1u << (m - l); } got.insert(s); }
    } else if (show == 3) {
        std::istringstream is(r.out); std::string w; long ni, no, nn; is >> w >> ni; bool good = w == "_i" && is; is >> w >> no; good = good && w == "_o" && no == 1; is >> w >> nn; good = good && w == "_n"; cx.require(good && nn >= 0 && nn < 100000, "export-syntax", [&] { return r.out; });
        struct N { int lev; std::string c[2]; }; std::map<std::string, N> nd; for (long i = 0; i < nn; ++i) { std::string id; N n; is >> id >> n.lev >> n.c[0] >> n.c[1]; cx.require((bool)is && !nd.count(id), "export-syntax", [&] { return r.out; }); nd[id] = n; }
        std::string root; is >> root; cx.require((bool)is && !(is >> w), "export-syntax", [&] { return r.out; });
        std::function<void(std::string const&, unsigned, int)> rec = [&](std::string const& n, unsigned s, int lim) { if (n == "F") return; if (n == "T") { got.insert(s); return; } auto it = nd.find(n); cx.require(it != nd.end() && it->second.lev < lim && it->second.lev >= 1, "export-node", [&] { return "node " + n + " in\n" + r.out; }); rec(it->second.c[0], s, it->second.lev); rec(it->second.c[1], s | 1u << (m - it->second.lev), it->second.lev); }; rec(root, 0, m + 1);
    } else got.insert(ws.begin(), ws.end());
    std::multiset<unsigned> wm(ws.begin(), ws.end());
    for (unsigned s : got) { cx.require(wm.count(s) > 0, "solutions", [&] { return "printed but no solution: " + edgesText(g, s); }); cx.require(got.count(s) == 1, "solutions", [&] { return "printed twice: " + edgesText(g, s); }); }
    size_t expect = show == 1 ? std::min<size_t>(few, wm.size()) : wm.size(); if (show != 1) for (unsigned s : wm) cx.require(got.count(s) > 0, "solutions", [&] { return "not printed: " + edgesText(g, s); });
    cx.require(got.size() == expect, "solutions", [&] { return str(got.size(), " solutions printed, expected ", expect); });
    uint64_t h = m; for (unsigned s : ws) h = mix(h, s); cx.outcome(h);
}
static G graph(int V, uint64_t mask, int order) { G g = subset(V, mask, order); std::stable_sort(g.e.begin(), g.e.end(), [](std::pair<int, int> a, std::pair<int, int> b) { return a.first < b.first; }); return g; }
static void groups(G const& g, std::vector<std::vector<int>>& out, int maxCol) { std::vector<int> col(g.V); std::function<void(int, int)> rec = [&](int v, int c) { if (v == g.V) { out.push_back(col); return; } rec(v + 1, c); if (!g.has(v)) return; for (int k = 1; k <= c + 1 && k <= maxCol; ++k) { col[v] = k; rec(v + 1, std::max(c, k)); col[v] = 0; } }; rec(0, 0); }
static const int BND[][2] = {{-1, -1}, {0, -1}, {2, -1}, {-1, 2}, {-1, 0}, {1, 3}, {3, 3}, {3, 2}, {5, -1}, {-1, 100}};
static O opts(int k, int uec, int b) { return O{(bool)(k & 1), (bool)(k & 2), (bool)(k & 4), (bool)(k & 8), (bool)(k & 16), (bool)(k & 32), (bool)(k & 64), uec, BND[b][0], BND[b][1], 0, 0}; }
SCOPES(s) {
    (void)mcReg_; std::ios::sync_with_stdio(false); omprt::setThreads(2); omprt::setPolicy(1);
    s.add("opts4", "every graph on 4 vertices, one grouping each, all 128 switch settings, component counts none, 0..2, bounds and outputs rotating", 63ull * 128 * 4, [](uint64_t x, Ctx& cx) { Dec d(x); int k = d(128), u = (int)d(4) - 1; G g = graph(4, 1 + d(63), 0); std::vector<std::vector<int>> cs; groups(g, cs, 3); check(cx, g, cs[x % 89 % cs.size()], opts(k, u, (int)(x % 73 % 10)), (int)(x % 5), (int)(x % 7)); });
    s.add("groups4", "every graph on 4 vertices listed from either end, every grouping, switch settings, component counts and bounds rotating", 63ull * 2, [](uint64_t x, Ctx& cx) { Dec d(x); int o = d(2); G g = graph(4, 1 + d(63), 3 * o); std::vector<std::vector<int>> cs; groups(g, cs, 4); int n = 0; for (auto& c : cs) for (int k = 0; k < 32; ++k) { ++n; check(cx, g, c, opts(k | (int)((x + n) % 4) << 5, (int)((x + n) % 5) - 1, (int)((x + n) % 10)), n % 5, n % 7); } }, 1);
    s.add("bounds4", "every graph on 4 vertices, all ten size bounds, 16 constraint settings, component counts none, 0..2", 63ull * 10 * 16 * 4, [](uint64_t x, Ctx& cx) { Dec d(x); int b = d(10), k = d(16), u = (int)d(4) - 1; G g = graph(4, 1 + d(63), 0); std::vector<std::vector<int>> cs; groups(g, cs, 2); check(cx, g, cs[x % 61 % cs.size()], opts(k | (int)(x % 3) << 4, u, b), (int)(x % 5), (int)(x % 7)); });
    s.add("import3", "every family on the edges of every graph on 4 vertices with up to 3 edges imported, 16 constraint settings, bounds, components and groupings rotating", 41ull * 256 * 16, [](uint64_t x, Ctx& cx) { Dec d(x); int k = d(16); uint64_t fam = d(256); int q = (int)d(41); uint64_t mk = 0; for (uint64_t y = 1; y < 64; ++y) if (__builtin_popcountll(y) <= 3 && q-- == 0) { mk = y; break; } G g = graph(4, mk, 0); if (fam >> (1u << g.m()) && g.m() < 3) return; std::vector<std::vector<int>> cs; groups(g, cs, 2); O o = opts(k | (int)(x % 3) << 5, (int)(x % 7 % 4) - 1, (int)(x % 73 % 10)); o.base = fam; o.baseKind = 1; check(cx, g, x % 5 ? cs[0] : cs[x % 61 % cs.size()], o, (int)(x % 5), (int)(x % 7)); });
    s.add("import4", "every family on the 4 edges of a cycle and of a triangle with a tail imported, constraint settings rotating", 2 * 65536, [](uint64_t x, Ctx& cx) { Dec d(x); int which = d(2); G g; g.V = 4; g.e = which ? std::vector<std::pair<int, int>>{{0, 1}, {0, 2}, {1, 2}, {2, 3}} : std::vector<std::pair<int, int>>{{0, 1}, {1, 2}, {2, 3}, {0, 3}}; O o = opts((int)(x % 53 % 16), (int)(x % 7 % 3) - 1, (int)(x % 73 % 10)); o.base = d(65536); o.baseKind = 1; std::vector<int> none(4); check(cx, g, none, o, (int)(x % 5), (int)(x % 7)); });
    s.add("five", "every graph on 5 vertices with at most 7 edges, one grouping each, switch settings rotating", 1023ull * 4, [](uint64_t x, Ctx& cx) { Dec d(x); int q = d(4); uint64_t mk = 1 + d(1023); if (__builtin_popcountll(mk) > 7) return; G g = graph(5, mk, 0); std::vector<std::vector<int>> cs; groups(g, cs, 2); check(cx, g, cs[x % 89 % cs.size()], opts((int)(x * 11 % 128), q - 1, (int)(x % 73 % 10)), (int)(x % 5), (int)(x % 7)); });
    s.add("default", "the built-in graph under all constraint settings, component counts and bounds", 32 * 5 * 10, [](uint64_t x, Ctx& cx) {
        Dec d(x); int k = d(32), u = (int)d(5) - 1, b = d(10); O o = opts(k, u, b); G g; g.V = 7; g.e = {{0, 1}, {0, 2}, {0, 3}, {1, 3}, {1, 4}, {2, 3}, {2, 5}, {3, 4}, {3, 5}, {3, 6}, {4, 6}, {5, 6}}; std::vector<int> col{0, 1, 1, 0, 0, 0, 0}; if (o.st) col[0] = col[6] = 1;
        std::vector<std::string> av; auto sw = [&](bool y, char const* n) { if (y) av.push_back(n); }; auto num = [&](int v, char const* n) { if (v >= 0) { av.push_back(n); av.push_back(str(v)); } }; sw(o.path, "-path"); sw(o.match, "-matching"); sw(o.span, "-spanning"); sw(o.noloop, "-noloop"); sw(o.st, "-st"); num(o.uec, "-uec"); num(o.lb, "-lb"); num(o.ub, "-ub"); cx.desc = "graphillion_example" + app::join(av);
        size_t w = 0; for (unsigned y = 0; y < 4096; ++y) w += ok(g, y, col, o); auto r = call(av, "", cx); cx.trace(); cx.require(r.rc == 0 && app::field(r.err, "#solution = ") == str(w), "count", [&] { return str("reports ", app::field(r.err, "#solution = "), " solutions, there are ", w); }); cx.outcome(w); });
    s.add("errors", "empty graphs, unknown options, missing files and surplus arguments are refused; -graph prints the graph only", 64 * 6, [](uint64_t x, Ctx& cx) {
        Dec d(x); int v = d(6); G g = graph(4, d(64), 0); Tmp gf("g", edgeText(g, 0)); std::vector<std::string> av; bool good = false;
        switch (v) { case 0: av = {gf.name}; good = g.m() > 0; break; case 1: av = {"-zzz", gf.name}; break; case 2: av = {"/tmp/mc_p30_none/x"}; break; case 3: av = {gf.name, "/tmp/mc_p30_none/x"}; break; case 4: av = {gf.name, gf.name, gf.name}; break; default: av = {"-graph", gf.name}; good = g.m() > 0; }
        cx.desc = "graphillion_example" + app::join(av) + " with " + g.text(); auto r = call(av, "", cx); cx.trace(); cx.require(r.rc == (good ? 0 : 1), "refuse", [&] { return str("exit code ", r.rc); });
        if (v == 5 && good) { std::multiset<std::string> want, got; for (auto& e : g.e) want.insert(str("  \"", G::name(e.first), "\"--\"", G::name(e.second), "\";")); for (int y = 0; y < 4; ++y) if (g.has(y)) want.insert(str("  \"", y + 1, "\";")); std::istringstream is(r.out); std::string l; while (std::getline(is, l)) if (l != "graph {" && l != "}") { size_t q = l.find("\"--\""); if (q == 4 && l.size() == 11 && l[3] > l[8]) std::swap(l[3], l[8]); got.insert(l); } cx.require(got == want, "graph", [&] { return r.out; }); }
        cx.outcome(x); });
    s.addT("T-opts4", "every graph on 4 vertices listed from either end, every grouping, all 128 switch settings, component counts none, 0..3, bounds rotating", 63ull * 2 * 128, [](uint64_t x, Ctx& cx) { Dec d(x); int k = d(128), o = d(2); G g = graph(4, 1 + d(63), 3 * o); std::vector<std::vector<int>> cs; groups(g, cs, 4); int n = 0; for (auto& c : cs) for (int u = -1; u < 4; ++u) { ++n; check(cx, g, c, opts(k, u, (int)((x + n) % 10)), n % 5, n % 7); } });
    s.addT("T-five", "every graph on 5 vertices with at most 8 edges, every grouping into two, switch settings rotating", 1023ull, [](uint64_t x, Ctx& cx) { uint64_t mk = 1 + x; if (__builtin_popcountll(mk) > 8) return; G g = graph(5, mk, 0); std::vector<std::vector<int>> cs; groups(g, cs, 2); int n = 0; for (auto& c : cs) { ++n; check(cx, g, c, opts((int)((x + n) * 11 % 128), (int)((x + n) % 5) - 1, (int)((x + n) % 10)), n % 5, n % 7); } });
}
