// P23: Graph building, reading, numbering and frontier tables against an independent reference.
#include "graphs.hpp"
#include <cctype>
#include <fstream>
#include <unistd.h>
using namespace mc; using namespace tdzdd; using graphs::G;
typedef std::pair<std::string, std::string> NP;
struct Ref { std::vector<NP> given; std::map<std::string, std::string> color;   // name -> group id
    std::vector<NP> edges() const { std::vector<NP> r; std::set<NP> seen; for (auto& e : given) { if (seen.count(e)) continue; seen.insert(e); seen.insert(NP(e.second, e.first)); r.push_back(e); } return r; } };
template<typename F> static bool throws(F const& f) { try { f(); } catch (std::runtime_error const&) { return true; } return false; }
static void check(Ctx& cx, Graph const& g, Ref const& r, char const* when) {
    auto E = r.edges(); std::set<std::string> names; for (auto& e : E) { names.insert(e.first); names.insert(e.second); } int V = names.size(), M = E.size(); cx.op();
    auto bad = [&](char const* sig, std::string const& m) { cx.fail(sig, str(m, " (", when, ")")); };
    if (g.edgeSize() != M) bad("edges", str("edgeSize ", g.edgeSize(), " expected ", M)); if (g.vertexSize() != V) bad("vertices", str("vertexSize ", g.vertexSize(), " expected ", V));
    std::map<std::string, int> num; std::set<int> used; for (auto& n : names) { int v = g.getVertex(n); if (v < 1 || v > V || !used.insert(v).second) bad("vertex-number", str("vertex ", n, " has number ", v)); if (g.vertexName(v) != n || g.vertexLabel(v) != n) bad("vertex-name", str("vertexName(", v, ") is ", g.vertexName(v), " expected ", n)); num[n] = v; }
    if (g.vertexName(0) != "?" || g.vertexName(V + 1) != "?" || g.edgeName(-1) != NP("?", "?") || g.edgeName(M) != NP("?", "?")) bad("range", "out-of-range names");
    if (!throws([&] { g.getVertex("nobody"); }) || !throws([&] { g.getEdge("nobody", "none"); })) bad("missing", "unknown names are not reported");
    std::vector<int> last(V + 1, -1), second(V + 1, -1); std::vector<std::pair<int, int>> ev; for (int a = 0; a < M; ++a) { int v1 = num[E[a].first], v2 = num[E[a].second]; if (v1 > v2) std::swap(v1, v2); ev.push_back({v1, v2}); for (int v : {v1, v2}) { second[v] = last[v]; last[v] = a; } }
    for (int v = 1; v < V; ++v) if (last[v] > last[v + 1]) bad("leaving-order", str("vertex ", v, " leaves after vertex ", v + 1));
    std::map<std::string, std::set<int>> groups; for (auto& c : r.color) groups[c.second].insert(num[c.first]); std::map<int, int> cn; int nextc = 0; std::map<int, std::string> vg; for (auto& q : groups) for (int v : q.second) vg[v] = q.first; std::map<std::string, int> gn; for (int v = 1; v <= V; ++v) if (vg.count(v)) { if (!gn.count(vg[v])) gn[vg[v]] = ++nextc; cn[v] = gn[vg[v]]; }
    if (g.numColor() != (int)groups.size()) bad("colors", str("numColor ", g.numColor(), " expected ", groups.size())); bool pairs = !groups.empty(); for (auto& q : groups) if (q.second.size() != 2) pairs = false; if (g.hasColorPairs() != pairs) bad("pairs", str("hasColorPairs should be ", pairs));
    for (int v = 0; v <= V + 1; ++v) { int c = cn.count(v) ? cn[v] : 0, mate = 0; if (c && groups[vg[v]].size() == 2) for (int u : groups[vg[v]]) if (u != v) mate = u; if (g.colorNumber(v) != c) bad("color", str("colorNumber(", v, ") is ", g.colorNumber(v), " expected ", c)); if (g.virtualMate(v) != mate) bad("mate", str("virtualMate(", v, ") is ", g.virtualMate(v), " expected ", mate)); }
    int fs = 0; std::set<int> touched;
    for (int a = 0; a < M; ++a) {
        auto const& e = g.edgeInfo(a); int v1 = ev[a].first, v2 = ev[a].second, v0 = 1; while (last[v0] < a) ++v0; fs = std::max(fs, v2 - v0 + 1); for (int v : {v1, v2}) if (cn.count(v)) touched.insert(cn[v]);
        if (e.v1 != v1 || e.v2 != v2) bad("edge", str("edge ", a, " joins ", e.v1, ",", e.v2, " expected ", v1, ",", v2)); if (e.v0 != v0) bad("v0", str("edge ", a, ": first active vertex ", e.v0, " expected ", v0));
        if (e.v1final != (last[v1] == a) || e.v2final != (last[v2] == a)) bad("final", str("edge ", a, ": wrong last-use flags")); if (e.v1final2 != (second[v1] == a) || e.v2final2 != (second[v2] == a)) bad("final2", str("edge ", a, ": wrong second-last-use flags"));
        if (e.finalEdge != (a == M - 1)) bad("final-edge", str("edge ", a, ": wrong final-edge flag")); if (e.allColorsSeen != (touched.size() == groups.size())) bad("colors-seen", str("edge ", a, ": all colours seen should be ", touched.size() == groups.size()));
        if (g.edgeName(a) != E[a]) bad("edge-name", str("edge ", a, " is named ", g.edgeName(a).first, ",", g.edgeName(a).second)); if (g.edgeLabel(a) != E[a].first + "," + E[a].second) bad("edge-label", "edge label");
        if (g.getEdge(E[a].first, E[a].second) != a || g.getEdge(E[a].second, E[a].first) != a || g.getEdge(v1, v2) != a || g.getEdge(v2, v1) != a || g.getEdge(E[a]) != a) bad("edge-number", str("edge ", a, " is not found by its ends"));
    }
    for (int u = 1; u <= V; ++u) for (int v = u + 1; v <= V; ++v) { bool is = false; for (auto& x : ev) if (x.first == u && x.second == v) is = true; if (!is && !throws([&] { g.getEdge(u, v); })) bad("no-edge", "a missing edge was found"); }
    if (g.maxFrontierSize() != fs) bad("frontier", str("maxFrontierSize ", g.maxFrontierSize(), " expected ", fs));
    // DOT text: every vertex and edge once
    std::ostringstream o; o << g; std::istringstream is(o.str()); std::string l; std::multiset<std::string> lines; std::getline(is, l); if (l != "graph {") bad("dump", "first line"); while (std::getline(is, l)) { size_t p = l.find_first_not_of(" "); lines.insert(l.substr(p)); }
    std::multiset<std::string> want{"}"}; for (int a = 0; a < M; ++a) { auto const& e = g.edgeInfo(a); want.insert("\"" + g.vertexName(e.v1) + "\"--\"" + g.vertexName(e.v2) + "\";"); }
    size_t colored = 0; for (auto& n : names) if (!r.color.count(n)) want.insert("\"" + n + "\";"); else ++colored; size_t found = 0; std::map<std::string, std::string> shade; for (auto it = lines.begin(); it != lines.end();) { if (it->find("[color=") != std::string::npos) { shade[it->substr(0, it->find('['))] = it->substr(it->find('[')); ++found; it = lines.erase(it); } else ++it; }
    if (lines != want || found != colored || shade.size() != colored) bad("dump", str("DOT text ", o.str())); for (auto& c : r.color) for (auto& d : r.color) if ((c.second == d.second) != (shade["\"" + c.first + "\""] == shade["\"" + d.first + "\""])) bad("dump", "colour text");
    { std::ostringstream q; g.dump(q, [](int a) { return str("[deco=", a, "]"); }); std::istringstream i1(o.str()), i2(q.str()); std::string a, b; int k = 0; while (std::getline(i1, a)) { if (!std::getline(i2, b)) bad("decorated", "a line is missing"); if (a.find("--") != std::string::npos) { size_t p = a.rfind(';'); if (b != a.substr(0, p) + str("[deco=", k++, "]") + a.substr(p)) bad("decorated", "edge line " + b); } else if (a != b) bad("decorated", "line " + b); } if (std::getline(i2, b)) bad("decorated", "extra line " + b); if (k != M) bad("decorated", "edges missing"); }
    cx.outcome(mix(hashStr(o.str()), fs));
}
static std::string const NAMES[] = {"b", "10", "a", "2", "zz"};
static Graph make(Ref const& r) { Graph g; for (auto& e : r.given) g.addEdge(e.first, e.second); for (auto& c : r.color) g.setColor(c.first, c.second); g.update(); return g; }
static std::vector<std::vector<int>> const& grow(int V) { static std::map<int, std::vector<std::vector<int>>> memo; auto& out = memo[V]; if (out.empty()) { std::vector<int> c(V); std::function<void(int, int)> rec = [&](int v, int k) { if (v == V) { out.push_back(c); return; } for (int x = 0; x <= k + 1; ++x) { c[v] = x; rec(v + 1, std::max(k, x)); } c[v] = 0; }; rec(0, 0); } return out; }
static std::string text(Ref const& r) { std::string s; for (auto& e : r.given) s += e.first + "-" + e.second + " "; for (auto& c : r.color) s += "[" + c.first + ":" + c.second + "]"; return s; }
struct Cin { std::streambuf* old; std::istringstream is; Cin(std::string const& t) : is(t) { old = std::cin.rdbuf(is.rdbuf()); std::cin.clear(); } ~Cin() { std::cin.rdbuf(old); std::cin.clear(); } };
static void viaFile(std::string const& t, std::function<void(std::string const&)> const& f) { std::string p = str("/tmp/mc_p23_", getpid(), ".txt"); { std::ofstream o(p, std::ios::binary); o << t; } try { f(p); } catch (...) { unlink(p.c_str()); throw; } unlink(p.c_str()); }
static void ops(Ctx& cx, uint64_t x, int depth) {   // histories of additions, colourings and updates on one object
    Dec d(x); Graph g; Ref r; cx.desc = "Graph:"; static NP const PE[] = {{"1", "2"}, {"2", "3"}, {"3", "1"}, {"2", "1"}};
    for (int k = 0; k < depth; ++k) { int o = d(13);
        if (o < 4) { cx.desc += str(" addEdge(", PE[o].first, ",", PE[o].second, ")"); g.addEdge(PE[o].first, PE[o].second); r.given.push_back(PE[o]); continue; }
        if (o < 8) { std::string v = str(o - 4 < 3 ? o - 3 : 1), c = o == 7 ? "y" : "x"; cx.desc += str(" setColor(", v, ",", c, ")"); g.setColor(v, c); r.color[v] = c; continue; }
        auto E = r.edges(); std::set<std::string> names; for (auto& e : E) { names.insert(e.first); names.insert(e.second); } auto known = [&](std::map<std::string, std::string> const& c) { for (auto& q : c) if (!names.count(q.first)) return false; return true; };
        bool expect = true; std::string t; 
        if (o == 8) { t = " update"; cx.desc += t; expect = known(r.color); bool ok = !throws([&] { g.update(); }); cx.check(ok == expect, "update", str("update should ", expect ? "succeed" : "report an unknown vertex")); }
        else if (o == 9) { if (!known(r.color)) continue; t = " update clearColors"; cx.desc += t; g.update(); g.clearColors(); r.color.clear(); }
        else if (o == 10) { t = " setDefaultPathColor"; cx.desc += t; if (!known(r.color)) continue; g.update(); int V = names.size(); std::map<std::string, std::string> c; c["1"] = "d"; c[str(V)] = "d"; expect = known(c) && V > 0; bool ok = !throws([&] { g.setDefaultPathColor(); }); cx.check(ok == expect, "default-color", "setDefaultPathColor outcome"); r.color = c; }
        else if (o == 11) { t = " readVertexGroups(1 3/2)"; cx.desc += t; std::map<std::string, std::string> c{{"1", "g0"}, {"3", "g0"}, {"2", "g1"}}; expect = known(c); Cin in("1 3\n2\n"); bool ok = !throws([&] { g.readVertexGroups(""); }); cx.check(ok == expect, "groups", "readVertexGroups outcome"); r.color = c; }
        else { t = " readAdjacencyList(2/3)"; cx.desc += t; Cin in("2\n3\n"); g.readAdjacencyList(""); r.given = {{"1", "2"}, {"2", "3"}}; r.color.clear(); }
        if (expect) check(cx, g, r, t.c_str());
    }
    cx.trace(); cx.maxdepth = std::max<uint64_t>(cx.maxdepth, depth);
}
SCOPES(s) {
    (void)mcReg_;
    s.add("fresh", "a new graph and a graph updated without edges", 1, [](uint64_t, Ctx& cx) { cx.desc = "Graph()"; for (int i = 0; i < 4; ++i) { char junk[4096]; memset(junk, 0x5a + i, sizeof junk); asm volatile("" ::"r"(junk) : "memory"); std::unique_ptr<Graph> p; { void* q = malloc(sizeof(Graph)); memset(q, 0x77, sizeof(Graph)); free(q); p.reset(new Graph); } cx.check(p->vertexSize() == 0 && p->edgeSize() == 0 && p->numColor() == 0 && !p->hasColorPairs() && p->maxFrontierSize() == 0 && p->colorNumber(1) == 0, "fresh", "a new graph is not empty"); p->update(); check(cx, *p, Ref(), "update without edges"); } cx.trace(); });
    for (int k = 1; k <= 5; ++k) { uint64_t n = 1; for (int i = 0; i < k; ++i) n *= 12; s.add(str("edges", k), str("all sequences of ", k, " edges over 4 names, duplicates and reversals included"), n, [=](uint64_t x, Ctx& cx) { Dec d(x); Ref r; for (int i = 0; i < k; ++i) { int p = d(12), a = p / 3, b = p % 3; if (b >= a) ++b; r.given.push_back(NP(NAMES[a], NAMES[b])); } cx.desc = text(r); Graph g = make(r); check(cx, g, r, "update"); g.update(); check(cx, g, r, "second update"); Graph h(g); check(cx, h, r, "copy"); cx.trace(); }); s.v.back().thorough = k > 5; }
    s.add("colors", "every sequence of distinct edges on 4 vertices (both orientations), every colouring", graphs::seqsCount(4, 6) * 52 * 2, [](uint64_t x, Ctx& cx) { Dec d(x); auto& col = grow(4)[d(52)]; bool sw = d(2); G q = graphs::seqs(4, 6, d.x); Ref r; for (auto& e : q.e) r.given.push_back(sw ? NP(NAMES[e.second], NAMES[e.first]) : NP(NAMES[e.first], NAMES[e.second])); for (int v = 0; v < 4; ++v) if (col[v]) { if (!q.has(v)) { Graph g; for (auto& e : r.given) g.addEdge(e.first, e.second); g.setColor(NAMES[v], "x"); cx.desc = text(r); cx.check(throws([&] { g.update(); }), "unknown", "colouring an unknown vertex is not reported"); return; } r.color[NAMES[v]] = str("k", 9 - col[v]); } cx.desc = text(r); Graph g = make(r); check(cx, g, r, "update"); g.clearColors(); r.color.clear(); check(cx, g, r, "clearColors"); cx.trace(); });
    s.add("colors5", "every graph on 5 vertices in 2 orders, every colouring", 1024 * 2 * 203, [](uint64_t x, Ctx& cx) { Dec d(x); auto& col = grow(5)[d(203)]; G q = graphs::subset(5, d(1024), d(2)); Ref r; for (auto& e : q.e) r.given.push_back(NP(NAMES[e.first], NAMES[e.second])); for (int v = 0; v < 5; ++v) if (col[v]) { if (!q.has(v)) return; r.color[NAMES[v]] = str("k", 9 - col[v]); } cx.desc = text(r); Graph g = make(r); check(cx, g, r, "update"); cx.trace(); }); s.v.back().thorough = true;
    for (int k = 1; k <= 4; ++k) { uint64_t n = 1; for (int i = 0; i < k; ++i) n *= 13; s.add(str("history", k), str("all histories of ", k, " operations (add edge, set colour, update, clear colours, default colours, read groups, read adjacency list) on one graph"), n, [=](uint64_t x, Ctx& cx) { ops(cx, x, k); }); }
    s.add("history5", "all histories of 5 operations on one graph", 371293, [](uint64_t x, Ctx& cx) { ops(cx, x, 5); }); s.v.back().thorough = true;
    s.add("limits", "paths and stars with 65530..65540 vertices: rejected with an exception, or numbered and tabulated correctly; an object that rejected one accepts a small graph afterwards", 11 * 2, [](uint64_t x, Ctx& cx) {
        int V = 65530 + x / 2; bool star = x % 2; cx.desc = str(star ? "star" : "path", " with ", V, " vertices"); Graph g; for (int v = 1; v < V; ++v) g.addEdge(star ? str("c") : str(v), str(v + 1)); bool ok = !throws([&] { g.update(); }); cx.op(); cx.check(ok || V >= Graph::MAX_VERTICES, "limit", "a graph within the documented limit is rejected");
        if (ok) { int n = star ? V : V; cx.check(g.vertexSize() == n && g.edgeSize() == V - 1, "limit", str("vertexSize ", g.vertexSize(), " edgeSize ", g.edgeSize())); for (int a = 0; a < V - 1; ++a) { auto const& e = g.edgeInfo(a); int p = g.getVertex(star ? str("c") : str(a + 1)), q = g.getVertex(str(a + 2)); if (p > q) std::swap(p, q); if (p < 1 || q > n || e.v1 != p || e.v2 != q || g.getEdge(p, q) != a) cx.fail("limit", str("edge ", a, " is tabulated as ", e.v1, ",", e.v2, " expected ", p, ",", q)); bool f1 = star ? a == V - 2 : a + 1 == e.v1; (void)f1; } cx.check(g.maxFrontierSize() == 2 || star, "limit", str("frontier ", g.maxFrontierSize())); }
        else { Cin in("2\n3\n"); g.readAdjacencyList(""); Ref r; r.given = {{"1", "2"}, {"2", "3"}}; check(cx, g, r, "after a rejected graph"); } cx.trace(); cx.outcome(mix(V, ok)); });
    // readers
    s.add("read-edges", "edge files: all sequences of up to 3 lines over 4 names, 4 layouts, with and without a final line end, from a file and from standard input", (1 + 12 + 144 + 1728) * 8 * 2, [](uint64_t x, Ctx& cx) {
        Dec d(x); int lay = d(4), fin = d(2), file = d(2); uint64_t y = d.x; int k = y < 1 ? 0 : y < 13 ? 1 : y < 157 ? 2 : 3; Dec e(k == 0 ? 0 : k == 1 ? y - 1 : k == 2 ? y - 13 : y - 157); Ref r; std::string t;
        for (int i = 0; i < k; ++i) { int p = e(12), a = p / 3, b = p % 3; if (b >= a) ++b; r.given.push_back(NP(NAMES[a], NAMES[b])); t += (lay == 1 ? "  " : lay == 3 ? "\n" : "") + NAMES[a] + (lay == 1 ? "\t " : " ") + NAMES[b] + (lay == 1 ? " " : lay == 2 ? "\r" : ""); if (i + 1 < k || fin) t += "\n"; }
        cx.desc = str("edge text ", t, file ? " in a file" : " on standard input"); Graph g; auto rd = [&](std::string const& f) { g.readEdges(f); }; try { if (file) viaFile(t, rd); else { Cin in(t); rd(""); } } catch (std::runtime_error const& ex) { cx.fail("read", str("reading failed: ", ex.what())); } check(cx, g, r, "readEdges"); cx.trace(); });
    s.add("read-bad", "malformed edge files: one or three names on a line, alone or after/before a good line, with and without a final line end; missing files", 2 * 3 * 2, [](uint64_t x, Ctx& cx) { Dec d(x); std::string bad = d(2) ? "a" : "a b c"; int pos = d(3), fin = d(2); std::string t = pos == 0 ? bad : pos == 1 ? "x y\n" + bad : bad + "\nx y"; if (fin) t += "\n"; cx.desc = "edge text " + t; Graph g; Cin in(t); cx.check(throws([&] { g.readEdges(""); }), "read-bad", "a malformed line is not reported"); Graph h; cx.check(throws([&] { h.readEdges("/nonexistent/f"); }) && throws([&] { h.readAdjacencyList("/nonexistent/f"); }) && throws([&] { h.readVertexGroups("/nonexistent/f"); }), "read-missing", "a missing file is not reported"); cx.op(4); cx.trace(); cx.outcome(x); });
    s.add("read-bad-numbers", "adjacency lists and vertex groups of up to 3 tokens from {1, 2, 3, x, 3x, 2.5, 65535, 70000, 99999999999}, on one or several lines: taken as given or rejected with an exception, never altered or cut off", 2 * 9 * 9 * 9 * 4, [](uint64_t x, Ctx& cx) {
        static char const* TOK[] = {"2", "3", "1", "x", "3x", "2.5", "65535", "70000", "99999999999"}; Dec d(x); bool grp = d(2); int sep = d(4); std::string tok[3], t; for (int i = 0; i < 3; ++i) { tok[i] = TOK[d(9)]; t += tok[i]; if (i < 2) t += sep >> i & 1 ? "\n" : " "; } t += "\n"; Ref r; Graph g; int line = 1, num[3]; for (int i = 0; i < 3; ++i) { num[i] = line; if (i < 2 && (sep >> i & 1)) ++line; } cx.desc = str(grp ? "group" : "adjacency", " text ", t); cx.op(); cx.trace();
        if (!grp) { for (int i = 0; i < 3; ++i) { if (str(num[i]) == tok[i]) return; r.given.push_back(NP(str(num[i]), tok[i])); } Cin in(t); if (throws([&] { g.readAdjacencyList(""); })) { bool plain = true; for (auto& k : tok) plain &= k.size() == 1 && isdigit((unsigned char)k[0]); cx.check(!plain, "read", "a good list is rejected"); cx.outcome(x); return; } check(cx, g, r, "readAdjacencyList"); }
        else { for (char const* v : {"1", "2", "3", "65535"}) { g.addEdge("0", v); r.given.push_back(NP("0", v)); } g.update(); std::map<std::string, int> in1; bool known = true; for (int i = 0; i < 3; ++i) { if (in1.count(tok[i]) && in1[tok[i]] != num[i]) return; in1[tok[i]] = num[i]; r.color[tok[i]] = str(num[i]); known &= tok[i].size() == 1 ? isdigit((unsigned char)tok[i][0]) != 0 : tok[i] == "65535"; } Cin in(t); bool thrown = throws([&] { g.readVertexGroups(""); }); cx.require(thrown == !known, "read", [&] { return known ? std::string("good groups are rejected") : std::string("an unknown or malformed vertex in a group is not reported"); }); if (!thrown) check(cx, g, r, "readVertexGroups"); } cx.outcome(x); });
    s.add("read-adj", "adjacency lists: every neighbour subset per line for 4 vertices, both orders, 3 endings, 2 separators, file and standard input", 4096 * 2 * 3 * 2 * 2, [](uint64_t x, Ctx& cx) {
        Dec d(x); int rev = d(2), fin = d(3), sep = d(2), file = d(2); Ref r; std::string t; for (int v = 0; v < 4; ++v) { int mk = d(8); std::vector<int> ns; for (int b = 0, u = 0; u < 4; ++u) if (u != v) { if (mk >> b & 1) ns.push_back(u); ++b; } if (rev) std::reverse(ns.begin(), ns.end()); for (size_t i = 0; i < ns.size(); ++i) { t += (i || sep ? sep ? "\t " : " " : "") + str(ns[i] + 1); r.given.push_back(NP(str(v + 1), str(ns[i] + 1))); } if (v < 3 || fin) t += sep ? " \n" : "\n"; } if (fin == 2) t += "\n";
        cx.desc = str("adjacency text ", t); Graph g; g.addEdge("old", "older"); auto rd = [&](std::string const& f) { g.readAdjacencyList(f); }; try { if (file) viaFile(t, rd); else { Cin in(t); rd(""); } } catch (std::runtime_error const& ex) { cx.fail("read", str("reading failed: ", ex.what())); } check(cx, g, r, "readAdjacencyList"); cx.trace(); });
    s.add("read-groups", "vertex group files: every colouring of 5 vertices as lines, with blank lines and separators, with and without a final line end, on 4 graphs", 203 * 2 * 2 * 2 * 4, [](uint64_t x, Ctx& cx) {
        Dec d(x); auto& col = grow(5)[d(203)]; int fin = d(2), blank = d(2), file = d(2), gi = d(4); G q = gi == 0 ? graphs::subset(5, 1023) : gi == 1 ? graphs::subset(5, 1023, 1) : gi == 2 ? graphs::subset(5, 0xF) : graphs::subset(5, 0x2F1, 2); Ref r; Graph g; for (auto& e : q.e) { r.given.push_back(NP(G::name(e.first), G::name(e.second))); g.addEdge(G::name(e.first), G::name(e.second)); } g.setColor("1", "old"); int C = 0; for (int c : col) C = std::max(C, c); std::string t; for (int c = 1; c <= C; ++c) { bool f = true; for (int v = 4; v >= 0; --v) if (col[v] == c) { t += (f ? "" : " ") + G::name(v); f = false; r.color[G::name(v)] = str(c); } if (c < C || fin) t += "\n"; if (blank && c < C) t += "\n"; }
        cx.desc = str(q.text(), " group text ", t); auto rd = [&](std::string const& f) { g.readVertexGroups(f); }; try { if (file) viaFile(t, rd); else { Cin in(t); rd(""); } } catch (std::runtime_error const& ex) { cx.fail("read", str("reading failed: ", ex.what())); } check(cx, g, r, "readVertexGroups"); cx.trace(); });
    s.add("many-colors", "every pair of the first 4096 numbered colours is distinct", 1, [](uint64_t, Ctx& cx) { int N = 4096; Graph g; std::string t; for (int i = 0; i < N; ++i) { g.addEdge("0", str(i + 1)); t += str(i + 1, "\n"); } Cin in(t); g.readVertexGroups(""); cx.desc = "4096 groups"; cx.check(g.numColor() == N, "colors", str("numColor ", g.numColor())); Graph h; for (int i = 0; i < N; ++i) { h.addEdge("0", str(i + 1)); h.setColor(str(i + 1), i); } h.update(); cx.check(h.numColor() == N, "colors", str("numColor ", h.numColor())); cx.op(2); cx.trace(); });
}
