// P27: the number-link solver: its specifications and its program against all path systems of the grid.
#include "model.hpp"
#include "app.hpp"
#include <cerrno>
#include <cstring>
#include <fstream>
#include <unistd.h>
#include </repo/apps/numberlink/Board.cpp>
#include </repo/apps/numberlink/ConstraintZdd.cpp>
#include </repo/apps/numberlink/DegreeZdd.cpp>
#include </repo/apps/numberlink/NumlinZdd.cpp>
namespace nl {
#define main appMain
#include </repo/apps/numberlink/ddnumlin.cpp>
#undef main
}
using namespace mc; using tdzdd::DdStructure; using tdzdd::NodeId;
struct Sys { uint64_t h, v; int blank; };   // horizontal edge (r,c)-(r,c+1): bit r*(C-1)+c; vertical (r,c)-(r+1,c): bit r*C+c
struct Grid {
    int R, C; std::map<std::vector<int>, std::vector<Sys>> sys;   // endpoint pairs -> path systems
    Grid(int R, int C, int maxPaths) : R(R), C(C) {
        int n = R * C; std::vector<int> deg(n), mate(n); std::vector<std::array<int, 3>> E; for (int r = 0; r < R; ++r) for (int c = 0; c < C; ++c) { if (c + 1 < C) E.push_back({r * C + c, r * C + c + 1, 0}); if (r + 1 < R) E.push_back({r * C + c, r * C + c + C, 1}); }
        for (int i = 0; i < n; ++i) mate[i] = i; Sys s{0, 0, 0};
        std::function<void(size_t)> rec = [&](size_t k) {
            if (k == E.size()) { std::vector<int> key; s.blank = 0; for (int i = 0; i < n; ++i) { if (deg[i] == 0) ++s.blank; if (deg[i] == 1 && mate[i] > i) { key.push_back(i); key.push_back(mate[i]); } } if ((int)key.size() <= 2 * maxPaths) sys[key].push_back(s); return; }
            rec(k + 1); int a = E[k][0], b = E[k][1];
            if (deg[a] < 2 && deg[b] < 2 && mate[a] != b) {
                int ma = mate[a], mb = mate[b]; ++deg[a]; ++deg[b]; int sa = mate[ma], sb = mate[mb]; mate[ma] = mb; mate[mb] = ma;
                uint64_t& m = E[k][2] ? s.v : s.h; uint64_t bit = 1ull << (E[k][2] ? a : a / this->C * (this->C - 1) + a % this->C); m |= bit; rec(k + 1); m &= ~bit;
                mate[ma] = sa; mate[mb] = sb; --deg[a]; --deg[b]; } };
        rec(0);
    }
    // all solutions of a labelled board (labels > 0): every pairing of equal labels
    std::vector<Sys> solve(std::vector<int> const& lab, int k) const {
        std::vector<Sys> r; std::vector<std::pair<int, int>> pr; std::vector<char> used(lab.size());
        std::function<void()> rec = [&] {
            int a = -1; for (int i = 0; i < (int)lab.size(); ++i) if (lab[i] && !used[i]) { a = i; break; }
            if (a < 0) { auto p = pr; std::sort(p.begin(), p.end()); std::vector<int> key; for (auto& x : p) { key.push_back(x.first); key.push_back(x.second); } auto it = sys.find(key); if (it != sys.end()) for (auto& s : it->second) if (k < 0 || s.blank <= k) r.push_back(s); return; }
            used[a] = 1; for (int b = a + 1; b < (int)lab.size(); ++b) if (lab[b] == lab[a] && !used[b]) { used[b] = 1; pr.push_back({a, b}); rec(); pr.pop_back(); used[b] = 0; } used[a] = 0; };
        rec(); return r;
    }
    std::string picture(std::vector<int> const& lab, Sys const& s) const {
        static char const* K[] = {"  ", "  ", "  ", "──", "  ", "─┘", " └", "", "  ", "─┐", " ┌", "", " │"};
        std::string o = "┏"; for (int c = 0; c < C; ++c) o += "━━"; o += "━┓\n";
        for (int r = 0; r < R; ++r) { o += "┃"; for (int c = 0; c < C; ++c) {
            int l = lab[r * C + c]; if (l) { char b[16]; snprintf(b, 16, "%2d", l); o += b; continue; }
            int d = (c && s.h >> (r * (C - 1) + c - 1) & 1 ? 1 : 0) | (c + 1 < C && s.h >> (r * (C - 1) + c) & 1 ? 2 : 0) | (r && s.v >> ((r - 1) * C + c) & 1 ? 4 : 0) | (r + 1 < R && s.v >> (r * C + c) & 1 ? 8 : 0); o += K[d]; }
            o += " ┃\n"; }
        o += "┗"; for (int c = 0; c < C; ++c) o += "━━"; return o + "━┛\n";
    }
};
static Grid& grid(int R, int C) { static std::map<std::pair<int, int>, std::unique_ptr<Grid>> g; auto& p = g[{R, C}]; if (!p) { for (auto it = g.begin(); it != g.end();) if (it->second && it->first != std::make_pair(R, C)) it = g.erase(it); else ++it; g[{R, C}].reset(new Grid(R, C, 4)); } return *g[{R, C}]; }
static std::string boardText(int R, int C, std::vector<int> const& lab, int style) {
    std::string s = style == 1 ? str(R, ",", C, "\n") : style == 2 ? str("# a comment line\n  ", C, "  ", R, " trailing words\n") : str(C, " ", R, "\n");
    for (int r = 0; r < R; ++r) { for (int c = 0; c < C; ++c) { int l = lab[r * C + c]; s += (c ? style == 2 ? "   " : " " : "") + (l ? str(l) : std::string(style == 1 ? "." : style == 3 ? "0" : "-")); } if (r + 1 < R || style != 2) s += "\n"; }
    return s;
}
struct Opt { bool all, par; int k; };   // k < 0: no limit
static void program(Ctx& cx, int R, int C, std::vector<int> const& lab, Opt o, int style) {
    Grid& g = grid(R, C); auto ref = g.solve(lab, o.k); std::vector<std::string> av; if (o.all) av.push_back("-a"); if (o.par) av.push_back("-p"); if (o.k >= 0) { av.push_back("-k"); av.push_back(str(o.k)); } av.push_back("-m"); av.push_back("100000"); av.push_back("-");
    std::string text = boardText(R, C, lab, style); cx.desc = "ddnumlin" + app::join(av) + " <<\n" + text;
    nl::opt.clear(); nl::optNum.clear(); nl::infile.clear(); auto r = app::run(nl::appMain, av, text); tdzdd::MessageHandler::showMessages(false); cx.op(); cx.trace();
    cx.require(r.rc == 0, "exit", [&] { return str("exit code ", r.rc, "\n", r.err); });
    std::multiset<std::string> want, got; for (auto& s : ref) want.insert(g.picture(lab, s));
    size_t p = 0, cnt = 0; while (p < r.out.size()) { std::string head = str("#", ++cnt, "\n"); cx.require(r.out.compare(p, head.size(), head) == 0, "output", [&] { return str("expected '", head, "' at offset ", p, " of\n", r.out); }); p += head.size(); size_t e = r.out.find("\n\n", p); cx.require(e != std::string::npos, "output", [&] { return "answer without its end"; }); got.insert(r.out.substr(p, e + 1 - p)); p = e + 2; }
    std::string c = app::field(r.err, "#solution = "); cx.require(c == str(got.size()), "report", [&] { return str("reported ", c, " solutions, printed ", got.size()); });
    auto show = [&](std::multiset<std::string> const& s) { std::string t = str(s.size(), "\n"); int k = 0; for (auto& x : s) { if (++k > 3) break; t += x; } return t; };
    if (o.all) cx.require(got == want, "solutions", [&] { return str("answers: ", show(got), "expected: ", show(want)); });
    else {
        std::multiset<std::string> extra = got; for (auto& x : want) { auto it = extra.find(x); if (it != extra.end()) extra.erase(it); }
        cx.require(extra.empty(), "not-a-solution", [&] { return str("reported but no solution: ", show(extra), "solutions: ", show(want)); });
        if (o.k < 0) { if (want.size() == 1) cx.require(got == want, "unique-lost", [&] { return str("the only solution is not reported: ", show(want)); }); if (!want.empty()) cx.require(!got.empty(), "solvable-lost", [&] { return str("no answer although there are solutions: ", show(want)); }); }
    }
    cx.outcome(mix(want.size(), got.size()));
}
// specifications directly, either orientation
static void specs(Ctx& cx, int R, int C, std::vector<int> const& lab, int k) {
    Grid& g = grid(R, C); auto ref = g.solve(lab, k); Board b; b.rows = R; b.cols = C; b.init(); for (int i = 0; i < R * C; ++i) b.number[i / C][i % C] = lab[i];
    cx.desc = str("specifications, at most ", k, " blank, on\n", boardText(R, C, lab, 0)); int top = R * (C - 1);
    auto fam = [&](DdStructure<2> const& d) { std::multiset<uint64_t> f; std::function<void(NodeId, uint64_t)> rec = [&](NodeId x, uint64_t s) { if (x == 0) return; if (x == 1) { f.insert(s); return; } rec(d.child(x, 0), s); rec(d.child(x, 1), s | 1ull << (top - x.row())); }; rec(d.root(), 0); return f; };
    std::multiset<uint64_t> want; for (auto& s : ref) want.insert(s.h);
    auto f = fam(DdStructure<2>(NumlinZdd(b, k))); cx.op(); cx.require(f == want, "numlin", [&] { return str("NumlinZdd: ", f.size(), " solutions, expected ", want.size()); });
    auto f2 = fam(DdStructure<2>(zddLookahead(zddIntersection(DegreeZdd(b), NumlinZdd(b, k))))); cx.op(); cx.require(f2 == want, "degree", [&] { return str("with DegreeZdd: ", f2.size(), " solutions, expected ", want.size()); });
    // degree specification alone: every blank cell has degree 0 or 2, every number degree 1
    if (k < 0 && R * C <= 12) {
        std::multiset<uint64_t> dw; int ne = top, nv = (R - 1) * C; (void)nv;
        for (uint64_t h = 0; h < (1ull << ne); ++h) {
            std::vector<int> d(R * C); bool ok = true; for (int e = 0; e < ne; ++e) if (h >> e & 1) { int x = e / (C - 1) * C + e % (C - 1); ++d[x]; ++d[x + 1]; }
            for (int i = 0; i < R * C && ok; ++i) { d[i] += lab[i] ? 1 : 0; if (d[i] > 2) ok = false; else if (d[i] == 1) { if (i + C < R * C) { ++d[i]; ++d[i + C]; } else ok = false; } }
            if (ok) dw.insert(h); }
        auto f3 = fam(DdStructure<2>(DegreeZdd(b))); cx.op(); cx.require(f3 == dw, "degree-alone", [&] { return str("DegreeZdd: ", f3.size(), " selections, expected ", dw.size()); });
    }
    // the board class on every solution: vertical links, transposition, numbering along the paths
    int done = 0;
    for (auto& s : ref) {
        if (++done > 40) break; Board a = b; for (int r = 0; r < R; ++r) for (int c = 0; c + 1 < C; ++c) a.hlink[r][c] = s.h >> (r * (C - 1) + c) & 1;
        a.makeVerticalLinks(); cx.op(); bool ok = true; for (int r = 0; r + 1 < R; ++r) for (int c = 0; c < C; ++c) if (a.vlink[r][c] != (bool)(s.v >> (r * C + c) & 1)) ok = false; cx.require(ok, "vertical", [&] { return "vertical links differ on\n" + g.picture(lab, s); });
        std::vector<int> num(lab); for (bool go = true; go;) { go = false; for (int i = 0; i < R * C; ++i) for (int d = 0; d < 2; ++d) { int j = d ? i + C : i + 1; bool on = d ? (i / C + 1 < R && s.v >> i & 1) : (i % C + 1 < C && s.h >> (i / C * (C - 1) + i % C) & 1); if (on && num[i] != num[j]) { if (!num[i]) num[i] = num[j]; else num[j] = num[i]; go = true; } } }
        for (int tr = 0; tr < 2; ++tr) { Board t = a; if (tr) t.transpose(); cx.require(t.rows == (tr ? C : R) && t.cols == (tr ? R : C), "transpose", [&] { return "sizes after transposition"; }); t.fillNumbers(); if (tr) t.transpose(); cx.op(); ok = t.hlink == a.hlink && t.vlink == a.vlink; for (int i = 0; i < R * C; ++i) if (t.number[i / C][i % C] != num[i]) ok = false; cx.require(ok, "fill", [&] { return "numbers along the paths differ on\n" + g.picture(lab, s); });
            std::ostringstream o; t.writeNumbers(o); std::istringstream in(o.str()); Board u; u.readNumbers(in); cx.require(u.rows == R && u.cols == C && u.number == t.number, "rewrite", [&] { return "written board reads back differently: " + o.str(); }); }
    }
    cx.trace(); cx.outcome(mix(want.size(), k));
}
// boards: choose 2p cells and a pairing
static uint64_t choose(int n, int k) { uint64_t r = 1; for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
static uint64_t boards(int cells, int p) { uint64_t r = choose(cells, 2 * p); for (int i = 2 * p - 1; i > 1; i -= 2) r *= i; return r; }
static std::vector<int> board(int cells, int p, uint64_t x, std::vector<int> const& names) {
    uint64_t pairings = 1; for (int i = 2 * p - 1; i > 1; i -= 2) pairings *= i; uint64_t pi = x % pairings, c = x / pairings; std::vector<int> cell, lab(cells);
    for (int i = 0, need = 2 * p; i < cells && need; ++i) { uint64_t w = choose(cells - i - 1, need - 1); if (c < w) { cell.push_back(i); --need; } else c -= w; }
    for (int k = 0; k < p; ++k) { int a = cell[0]; cell.erase(cell.begin()); int j = pi % cell.size(); pi /= cell.size(); int b = cell[j]; cell.erase(cell.begin() + j); lab[a] = lab[b] = names[k]; }
    return lab;
}
static const std::vector<int> N1{1, 2, 3, 4}, N2{7, 99, 12, 3};
static void sizes(Scopes& s, int R, int C, int p, int mode, bool th = false) {   // mode 0: all k and options; 1: unlimited and k = 0..2; 2: unlimited only
    uint64_t nb = boards(R * C, p); int ks = mode == 0 ? R * C + 2 : mode == 1 ? 4 : 1;
    s.add(str("b", R, "x", C, "p", p), str("all boards of ", R, " rows and ", C, " columns with ", p, " number pairs, ", ks, " blank limits, all answers and reduced search, serial and parallel"), nb * ks * 2, [=](uint64_t x, Ctx& cx) {
        Dec d(x); int all = d(2), k = (int)d(ks) - 1; uint64_t b = d(nb); program(cx, R, C, board(R * C, p, b, b & 1 ? N1 : N2), Opt{(bool)all, (bool)((b ^ k) & 2), k}, (b + k + 1) % 4); if (C > 1 && all) specs(cx, R, C, board(R * C, p, b, N1), k); });
    s.v.back().thorough = th;
}
SCOPES(s) {
    (void)mcReg_; omprt::setThreads(2); omprt::setPolicy(1);
    for (int R = 1; R <= 5; ++R) for (int C = 1; C <= 5; ++C) if (R * C <= 6 && R * C > 1) for (int p = 0; 2 * p <= R * C && p <= 3; ++p) sizes(s, R, C, p, 0);
    for (auto rc : std::vector<std::pair<int, int>>{{2, 4}, {4, 2}, {1, 8}, {8, 1}}) for (int p = 0; p <= 4; ++p) sizes(s, rc.first, rc.second, p, p <= 2 ? 0 : 1);
    for (int p = 0; p <= 4; ++p) sizes(s, 3, 3, p, p <= 2 ? 0 : 1);
    for (auto rc : std::vector<std::pair<int, int>>{{3, 4}, {4, 3}, {2, 6}}) { sizes(s, rc.first, rc.second, 0, 0); sizes(s, rc.first, rc.second, 1, 0); sizes(s, rc.first, rc.second, 2, 1); sizes(s, rc.first, rc.second, 3, 2, true); }
    sizes(s, 4, 4, 0, 1); sizes(s, 4, 4, 1, 1); sizes(s, 4, 4, 2, 2); sizes(s, 5, 3, 1, 1); sizes(s, 3, 5, 2, 2); sizes(s, 4, 4, 3, 2, true); sizes(s, 5, 3, 3, 2, true);
    s.add("groups", "3x3 boards: every assignment of up to 5 cells to labels in which labels occur once, three or four times", 19683, [](uint64_t x, Ctx& cx) {
        Dec d(x); std::vector<int> lab(9); int c[3] = {0, 0, 0}, n = 0; for (auto& l : lab) { l = d(3); ++c[l]; if (l) ++n; } if (n == 0 || n > 5 || (c[1] <= 2 && c[1] != 1 && c[2] <= 2 && c[2] != 1)) return;
        program(cx, 3, 3, lab, Opt{true, false, -1}, x % 4); specs(cx, 3, 3, lab, -1); });
    s.add("labels", "all 3x3 boards with two pairs, labels around every size limit (1-300)", boards(9, 2) * 8, [](uint64_t x, Ctx& cx) {
        static std::vector<std::vector<int>> L = {{250, 251}, {252, 253}, {254, 255}, {255, 256}, {256, 257}, {258, 259}, {300, 44}, {65535, 1}}; Dec d(x); auto& l = L[d(8)]; auto lab = board(9, 2, d(boards(9, 2)), {l[0], l[1], 0, 0}); program(cx, 3, 3, lab, Opt{(bool)(x & 8), false, -1}, 0); specs(cx, 3, 3, lab, -1); });
    s.add("limit", "output limits 0-3 on boards with 0-4 answers", 4 * 200, [](uint64_t x, Ctx& cx) {
        Dec d(x); int m = d(4); uint64_t b = d(200); auto lab = board(9, 2, b % boards(9, 2), N1); Grid& g = grid(3, 3); size_t n = g.solve(lab, -1).size(); std::string text = boardText(3, 3, lab, 0); std::vector<std::string> av{"-a", "-m", str(m), "-"}; cx.desc = "ddnumlin" + app::join(av) + " <<\n" + text;
        nl::opt.clear(); nl::optNum.clear(); nl::infile.clear(); auto r = app::run(nl::appMain, av, text); tdzdd::MessageHandler::showMessages(false); cx.op(); cx.trace(); cx.require(r.rc == 0, "exit", [&] { return str("exit code ", r.rc); });
        size_t shown = 0, p = 0; while ((p = r.out.find("#", p)) != std::string::npos) { ++shown; ++p; } cx.require(shown == std::min<size_t>(n, m), "limit", [&] { return str(shown, " answers printed, expected ", std::min<size_t>(n, m)); });
        size_t q = r.out.find(" more solution"); std::string more = q == std::string::npos ? "0" : r.out.substr(r.out.rfind('\n', q) + 1, q - r.out.rfind('\n', q) - 1); cx.require(m == 0 || more == str(n - shown), "more", [&] { return str("'", more, "' more, expected ", n - shown); }); cx.outcome(mix(n, m)); });
}
