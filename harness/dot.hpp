// reader for the DOT dialect the library writes
#pragma once
#include "mc.hpp"
namespace dot {
using namespace mc;
struct Edge { std::string src, dst; int b; };
struct Graph { std::string title, root; std::map<std::string, std::string> label; std::map<int, std::string> levelLabel; std::vector<Edge> edges; std::map<int, std::vector<std::string>> rank; std::set<std::string> invis; std::string top; std::set<std::pair<int, int>> chain; };
inline Graph parse(std::string const& s, int arity) {
    Graph g; std::istringstream in(s); std::string l; auto bad = [&](std::string const& m) { throw Fail("dot-syntax", m + ": " + l); };
    auto quoted = [&](std::string const& x, size_t& p) { if (p >= x.size() || x[p] != '"') bad("quote expected"); size_t e = x.find('"', p + 1); if (e == std::string::npos) bad("unterminated name"); std::string r = x.substr(p + 1, e - p - 1); p = e + 1; return r; };
    auto attr = [&](std::string const& x, std::string const& k) { size_t p = x.find(k + "="); if (p == std::string::npos) return std::string(); p += k.size() + 1; if (x[p] == '"') { size_t e = x.find('"', p + 1); return x.substr(p + 1, e - p - 1); } size_t e = x.find_first_of(",]", p); return x.substr(p, e - p); };
    if (!std::getline(in, l) || l.compare(0, 9, "digraph \"")) bad("no digraph header"); { size_t p = 8; g.title = quoted(l, p); }
    bool closed = false;
    while (std::getline(in, l)) {
        if (closed) bad("text after the end"); if (l == "}") { closed = true; continue; }
        if (l.compare(0, 2, "  ")) bad("unexpected line"); std::string x = l.substr(2); size_t p = 0;
        if (!x.compare(0, 8, "labelloc") || !x.compare(0, 6, "label=")) continue;
        if (!x.compare(0, 12, "{rank=same; ")) { std::istringstream r(x.substr(12, x.size() - 13)); int lv; r >> lv; std::vector<std::string>& v = g.rank[lv]; char c; while (r >> c) { if (c != ';') bad("rank list"); r >> std::ws; std::string q; std::getline(r, q, ';'); if (r) r.putback(';'); v.push_back(q.substr(1, q.size() - 2)); } continue; }
        if (isdigit((unsigned char)x[0])) { int a = atoi(x.c_str()); size_t q = x.find("->"); if (q != std::string::npos) { g.chain.insert({a, atoi(x.c_str() + q + 2)}); continue; } g.levelLabel[a] = x.find("label=") == std::string::npos ? str(a) : attr(x, "label"); continue; }
        std::string n = quoted(x, p);
        if (x.compare(p, 5, " -> \"") == 0) { p += 4; std::string d = quoted(x, p); std::string at = x.substr(p); if (n == "^") { g.root = d; continue; } std::string st = attr(at, "style"), co = attr(at, "color"); int b; if (st == "dashed") b = 0; else if (st != "solid") { bad("edge style"); b = -1; } else if (arity == 2) b = 1; else b = co == "blue" ? 1 : co == "red" ? 2 : co == "green" ? 3 : -1; if (b < 0 || (arity == 2 && !co.empty())) bad("edge colour"); g.edges.push_back({n, d, b}); continue; }
        std::string at = x.substr(p); if (n == "^") continue; if (at.find("style=invis") != std::string::npos) { g.invis.insert(n); continue; } if (at.find("shape=square") != std::string::npos) { g.top = n; continue; }
        if (g.label.count(n)) bad("node listed twice"); g.label[n] = attr(at, "label");
    }
    if (!closed) throw Fail("dot-syntax", "no end of graph"); return g;
}
} // namespace dot
