// P15: DOT and table dumps, read back, are exactly the dumped graph.
#include "model.hpp"
#include "dot.hpp"
using namespace model; using namespace tdzdd;
template<int AR> struct LSpec : DdSpec<LSpec<AR>, int, AR> {
    Table<AR> t; explicit LSpec(Table<AR> const& t) : t(t) {}
    int getRoot(int& s) const { s = t.stateOf(t.root); return t.levelOf(t.root); }
    int getChild(int& s, int level, int b) const { int c = t.at(level, s, b); s = t.stateOf(c); return t.levelOf(c); }
    void printState(std::ostream& os, int const& s) const { os << "q" << s; }
    void printLevel(std::ostream& os, int level) const { os << "L" << level * 3; }
};
template<int AR> struct ASpec : PodArrayDdSpec<ASpec<AR>, int, AR> {
    Table<AR> t; explicit ASpec(Table<AR> const& t) : t(t) { this->setArraySize(2); }
    int getRoot(int* s) const { s[0] = t.stateOf(t.root); s[1] = 4; return t.levelOf(t.root); }
    int getChild(int* s, int level, int b) const { int c = t.at(level, s[0], b); s[0] = t.stateOf(c); return t.levelOf(c); }
};
template<int AR> struct HSpec : HybridDdSpec<HSpec<AR>, int, int, AR> {
    Table<AR> t; explicit HSpec(Table<AR> const& t) : t(t) { this->setArraySize(1); }
    int getRoot(int& s, int* a) const { s = t.stateOf(t.root); a[0] = 6; return t.levelOf(t.root); }
    int getChild(int& s, int* a, int level, int b) const { int c = t.at(level, s, b); s = t.stateOf(c); return t.levelOf(c); }
};
static int cls(int b) { return b < 3 ? b : 3; }
// expected graph by walking the specification itself; nodes keyed by (level, printed state)
template<int AR, typename SP> static void spec(Ctx& cx, SP const& sp0, std::function<std::string(int)> lev, char const* what, bool unique = true) {
    SP sp(sp0); std::string title = "T&t"; std::ostringstream os; sp0.dumpDot(os, title); dot::Graph g = dot::parse(os.str(), AR); cx.op();
    size_t words = (sp.datasize() + 7) / 8 + 1; std::vector<size_t> r(words); int n = sp.get_root(r.data());
    cx.check(g.title == title, "title", "title not shown");
    if (n <= 0) { cx.require(g.label.empty() && g.edges.empty(), "nodes", [&] { return str(what, ": a constant specification has nodes in its dump"); }); cx.require(n == 0 ? g.root.empty() && g.top.empty() : !g.top.empty() && g.root == g.top, "root", [&] { return str(what, ": root of a constant dump is wrong"); }); sp.destruct(r.data()); cx.trace(); cx.outcome(n); return; }
    auto lab = [&](std::vector<size_t>& s, int l) { std::ostringstream o; sp.print_state(o, s.data(), l); return o.str(); };
    typedef std::pair<int, std::string> N; std::map<N, std::vector<std::string>> want; std::set<N> nodes; std::multiset<std::string> wedges; std::vector<std::pair<int, std::vector<size_t>>> st; std::map<int, int> perLevel;
    // distinct states by the specification's own equality
    std::map<int, std::vector<std::vector<size_t>>> byLevel; std::function<void(std::vector<size_t>&, int)> add = [&](std::vector<size_t>& s, int l) { for (auto& o : byLevel[l]) if (sp.equal_to(o.data(), s.data(), l)) return; byLevel[l].push_back(s); };
    add(r, n); std::multiset<std::string> lines;
    for (int l = n; l >= 1; --l) { auto& v = byLevel[l]; for (size_t k = 0; k < v.size(); ++k) { std::string me = str(l, "/", lab(v[k], l)); nodes.insert(N(l, lab(v[k], l))); perLevel[l]++; for (int b = 0; b < AR; ++b) { std::vector<size_t> c(words); sp.get_copy(c.data(), v[k].data()); int ll = sp.get_child(c.data(), l, b); if (ll == 0) { sp.destruct(c.data()); continue; } if (ll > 0) add(c, ll); lines.insert(str(me, " -", cls(b), "-> ", ll < 0 ? std::string("T") : str(ll, "/", lab(c, ll)))); } } }
    std::multiset<std::string> got; auto nm = [&](std::string const& id) { if (!g.label.count(id)) { if (id == g.top) return std::string("T"); throw Fail("edges", "edge end " + id + " is not a node"); } return str(atoi(id.c_str()), "/", g.label[id]); };
    for (auto& e : g.edges) got.insert(str(nm(e.src), " -", e.b, "-> ", nm(e.dst)));
    cx.require(got == lines, "edges", [&] { std::string a, b; for (auto& x : got) a += x + "; "; for (auto& x : lines) b += x + "; "; return str(what, ": dumped edges ", a, " expected ", b); });
    std::multiset<std::string> gn, wn; for (auto& q : g.label) gn.insert(nm(q.first)); for (auto& q : byLevel) for (auto& s : q.second) wn.insert(str(q.first, "/", lab(s, q.first)));
    cx.require(gn == wn, "nodes", [&] { std::string a, b; for (auto& x : gn) a += x + " "; for (auto& x : wn) b += x + " "; return str(what, ": dumped nodes ", a, "expected ", b); });
    cx.require(nm(g.root) == str(n, "/", lab(r, n)), "root", [&] { return str(what, ": root arrow points to ", g.root); });
    for (int l = 1; l <= n; ++l) { cx.require(g.levelLabel.count(l) && g.levelLabel[l] == lev(l), "level-label", [&] { return str(what, ": level ", l, " is labelled '", g.levelLabel[l], "' instead of '", lev(l), "'"); }); std::vector<std::string> v = g.rank[l]; std::set<std::string> u(v.begin(), v.end()); size_t k = 0; for (auto& q : g.label) if (atoi(q.first.c_str()) == l) { ++k; cx.check(u.count(q.first), "rank", "node missing from its level's rank list"); } cx.check(k == v.size() && u.size() == v.size(), "rank", "rank list has foreign or repeated nodes"); }
    cx.check(g.levelLabel.size() == (size_t)n, "level-label", "levels listed that do not exist");
    // function of the dump as a graph
    { Canon<AR> cn(RAW); if (AR <= 4) { std::map<std::string, int> memo; std::map<std::string, std::map<int, std::string>> ad; for (auto& e : g.edges) ad[e.src][e.b] = e.dst; std::function<int(std::string const&)> rec = [&](std::string const& id) -> int { if (id == g.top) return 1; auto it = memo.find(id); if (it != memo.end()) return it->second; int c[AR]; for (int b = 0; b < AR; ++b) c[b] = ad[id].count(b) ? rec(ad[id][b]) : 0; return memo[id] = cn.mk(atoi(id.c_str()), c); }; int f = rec(g.root), w = canonSpec<AR>(cn, sp0); cx.require(f == w, "function", [&] { return str(what, ": dump read as a diagram accepts ", cn.text(f), " expected ", cn.text(w)); }); } }
    cx.outcome(mix(lines.size(), hashStr(os.str()))); cx.trace();
}
template<int AR> static void diagram(Ctx& cx, DdStructure<AR> const& d, char const* what) {
    spec<AR>(cx, d, [](int l) { return str(l); }, what);
    // node table dump
    std::ostringstream os; d.getDiagram()->dumpDot(os, "nt"); dot::Graph g = dot::parse(os.str(), AR); std::multiset<std::string> want, got; size_t n = 0;
    for (int i = 1; i < (*d.getDiagram()).numRows(); ++i) for (size_t j = 0; j < (*d.getDiagram())[i].size(); ++j) { ++n; for (int b = 0; b < AR; ++b) { NodeId c = d.child(NodeId(i, j), b); if (c != 0) want.insert(str(i, ":", j, " ", cls(b), " ", c == 1 ? std::string("$") : str(c.row(), ":", c.col()))); } }
    for (auto& e : g.edges) got.insert(str(e.src, " ", e.b, " ", e.dst)); cx.require(got == want && g.label.size() == n, "table-dot", [&] { return str(what, ": node table dump differs from the node table"); }); cx.op(); cx.trace();
}
static void sapporo(Ctx& cx, DdStructure<2> const& d, char const* what) {
    std::ostringstream os; d.dumpSapporo(os); std::istringstream in(os.str()); std::string k; int n = -1, o = -1; long cnt = -1; Canon<2> cn(ZDD), cp(PLAIN); cx.op();
    auto fail = [&](std::string const& m) { cx.fail("sapporo", str(what, ": ", m, " in\n", os.str())); };
    if (!(in >> k >> n) || k != "_i") fail("no _i line"); if (!(in >> k >> o) || k != "_o" || o != 1) fail("no _o line"); if (!(in >> k >> cnt) || k != "_n") fail("no _n line"); if (cnt != (long)d.size()) fail("wrong node count"); if (n < d.topLevel()) fail("wrong variable count");
    std::map<std::string, int> id, ip, lev; id["F"] = ip["F"] = 0; id["T"] = ip["T"] = 1;
    for (long i = 0; i < cnt; ++i) { std::string a, x, y; int l; if (!(in >> a >> l >> x >> y)) fail("node line missing"); if (id.count(a)) fail("node number repeated"); if (!id.count(x) || !id.count(y)) fail("child not defined before use"); if (l < 1 || l > n || lev[x] >= l || lev[y] >= l) fail("level order"); int c[2] = {id[x], id[y]}, e[2] = {ip[x], ip[y]}; id[a] = cn.mk(l, c); ip[a] = cp.mk(l, e); lev[a] = l; }
    std::string r; if (!(in >> r) || !id.count(r)) fail("root line missing or undefined"); if (in >> k) fail("text after the root");
    cx.require(id[r] == canonOf(cn, d), "sapporo", [&] { return str(what, ": read back as ", cn.text(id[r]), " expected ", cn.text(canonOf(cn, d)), "\n", os.str()); }); cx.require(ip[r] == canonOf(cp, d), "sapporo", [&] { return str(what, ": structure differs"); }); cx.trace(); cx.outcome(hashStr(os.str()));
}
template<int AR> static void all(Ctx& cx, Table<AR> const& t, bool more) {
    auto L = [](int l) { return str("L", l * 3); }; auto P = [](int l) { return str(l); };
    spec<AR>(cx, LSpec<AR>(t), L, "scalar"); 
    if (more) { spec<AR>(cx, ASpec<AR>(t), P, "array"); spec<AR>(cx, HSpec<AR>(t), P, "hybrid"); spec<AR>(cx, zddLookahead(LSpec<AR>(t)), L, "zddLookahead"); spec<AR>(cx, bddLookahead(LSpec<AR>(t)), L, "bddLookahead"); spec<AR>(cx, zddUnreduction(LSpec<AR>(t), t.n + 1), P, "zddUnreduction"); if (t.w == 1 && t.n > 0) spec<AR>(cx, TStateless<AR>(t), P, "stateless"); }
    DdStructure<AR> d = build(t); diagram<AR>(cx, d, "raw diagram"); d.zddReduce(); diagram<AR>(cx, d, "reduced diagram");
}
// combined specifications: the dump is walked together with a product of the operands' tables; every node must show, in order, the states of the operands that are still alive
template<int AR> struct TagSpec : DdSpec<TagSpec<AR>, int, AR> {
    Table<AR> const* t; char tag; TagSpec(Table<AR> const& t, char tag) : t(&t), tag(tag) {}
    int getRoot(int& s) const { s = t->root; return t->levelOf(s); }
    int getChild(int& s, int level, int b) const { s = t->at(level, t->stateOf(s), b); return t->levelOf(s); }
    void printState(std::ostream& os, int const& s) const { os << tag << s << tag; }
};
enum { O_AND, O_OR, O_UNION, O_SECT, O_ZUNR, O_BUNR, O_ZLOOK, O_BLOOK }; static char const* OPN[] = {"bddAnd", "bddOr", "zddUnion", "zddIntersection", "zddUnreduction", "bddUnreduction", "zddLookahead", "bddLookahead"};
template<int AR> struct Ref {
    int op, k, nv; Table<AR> const* t[4]; struct S { int c[4] = {0, 0, 0, 0}, l[4] = {0, 0, 0, 0}; std::string key(int k) const { std::string r; for (int i = 0; i < k; ++i) r += str(l[i], ":", l[i] > 0 ? c[i] : 0, " "); return r; } };
    void go(S& s, int i, int c) const { s.c[i] = c; s.l[i] = t[i]->levelOf(c); }
    void down(S& s, int i, int b) const { go(s, i, t[i]->at(s.l[i], t[i]->stateOf(s.c[i]), b)); }
    int top(S& s) const {
        int m = s.l[0]; bool any0 = false, anyN = false; for (int i = 0; i < k; ++i) { m = std::max(m, s.l[i]); any0 |= s.l[i] == 0; anyN |= s.l[i] < 0; }
        switch (op) {
        case O_AND: return any0 ? 0 : m; case O_OR: return anyN ? -1 : m; case O_UNION: return m > 0 ? m : anyN ? -1 : 0;
        case O_SECT: for (;;) { m = s.l[0]; bool eq = true; for (int i = 0; i < k; ++i) { if (s.l[i] == 0) return 0; if (s.l[i] != s.l[0]) eq = false; m = std::max(m, s.l[i]); } if (eq) return m; for (int i = 0; i < k; ++i) if (s.l[i] == m) down(s, i, 0); }
        case O_ZLOOK: while (s.l[0] > 0) { bool skip = true; for (int b = 1; b < AR; ++b) { S c = s; down(c, 0, b); if (c.l[0] != 0) skip = false; } if (!skip) break; down(s, 0, 0); } return s.l[0];
        case O_BLOOK: while (s.l[0] > 0) { bool skip = true; S z = s; down(z, 0, 0); for (int b = 1; b < AR; ++b) { S c = s; down(c, 0, b); if (c.key(1) != z.key(1)) skip = false; } if (!skip) break; s = z; } return s.l[0];
        default: return s.l[0]; }
    }
    int root(S& s) const { for (int i = 0; i < k; ++i) go(s, i, t[i]->root); if (op == O_ZUNR || op == O_BUNR) { if (s.l[0] == 0) return 0; int n = std::max(nv, s.l[0]); return n > 0 ? n : -1; } return top(s); }
    int child(S& s, int level, int b) const {
        if (op == O_ZUNR || op == O_BUNR) { if (s.l[0] == level) { down(s, 0, b); if (s.l[0] == 0) return 0; } else if (op == O_ZUNR && b) return 0; return level > 1 ? level - 1 : s.l[0]; }
        for (int i = 0; i < k; ++i) if (s.l[i] == level) down(s, i, b); else if (op == O_UNION && b) s.l[i] = 0;
        return top(s);
    }
};
template<int AR, typename SP> static void combined(Ctx& cx, SP const& sp, Ref<AR> const& r, bool exact) {
    typedef typename Ref<AR>::S S; std::ostringstream os; sp.dumpDot(os, "c"); dot::Graph g = dot::parse(os.str(), AR); cx.op(); auto at = [&] { return str(OPN[r.op], " of ", r.k); };
    auto bad = [&](std::string const& m) { cx.fail("combined", at() + ": " + m + "\n" + os.str()); };
    std::map<std::string, std::map<int, std::string>> ad; for (auto& e : g.edges) { if (ad[e.src].count(e.b)) bad("branch drawn twice"); ad[e.src][e.b] = e.dst; }
    std::map<std::string, std::string> node; std::set<std::pair<std::string, std::string>> seen; std::set<std::string> used; std::vector<std::pair<std::pair<std::string, int>, S>> q;
    auto arrive = [&](std::string const& id, int l, S const& s) {
        if (l == 0) { if (!id.empty()) bad("an arrow is drawn where the combination is 0"); return; }
        if (id.empty()) bad("an arrow is missing");
        if (l < 0) { if (id != g.top) bad("an arrow to the 1-terminal is missing"); return; }
        if (id == g.top || !g.label.count(id)) bad("an arrow ends at the wrong place"); if (atoi(id.c_str()) != l) bad(str("node ", id, " should be at level ", l));
        std::string key = str(l, " ", s.key(r.k)); if (!seen.insert({id, key}).second) return; if (exact) { auto it = node.emplace(key, id).first; if (it->second != id) bad("one state is drawn as two nodes"); }
        used.insert(id); std::string const& lab = g.label[id]; size_t p = 0;
        for (int i = 0; i < r.k; ++i) { char tag = 'a' + i; size_t b = lab.find(tag, p), e = b == std::string::npos ? b : lab.find(tag, b + 1); if (e == std::string::npos) bad(str("node ", id, " does not show the state of operand ", i + 1)); if (s.l[i] > 0 && lab.substr(b + 1, e - b - 1) != str(s.c[i])) bad(str("node ", id, " shows a wrong state of operand ", i + 1, ", expected ", s.c[i])); p = e + 1; }
        q.push_back({{id, l}, s});
    };
    S s; int l = r.root(s); arrive(g.root, l, s); while (!q.empty()) { auto x = q.back(); q.pop_back(); for (int b = 0; b < AR; ++b) { S c = x.second; int ll = r.child(c, x.first.second, b); auto& m = ad[x.first.first]; auto it = m.find(cls(b)); if (AR > 4 && b >= 3) continue; arrive(it == m.end() ? std::string() : it->second, ll, c); } }
    if (used.size() != g.label.size()) bad("nodes are drawn that cannot be reached"); cx.trace(); cx.outcome(hashStr(os.str()));
}
template<int AR> static void combos(Ctx& cx, Table<AR> const* const* t, int k) {
    TagSpec<AR> a(*t[0], 'a'), b(*t[1], 'b'), c(*t[2], 'c'), d(*t[3], 'd'); Ref<AR> r; r.k = k; r.nv = 0; for (int i = 0; i < 4; ++i) r.t[i] = t[i];
    if (k == 2) { r.op = O_AND; combined(cx, bddAnd(a, b), r, true); r.op = O_OR; combined(cx, bddOr(a, b), r, true); r.op = O_UNION; combined(cx, zddUnion(a, b), r, true); r.op = O_SECT; combined(cx, zddIntersection(a, b), r, true); }
    if (k == 3) { r.op = O_AND; combined(cx, bddAnd(a, b, c), r, false); r.op = O_OR; combined(cx, bddOr(a, b, c), r, false); r.op = O_UNION; combined(cx, zddUnion(a, b, c), r, false); r.op = O_SECT; combined(cx, zddIntersection(a, b, c), r, false); }
    if (k == 4) { r.op = O_AND; combined(cx, bddAnd(a, b, c, d), r, false); r.op = O_OR; combined(cx, bddOr(a, b, c, d), r, false); r.op = O_UNION; combined(cx, zddUnion(a, b, c, d), r, false); r.op = O_SECT; combined(cx, zddIntersection(a, b, c, d), r, false); }
    if (k == 1) for (int nv = 0; nv <= t[0]->n + 2; ++nv) { r.nv = nv; r.op = O_ZUNR; combined(cx, zddUnreduction(a, nv), r, true); r.op = O_BUNR; combined(cx, bddUnreduction(a, nv), r, true); if (nv == 0) { r.op = O_ZLOOK; combined(cx, zddLookahead(a), r, true); r.op = O_BLOOK; combined(cx, bddLookahead(a), r, true); } }
}
template<int AR> static void product(Scopes& s, std::string name, int k, int n, int w, uint64_t step = 1) {
    uint64_t c = Table<AR>::count(n, w), all = 1; for (int i = 0; i < k; ++i) all *= c;
    s.add(name, str(step > 1 ? str("every ", step, "th of the") : std::string("all"), " combinations of ", k, " tables with ", n, " levels, ", widthText(w), ", arity ", AR, k == 1 ? ": unreductions and lookaheads" : ": the four operators", "; dump walked together with the operands"), all / step, [=](uint64_t x, Ctx& cx) {
        x = x * step + (step > 1 ? (x * 5) % step : 0); Table<AR> t[4]; Table<AR> const* p[4]; cx.desc = ""; for (int i = 0; i < 4; ++i) { t[i].decode(i < k ? x % c : 0, n, w); if (i < k) { x /= c; cx.desc += (i ? " with " : "") + t[i].text(); } p[i] = &t[i]; } combos<AR>(cx, p, k); });
}
template<int AR> static void tables(Scopes& s, std::string name, int n, int w, bool more, uint64_t step = 1) {
    s.add(name, str(step > 1 ? str("every ", step, "th of the") : std::string("all"), " tables with ", n, " levels, ", widthText(w), ", arity ", AR, ": specification kinds", more ? ", wrappers" : "", ", raw and reduced diagrams"), n == 0 ? 2 : Table<AR>::count(n, w) / step, [=](uint64_t x, Ctx& cx) {
        x = x * step + (step > 1 ? (x * 5) % step : 0); Table<AR> t; t.decode(x, n, w); cx.desc = t.text(); all<AR>(cx, t, more); });
}
SCOPES(s) {
    omprt::setThreads(1);
#if PART == 0
    tables<2>(s, "n0", 0, 1, true); tables<2>(s, "n1w1", 1, 1, true); tables<2>(s, "n2w2", 2, 2, true); tables<2>(s, "n3w1", 3, 1, true); tables<2>(s, "n4w1", 4, 1, true, 3); tables<2>(s, "g3w4", 3, dag(4, 7), true); tables<2>(s, "g4w2k5", 4, dag(2, 5), true); tables<2>(s, "g5w2k4", 5, dag(2, 4), true); tables<2>(s, "n3w2full", 3, 2, true); s.v.back().thorough = true;
#elif PART == 1
    tables<3>(s, "3n2w2", 2, 2, true); tables<3>(s, "3n3w1", 3, 1, false); tables<4>(s, "4n2w1", 2, 1, true); tables<5>(s, "5n2w1", 2, 1, false); tables<1>(s, "1n3w2", 3, 2, true);
#elif PART == 3
    product<2>(s, "op1-n2w2", 1, 2, 2); product<2>(s, "op1-g4", 1, 4, dag(2, 4)); product<3>(s, "op1-3n2w2", 1, 2, 2, 7); product<2>(s, "op2-n2w1", 2, 2, 1); product<2>(s, "op2-n3w1", 2, 3, 1, 13); product<2>(s, "op2-g3w2", 2, 3, dag(2, 3), 5); product<3>(s, "op2-3n2w1", 2, 2, 1, 11); product<2>(s, "op3-n2w1", 3, 2, 1); product<2>(s, "op4-n2w1", 4, 2, 1, 37);
#else
    auto sap = [&](std::string name, int n, int w) { s.add(name, str("table dump of every diagram with ", n, " levels, ", widthText(w), ", raw and reduced"), Table<2>::count(n, w), [=](uint64_t x, Ctx& cx) { Table<2> t; t.decode(x, n, w); cx.desc = t.text(); DdStructure<2> d = build(t); sapporo(cx, d, "raw"); d.zddReduce(); sapporo(cx, d, "reduced"); }); };
    sap("sapporo-n2w2", 2, 2); sap("sapporo-n3w1", 3, 1); sap("sapporo-g4w2", 4, dag(2, 7)); sap("sapporo-g6w2k4", 6, dag(2, 4)); sap("sapporo-n4w1", 4, 1);
    s.add("sapporo-const", "table dump of terminal-only diagrams (default, zero variables, reduced to a terminal)", 6, [](uint64_t x, Ctx& cx) { cx.desc = str("constant ", x); DdStructure<2> d; if (x == 1) d = DdStructure<2>(0); if (x == 2 || x == 3) { d = DdStructure<2>(3); d.zddSubset(FamSpec(3, x - 2)); d.zddReduce(); } if (x >= 4) { Table<2> t; t.n = 0; t.root = x - 4; d = build(t); } sapporo(cx, d, "constant"); diagram<2>(cx, d, "constant"); });
    s.add("pairs", "dumps of combined specifications, all pairs of one-state two-level tables", 36 * 36, [](uint64_t x, Ctx& cx) { Table<2> a, b; a.decode(x % 36, 2, 1); b.decode(x / 36, 2, 1); cx.desc = a.text() + " with " + b.text(); LSpec<2> u(a), v(b); auto P = [](int l) { return str(l); }; spec<2>(cx, zddIntersection(u, v), P, "intersection"); spec<2>(cx, zddUnion(u, v), P, "union"); spec<2>(cx, bddAnd(u, v), P, "and"); spec<2>(cx, bddOr(u, v), P, "or"); });
    s.add("wide", "levels with up to 20 states", 40, [](uint64_t x, Ctx& cx) { int w = 1 + x / 2; Table<2> t; t.n = 6; t.w = w; t.root = Table<2>::code(6, 0, w); t.ch.assign(6 * w * 2, 0); for (int l = 1; l <= 6; ++l) for (int q = 0; q < w; ++q) for (int b = 0; b < 2; ++b) t.ch[((l - 1) * w + q) * 2 + b] = l == 1 ? (q + b) % 2 : Table<2>::code(l - 1 - (x & 1 && l > 2 && (q + b) % 3 == 0), (2 * q + b) % w, w); cx.desc = str("width ", w); all<2>(cx, t, true); DdStructure<2> d = build(t); sapporo(cx, d, "wide"); });
#endif
}
