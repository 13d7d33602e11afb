// P29: the two CNF programs against brute force over all assignments, with a stand-in for the external BDD package.
#include "app.hpp"
#include "omprt.hpp"
#include <cerrno>
#include <climits>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <memory>
#include <unistd.h>
#include <cudd.h>
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/DdSpecOp.hpp>
#include <tdzdd/DdEval.hpp>
#include <tdzdd/util/MySet.hpp>
#include </repo/apps/cnfbdd/Cudd.hpp>
#define main appMain
namespace cb {
#include </repo/apps/cnfbdd/CnfToBdd.hpp>
#include </repo/apps/cnfbdd/CnfToBdd.cpp>
#include </repo/apps/cnfbdd/cnfbdd.cpp>
}
namespace cz {
#include </repo/apps/cnf2ztdd2bdd/CnfToZtdd.hpp>
#include </repo/apps/cnf2ztdd2bdd/ZtddToCudd.hpp>
#include </repo/apps/cnf2ztdd2bdd/CnfToZtdd.cpp>
#include </repo/apps/cnf2ztdd2bdd/cnf2ztdd2bdd.cpp>
}
#undef main
using namespace mc;
typedef std::vector<int> Cl; typedef std::vector<Cl> Cnf;
struct Tmp { std::string name; Tmp(char const* k) { name = str("/tmp/mc_p29_", (long)getpid(), "_", k); } Tmp(char const* k, std::string const& text) : Tmp(k) { std::ofstream o(name.c_str()); o << text; } ~Tmp() { unlink(name.c_str()); } };
static std::string text(int n, Cnf const& f, int style) {   // layouts of one formula
    std::string sp = style & 1 ? "  " : " ", nl = style & 2 ? " " : "\n", t; if (style & 4) t = "c a comment\nc p cnf\n";
    t += str("p cnf ", n, " ", f.size(), "\n"); for (size_t j = 0; j < f.size(); ++j) { if (style & 1) t += " "; for (int x : f[j]) t += str(x) + sp; t += "0"; if (j + 1 < f.size()) t += nl; } if (!(style & 8)) t += "\n"; return t;
}
static bool holds(Cnf const& f, unsigned a) { for (auto& c : f) { bool ok = false; for (int x : c) if (x > 0 ? a >> (x - 1) & 1 : !(a >> (-x - 1) & 1)) ok = true; if (!ok) return false; } return true; }
static std::set<unsigned> solutions(int n, Cnf const& f) { std::set<unsigned> r; for (unsigned a = 0; a < 1u << n; ++a) if (holds(f, a)) r.insert(a); return r; }
static std::set<std::set<int>> clauses(Cnf const& f) { std::set<std::set<int>> r; for (auto& c : f) { std::set<int> s(c.begin(), c.end()); bool t = false; for (int x : s) if (s.count(-x)) t = true; if (!t) r.insert(s); } return r; }
// option sets of cnfbdd: reachability analysis x sorting x clause mapping x parallel
static const char* REACH[] = {"", "-n", "-b", "1", "2", "4", "7", "0"};
static const int NOPT = 8 * 8;
static std::vector<std::string> options(int k) { std::vector<std::string> av; int r = k % 8; if (*REACH[r]) { if (REACH[r][0] != '-') av.push_back("-limit"); av.push_back(REACH[r]); } if (k & 8) av.push_back("-s"); if (k & 16) av.push_back("-c"); if (k & 32) av.push_back("-p"); return av; }
static app::Run call(bool z, std::vector<std::string> const& av, std::string const& in, Ctx& cx) {
    (z ? cz::opt : cb::opt).clear(); (z ? cz::optNum : cb::optNum).clear(); (z ? cz::infile : cb::infile).clear(); (z ? cz::outfile : cb::outfile).clear(); long br = cuddstub::badRefs, lr = cuddstub::liveRefs; cuddstub::busy = cuddstub::raced = false;
    auto r = app::run(z ? cz::appMain : cb::appMain, av, in); tdzdd::MessageHandler::showMessages(false); cx.op();
    cx.require(!cuddstub::raced, "concurrent", [&] { return "two threads inside the external package at once"; });
    cx.require(cuddstub::badRefs == br, "handle", [&] { return str(cuddstub::badRefs - br, " uses of package nodes that are not referenced"); });
    cx.require(cuddstub::liveRefs == lr, "leak", [&] { return str(cuddstub::liveRefs - lr, " package references never given back"); });
    return r;
}
static void evalDot(Ctx& cx, std::string const& out, int n, std::set<unsigned> const& want, std::string const& title, bool state) {   // a dumped BDD as a function
    auto g = dot::parse(out, 2); cx.require(g.title == title, "dump-title", [&] { return g.title; }); std::map<std::string, std::string> ch[2]; for (auto& e : g.edges) ch[e.b][e.src] = e.dst;
    std::map<std::string, int> lev; for (auto& r : g.rank) for (auto& x : r.second) lev[x] = r.first; if (g.root.empty()) { if (state) return; }
    for (unsigned a = 0; a < 1u << n; ++a) { std::string p = g.root; int last = n + 1; while (!p.empty() && p != g.top && p != "$") { auto it = lev.find(p); cx.require(it != lev.end() && it->second < last && it->second >= 1, "dump", [&] { return "node " + p + " in\n" + out; }); last = it->second; int v = n - last; auto& c = ch[a >> v & 1]; auto e = c.find(p); p = e == c.end() ? "" : e->second; } bool one = g.root.empty() ? !g.top.empty() && want.size() == 1u << n : !p.empty(); cx.require(one == (want.count(a) > 0), "dump", [&] { return str("assignment ", a, " evaluates to ", one, " in the dumped diagram"); }); }
}
static void answers(Ctx& cx, std::string const& out, int n, std::set<unsigned> const& want) {
    std::istringstream in(out); std::string l; std::set<unsigned> got;
    while (std::getline(in, l)) { std::istringstream q(l); std::string w; unsigned a = 0; int i = 0; while (q >> w) { ++i; cx.require(w == str("+", i) || w == str("-", i), "syntax", [&] { return "answer line " + l; }); if (w[0] == '+') a |= 1u << (i - 1); } cx.require(i == n, "syntax", [&] { return "answer line " + l; }); cx.require(got.insert(a).second, "twice", [&] { return "answer printed twice: " + l; }); cx.require(want.count(a) > 0, "wrong", [&] { return "printed but no solution: " + l; }); }
    for (unsigned a : want) cx.require(got.count(a) > 0, "missing", [&] { std::string s; for (int i = 0; i < n; ++i) s += str(a >> i & 1 ? " +" : " -", i + 1); return "solution not printed:" + s; });
}
// mode: 0 answers to stdout, 1 answers to a file, 2 dump of the final diagram, 3 dump before reduction, 4 state graph, 5 formula
static void check(Ctx& cx, int n, Cnf const& f, bool z, int opts, int mode, int style) {
    std::vector<std::string> av; if (!z) av = options(opts); if (mode == 2) av.push_back("-dump"); if (mode == 3) av.push_back("-dd1"); if (mode == 4) av.push_back(z ? "-dd2" : "-dd0"); if (mode == 5) av.push_back(z ? "-dd0" : "-cnf");
    std::string in = text(n, f, style); std::unique_ptr<Tmp> fi, fo; if (style & 16) { fi.reset(new Tmp("i", in)); av.push_back(fi->name); } else av.push_back("-"); if (mode == 0) av.push_back("-"); if (mode == 1) { fo.reset(new Tmp("o")); av.push_back(fo->name); }
    cx.desc = (z ? "cnf2ztdd2bdd" : "cnfbdd") + app::join(av) + "\ninput:\n" + in; auto want = solutions(n, f); auto r = call(z, av, fi ? "" : in, cx); cx.trace();
    cx.require(r.rc == 0, "exit", [&] { return str("exit code ", r.rc, "\n", r.err); });
    cx.require(app::field(r.err, "#solution = ") == str(want.size()), "count", [&] { return str("reports ", app::field(r.err, "#solution = "), " solutions, there are ", want.size()); });
    cx.require(app::field(r.err, "#var = ") == str(n), "header", [&] { return r.err; });
    if (z) { auto cs = clauses(f); size_t q = r.err.rfind("#clause = "); cx.require(app::field(r.err, "#clause = ", q) == str(cs.size()), "clauses", [&] { return str("reports ", app::field(r.err, "#clause = ", q), " clauses, there are ", cs.size()); }); }
    if (mode == 0) answers(cx, r.out, n, want);
    if (mode == 1) { std::ifstream i(fo->name.c_str()); std::stringstream b; b << i.rdbuf(); answers(cx, b.str(), n, want); }
    if (mode == 2) evalDot(cx, r.out, n, want, "BDD", false);
    if (mode == 3 && !z) evalDot(cx, r.out, n, want, "dd1", false);
    if (mode == 4 && !z) evalDot(cx, r.out, n, want, "dd0", true);
    if (z && mode >= 3) {   // the diagram of the clause set: branch 1 is the negative, branch 2 the positive literal
        auto g = dot::parse(r.out, 3); std::map<std::string, std::string> ch[3]; for (auto& e : g.edges) ch[e.b][e.src] = e.dst; std::map<std::string, int> lev; for (auto& q : g.rank) for (auto& x : q.second) lev[x] = q.first; std::multiset<std::set<int>> got; std::set<int> cur;
        std::function<void(std::string const&)> rec = [&](std::string const& p) { if (p == g.top || p == "$") { got.insert(cur); return; } cx.require(lev.count(p), "dump", [&] { return "node " + p + " in\n" + r.out; }); int v = n - lev[p] + 1; for (int b = 0; b < 3; ++b) { auto e = ch[b].find(p); if (e == ch[b].end()) continue; int x = b == 1 ? -v : v; if (b) cur.insert(x); rec(e->second); if (b) cur.erase(x); } };
        if (!g.root.empty()) rec(g.root); auto cs = clauses(f); cx.require(got == std::multiset<std::set<int>>(cs.begin(), cs.end()), "dump", [&] { return "clauses in the dumped diagram differ:\n" + r.out; });
    }
    if (!z && mode == 5) {   // every clause is drawn with its literals
        std::map<int, std::set<int>> rows; std::istringstream i(r.out); std::string l; while (std::getline(i, l)) { int j, v; if (sscanf(l.c_str(), "  c%d_%d [label=", &j, &v) == 2 && v > 0 && l.find(" [label=\"") != std::string::npos) { size_t p = l.find("label=\""); std::string q = l.substr(p + 7, l.find('"', p + 7) - p - 7); rows[j]; if (!q.empty()) { int x = atoi(q.c_str()); cx.require(std::abs(x) == v, "cnf-dump", [&] { return l; }); rows[j].insert(x); } } }
        std::multiset<std::set<int>> got, ws; for (auto& x : rows) got.insert(x.second); for (auto& c : f) { std::set<int> s(c.begin(), c.end()); bool t = false; for (int x : s) if (s.count(-x)) t = true; if (!t) ws.insert(s); } bool sorted = opts & 8; std::set<std::set<int>> a(got.begin(), got.end()), b(ws.begin(), ws.end()); cx.require(sorted ? a == b && got.size() <= ws.size() : got == ws, "cnf-dump", [&] { return "clauses drawn differ:\n" + r.out; });
    }
    cx.outcome(mix(want.size() * 64 + n, want.empty() ? 0 : *want.begin() + 7));
}
static Cl clause(int n, int k) { Cl c; ++k; for (int i = 1; i <= n; ++i, k /= 3) if (k % 3) c.push_back(k % 3 == 1 ? i : -i); return c; }   // k in [0, 3^n-1)
static int nclauses(int n) { int r = 1; while (n--) r *= 3; return r - 1; }
static Cnf seq(int n, int k, uint64_t x) { Cnf f; int N = nclauses(n); for (; k; --k, x /= N) f.push_back(clause(n, (int)(x % N))); return f; }
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
static uint64_t nmulti(int N, int k) { uint64_t r = 1; for (int i = 1; i <= k; ++i) r = r * (N + i - 1) / i; return r; }
static Cnf multi(int n, int k, uint64_t x) { Cnf f; int N = nclauses(n), lo = 0; for (; k; --k) { while (true) { uint64_t c = nmulti(N - lo, k - 1); if (x < c) break; x -= c; ++lo; } f.push_back(clause(n, lo)); } return f; }
static void both(Ctx& cx, int n, Cnf const& f, int o, uint64_t x) { check(cx, n, f, true, 0, (int)(x % 6), (int)(x % 31)); check(cx, n, f, false, o, (int)(x / 7 % 6), (int)(x % 29)); }
static void permute(Cnf& f, uint64_t p) { for (size_t i = f.size(); i > 1; --i) { std::swap(f[i - 1], f[p % i]); p /= i; } }
// the wrapper's operations on functions of 3 variables (truth tables of 8 bits, variable i at level i)
static Cudd make(unsigned tt, int n = 3) { std::function<Cudd(unsigned, int)> rec = [&](unsigned a, int i) -> Cudd { if (i == 0) return Cudd((int)(tt >> a & 1)); Cudd f0 = rec(a, i - 1), f1 = rec(a | 1u << (i - 1), i - 1); return Cudd(i, f0, f1); }; return rec(0, n); }
static unsigned value(Cudd f, int n = 3) { unsigned t = 0; for (unsigned a = 0; a < 1u << n; ++a) { Cudd p = f; while (!p.isConstant()) p = p.child(a >> (p.level() - 1) & 1); if (p == 1) t |= 1u << a; } return t; }
static unsigned exist(unsigned t, unsigned vars) { for (int i = 0; i < 3; ++i) if (vars >> i & 1) { unsigned r = 0; for (unsigned a = 0; a < 8; ++a) if ((t >> a & 1) | (t >> (a ^ 1u << i) & 1)) r |= 1u << a; t = r; } return t; }
static unsigned dep(unsigned t) { unsigned r = 0; for (int i = 0; i < 3; ++i) for (unsigned a = 0; a < 8; ++a) if ((t >> a & 1) != (t >> (a ^ 1u << i) & 1)) r |= 1u << i; return r; }
static Cudd cube(unsigned vars) { Cudd c(1); for (int i = 0; i < 3; ++i) if (vars >> i & 1) c &= Cudd(i + 1, 0, 1); return c; }
static void wrapper(Ctx& cx, unsigned a, unsigned b) {
    long br = cuddstub::badRefs, lr = cuddstub::liveRefs; cuddstub::busy = cuddstub::raced = false; cx.desc = str("Cudd wrapper on the functions ", a, " and ", b, " of 3 variables (truth tables)");
    auto is = [&](Cudd const& f, unsigned t, char const* what) { cx.op(); cx.require(!f.isNull() && value(f) == (t & 255), "wrapper", [&] { return str(what, " gives ", f.isNull() ? -1 : (int)value(f), ", expected ", t & 255); }); };
    auto yes = [&](bool g, bool w, char const* what) { cx.op(); cx.require(g == w, "wrapper", [&] { return str(what, " answers ", g); }); };
    { Cudd f = make(a), g = make(b), c = make(a ^ b);
      is(f, a, "construction"); is(~f, ~a, "complement"); is(f & g, a & b, "and"); is(f | g, a | b, "or"); is(f ^ g, a ^ b, "xor"); is(f.ite(g, c), (a & b) | (~a & (a ^ b)), "ite"); is(f, a, "operand"); is(g, b, "operand");
      { Cudd h = f; h &= g; is(h, a & b, "and-assignment"); h = f; h |= g; is(h, a | b, "or-assignment"); h = f; h ^= g; is(h, a ^ b, "xor-assignment"); h = h; is(h, a ^ b, "self-assignment"); Cudd n; yes(n.isNull(), true, "isNull"); h = n; yes(h.isNull(), true, "assignment of an empty handle"); h = g; is(h, b, "assignment"); }
      yes(f == g, a == b, "=="); yes(f != g, a != b, "!="); yes(f == 1, a == 255, "== 1"); yes(f == 0, a == 0, "== 0"); yes(f != 1, a != 255, "!= 1"); yes(f != 0, a != 0, "!= 0"); yes(f < g || g < f, a != b, "<"); yes(f.contains(g), (b & ~a) == 0, "contains"); yes(f.intersects(g), (a & b) != 0, "intersects"); yes(f.isConstant(), a == 0 || a == 255, "isConstant");
      unsigned s = dep(a); yes(f.level() == (s & 4 ? 3 : s & 2 ? 2 : s & 1 ? 1 : 0), true, "level"); is(f.support(), value(cube(s)), "support"); yes((long)f.countMinterm(3) == __builtin_popcount(a), true, "countMinterm");
      for (unsigned v = 0; v < 8; ++v) { Cudd q = cube(v); is(f.abstract(q), exist(a, v), "abstract"); is(f.andAbstract(g, q), exist(a & b, v), "andAbstract"); }
      if (b) { Cudd k = f.cofactor(g); yes((value(k) & b) == (a & b), true, "cofactor"); k = f.minimize(g); yes((value(k) & b) == (a & b), true, "minimize"); }
      { std::vector<Cudd> v(4); v[2] = g; unsigned t = 0; for (unsigned x = 0; x < 8; ++x) { unsigned y = (x & 5) | (b >> x & 1) << 1; if (a >> y & 1) t |= 1u << x; } is(f.compose(v), t, "compose"); }
      { tdzdd::DdStructure<2> dd(f); unsigned t = 0; cx.require(true, "", [] { return std::string(); }); dd.bddReduce(); for (unsigned x = 0; x < 8; ++x) { tdzdd::NodeId r; int l = dd.getRoot(r); while (l > 0) l = dd.getChild(r, l, x >> (l - 1) & 1); if (l < 0) t |= 1u << x; } cx.require(t == a, "spec", [&] { return str("diagram built from the wrapper computes ", t); }); cx.require(dd.evaluate(tdzdd::BddCardinality<>(3)) == str(__builtin_popcount(a)), "spec", [&] { return std::string("cardinality"); }); }
    }
    cx.trace(); cx.require(cuddstub::badRefs == br, "handle", [&] { return str(cuddstub::badRefs - br, " uses of package nodes that are not referenced"); }); cx.require(cuddstub::liveRefs == lr, "leak", [&] { return str(cuddstub::liveRefs - lr, " package references never given back"); }); cx.outcome(a * 256 + b);
}
SCOPES(s) {
    (void)mcReg_; std::ios::sync_with_stdio(false); omprt::setThreads(2); omprt::setPolicy(1);
    for (int n = 1; n <= 2; ++n) for (int k = 1; k <= (n == 1 ? 4 : 3); ++k) s.add(str("all-", n, "-", k), str("every sequence of ", k, " clauses over ", n, " variables under all 64 option sets, six kinds of output, both programs"), ipow(nclauses(n), k) * NOPT * 6, [n, k](uint64_t x, Ctx& cx) { Dec d(x); int o = d(NOPT), m = d(6); Cnf f = seq(n, k, d.x); check(cx, n, f, false, o, m, (int)(x % 29)); if (o == 0) check(cx, n, f, true, 0, m, (int)(x % 31)); });
    s.add("seq-2-4", "every sequence of 4 clauses over 2 variables, option sets and outputs rotating", ipow(8, 4) * 8, [](uint64_t x, Ctx& cx) { Dec d(x); int o = d(8) * 8; Cnf f = seq(2, 4, d.x); both(cx, 2, f, (o + (int)(x / 8 % 61)) % NOPT, x); });
    s.add("seq-3-1", "every clause over 3 variables under all 64 option sets, six kinds of output", 26 * NOPT * 6, [](uint64_t x, Ctx& cx) { Dec d(x); int o = d(NOPT), m = d(6); Cnf f = seq(3, 1, d.x); check(cx, 3, f, false, o, m, (int)(x % 29)); if (o < 2) check(cx, 3, f, true, 0, m, (int)(x % 31)); });
    s.add("seq-3-2", "every pair of clauses over 3 variables under all 64 option sets, outputs rotating", 26 * 26 * NOPT, [](uint64_t x, Ctx& cx) { Dec d(x); int o = d(NOPT); Cnf f = seq(3, 2, d.x); both(cx, 3, f, o, x / 5); });
    s.add("seq-3-3", "every sequence of 3 clauses over 3 variables, four option sets each, outputs rotating", ipow(26, 3) * 4, [](uint64_t x, Ctx& cx) { Dec d(x); int o = d(4); Cnf f = seq(3, 3, d.x); both(cx, 3, f, (o * 16 + (int)(x % 53)) % NOPT, x); });
    s.add("set-3-4", "every multiset of 4 clauses over 3 variables in rotating order, two option sets each", nmulti(26, 4) * 2, [](uint64_t x, Ctx& cx) { Cnf f = multi(3, 4, x / 2); permute(f, x % 23); both(cx, 3, f, (int)(x % 61 + 3 * (x & 1)) % NOPT, x); });
    s.add("seq-4-2", "every pair of clauses over 4 variables, two option sets each", 6400 * 2, [](uint64_t x, Ctx& cx) { Cnf f = seq(4, 2, x / 2); both(cx, 4, f, (int)(x % 61 + 3 * (x & 1)) % NOPT, x); });
    s.add("set-4-3", "every multiset of 3 clauses over 4 variables in rotating order, option sets rotating", nmulti(80, 3), [](uint64_t x, Ctx& cx) { Cnf f = multi(4, 3, x); permute(f, x % 5); both(cx, 4, f, (int)(x % 61), x); });
    s.add("window", "formulas over 7 variables: every pair of 3-variable clause patterns, each shifted to all positions, option sets rotating", 26 * 26 * 16, [](uint64_t x, Ctx& cx) { Dec d(x); int o = d(16); Cl a = clause(3, (int)d(26)), b = clause(3, (int)d(26)); Cnf f; auto put = [&](Cl c, int i) { for (int& y : c) y += y > 0 ? i : -i; f.push_back(c); }; for (int i = 0; i < 5; ++i) { if (o & 1) { put(a, i); put(b, i); } else { put(b, 4 - i); put(a, i); } } both(cx, 7, f, (int)(o * 4 + x % 7) % NOPT, x); });
    s.add("long", "formulas over 6 variables: every pair of clause patterns over the odd and the even variables and one long clause (wide frontiers), option sets rotating", 26 * 26 * 16, [](uint64_t x, Ctx& cx) { Dec d(x); int o = d(16); Cl a = clause(3, (int)d(26)), b = clause(3, (int)d(26)); Cnf f; for (int& y : a) y += y > 0 ? y - 1 : y + 1; for (int& y : b) y += y; f = {a, b, {1, -3, 6}, {-1, 2, -4, 6}, {2, 3, 4, 5}, {-2, -5}, a}; permute(f, o * 37 + x % 11); both(cx, 6, f, (int)(o * 4 + x % 7) % NOPT, x); });
    s.add("literals", "every sequence of up to 4 literals over 2 variables as a clause (repetitions, both signs, any order) alone and next to a second clause, all 64 option sets", (4 + 16 + 64 + 256) * 3 * NOPT, [](uint64_t x, Ctx& cx) { Dec d(x); int o = d(NOPT), q = d(3); uint64_t y = d.x; int len = 1; for (uint64_t w = 4; y >= w; w *= 4) { y -= w; ++len; } Cl c; for (int i = 0; i < len; ++i, y /= 4) c.push_back((int)(y % 4) < 2 ? (int)(y % 4) + 1 : -((int)(y % 4) - 1)); Cnf f{c}; if (q == 1) f.push_back({-1, 2}); if (q == 2) f.insert(f.begin(), Cl{2, 2, -1}); both(cx, 2, f, o, x / 3); });
    s.add("input", "every damage of a small input: header missing or short, clauses too many, too few, out of range; unknown options; missing files", 2 * 26 * 12, [](uint64_t x, Ctx& cx) {
        Dec d(x); bool z = d(2); int kind = d(12); Cnf f{clause(3, (int)d(26)), {1, 2}}; std::string t = text(3, f, 0), body = t.substr(t.find('\n') + 1); std::vector<std::string> av{"-"}; bool ok = false;
        switch (kind) { case 0: t = body; break; case 1: t = "p cnf 3 1\n" + body; break; case 2: t = "p cnf 3 3\n" + body; break; case 3: t = "p cnf 2 3\n" + body + "3 0\n"; break; case 4: t = "p cnf 3\n" + body; break; case 5: t = "p cnf 0 2\n" + body; break; case 6: t = "p cnf 3 0\n"; break; case 7: av = {"-zzz", "-"}; break; case 8: av = {}; break; case 9: av = {"-", "a", "b"}; break; case 10: av = {"/tmp/mc_p29_none/x"}; break; default: t = "c x\n\nc y\n" + t; ok = true; }
        if (kind == 9) av[1] = "/tmp/mc_p29_none/a"; cx.desc = (z ? "cnf2ztdd2bdd" : "cnfbdd") + app::join(av) + "\ninput:\n" + t; auto r = call(z, av, t, cx); cx.trace(); cx.require(r.rc == (ok ? 0 : 1), "refuse", [&] { return str("exit code ", r.rc, ok ? " for good input" : " for bad input"); }); cx.outcome(x); });
    s.add("wrapper", "every pair of functions of 3 variables through every operation of the package wrapper", 65536, [](uint64_t x, Ctx& cx) { wrapper(cx, (unsigned)(x & 255), (unsigned)(x >> 8)); });
    s.addT("T-set-3-5", "every multiset of 5 clauses over 3 variables in rotating order, two option sets each", nmulti(26, 5) * 2, [](uint64_t x, Ctx& cx) { Cnf f = multi(3, 5, x / 2); permute(f, x % 113); both(cx, 3, f, (int)(x % 61 + 3 * (x & 1)) % NOPT, x); });
    s.addT("T-set-3-6", "every multiset of 6 clauses over 3 variables in rotating order", nmulti(26, 6), [](uint64_t x, Ctx& cx) { Cnf f = multi(3, 6, x); permute(f, x % 719); both(cx, 3, f, (int)(x % 61), x); });
    s.addT("T-seq-3-3", "every sequence of 3 clauses over 3 variables under all 64 option sets", ipow(26, 3) * NOPT, [](uint64_t x, Ctx& cx) { Dec d(x); int o = d(NOPT); Cnf f = seq(3, 3, d.x); both(cx, 3, f, o, x / 3); });
    s.addT("T-seq-4-3", "every sequence of 3 clauses over 4 variables, option sets rotating", ipow(80, 3), [](uint64_t x, Ctx& cx) { both(cx, 4, seq(4, 3, x), (int)(x % 61), x); });
}
