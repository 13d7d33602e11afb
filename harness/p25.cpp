// P25: exchange format import, and the bridges to the external BDD/ZBDD package (stand-in in stub/).
#include "stub/ZBDD.h"
#include <cstring>
#include <unistd.h>
#include <tdzdd/spec/GraphillionZdd.hpp>
#include <tdzdd/spec/SapporoZdd.hpp>
#include <tdzdd/spec/SapporoBdd.hpp>
#include <tdzdd/eval/ToZBDD.hpp>
#include <tdzdd/eval/ToBDD.hpp>
using namespace tdzdd; using namespace mc; using model::Canon; using model::canonOf; using model::famText; using model::FamSpec;
static Canon<2> CZ(model::ZDD), CB(model::BDD);
struct Cin { std::streambuf* old; std::istringstream is; Cin(std::string const& t) : is(t) { old = std::cin.rdbuf(is.rdbuf()); std::cin.clear(); } ~Cin() { std::cin.rdbuf(old); std::cin.clear(); } };
static void viaFile(std::string const& t, std::function<void(std::string const&)> const& f) { std::string p = str("/tmp/mc_p25_", getpid(), ".txt"); { std::ofstream o(p, std::ios::binary); o << t; } try { f(p); } catch (...) { unlink(p.c_str()); throw; } unlink(p.c_str()); }
// canonical ZDD of a family over items; item i (1-based, mask bit i-1) at level lv(i)
template<typename L> static int famCanon(int n, uint64_t fam, L const& lv) {
    int r = 0; std::vector<int> ord; for (int i = 1; i <= n; ++i) ord.push_back(i); std::sort(ord.begin(), ord.end(), [&](int a, int b) { return lv(a) > lv(b); });
    std::function<int(size_t, uint64_t)> rec = [&](size_t k, uint64_t x) -> int { if (k == ord.size()) return fam >> x & 1; int c[2] = {rec(k + 1, x), rec(k + 1, x | 1ull << (ord[k] - 1))}; return CZ.mk(lv(ord[k]), c); };
    r = rec(0, 0); return r;
}
// one dump in the exchange format: nodes of the reduced ZDD with item 1 at the top, numbered and listed in a chosen order
struct Style { int order, ids, text, first; };
static std::string dump(int f, int top, Style st, std::vector<std::array<uint64_t, 4>>* raw = nullptr) {
    std::vector<int> post; std::set<int> seen; std::function<void(int)> rec = [&](int g) { if (g < 2 || !seen.insert(g).second) return; rec(CZ.child(g, 0)); rec(CZ.child(g, 1)); post.push_back(g); }; rec(f);
    if (st.order == 1) std::reverse(post.begin(), post.end());
    if (st.order == 2) std::stable_sort(post.begin(), post.end(), [](int a, int b) { return CZ.level(a) < CZ.level(b); });
    if (st.order == 3 && post.size() > 1) std::rotate(post.begin(), post.begin() + 1, post.end());
    std::map<int, uint64_t> id; uint64_t k = 0;
    for (int g : post) { ++k; id[g] = st.ids == 0 ? k * 2 : st.ids == 1 ? 1000 - k * 7 : st.ids == 2 ? k - 1 : (post.size() - k) * 2 + 3; }
    char const* F = st.text == 1 ? "b" : "B"; char const* T = st.text == 1 ? "t" : "T"; std::string s;
    if (f < 2) s = str(f ? T : F, "\n");
    for (int g : post) {
        auto nm = [&](int c) { return c == 0 ? std::string(F) : c == 1 ? std::string(T) : str(id[c]); };
        int idx = top - CZ.level(g) + st.first;
        if (raw) raw->push_back({id[g] + 2, (uint64_t)idx, CZ.child(g, 0) < 2 ? CZ.child(g, 0) : id[CZ.child(g, 0)] + 2, CZ.child(g, 1) < 2 ? CZ.child(g, 1) : id[CZ.child(g, 1)] + 2});
        s += str(st.text == 2 ? "  " : "", id[g], " ", idx, st.text == 2 ? "\t " : " ", nm(CZ.child(g, 0)), st.text == 2 ? "   " : " ", nm(CZ.child(g, 1)), st.text == 2 ? " \n" : "\n");
    }
    if (st.text == 0 || st.text == 1) s += ".\n"; else if (st.text == 3 && !s.empty() && f >= 2) s.pop_back();   // last line without its end
    return s;
}
// the largest item mentioned becomes level 1
static int shiftDown(int f) {
    int lo = 1 << 20; std::set<int> seen; std::function<void(int)> rec = [&](int g) { if (g < 2 || !seen.insert(g).second) return; lo = std::min(lo, CZ.level(g)); rec(CZ.child(g, 0)); rec(CZ.child(g, 1)); }; rec(f);
    std::map<int, int> memo; std::function<int(int)> sh = [&](int g) -> int { if (g < 2) return g; auto it = memo.find(g); if (it != memo.end()) return it->second; int c[2] = {sh(CZ.child(g, 0)), sh(CZ.child(g, 1))}; return memo[g] = CZ.mk(CZ.level(g) - lo + 1, c); };
    return sh(f);
}
static void imported(Ctx& cx, GraphillionZdd const& g, int ref, char const* what) {
    DdStructure<2> dd(g); cx.op(); int got = canonOf(CZ, dd);
    if (got == 0 && ref == 1) cx.known("terminal-dump", str(what, ": {{}} imported as the empty family")); else
    cx.require(got == ref, "import", [&] { return str(what, ": imported ", CZ.text(got), " expected ", CZ.text(ref)); });
    cx.trace(); cx.outcome(ref);
}
static void importCase(Ctx& cx, int n, uint64_t fam, Style st, int how) {
    CZ.gc(); int f = famCanon(n, fam, [&](int i) { return n + 1 - i; }), ref = shiftDown(f);
    std::vector<std::array<uint64_t, 4>> raw; std::string t = dump(f, n, st, &raw);
    cx.desc = str("import of ", famText(n, fam), " order ", st.order, " ids ", st.ids, " text ", st.text, " first item ", st.first, " via ", how == 0 ? "standard input" : how == 1 ? "file" : "addNode", ":\n", t);
    GraphillionZdd g;
    if (how == 0) { Cin c(t); g.read(); }
    else if (how == 1) viaFile(t, [&](std::string const& p) { g.read(p); });
    imported(cx, g, ref, "read");
    { GraphillionZdd h(g); imported(cx, h, ref, "copy"); }
}
// ---- package bridges ----
static std::vector<std::vector<int>> ORD[6];
static void setOrder(int n, int o) { sapporo::S.reset(); for (int k = 1; k <= n; ++k) { int p = o == 0 ? k : o == 1 ? 1 : (k % 2 ? k : (k + 1) / 2); sapporo::newVarAt(p); } }
static std::string ordText() { std::string s; for (size_t l = 1; l < sapporo::S.varOfLev.size(); ++l) s += str(" ", sapporo::S.varOfLev[l]); return s; }
static int pkgFam(int n, uint64_t fam) {   // family over levels 1..n in the package's ZDD store
    std::function<int(int, uint64_t)> rec = [&](int l, uint64_t x) -> int { if (l == 0) return fam >> x & 1; int c[2] = {rec(l - 1, x), rec(l - 1, x | 1ull << (l - 1))}; return sapporo::S.z.mk(l, c); };
    return rec(n, 0);
}
static int pkgFun(int n, uint64_t tt) {
    std::function<int(int, uint64_t)> rec = [&](int l, uint64_t x) -> int { if (l == 0) return tt >> x & 1; int c[2] = {rec(l - 1, x), rec(l - 1, x | 1ull << (l - 1))}; return sapporo::S.b.mk(l, c); };
    return rec(n, 0);
}
static int move(Canon<2>& from, Canon<2>& to, int f, int d, bool zdrop) {   // shift levels by d; levels that vanish: keep the 0-side (ZDD)
    if (f < 2) return f; int l = from.level(f) + d;
    if (l <= 0) return zdrop ? move(from, to, from.child(f, 0), d, zdrop) : -1;
    int c[2] = {move(from, to, from.child(f, 0), d, zdrop), move(from, to, from.child(f, 1), d, zdrop)}; return to.mk(l, c);
}
static void noLeak(Ctx& cx, size_t before) { cx.require(sapporo::S.live.size() == before, "handle-leak", [&] { return str(sapporo::S.live.size(), " package handles alive, expected ", before); }); }
// SapporoZdd takes the number of a variable for a level when it drops the nodes at or below the offset
static bool confused(int id, int off) {
    std::set<int> seen; std::function<bool(int)> rec = [&](int f) { if (f < 2 || !seen.insert(f).second) return false; int l = sapporo::S.z.level(f), v = BDD_VarOfLev(l); if (l <= off && BDD_VarOfLev(v) != v) return true; return rec(sapporo::S.z.child(f, 0)) || rec(sapporo::S.z.child(f, 1)); }; return rec(id);
}
static void pkgImport(Ctx& cx, int n, uint64_t fam, int order, int off) {
    setOrder(n, order); cx.desc = str("ZBDD ", famText(n, fam), " offset ", off, " variables by level", ordText()); size_t live = sapporo::S.live.size();
    int id = pkgFam(n, fam); bool finding = off < 0 || confused(id, off); char const* key = off < 0 ? "offset-negative" : "offset-order";
    if (finding) {   // a listed finding, which may not terminate: only small cases are run, in a child
        if (n > (off < 0 ? 1 : 2)) return; int ref = move(sapporo::S.z, CZ, id, -off, true);
        int r = inChild([&] { DdStructure<2> d(SapporoZdd(ZBDD(ZBDD::Raw(), id), off)); return canonOf(CZ, d) == ref; }, 1); cx.op(); cx.trace(); if (r) cx.known(key, str("outcome ", r, " (1 wrong, 2 exception, 3 crash, 4 endless)")); return;
    }
    { int ref = move(sapporo::S.z, CZ, id, -off, true); SapporoZdd sp(ZBDD(ZBDD::Raw(), id), off);
      DdStructure<2> d(sp); cx.op(); int got = canonOf(CZ, d); cx.require(got == ref, "zbdd-import", [&] { return str("imported ", CZ.text(got), " expected ", CZ.text(ref)); }); d.zddReduce(); cx.op(); cx.require(canonOf(CZ, d) == ref && d.size() == CZ.count(ref), "zbdd-import-reduced", [&] { return "after reduction"; }); cx.trace(); }
    noLeak(cx, live); cx.outcome(fam);
}
static void pkgImportB(Ctx& cx, int n, uint64_t tt, int order, int off) {
    setOrder(n, order); cx.desc = str("BDD truth table ", tt, " on ", n, " variables, offset ", off, " variables by level", ordText()); size_t live = sapporo::S.live.size(); bool aborted = false;
    { int id = pkgFun(n, tt); bool low = false; std::function<void(int)> chk = [&](int f) { if (f < 2) return; if (sapporo::S.b.level(f) <= off) low = true; chk(sapporo::S.b.child(f, 0)); chk(sapporo::S.b.child(f, 1)); }; chk(id);
      bool threw = false; SapporoBdd sp(BDD(BDD::Raw(), id), off);
      try { DdStructure<2> d(sp); cx.op(); cx.require(!low, "bdd-offset", [&] { return "accepted although nodes lie at or below the offset"; }); int ref = move(sapporo::S.b, CB, id, -off, false), got = canonOf(CB, d); cx.require(got == ref, "bdd-import", [&] { return str("imported ", CB.text(got), " expected ", CB.text(ref)); }); }
      catch (Fail&) { throw; } catch (std::runtime_error& e) { threw = true; }
      cx.require(threw == low, "bdd-offset", [&] { return threw ? "rejected a function that lies above the offset" : "accepted"; }); cx.trace();
      aborted = threw; }
    if (aborted) sapporo::S.live.clear(); else noLeak(cx, live);   // a construction ended by an exception keeps its states
    cx.outcome(tt);
}
struct Sub : DdSpec<Sub, uint64_t, 2> { FamSpec f; int top; bool zdd; Sub(int n, uint64_t fam) : f(n, fam) {} int getRoot(uint64_t& s) const { return f.getRoot(s); } int getChild(uint64_t& s, int l, int b) const { return f.getChild(s, l, b); } };
static void exportCase(Ctx& cx, int n, uint64_t fam, int order, int pre, int off, bool reduced, bool mp) {
    setOrder(pre, order); cx.desc = str(reduced ? "reduced " : "raw ", "diagram of ", famText(n, fam), " offset ", off, ", ", pre, " variables present by level", ordText(), mp ? ", parallel" : ""); size_t live = sapporo::S.live.size();
    {
        DdStructure<2> d(FamSpec(n, fam)); d.useMultiProcessors(mp); if (reduced) d.zddReduce(); int top = d.topLevel();
        Canon<2>& pz = sapporo::S.z; ZBDD r = d.evaluate(ToZBDD(off)); cx.op();
        int want = move(CZ, pz, canonOf(CZ, d), off, true);
        cx.require(!sapporo::S.raced, "package-race", [&] { return "two threads used the external package at once"; });
        cx.require(r.h.get() == want, "zbdd-export", [&] { return str("exported ", pz.text(r.h.get()), " expected ", pz.text(want)); });
        cx.require(BDD_VarUsed() == std::max(pre, top + off), "variables", [&] { return str(BDD_VarUsed(), " package variables, expected ", std::max(pre, top + off)); });
        if (off >= 0) { DdStructure<2> back(SapporoZdd(r, off)); cx.op(); cx.require(canonOf(CZ, back) == canonOf(CZ, d), "zbdd-roundtrip", [&] { return "import of the export differs"; }); }
        cx.trace();
    }
    if (off >= 0) {
        setOrder(pre, order); DdStructure<2> d(FamSpec(n, fam)); d.useMultiProcessors(mp); if (reduced) d.bddReduce(); int top = d.topLevel();
        Canon<2>& pb = sapporo::S.b; BDD r = d.evaluate(ToBDD(off)); cx.op();
        int want = move(CB, pb, canonOf(CB, d), off, false);
        cx.require(!sapporo::S.raced, "package-race", [&] { return "two threads used the external package at once"; });
        cx.require(r.h.get() == want, "bdd-export", [&] { return str("exported ", pb.text(r.h.get()), " expected ", pb.text(want)); });
        cx.require(BDD_VarUsed() == std::max(pre, top + off), "variables", [&] { return str(BDD_VarUsed(), " package variables"); });
        DdStructure<2> back(SapporoBdd(r, off)); cx.op(); cx.require(canonOf(CB, back) == canonOf(CB, d), "bdd-roundtrip", [&] { return "import of the export differs"; });
        cx.trace();
    }
    noLeak(cx, live); cx.outcome(mix(fam, n));
}
static uint64_t fams(int n) { return n >= 6 ? 0 : 1ull << (1 << n); }
SCOPES(s) {
    (void)mcReg_; omprt::setThreads(2); omprt::setPolicy(1);
    for (int n = 0; n <= 4; ++n) {
        int styles = n <= 3 ? 4 * 4 * 4 * 2 * 2 : 4;
        s.add(str("read-n", n), str("all families on ", n, " items, node orders, numberings, text layouts, first item number, standard input and file"), fams(n) * styles, [=](uint64_t x, Ctx& cx) {
            Dec d(x); uint64_t fam = d(fams(n)); Style st; int how;
            if (n <= 3) { st.order = d(4); st.ids = d(4); st.text = d(4); st.first = d(2) ? 5 : 1; how = d(2); } else { int k = d(4); st = Style{k, (int)((fam >> 3) % 4), (int)((fam >> 5) % 4), fam & 1 ? 1 : 3}; how = 0; }
            importCase(cx, n, fam, st, how); });
        s.add(str("zbdd-n", n), str("all package families on ", n, " variables, three variable orders, offsets -2..", n + 1), fams(n) * 3 * (n + 4), [=](uint64_t x, Ctx& cx) { CZ.gc(); Dec d(x); int off = (int)d(n + 4) - 2, o = d(3); if (n == 4 && o == 2 && off) return; pkgImport(cx, n, d(fams(n)), o, off); });
        s.add(str("bdd-n", n), str("all package functions of ", n, " variables, three variable orders, offsets -2..", n), fams(n) * 3 * (n + 3), [=](uint64_t x, Ctx& cx) { CB.gc(); Dec d(x); int off = (int)d(n + 3) - 2, o = d(3); if (n == 4 && o == 2 && off) return; pkgImportB(cx, n, d(fams(n)), o, off); });
        s.add(str("export-n", n), str("all families/functions on ", n, " items exported: raw and reduced, variables already present 0..", n + 2, " in three orders, offsets -2..3, serial and two threads"), fams(n) * (n <= 3 ? 3 * (n + 3) * 6 * 4 : 6), [=](uint64_t x, Ctx& cx) {
            CZ.gc(); CB.gc(); Dec d(x); uint64_t fam = d(fams(n));
            if (n <= 3) { int o = d(3), pre = d(n + 3), off = (int)d(6) - 2; bool red = d(2), mp = d(2); exportCase(cx, n, fam, o, pre, off, red, mp); }
            else { int off = (int)d(6) - 2; exportCase(cx, n, fam, (fam >> 2) % 3, (fam >> 1) & 1 ? 0 : 6, off, fam & 1, (fam >> 4) & 1); } });
    }
}
