// P26: the queens application: its specifications and its program.
#include "model.hpp"
#include "app.hpp"
#include <cerrno>
#include <fstream>
#include <iomanip>
#include </repo/apps/ddqueens/ColoredZdd.hpp>
#include </repo/apps/ddqueens/NAryZdd.hpp>
#include </repo/apps/ddqueens/NQueenZdd.hpp>
#include </repo/apps/ddqueens/ZddInterleave.hpp>
namespace q {
#define main appMain
#include </repo/apps/ddqueens/ddqueens.cpp>
#undef main
}
using namespace mc; using model::FamSpec; using model::famText; using tdzdd::DdStructure; using tdzdd::NodeId;
typedef std::set<std::vector<int>> Fam;   // sets of levels, descending
static Fam famOf(DdStructure<2> const& dd) {
    Fam r; std::vector<int> cur; std::function<void(NodeId)> rec = [&](NodeId f) { if (f == 0) return; if (f == 1) { if (!r.insert(cur).second) throw Fail("duplicate", "one set on two paths"); return; } rec(dd.child(f, 0)); cur.push_back(f.row()); rec(dd.child(f, 1)); cur.pop_back(); };
    rec(dd.root()); return r;
}
static std::string fs(Fam const& f) { std::string s = str(f.size(), " sets:"); int k = 0; for (auto& v : f) { if (++k > 6) break; s += " {"; for (int x : v) s += str(x, " "); s += "}"; } return s; }
static void same(Ctx& cx, Fam const& got, Fam const& ref, char const* what) { cx.require(got == ref, "family", [&] { return str(what, ": ", fs(got), " expected ", fs(ref)); }); cx.op(); cx.outcome(ref.size()); }
// brute force over permutations-with-repetition: row i takes column c[i]; level of (i, j) is i*n+j+1
static Fam boards(int n, bool rook, int firstCol = -1) {
    Fam r; std::vector<int> c(n); std::function<void(int)> rec = [&](int i) {
        if (i < 0) { std::vector<int> v; for (int k = n - 1; k >= 0; --k) v.push_back(k * n + c[k] + 1); r.insert(v); return; }
        for (int j = 0; j < n; ++j) { if (i == n - 1 && firstCol >= 0 && j != n - 1 - firstCol) continue; bool ok = true; for (int k = i + 1; k < n && ok; ++k) ok = c[k] != j && (rook || std::abs(c[k] - j) != k - i); if (ok) { c[i] = j; rec(i - 1); } } };
    rec(n - 1); return r;
}
// colourings of the board: every colour class is a placement; top row cell j has colour top(j); level of (i, j, k) is (i*n+j)*n+k+1
static Fam coloured(int n, bool rook, bool mirror) {
    Fam r; std::vector<int> col(n * n, -1); std::vector<std::vector<int>> place; for (auto& b : boards(n, rook)) { std::vector<int> v; for (int l : b) v.push_back(l - 1); place.push_back(v); }
    std::function<void(int)> rec = [&](int k) {
        if (k == n) { std::vector<int> v; for (int x = n * n - 1; x >= 0; --x) v.push_back(x * n + col[x] + 1); r.insert(v); return; }
        int j = mirror ? n - 1 - k : k;
        for (auto& p : place) { bool ok = p[0] == (n - 1) * n + j; for (int x : p) if (col[x] >= 0) ok = false; if (!ok) continue; for (int x : p) col[x] = k; rec(k + 1); for (int x : p) col[x] = -1; } };
    rec(0); return r;
}
template<typename SPEC> static void spec(Ctx& cx, SPEC const& sp, Fam const& ref, char const* what) {
    for (int th = 0; th <= 3; ++th) { if (th) omprt::setThreads(th); DdStructure<2> d(sp, th > 0); same(cx, famOf(d), ref, what); d.zddReduce(); same(cx, famOf(d), ref, "reduced"); cx.trace(); }
    { DdStructure<2> d(zddLookahead(sp)); same(cx, famOf(d), ref, "with lookahead"); }
}
static Fam digits(int arity, int len, bool hot) {
    Fam r; int m = hot ? arity : arity - 1; std::vector<int> cur; std::function<void(int)> rec = [&](int i) { if (i < 0) { r.insert(cur); return; } for (int v = hot ? 1 : 0; v <= m; ++v) { if (v) cur.push_back(i * m + v); rec(i - 1); if (v) cur.pop_back(); } }; rec(len - 1); return r;
}
// interleaving of k families over n items: item i of family k at level (i-1)*K+k+1
static Fam interleaved(std::vector<uint64_t> const& fam, int n, bool hotOnly) {
    Fam r; int K = fam.size(); std::vector<uint64_t> sel(K); std::function<void(int)> rec = [&](int k) {
        if (k == K) { if (hotOnly) for (int i = 0; i < n; ++i) { int c = 0; for (auto x : sel) c += x >> i & 1; if (c != 1) return; } std::vector<int> v; for (int i = n; i >= 1; --i) for (int j = K - 1; j >= 0; --j) if (sel[j] >> (i - 1) & 1) v.push_back((i - 1) * K + j + 1); r.insert(v); return; }
        for (uint64_t x = 0; x < (1ull << n); ++x) if (fam[k] >> x & 1) { sel[k] = x; rec(k + 1); } };
    rec(0); return r;
}
static void famCase(Ctx& cx, std::vector<uint64_t> const& fam, int n, int variant) {
    cx.desc = "families"; for (auto f : fam) cx.desc += " " + famText(n, f); int K = fam.size();
    std::vector<DdStructure<2>> dds; for (int k = 0; k < K; ++k) { dds.push_back(DdStructure<2>(FamSpec(n, fam[k]))); if (variant & 1) dds.back().zddReduce(); }
    Fam ri = interleaved(fam, n, false), rc = interleaved(fam, n, true); cx.trace();
    { ZddInterleave z(dds); same(cx, famOf(DdStructure<2>(z)), ri, "interleaved"); ZddInterleave y(z); same(cx, famOf(DdStructure<2>(y)), ri, "copied"); }
    DdStructure<2> oh(OneHotNAryZdd(K, n));
    { ColoredZdd c(dds); DdStructure<2> d(oh); d.zddSubset(c); same(cx, famOf(d), rc, "coloured subset of one-hot"); d.zddReduce(); same(cx, famOf(d), rc, "reduced"); same(cx, famOf(DdStructure<2>(zddIntersection(oh, c))), rc, "coloured and one-hot"); }
    if (variant == 0) {
        std::vector<uint64_t> rep(K, fam[0]); Fam r2 = interleaved(rep, n, false), c2 = interleaved(rep, n, true); same(cx, famOf(DdStructure<2>(ZddInterleave(dds[0], K))), r2, "one family repeated");
        { ColoredZdd c(dds[0], K); DdStructure<2> d(oh); d.zddSubset(c); same(cx, famOf(d), c2, "one family repeated, coloured"); }
        for (int pos = 0; pos < K; ++pos) { if (dds[0].topLevel() != n) break; std::vector<uint64_t> one(K, n == 6 ? ~0ull : (1ull << (1 << n)) - 1); one[pos] = fam[0]; Fam r3 = interleaved(one, n, false); same(cx, famOf(DdStructure<2>(ZddInterleave(dds[0], K, pos))), r3, "one position"); std::unique_ptr<ZddInterleave> o(new ZddInterleave(dds[0], K, pos)); ZddInterleave copy(*o); o.reset(); same(cx, famOf(DdStructure<2>(copy)), r3, "one position, copy outliving its original"); }
    }
}
SCOPES(s) {
    (void)mcReg_; omprt::setThreads(2); omprt::setPolicy(1);
    s.add("queens", "board sizes 1-7, unrestricted and every first column, queens and rooks (rooks to 6), serial and 1-3 threads", 7 * 8 * 2, [](uint64_t x, Ctx& cx) {
        Dec d(x); int rook = d(2), n = d(7) + 1, fc = (int)d(8) - 1; if (fc >= n || (rook && n > 6)) return; cx.desc = str(rook ? "rooks" : "queens", " size ", n, " first column ", fc); Fam ref = boards(n, rook, fc);
        if (rook) { if (fc < 0) spec(cx, NRookZdd(n), ref, "NRookZdd"); else spec(cx, NRookZdd(n, fc), ref, "NRookZdd"); } else { if (fc < 0) spec(cx, NQueenZdd(n), ref, "NQueenZdd"); else spec(cx, NQueenZdd(n, fc), ref, "NQueenZdd"); } });
    s.add("queens-large", "board sizes 8-9 (queens), 7 (rooks)", 3, [](uint64_t x, Ctx& cx) { int n = x == 0 ? 8 : x == 1 ? 9 : 7; cx.desc = str(x == 2 ? "rooks " : "queens ", n); if (x == 2) same(cx, famOf(DdStructure<2>(NRookZdd(n))), boards(n, true), "NRookZdd"); else same(cx, famOf(DdStructure<2>(NQueenZdd(n))), boards(n, false), "NQueenZdd"); cx.trace(); }, 1, 120);
    s.addT("queens-deep", "board sizes 10-11 (queens), 8 (rooks)", 3, [](uint64_t x, Ctx& cx) { int n = x == 0 ? 10 : x == 1 ? 11 : 8; cx.desc = str(x == 2 ? "rooks " : "queens ", n); if (x == 2) same(cx, famOf(DdStructure<2>(NRookZdd(n))), boards(n, true), "NRookZdd"); else same(cx, famOf(DdStructure<2>(NQueenZdd(n))), boards(n, false), "NQueenZdd"); cx.trace(); }, 1, 300);
    s.add("colour", "coloured boards of size 1-7 (queens) and 1-4 (rooks)", 7 + 4, [](uint64_t x, Ctx& cx) { bool rook = x >= 7; int n = rook ? x - 6 : x + 1; cx.desc = str("coloured ", rook ? "rooks " : "queens ", n); Fam ref = coloured(n, rook, false); if (rook) spec(cx, ColoredNRookZdd(n), ref, "ColoredNRookZdd"); else spec(cx, ColoredNQueenZdd(n), ref, "ColoredNQueenZdd"); }, 1, 120);
    s.add("colour-large", "coloured rooks of size 5", 1, [](uint64_t, Ctx& cx) { cx.desc = "coloured rooks 5"; same(cx, famOf(DdStructure<2>(ColoredNRookZdd(5))), coloured(5, true, false), "ColoredNRookZdd"); cx.trace(); }, 1, 200);
    s.add("digits", "digit strings: arity 2-6, length 1-6, at most one and exactly one mark per digit", 5 * 6 * 2, [](uint64_t x, Ctx& cx) { Dec d(x); int hot = d(2), ar = d(5) + 2, len = d(6) + 1; if (std::pow(ar, len) > 20000) return; cx.desc = str(hot ? "one-hot" : "plain", " arity ", ar, " length ", len); if (hot) spec(cx, OneHotNAryZdd(ar, len), digits(ar, len, true), "OneHotNAryZdd"); else spec(cx, NAryZdd(ar, len), digits(ar, len, false), "NAryZdd"); });
    s.add("hot1", "one-hot strings of arity 1", 6, [](uint64_t x, Ctx& cx) { cx.desc = str("one-hot arity 1 length ", x + 1); spec(cx, OneHotNAryZdd(1, x + 1), digits(1, x + 1, true), "OneHotNAryZdd"); });
    s.add("interleave-1", "all families on up to 3 items, one family", 256 + 16 + 4, [](uint64_t x, Ctx& cx) { int n = x < 4 ? 1 : x < 20 ? 2 : 3; uint64_t f = x < 4 ? x : x < 20 ? x - 4 : x - 20; famCase(cx, {f}, n, 0); famCase(cx, {f}, n, 1); });
    s.add("interleave-2", "all pairs of families on 2 items, raw and reduced", 256 * 2, [](uint64_t x, Ctx& cx) { Dec d(x); int v = d(2); uint64_t a = d(16), b = d(16); famCase(cx, {a, b}, 2, v); });
    s.add("interleave-3", "all triples of families on 2 items, raw and reduced", 4096 * 2, [](uint64_t x, Ctx& cx) { Dec d(x); int v = d(2); uint64_t a = d(16), b = d(16), c = d(16); famCase(cx, {a, b, c}, 2, v); });
    s.add("interleave-2x3", "all pairs of families on 3 items, raw and reduced", 65536 * 2, [](uint64_t x, Ctx& cx) { Dec d(x); int v = d(2); uint64_t a = d(256), b = d(256); famCase(cx, {a, b}, 3, v); });
    s.addT("interleave-4", "all quadruples of families on 2 items", 65536 * 2, [](uint64_t x, Ctx& cx) { Dec d(x); int v = d(2); uint64_t a = d(16), b = d(16), c = d(16), e = d(16); famCase(cx, {a, b, c, e}, 2, v); });
    s.add("program", "the program on sizes 1-7 with every combination of colored, colored1, rook, p, dump, noreport, and the size before or after the options", 7 * 64 * 2, [](uint64_t x, Ctx& cx) {
        Dec d(x); int late = d(2), n = d(7) + 1; unsigned o = d(64); static char const* N[] = {"-colored", "-colored1", "-rook", "-p", "-dump", "-noreport"}; std::vector<std::string> av; if (!late) av.push_back(str(n)); for (int i = 0; i < 6; ++i) if (o >> i & 1) av.push_back(N[i]); if (late) av.push_back(str(n));
        cx.desc = "ddqueens" + app::join(av); q::n = 0; q::opt.clear(); auto r = app::run(q::appMain, av); tdzdd::MessageHandler::showMessages(false); cx.op(); cx.trace();
        cx.require(r.rc == 0, "exit", [&] { return str("exit code ", r.rc, "\n", r.err); });
        Fam ref = (o & 2) ? coloured(n, false, false) : (o & 1) ? coloured(n, false, true) : boards(n, false); DdStructure<2> dd;
        std::string c = app::field(r.err, "#solution = "); cx.require(c == ((o & 32) ? std::string() : str(ref.size())), "report", [&] { return str("reported '", c, "' solutions, expected ", (o & 32) ? "no report" : str(ref.size())); });
        if (o & 16) { auto g = dot::parse(r.out, 2); auto f = app::family(g, [](std::string const& nm) { return atoi(nm.c_str()); }); same(cx, f, ref, "dumped diagram"); } else cx.require(r.out.empty(), "output", [&] { return "unexpected standard output"; });
        cx.outcome(mix(ref.size(), o)); });
    s.add("usage", "bad command lines", 8, [](uint64_t x, Ctx& cx) { static std::vector<std::vector<std::string>> A = {{}, {"0"}, {"-1"}, {"-x", "4"}, {"4", "5"}, {"abc"}, {"-colored"}, {"4", "-colorful"}}; cx.desc = "ddqueens" + app::join(A[x]); q::n = 0; q::opt.clear(); auto r = app::run(q::appMain, A[x]); tdzdd::MessageHandler::showMessages(false); cx.op(); cx.trace(); cx.require(r.rc == 1 && r.err.find("usage") != std::string::npos && r.out.empty(), "usage", [&] { return str("exit code ", r.rc, " without a usage message"); }); });
}
