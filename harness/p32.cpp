// P32: progress messages change no result, tell true numbers, stay well nested; nothing is printed while they are off.
#include "model.hpp"
#include <tdzdd/dd/PathCounter.hpp>
#include <tdzdd/util/MessageHandler.hpp>
using namespace model; using namespace tdzdd;
inline time_t gNow = 1000000; inline bool gClock = false;
// "0.12s elapsed, 0.10s user, 34MB" -> "@" ; ("0.12s, 34MB") -> "(@)"
static std::string norm(std::string const& s, bool* bad = nullptr) {
    std::string r; size_t i = 0;
    auto num = [&](size_t& k, int dec) { size_t b = k; if (k < s.size() && s[k] == '-') ++k; while (k < s.size() && isdigit((unsigned char)s[k])) ++k; if (k == b) return false; if (dec) { if (k >= s.size() || s[k] != '.') return false; ++k; for (int d = 0; d < dec; ++d, ++k) if (k >= s.size() || !isdigit((unsigned char)s[k])) return false; } return true; };
    auto lit = [&](size_t& k, char const* t) { size_t n = strlen(t); if (s.compare(k, n, t)) return false; k += n; return true; };
    while (i < s.size()) {
        bool start = i == 0 || !isdigit((unsigned char)s[i - 1]); size_t k = i;
        if (start && num(k, 2) && lit(k, "s elapsed, ") && num(k, 2) && lit(k, "s user, ") && num(k, 0) && lit(k, "MB")) { r += '@'; i = k; continue; }
        k = i; if (start && num(k, 2) && lit(k, "s, ") && num(k, 0) && lit(k, "MB")) { r += '@'; i = k; continue; }
        r += s[i++];
    }
    return r;
}
#if PART == 0
extern "C" time_t time(time_t* p) { timespec t; clock_gettime(CLOCK_REALTIME, &t); time_t r = gClock ? gNow : t.tv_sec; if (p) *p = r; return r; }
std::stringbuf gBuf; std::ostream gOut(&gBuf); typedef MessageHandler_<gOut> MH;
// reference: the page is a list of lines; text of different writers never shares a line; white space at the start of a line is dropped
struct Page {
    std::string out; int col = 0; int owner = -1, line = 0, depth = 0; bool on = false;
    struct W { int id, indent = 0, beginLine = 0, steps = 0, total = 0, dots = 0; time_t t = 0; bool dash = false; std::string name; };
    void put(W& w, char c) {
        if (!on) return;
        if (owner != w.id) { if (col) { out += '\n'; ++line; col = 0; } owner = w.id; }
        if (col == 0) { if (isspace((unsigned char)c)) return; out.append(w.indent, ' '); col = w.indent; }
        out += c; if (c == '\n') { ++line; col = 0; } else ++col;
    }
    void text(W& w, std::string const& s) { for (char c : s) put(w, c); }
    static std::string cap(std::string s) { if (!s.empty()) s[0] = toupper(s[0]); return s; }
    void setSteps(W& w, int n) { if (!on) return; w.total = n; w.steps = w.dots = 0; w.t = gNow; w.dash = false; }
    void begin(W& w, std::string const& n) {
        if (!on) return; if (!w.name.empty()) end(w, "aborted", "");
        w.name = n.empty() ? str("level-", depth) : n; w.indent = 2 * depth; text(w, "\n" + cap(w.name)); ++depth; w.indent = 2 * depth; w.beginLine = line; setSteps(w, 10);
    }
    void step(W& w, char dot) {
        if (!on) return;
        if (!w.dash && w.t + 4 < gNow) { put(w, '\n'); w.dash = true; }
        if (w.dash) {
            if (w.steps % 50 != col - w.indent) { put(w, '\n'); text(w, std::string(w.steps % 50, '-')); }
            put(w, dot); ++w.steps;
            if (col - w.indent >= 50) { std::string pc = str(w.steps * 100 / w.total); while (pc.size() < 3) pc = " " + pc; text(w, pc + "% (@)\n"); }
        }
        else { ++w.steps; int want = (10 * w.steps + w.total - 1) / w.total; if (w.dots < want) { if (w.dots == 0) put(w, ' '); text(w, std::string(want - w.dots, '.')); w.dots = want; w.t = gNow; } }
    }
    void end(W& w, std::string const& msg, std::string const& info) {
        if (!on || w.name.empty()) return;
        if (w.beginLine == line) { text(w, " " + (!info.empty() ? info : msg.empty() ? "done" : msg) + " in @.\n"); w.indent = 2 * --depth; }
        else { w.indent = 2 * --depth; text(w, "\n" + (msg.empty() ? "Done " + w.name : cap(msg)) + (info.empty() ? "" : " " + info) + " in @.\n"); }
        w.name.clear();
    }
};
struct Run {   // a stack of handlers, as nested operations use them
    // handlers live in reused storage: a later handler has the address of an earlier one, as on the call stack
    static void* slot(size_t i) { alignas(MH) static char st[4][sizeof(MH)]; return st[i]; }
    struct Del { void operator()(MH* p) const { p->~MH(); } };
    Page pg; std::vector<std::unique_ptr<MH, Del>> h; std::vector<Page::W> w; int ids = 0; std::string log;
    Run() { gBuf.str(""); MH::showMessages(true); { MH m; m << "x\n"; } gBuf.str(""); pg.owner = -2; MH::showMessages(false); }
    void push() { if (h.size() >= 4) throw Fail("model", "too many handlers"); h.emplace_back(new (slot(h.size())) MH); Page::W x; x.id = ids++; x.indent = 2 * pg.depth; w.push_back(x); }
    void pop() { pg.end(w.back(), "aborted", ""); h.pop_back(); w.pop_back(); }
    bool open() const { for (auto& x : w) if (!x.name.empty()) return true; return false; }
    void compare(Ctx& cx) { cx.op(); std::string got = norm(gBuf.str()); cx.require(got == pg.out, "text", [&] { return "after " + log + ":\n--- printed\n" + got + "\n--- expected\n" + pg.out + "\n---"; }); if (!h.empty()) cx.require(h.back()->col() == pg.col, "column", [&] { return str("after ", log, ": column ", h.back()->col(), " expected ", pg.col); }); }
};
static int const NOP = 17;
static void act(Run& r, int op, int N) {
    static char const* nm[NOP] = {"push+begin", "end", "end(n)", "end(msg)", "end(msg,info)", "pop", "write", "writeline", "write-below", "step", "steps*60", "clock+5", "toggle", "begin again", "setSteps", "push", "step*"};
    r.log += str(" ", nm[op]); MH* t = r.h.empty() ? nullptr : r.h.back().get(); Page::W* w = r.w.empty() ? nullptr : &r.w.back();
    switch (op) {
    case 0: if (r.h.size() < 4) { r.push(); std::string n = str("task ", r.h.size()); r.h.back()->begin(n); r.pg.begin(r.w.back(), n); } break;
    case 1: if (t) { t->end(); r.pg.end(*w, "", ""); } break;
    case 2: if (t) { t->end(size_t(37)); r.pg.end(*w, "", "<37>"); } break;
    case 3: if (t) { t->end("stopped"); r.pg.end(*w, "stopped", ""); } break;
    case 4: if (t) { t->end("stopped", "(early)"); r.pg.end(*w, "stopped", "(early)"); } break;
    case 5: if (t) r.pop(); break;
    case 6: if (t) { *t << " some text " << 42; r.pg.text(*w, " some text 42"); } break;
    case 7: if (t) { *t << "a line\n"; r.pg.text(*w, "a line\n"); } break;
    case 8: if (r.h.size() > 1) { *r.h[r.h.size() - 2] << "below"; r.pg.text(r.w[r.w.size() - 2], "below"); } break;
    case 9: if (t && !w->name.empty()) { t->step(); r.pg.step(*w, '-'); } break;
    case 10: if (t && !w->name.empty()) { t->setSteps(60); r.pg.setSteps(*w, 60); } break;
    case 11: gNow += 5; break;
    case 12: if (!r.open()) { bool was = r.pg.on, got = MH::showMessages(!was); if (got != was) throw Fail("switch", "showMessages does not return the previous setting"); r.pg.on = !was; } break;
    case 13: if (t) { t->begin(""); r.pg.begin(*w, ""); } break;
    case 14: if (t && !w->name.empty()) { t->setSteps(N); r.pg.setSteps(*w, N); } break;
    case 15: if (r.h.size() < 4) r.push(); break;
    case 16: if (t && !w->name.empty()) for (int i = 0; i < 30 && w->steps < w->total; ++i) { t->step('*'); r.pg.step(*w, '*'); } break;
    }
}
static void finish(Run& r, Ctx& cx) {
    while (!r.h.empty()) { r.pop(); r.compare(cx); }
    if (r.pg.on) { r.log += " probe"; r.push(); r.h.back()->begin("probe"); r.pg.begin(r.w.back(), "probe"); r.compare(cx); r.h.back()->end(); r.pg.end(r.w.back(), "", ""); r.compare(cx); r.pop(); cx.require(r.pg.depth == 0, "model", [] { return "model error"; }); }
    MH::showMessages(false); cx.outcome(hashStr(r.pg.out)); cx.trace();
}
static void seqs(Scopes& s, std::string name, int depth, bool thorough) {
    uint64_t c = 1; for (int i = 0; i < depth; ++i) c *= NOP;
    s.add(name, str("all sequences of ", depth, " handler operations (begin, nested begin, four kinds of end, abandon, write, write from the enclosing report, steps with and without the clock advancing, switching messages on and off between reports), after messages were switched on and one report begun"), c, [=](uint64_t x, Ctx& cx) {
        Dec d(x); gClock = true; gNow = 1000000; Run r; act(r, 12, 3); act(r, 0, 3); r.compare(cx); for (int i = 0; i < depth; ++i) { act(r, d(NOP), 3); r.compare(cx); } cx.desc = r.log; finish(r, cx); cx.maxdepth = depth; gClock = false; });
    s.v.back().thorough = thorough;
}
#else
struct Capture { std::ostringstream o; std::streambuf* old; bool prev; explicit Capture(bool on) : old(std::cerr.rdbuf(o.rdbuf())), prev(MessageHandler::showMessages(on)) {} ~Capture() { MessageHandler::showMessages(prev); std::cerr.rdbuf(old); } std::string text() { return norm(o.str()); } };
struct Boom {};
inline long gLeft = 0, gCalls = 0; static void tick() { ++gCalls; if (gLeft > 0 && --gLeft == 0) throw Boom(); }
template<int AR> struct MSpec : DdSpec<MSpec<AR>, int, AR> {
    Table<AR> const* t; explicit MSpec(Table<AR> const& t) : t(&t) {}
    int getRoot(int& s) const { tick(); s = t->stateOf(t->root); return t->levelOf(t->root); }
    int getChild(int& s, int level, int b) const { tick(); int c = t->at(level, s, b); s = t->stateOf(c); return t->levelOf(c); }
};
struct Cnt : DdEval<Cnt, long> { bool msg; explicit Cnt(bool m) : msg(m) {} bool showMessages() const { return msg; } void evalTerminal(long& v, int x) { tick(); v = x; } template<int AR> void evalNode(long& v, int l, DdValues<long, AR> const& c) { tick(); v = l; for (int b = 0; b < AR; ++b) v = v * 31 + c.get(b) * (b + 2); } };
static int const NOPS = 13; static char const* ON[] = {"construction", "subsetting", "zddReduce", "bddReduce", "qddReduce", "evaluation", "silent evaluation", "count", "countFast", "count64", "cardinality", "bdd2zdd", "dump"};
// checks one top-level report; returns the number it ends with (-1: none)
static long report(Ctx& cx, std::string const& all, std::function<std::string()> const& at, bool aborted, std::string const& first) {
    auto bad = [&](std::string const& w) { cx.fail("report", at() + ": " + w + "\n--- printed\n" + all + "---"); };
    if (all.empty()) bad("nothing was printed"); if (all.back() != '\n') bad("the last line is not finished");
    std::vector<std::string> ls; std::istringstream in(all); for (std::string l; std::getline(in, l);) ls.push_back(l);
    int depth = 0; long num = -1; bool closedTop = false;   // reports: a line that does not close opens one, except continued dots
    for (size_t i = 0; i < ls.size(); ++i) {
        std::string const& l = ls[i]; size_t ind = l.find_first_not_of(' '); if (ind == std::string::npos) bad("blank line"); if (closedTop) bad("text after the report was closed");
        std::string t = l.substr(ind); bool closes = t.size() >= 6 && t.compare(t.size() - 6, 6, " in @.") == 0;
        if (ind != 0 && ind != 2) bad(str("unexpected indentation ", ind));
        if (i == 0) { if (ind) bad("the report does not start at the margin"); if (t.compare(0, first.size(), first)) bad("the report does not start with \"" + first + "\""); if (closes) { if (i + 1 != ls.size()) bad("closed twice"); closedTop = true; } }
        else if (i + 1 == ls.size()) { if (ind || !closes) bad("the report is not closed at the margin"); closedTop = true; if (t.compare(0, aborted ? 7 : 5, aborted ? "Aborted" : "Done ")) bad("the closing line is wrong"); }
        else { if (ind != 2) bad("a nested line is not indented"); if (t.compare(0, 8, "Sweeping") == 0) { long a, b; if (sscanf(t.c_str(), "Sweeping <%ld> ... <%ld> in @.", &a, &b) != 2 || a < b || a < 1) bad("a sweep is reported wrongly"); } else for (char c : t) if (c != '.') bad("unexpected text"); }
        if (closedTop && !aborted) { size_t p = t.rfind('<'); if (p != std::string::npos && sscanf(t.c_str() + p, "<%ld> in @.", &num) != 1) num = -1; }
        (void)depth;
    }
    if (!closedTop) bad("the report is not closed"); if (aborted && ls.back().find("borted in @.") == std::string::npos) bad("an abandoned report is not marked as aborted");
    int dots = 0; if (!aborted) { for (auto& l : ls) if (l.find("Sweeping") == std::string::npos) { std::string t = l; size_t p = t.find(first); if (p != std::string::npos) t = t.substr(p + first.size()); size_t e = t.find(" ..."); if (e != std::string::npos && t.compare(e, 5, " ... ") == 0) continue; for (char c : t) dots += c == '.'; } }
    return num;
}
template<int AR> static std::string doOp(int op, DdStructure<AR>& d, Table<AR> const& t, Table<AR> const& u, bool mp, std::string* first, long* num) {
    Canon<AR> cn(RAW); MSpec<AR> st(t), su(u); auto show = [&](DdStructure<AR> const& x) { if (num) *num = x.size(); return str(cn.text(canonOf(cn, x)), "/", x.size()); }; std::string dummy; if (!first) first = &dummy; *first = "Reduction";
    switch (op) {
    case 0: { *first = capitalize(typenameof(st)); DdStructure<AR> x(st, mp); return show(x); }
    case 1: *first = capitalize(typenameof(su)); d.zddSubset(su); return show(d);
    case 2: d.zddReduce(); return show(d);
    case 3: d.bddReduce(); return show(d);
    case 4: d.qddReduce(); return show(d);
    case 5: *first = capitalize(typenameof(Cnt(true))); return str(d.evaluate(Cnt(true)));
    case 6: *first = ""; return str(d.evaluate(Cnt(false)));
    case 7: case 8: { *first = capitalize(typenameof(st)); std::string r = countPaths(st, op == 8); if (num) { *num = 0; std::map<int, std::set<int>> lv; std::set<int> seen; std::vector<int> q{t.root}; while (!q.empty()) { int c = q.back(); q.pop_back(); if (c < 2 || !seen.insert(c).second) continue; lv[t.levelOf(c)].insert(c); for (int b = 0; b < AR; ++b) q.push_back(t.at(t.levelOf(c), t.stateOf(c), b)); } for (auto& e : lv) *num = std::max<long>(*num, e.second.size()); } return r; }
    case 9: { *first = capitalize(typenameof(st)); return str(countPaths64(st)); }
    case 10: *first = ""; return d.zddCardinality();
    case 11: { *first = ""; if (AR == 2 && d.topLevel() > 0) { DdStructure<AR> x(d.bdd2zdd(d.topLevel() + 1)); *first = "?"; return show(x); } return ""; }
    default: { *first = ""; std::ostringstream o; d.dumpDot(o, "t"); return o.str(); }
    }
}
template<int AR> static void probe(Ctx& cx, std::function<std::string()> const& at) {
    Capture c(true); { MessageHandler mh; mh.begin("probe"); mh.end(); } cx.check(c.text() == "Probe done in @.\n", "nesting", at() + ": the next report prints \"" + c.text() + "\"");
}
template<int AR> static void all(Ctx& cx, Table<AR> const& t, Table<AR> const& u, int thr) {
    omprt::setThreads(thr ? thr : 1); bool mp = thr > 0;
    for (int op = 0; op < NOPS; ++op) {
        DdStructure<AR> base(MSpec<AR>(t), mp); auto at = [&] { return str(ON[op], thr ? str(" (", thr, " threads)") : std::string()); };
        std::string off, on, first; long num = -1;
        { DdStructure<AR> d(base); Capture c(false); off = doOp<AR>(op, d, t, u, mp, nullptr, nullptr); cx.check(c.o.str().empty(), "not-silent", at() + " prints although messages are off: " + c.o.str()); }
        { DdStructure<AR> d(base); Capture c(true); on = doOp<AR>(op, d, t, u, mp, &first, &num); std::string out = c.text(); cx.op(2);
          cx.require(on == off, "result", [&] { return at() + ": result " + on + " with messages, " + off + " without"; });
          if (first.empty()) cx.check(out.empty(), "not-silent", at() + " prints: " + out);
          else if (first != "?") { long got = report(cx, out, at, false, first); if (num >= 0 && op != 5) cx.require(got == num, "number", [&] { return str(at(), ": reported ", got, ", true number ", num, "\n", out); }); }
          cx.outcome(hashStr(out)); cx.trace(); }
        probe<AR>(cx, at);
        if (thr || op == 11) continue;
        { DdStructure<AR> d(base); gCalls = 0; (void)doOp<AR>(op, d, t, u, mp, nullptr, nullptr); } long total = std::min(gCalls, 12l);
        for (long k = 1; k <= total; ++k) { DdStructure<AR> d(base); Capture c(true); bool thrown = false; gLeft = k; try { (void)doOp<AR>(op, d, t, u, mp, &first, nullptr); } catch (Boom&) { thrown = true; } gLeft = 0; std::string out = c.text(); cx.op(); auto w = [&] { return at() + str(", exception from callback ", k); };
            cx.check(thrown, "lost", w()); if (first.empty()) cx.check(out.empty(), "not-silent", w() + out); else report(cx, out, w, true, first); probe<AR>(cx, w); }
    }
}
template<int AR> static void tables(Scopes& s, std::string name, int n, int w, bool thorough = false, uint64_t step = 1) {
    s.add(name, str(step > 1 ? str("every ", step, "th of the") : std::string("all"), " tables with ", n, " levels, ", widthText(w), ", arity ", AR, ": 13 operations, messages on / off / aborted by an exception from each of the first 12 callbacks, serial and 3 threads"), Table<AR>::count(n, w) / step, [=](uint64_t x, Ctx& cx) {
        x = x * step + (x * 7) % step; uint64_t c = Table<AR>::count(n, w); Table<AR> t, u; t.decode(x, n, w); u.decode((x * 13 + 7) % c, n, w); cx.desc = t.text() + " with " + u.text(); all<AR>(cx, t, u, 0); all<AR>(cx, t, u, 3); });
    s.v.back().thorough = thorough;
}
#endif
SCOPES(s) {
    omprt::setThreads(1);
#if PART == 0
    seqs(s, "seq3", 3, false); seqs(s, "seq4", 4, false); seqs(s, "seq5", 5, false); seqs(s, "seq6", 6, true);
    s.add("steps", "1..130 steps announced, every number of them made, clock advancing by 0, 1, 3 or 5 s per step, ended or abandoned", 130 * 4 * 2, [](uint64_t x, Ctx& cx) {
        Dec d(x); int N = 1 + d(130), dt = (int[]){0, 1, 3, 5}[d(4)]; bool ab = d(2); cx.desc = str(N, " steps, ", dt, " s each", ab ? ", abandoned" : ""); gClock = true;
        for (int k = 0; k <= N; ++k) { gNow = 1000000; Run r; act(r, 12, N); act(r, 0, N); act(r, 14, N); for (int i = 0; i < k; ++i) { gNow += dt; act(r, 9, N); } r.compare(cx); if (dt == 0) { int dots = 0; for (char c : r.pg.out) dots += c == '.'; cx.check(k < N || dots == 10, "model", "model error"); } if (!ab) act(r, 1, N); r.compare(cx); finish(r, cx); } gClock = false; });
    s.add("usage", "resource usage: sums, differences and printing for all pairs of 6 values; printing leaves the stream's format unchanged", 36 * 4, [](uint64_t x, Ctx& cx) {
        Dec d(x); double v[] = {0, 0.25, 1, 2.5, 100, 4096.75}; long m[] = {0, 1023, 1024, 2048, 70000, 5}; int i = d(6), j = d(6), f = d(4); ResourceUsage a(v[i], v[j], v[(i + j) % 6], m[i]), b(v[j], v[i], v[(i * 2) % 6], m[j]); cx.desc = str("values ", i, " ", j);
        ResourceUsage c = a + b, e = c - b, g = a; g += b; ResourceUsage h = g; h -= b; cx.op(4);
        cx.check(c.etime == a.etime + b.etime && c.utime == a.utime + b.utime && c.stime == a.stime + b.stime && c.maxrss == std::max(a.maxrss, b.maxrss), "sum", "wrong sum"); cx.check(g.etime == c.etime && g.utime == c.utime && g.stime == c.stime && g.maxrss == c.maxrss, "sum", "+= differs from +");
        cx.check(e.etime == a.etime && e.utime == a.utime && e.stime == a.stime && e.maxrss == c.maxrss, "difference", "wrong difference"); cx.check(h.etime == e.etime && h.utime == e.utime && h.stime == e.stime && h.maxrss == e.maxrss, "difference", "-= differs from -");
        char w[200]; snprintf(w, 200, "%.2fs elapsed, %.2fs user, %.0fMB", a.etime, a.utime, a.maxrss / 1024.0); std::ostringstream o; if (f & 1) o << std::setprecision(9); if (f & 2) o << std::scientific << std::left; auto fl = o.flags(); auto pr = o.precision(); o << a; cx.check(o.str() == w, "print", o.str() + " instead of " + w); cx.check(o.flags() == fl && o.precision() == pr, "stream-format", "printing resource usage changes the stream's number format");
        ElapsedTimeCounter t; t.start(); t.stop(); o.str(""); o << t; cx.check(o.flags() == fl && o.precision() == pr, "stream-format", "printing an elapsed time changes the stream's number format"); cx.check(double(t) >= 0 && double(t.reset()) == 0, "reset", "counter not reset");
        snprintf(w, 200, "%.2fs", a.etime); cx.check(a.elapsedTime() == w, "print", "elapsedTime"); snprintf(w, 200, "%.2fs", a.utime); cx.check(a.userTime() == w, "print", "userTime"); snprintf(w, 200, "%.0fMB", a.maxrss / 1024.0); cx.check(a.memory() == w, "print", "memory"); cx.trace(); cx.outcome(x); });
#else
    tables<2>(s, "n1w1", 1, 1); tables<2>(s, "n2w2", 2, 2); tables<2>(s, "n3w1", 3, 1); tables<2>(s, "g4k4", 4, dag(2, 4)); tables<3>(s, "3n2w1", 2, 1); tables<3>(s, "3n3k3", 3, dag(2, 3), false, 5); tables<2>(s, "g5k5", 5, dag(2, 5), false, 23); tables<2>(s, "T-g5k5", 5, dag(2, 5), true); tables<2>(s, "T-g3w3", 3, dag(3, 6), true);
    s.add("constants", "constant diagrams", 2, [](uint64_t x, Ctx& cx) { Table<2> t, u; t.n = 0; t.root = (int)x; u.decode(5, 2, 1); cx.desc = t.text(); all<2>(cx, t, u, 0); all<2>(cx, u, t, 0); all<2>(cx, t, u, 2); });
#endif
}
