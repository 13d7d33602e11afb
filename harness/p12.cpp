// P12: every merge answer a specification gives is honoured. All answer sequences are enumerated; the reference replays the
// recorded decisions breadth first on the specification itself.
#include "model.hpp"
using namespace model; using namespace tdzdd;
struct Ev { uint64_t a, b; int ans; int key; };
struct Ctl { std::vector<int> script; size_t at = 0; size_t cap = 0; std::vector<Ev> log; bool replay = false; int mode = 0; std::string bad;
    int answer(uint64_t a, uint64_t b, int k1, int k2) {
        if (replay) return 0;
        if (k1 != k2) bad = str("merge asked for states with different keys ", k1, " and ", k2);
        int r; if (at < script.size()) r = script[at]; else if (at < cap) { script.push_back(0); r = 0; } else r = (int)(mix(a, b) % 3);
        ++at; log.push_back({a, b, r, k1}); return r; }
    bool next() { while (!script.empty() && script.back() == 2) script.pop_back(); if (script.empty()) return false; ++script.back(); return true; }
    void begin() { at = 0; log.clear(); bad.clear(); }
};
inline Ctl C;
static uint64_t step(uint64_t path, int level, int b) { return path * 32 + level * 4 + b + 1; }
struct St { int key; int pad; uint64_t path; friend std::ostream& operator<<(std::ostream& os, St const& s) { return os << s.key; } };
template<int AR> struct MScalar : DdSpec<MScalar<AR>, St, AR> {
    Table<AR> const* t; explicit MScalar(Table<AR> const& t) : t(&t) {}
    int getRoot(St& s) const { s.key = t->root < 2 ? -1 : t->stateOf(t->root); s.pad = 0; s.path = 1; return t->levelOf(t->root); }
    int getChild(St& s, int level, int b) const { int c = t->at(level, s.key, b); s.path = step(s.path, level, b); s.key = c < 2 ? -1 : t->stateOf(c); return t->levelOf(c); }
    int mergeStates(St& a, St& b) { return C.answer(a.path, b.path, a.key, b.key); }
    size_t hashCode(St const& s) const { return s.key * 7; }
    bool equalTo(St const& a, St const& b) const { return a.key == b.key; }
    static uint64_t pathOf(void const* p) { return static_cast<St const*>(p)->path; } static int keyOf(void const* p) { return static_cast<St const*>(p)->key; }
};
template<int AR> struct MArray : PodArrayDdSpec<MArray<AR>, uint64_t, AR> {
    Table<AR> const* t; explicit MArray(Table<AR> const& t) : t(&t) { this->setArraySize(2); }
    int getRoot(uint64_t* s) const { s[0] = t->root < 2 ? -1 : t->stateOf(t->root); s[1] = 1; return t->levelOf(t->root); }
    int getChild(uint64_t* s, int level, int b) const { int c = t->at(level, (int)s[0], b); s[1] = step(s[1], level, b); s[0] = c < 2 ? -1 : t->stateOf(c); return t->levelOf(c); }
    int mergeStates(uint64_t* a, uint64_t* b) { return C.answer(a[1], b[1], (int)a[0], (int)b[0]); }
    size_t hash_code(void const* p, int) const { return *static_cast<uint64_t const*>(p); }
    bool equal_to(void const* p, void const* q, int) const { return *static_cast<uint64_t const*>(p) == *static_cast<uint64_t const*>(q); }
    static uint64_t pathOf(void const* p) { return static_cast<uint64_t const*>(p)[1]; } static int keyOf(void const* p) { return (int)static_cast<uint64_t const*>(p)[0]; }
};
template<int AR> struct MHybrid : HybridDdSpec<MHybrid<AR>, int, uint64_t, AR> {
    Table<AR> const* t; explicit MHybrid(Table<AR> const& t) : t(&t) { this->setArraySize(1); }
    int getRoot(int& s, uint64_t* a) const { s = t->root < 2 ? -1 : t->stateOf(t->root); a[0] = 1; return t->levelOf(t->root); }
    int getChild(int& s, uint64_t* a, int level, int b) const { int c = t->at(level, s, b); a[0] = step(a[0], level, b); s = c < 2 ? -1 : t->stateOf(c); return t->levelOf(c); }
    int mergeStates(int& s1, uint64_t* a1, int& s2, uint64_t* a2) { return C.answer(a1[0], a2[0], s1, s2); }
    size_t hash_code(void const* p, int) const { return *static_cast<int const*>(p); }
    bool equal_to(void const* p, void const* q, int) const { return *static_cast<int const*>(p) == *static_cast<int const*>(q); }
    static uint64_t pathOf(void const* p) { return *reinterpret_cast<uint64_t const*>(static_cast<char const*>(p) + 8); } static int keyOf(void const* p) { return *static_cast<int const*>(p); }
};
struct Ref { int level; uint64_t path; };   // unresolved target
// reference: breadth-first replay; INNER reads path/key from the wrapper's state
template<int AR, typename SPEC, typename INNER> static int expected(Ctx& cx, Canon<AR>& cn, SPEC const& sp0, DdStructure<AR> const* dd, bool mp, bool oneMerged) {
    C.replay = true; SPEC sp(sp0);
    std::map<uint64_t, uint64_t> into; std::set<uint64_t> rejected;
    for (Ev const& e : C.log) {
        if (into.count(e.a) || rejected.count(e.a)) cx.fail("stale", "a state already merged or rejected was offered as the surviving partner of a merge");
        if (e.ans == 0) { if (!into.emplace(e.b, e.a).second) cx.fail("stale", "a state was merged twice"); } else rejected.insert(e.ans == 1 ? e.a : e.b);
    }
    auto resolve = [&](uint64_t p) -> uint64_t { auto it = into.find(p); if (it != into.end()) p = it->second; return rejected.count(p) ? 0 : p; };
    struct A { std::vector<size_t> st; NodeId f; uint64_t path; int key; };
    std::map<int, std::vector<A>> arr; std::map<uint64_t, std::vector<Ref>> out; std::map<int, std::vector<uint64_t>> reps; std::set<uint64_t> seen; std::set<uint64_t> oneOwn; bool anyOne = false;
    size_t words = (sp.datasize() + 7) / 8 + 1;
    auto place = [&](std::vector<size_t>& s, int l, NodeId f) -> Ref {   // aligns with the diagram and files the arrival
        if (dd) { int k = f == 1 ? -1 : f.row(); while (l != 0 && k != 0 && l != k) { if (l < k) { f = dd->child(f, 0); k = f == 1 ? -1 : f.row(); } else l = sp.get_child(s.data(), l, 0); } if (l == 0 || k == 0) return Ref{0, 0}; }
        if (l == 0) return Ref{0, 0};
        uint64_t p = INNER::pathOf(s.data());
        if (l < 0) { if (resolve(p) == p) oneOwn.insert(p); anyOne = true; return Ref{-1, p}; }
        seen.insert(p); arr[l].push_back(A{s, f, p, INNER::keyOf(s.data())}); return Ref{l, p};
    };
    std::vector<size_t> r(words); int n = sp.get_root(r.data()); Ref root = place(r, n, dd ? dd->root() : NodeId(0));
    for (int l = root.level; l >= 1; --l) {
        std::map<std::pair<uint64_t, int>, int> live;
        std::vector<A> v = arr[l];
        for (A& a : v) {
            if (resolve(a.path) != a.path) continue;
            if (++live[{dd ? a.f.code() : 0, a.key}] > 1) cx.fail("unmerged", str("two states with the same key at level ", l, " both survive without a merge decision"));
            reps[l].push_back(a.path);
            for (int b = 0; b < AR; ++b) { std::vector<size_t> s(words); sp.get_copy(s.data(), a.st.data()); int ll = sp.get_child(s.data(), l, b); out[a.path].push_back(place(s, ll, dd ? dd->child(a.f, b) : NodeId(0))); }
        }
    }
    if (oneMerged && anyOne && oneOwn.size() > 1) cx.fail("one-unmerged", "two states at the 1-terminal both survive without a merge decision");
    C.replay = false;
    std::map<uint64_t, int> val;
    auto value = [&](Ref const& t) -> int { if (t.level == 0) return 0; uint64_t p = resolve(t.path); if (!p) return 0; if (t.level < 0) return 1; auto it = val.find(p); if (it == val.end()) cx.fail("dangling", "a state was merged into a state that does not exist"); return it->second; };
    for (int l = 1; l <= root.level; ++l) for (uint64_t p : reps[l]) { int c[AR]; for (int b = 0; b < AR; ++b) c[b] = value(out[p][b]); val[p] = cn.mk(l, c); }
    return root.level < 0 ? 1 : value(root);
}
static std::string logText() { std::string s; for (Ev const& e : C.log) s += str(" (", e.a, ",", e.b, ")->", e.ans); return s; }
template<int AR, typename SPEC, typename INNER> static void explore(Ctx& cx, SPEC const& sp, DdStructure<AR> const* in, bool mp, size_t cap, std::string const& base) {
    C.script.clear(); C.cap = cap; Canon<AR> cn(RAW);
    do {
        C.begin(); DdStructure<AR> d;
        if (in) { d = *in; d.useMultiProcessors(mp); d.zddSubset(sp); } else d = DdStructure<AR>(sp, mp);
        cx.desc = base + " decisions" + logText(); cx.op(C.log.size() + 1); cx.check(C.bad.empty(), "key", C.bad);
        int got = canonOf(cn, d), want = expected<AR, SPEC, INNER>(cx, cn, sp, in, mp, !mp);
        cx.require(got == want, "merge", [&] { return str("diagram accepts ", cn.text(got), ", the merge decisions give ", cn.text(want)); });
        cx.trace(); cx.outcome(mix(want, C.log.size())); cx.maxdepth = std::max<uint64_t>(cx.maxdepth, C.log.size());
    } while (C.next());
}
template<int AR, typename SP> static void tables(Scopes& s, std::string name, int n, int w, size_t cap, uint64_t step = 1) {
    for (int mp = 0; mp < 2; ++mp) s.add(name + (mp ? "-mp" : ""), str(step > 1 ? str("every ", step, "th of the") : std::string("all"), " tables with ", n, " levels, ", widthText(w), ", arity ", AR, mp ? ", parallel builder" : ", serial builder", ", all answer sequences up to ", cap, " merges"), Table<AR>::count(n, w) / step, [=](uint64_t x, Ctx& cx) {
        x = x * step + (step > 1 ? (x * 7) % step : 0); Table<AR> t; t.decode(x, n, w); omprt::setThreads(1 + x % 3); omprt::setPolicy(x % 3); explore<AR, SP, SP>(cx, SP(t), nullptr, mp, cap, t.text()); });
}
template<int AR, typename SP> static void subs(Scopes& s, std::string name, int n, int w, size_t cap, int fn, uint64_t step) {
    for (int mp = 0; mp < 2; ++mp) s.add(name + (mp ? "-mp" : ""), str("tables with ", n, " levels, ", widthText(w), " (every ", step, "th), subsetting the universe and every skipping/shared diagram of a list, ", mp ? "parallel" : "serial", ", all answer sequences up to ", cap, " merges"), Table<AR>::count(n, w) / step * 4, [=](uint64_t x, Ctx& cx) {
        int k = x % 4; x /= 4; x = x * step + (step > 1 ? (x * 7) % step : 0); Table<AR> t; t.decode(x, n, w); omprt::setThreads(1 + x % 3); omprt::setPolicy(x % 3); DdStructure<AR> in(fn);
        if (k) { Table<AR> u; u.decode(mix(x, k) % Table<AR>::count(3, 2), 3, 2); in = build(u); if (k == 2) in.zddReduce(); if (k == 3) in.qddReduce(); cx.desc = u.text(); }
        explore<AR, SP, SP>(cx, SP(t), &in, mp, cap, str("input ", k, " ", cx.desc, "; spec ", t.text())); });
}
struct InnerZLook { static uint64_t pathOf(void const* p) { return MScalar<2>::pathOf(p); } static int keyOf(void const* p) { return MScalar<2>::keyOf(p); } };
SCOPES(s) {
#if PART == 0
    tables<2, MScalar<2>>(s, "n1w1", 1, 1, 9); tables<2, MScalar<2>>(s, "n2w1", 2, 1, 9); tables<2, MScalar<2>>(s, "n2w2", 2, 2, 7); tables<2, MScalar<2>>(s, "n3w1", 3, 1, 7); tables<2, MScalar<2>>(s, "n4w1", 4, 1, 6); tables<2, MScalar<2>>(s, "g3w3", 3, dag(3, 6), 7); tables<2, MScalar<2>>(s, "g4w2k5", 4, dag(2, 5), 5); tables<2, MScalar<2>>(s, "g5w2k4", 5, dag(2, 4), 6); tables<2, MScalar<2>>(s, "n3w2", 3, 2, 4, 1); for (int i = 1; i <= 2; ++i) s.v[s.v.size() - i].thorough = true;
    tables<2, MScalar<2>>(s, "n3w2full", 3, 2, 9); for (int i = 1; i <= 2; ++i) s.v[s.v.size() - i].thorough = true;
    s.add("one-mp", "one level, both branches accepted, parallel builder: are the states at the 1-terminal merged?", 1, [](uint64_t, Ctx& cx) { omprt::setThreads(2); omprt::setPolicy(0); Table<2> t; t.decode(3, 1, 1); C.script.assign(1, 1); C.cap = 0; C.begin(); DdStructure<2> d(MScalar<2>(t), true); Canon<2> cn(RAW); cx.desc = "parallel builder, 1-terminal reached twice at level 1, answer 1"; expected<2, MScalar<2>, MScalar<2>>(cx, cn, MScalar<2>(t), nullptr, true, true); });
    s.add("one-mp-subset", "as one-mp, for the parallel subsetter", 1, [](uint64_t, Ctx& cx) { omprt::setThreads(2); omprt::setPolicy(0); Table<2> t; t.decode(3, 1, 1); C.script.assign(1, 1); C.cap = 0; C.begin(); DdStructure<2> in(1), d(in); d.useMultiProcessors(true); d.zddSubset(MScalar<2>(t)); Canon<2> cn(RAW); cx.desc = "parallel subsetter, 1-terminal reached twice at level 1, answer 1"; expected<2, MScalar<2>, MScalar<2>>(cx, cn, MScalar<2>(t), &in, true, true); });
#elif PART == 1
    subs<2, MScalar<2>>(s, "s-n2w2", 2, 2, 7, 2, 1); subs<2, MScalar<2>>(s, "s-n3w1", 3, 1, 7, 3, 1); subs<2, MScalar<2>>(s, "s-g3w2", 3, dag(2, 5), 6, 3, 1); subs<2, MScalar<2>>(s, "s-g4w2k4", 4, dag(2, 4), 5, 4, 1); subs<2, MScalar<2>>(s, "s-n3w2", 3, 2, 4, 3, 8); for (int i = 1; i <= 2; ++i) s.v[s.v.size() - i].thorough = true; subs<2, MScalar<2>>(s, "s-n3w2full", 3, 2, 6, 3, 1); for (int i = 1; i <= 2; ++i) s.v[s.v.size() - i].thorough = true;
    subs<3, MScalar<3>>(s, "s3-n2w1", 2, 1, 5, 2, 1);
#elif PART == 2
    tables<2, MArray<2>>(s, "array-n2w2", 2, 2, 5); tables<2, MHybrid<2>>(s, "hybrid-n2w2", 2, 2, 5); tables<2, MArray<2>>(s, "array-n3w1", 3, 1, 5); tables<2, MHybrid<2>>(s, "hybrid-n3w1", 3, 1, 5); tables<3, MScalar<3>>(s, "3n2w1", 2, 1, 6); tables<3, MScalar<3>>(s, "3n2w2", 2, 2, 3);
#else
    // wrappers forward the merge question: lookahead and unreduction, replayed through the wrapper itself
    for (int mp = 0; mp < 2; ++mp) {
        s.add(str("zlook", mp ? "-mp" : ""), "ZDD lookahead around every three-level one-key table, all answers up to 5 merges", Table<2>::count(3, 1), [=](uint64_t x, Ctx& cx) { Table<2> t; t.decode(x, 3, 1); omprt::setThreads(2); MScalar<2> m(t); explore<2, ZddLookahead<MScalar<2>>, InnerZLook>(cx, ZddLookahead<MScalar<2>>(m), nullptr, mp, 5, "lookahead " + t.text()); });
        s.add(str("and", mp ? "-mp" : ""), "intersection with a plain universal specification around every two-level two-key table, all answers up to 5 merges", Table<2>::count(2, 2), [=](uint64_t x, Ctx& cx) {
            Table<2> t; t.decode(x, 2, 2); omprt::setThreads(2); MScalar<2> m(t); DdStructure<2> u(2); typedef decltype(zddIntersection(m, u)) I; struct In { static uint64_t pathOf(void const* p) { uint64_t const* w = static_cast<uint64_t const*>(p); return w[2]; } static int keyOf(void const* p) { return (int)static_cast<uint64_t const*>(p)[1]; } };
            (void)sizeof(I); // the operand's answers must still be obeyed: compare with the operand built alone under the same answers
            C.script.clear(); C.cap = 5; Canon<2> cn(RAW);
            do { C.begin(); DdStructure<2> a(m, mp); auto l1 = C.log; C.begin(); DdStructure<2> b(zddIntersection(m, u), mp); cx.desc = "intersection " + t.text() + logText(); cx.op(2); int ca = canonOf(cn, a), cb = canonOf(cn, b); bool same = l1.size() == C.log.size(); for (size_t i = 0; same && i < l1.size(); ++i) same = l1[i].a == C.log[i].a && l1[i].b == C.log[i].b; 
                if (same) { cx.require(ca == cb, "merge", [&] { return str("alone: ", cn.text(ca), " intersected with the universe: ", cn.text(cb)); }); cx.trace(); } cx.outcome(mix(ca, cb)); } while (C.next()); });
    }
#endif
}
