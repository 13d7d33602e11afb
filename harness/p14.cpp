// P14: findOneInstance under every sequence of random choices.
#include "model.hpp"
using namespace model; using namespace tdzdd;
inline std::vector<int> gScript; inline size_t gAt, gCap = 14; inline int gBase = 2, gOff; inline bool gOn;
#if PART == 0
extern "C" int rand() { int r = 0; if (gOn) { if (gAt < gScript.size()) r = gScript[gAt]; else if (gAt < gCap) gScript.push_back(0); ++gAt; } return r + gOff; }
#endif
static bool nextScript(int base) { while (!gScript.empty() && gScript.back() == base - 1) gScript.pop_back(); if (gScript.empty()) return false; ++gScript.back(); return true; }
template<int AR, typename SP> static void one(Ctx& cx, SP const& sp, bool sat) {
    SP ref(sp); gScript.clear(); size_t words = (ref.datasize() + 7) / 8 + 2; uint64_t runs = 0;
    do {
        gAt = 0; gOn = true; std::vector<std::pair<int, int>> v; bool thrown = false; std::string err;
        try { v = sp.findOneInstance(); } catch (std::runtime_error& e) { thrown = true; err = e.what(); }
        gOn = false; cx.op(v.size() + 1); ++runs;
        std::string sc; for (int x : gScript) sc += str(x);
        cx.require(thrown == !sat, "existence", [&] { return thrown ? "reports no instance although one exists, choices " + sc : "returned an instance of an empty specification, choices " + sc; });
        if (!thrown) {
            std::string out; for (auto& p : v) out += str(" (", p.first, ",", p.second, ")"); bool inc = true, dec = true; std::map<int, int> m;
            for (size_t i = 0; i < v.size(); ++i) { if (i && v[i].first <= v[i - 1].first) inc = false; if (i && v[i].first >= v[i - 1].first) dec = false; m[v[i].first] = v[i].second; cx.require(v[i].second >= 0 && v[i].second < AR, "value", [&] { return "value out of range:" + out; }); }
            cx.require(inc || dec, "order", [&] { return "levels not in order:" + out; });
            std::vector<size_t> st(words); int l = ref.get_root(st.data()); size_t n = 0;
            while (l > 0) { auto it = m.find(l); cx.require(it != m.end(), "missing", [&] { return str("visited level ", l, " is not listed:", out); }); ++n; l = ref.get_child(st.data(), l, it->second); }
            ref.destruct(st.data());
            cx.require(l < 0, "not-member", [&] { return "the listed choices do not lead to the 1-terminal:" + out + ", choices " + sc; }); cx.require(n == v.size(), "extra", [&] { return "levels are listed that are not visited:" + out; });
            uint64_t h = 1; for (auto& p : v) h = mix(h, p.first * 8 + p.second); cx.outcome(h);
        }
        cx.trace();
    } while (nextScript(AR) && runs < 20000);
    cx.maxdepth = std::max<uint64_t>(cx.maxdepth, gScript.size());
}
template<int AR> static bool sat(Table<AR> const& t) { Canon<AR> cn(RAW); return t.canon(cn) != 0; }
template<int AR> static void tables(Scopes& s, std::string name, int n, int w, int off, uint64_t step = 1) {
    s.add(name, str(step > 1 ? str("every ", step, "th of the") : std::string("all"), " tables with ", n, " levels, ", widthText(w), ", arity ", AR, ", every sequence of random choices; as specification and as raw/reduced diagram"), Table<AR>::count(n, w) / step, [=](uint64_t x, Ctx& cx) {
        x = x * step + (step > 1 ? (x * 5) % step : 0); Table<AR> t; t.decode(x, n, w); cx.desc = t.text(); gOff = off * AR; bool q = sat(t); one<AR>(cx, TScalar<AR, PInt>(t), q); DdStructure<AR> d = build(t); one<AR>(cx, d, q); d.zddReduce(); one<AR>(cx, d, q); });
}
SCOPES(s) {
    omprt::setThreads(1);
#if PART == 0
    s.add("constants", "constant specifications", 2, [](uint64_t x, Ctx& cx) { Table<2> t; t.n = 0; t.root = (int)x; cx.desc = t.text(); gOff = 0; one<2>(cx, TScalar<2, PInt>(t), x); one<2>(cx, TArray<2, int>(t, 5, 2), x); one<2>(cx, x ? DdStructure<2>(0) : DdStructure<2>(), x); });
    tables<2>(s, "n2w2", 2, 2, 0); tables<2>(s, "n3w1", 3, 1, 0); tables<2>(s, "n4w1", 4, 1, 1); tables<2>(s, "g3w4", 3, dag(4, 7), 0); tables<2>(s, "g4w2k6", 4, dag(2, 6), 0); tables<2>(s, "g6w2k4", 6, dag(2, 4), 0); tables<2>(s, "n3w2", 3, 2, 0); s.v.back().thorough = true; tables<2>(s, "n5w1", 5, 1, 0); s.v.back().thorough = true; tables<1>(s, "1n4w1", 4, 1, 0);
    tables<3>(s, "3n2w2", 2, 2, 3); tables<3>(s, "3n3w1", 3, 1, 0); tables<4>(s, "4n2w1", 2, 1, 0);
#else
    s.add("kinds", "array and hybrid states of several sizes, stateless, and combined/wrapped specifications over every one-state three-level table", Table<2>::count(3, 1), [](uint64_t x, Ctx& cx) {
        Table<2> t; t.decode(x, 3, 1); cx.desc = t.text(); gOff = 0; bool q = sat(t); one<2>(cx, TArray<2, int>(t, 7, 3), q); one<2>(cx, TArray<2, char>(t, 3, 1), q); one<2>(cx, THybrid<2, int, short>(t, 5, 2), q); one<2>(cx, TStateless<2>(t), q); one<2>(cx, TScalar<2, PBytes<300>>(t), q);
        Table<2> u; u.decode((x * 7 + 3) % Table<2>::count(3, 1), 3, 1); TScalar<2, PInt> a(t), b(u); { Canon<2> cn(ZDD); int f = t.canon(cn), g = u.canon(cn); one<2>(cx, zddIntersection(a, b), combine(cn, f, g, true) != 0); one<2>(cx, zddUnion(a, b), combine(cn, f, g, false) != 0); one<2>(cx, zddLookahead(a), f != 0); one<2>(cx, zddUnreduction(a, 4), f != 0); }
        { Canon<2> cn(BDD); int f = t.canon(cn), g = u.canon(cn); one<2>(cx, bddAnd(a, b), combine(cn, f, g, true) != 0); one<2>(cx, bddOr(a, b), combine(cn, f, g, false) != 0); one<2>(cx, bddLookahead(a), f != 0); one<2>(cx, bddUnreduction(a, 4), f != 0); } });
    s.add("deep", "depth 1..120, a single member at every position of a path (both directions)", 120 * 4, [](uint64_t x, Ctx& cx) { int n = 1 + x / 4, k = x % 4; cx.desc = str("depth ", n, " kind ", k); Table<2> t; t.n = n; t.w = 1; t.root = n + 1; t.ch.assign(n * 2, 0); for (int l = 1; l <= n; ++l) t.ch[(l - 1) * 2 + (k < 2 ? k : (l * k) & 1)] = l == 1 ? 1 : l; gOff = 0; gCap = 9; one<2>(cx, TScalar<2, PInt>(t), true); one<2>(cx, TArray<2, char>(t, 1 + n % 40, n % 3 ? 0 : n % 40), true); gCap = 14; });
#endif
}
