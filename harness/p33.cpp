// P33: the same battery of operations in differently configured builds of the library, each against the reference model.
#include "model.hpp"
#include <tdzdd/dd/PathCounter.hpp>
using namespace model; using namespace tdzdd;
template<int AR> struct Hv : DdEval<Hv<AR>, uint64_t> { void evalTerminal(uint64_t& v, int x) const { v = x + 11; } void evalNode(uint64_t& v, int l, DdValues<uint64_t, AR> const& c) const { v = l; for (int b = 0; b < AR; ++b) v = mix(mix(v, c.get(b)), c.getLevel(b)); } };
template<int AR> static uint64_t href(DdStructure<AR> const& d, NodeId f, std::map<uint64_t, uint64_t>& memo) { if (f.row() == 0) return (f == 1) + 11; auto it = memo.find(f.code()); if (it != memo.end()) return it->second; uint64_t v = f.row(); for (int b = 0; b < AR; ++b) { NodeId g = d.child(f, b); uint64_t c = href<AR>(d, g, memo); v = mix(mix(v, c), g.row()); } return memo[f.code()] = v; }
template<int AR> static Big paths(Table<AR> const& t) { std::vector<Big> v(2 + t.n * t.w); v[1] = Big(1); for (int c = 2; c < 2 + t.n * t.w; ++c) for (int b = 0; b < AR; ++b) v[c] += v[t.ch[(c - 2) * AR + b]]; return v[t.root]; }
struct Own { int v; std::vector<int> m; Own() : v(0), m(3, 7) {} };   // a state that owns memory
template<int AR> struct OSpec : DdSpec<OSpec<AR>, Own, AR> { Table<AR> const* t; explicit OSpec(Table<AR> const& t) : t(&t) {} int getRoot(Own& s) const { s.v = t->stateOf(t->root); return t->levelOf(t->root); } int getChild(Own& s, int l, int b) const { int c = t->at(l, s.v, b); s.v = t->stateOf(c); s.m.assign(2 + s.v, l); return t->levelOf(c); } size_t hashCode(Own const& s) const { return s.v; } bool equalTo(Own const& a, Own const& b) const { return a.v == b.v; } };
template<int AR> static void battery(Ctx& cx, Table<AR> const& t, Table<AR> const& u) {
    Canon<AR> R(RAW), Z(ZDD), B(BDD); int rt = t.canon(R), zt = t.canon(Z), zu = u.canon(Z), bt = t.canon(B); Big cnt = paths(t); int top = std::max(0, t.levelOf(t.root)); typedef TScalar<AR, PInt> SP; SP st(t), su(u);
    for (int mp = 0; mp < 2; ++mp) {
        auto at = [&](char const* w) { return str(w, mp ? " (parallel mode)" : ""); };
        DdStructure<AR> d(st, mp), c(d); cx.check(canonOf(R, d) == rt, "construct", at("construction changed the function")); cx.check(d.size() <= t.reachableStates(), "size", at("too many nodes"));
        cx.check(canonOf(R, DdStructure<AR>(TArray<AR, short>(t, 5, 3), mp)) == rt, "construct", at("array state")); cx.check(canonOf(R, DdStructure<AR>(THybrid<AR, int, char>(t, 3, 1), mp)) == rt, "construct", at("hybrid state")); cx.check(canonOf(R, DdStructure<AR>(OSpec<AR>(t), mp)) == rt, "construct", at("state with memory"));
        DdStructure<AR> z(d), b(d), q(d); z.zddReduce(); b.bddReduce(); q.qddReduce();
        cx.check(canonOf(Z, z) == zt && z.size() == Z.count(zt), "zdd", at("ZDD reduction")); cx.check(canonOf(B, b) == bt && b.size() == B.count(bt), "bdd", at("BDD reduction")); cx.check(canonOf(R, q) == rt, "qdd", at("QDD reduction"));
        DdStructure<AR> s(d), sz(z), sr(d); s.zddSubset(su); sz.zddSubset(su); sr.zddSubset(z); int meet = combine(Z, zt, zu, true); cx.check(canonOf(Z, s) == meet && canonOf(Z, sz) == meet && canonOf(Z, sr) == zt, "subset", at("subsetting")); sz.zddReduce(); cx.check(sz.size() == Z.count(meet), "zdd", at("reduction after subsetting"));
        for (auto* x : {&d, &z, &b, &s}) { std::map<uint64_t, uint64_t> m; uint64_t w = href<AR>(*x, x->root(), m); cx.check(x->evaluate(Hv<AR>()) == w, "evaluate", at("evaluation")); }
        cx.check(d.zddCardinality() == cnt.text() && z.zddCardinality() == cnt.text(), "cardinality", at("cardinality"));
        cx.check(canonOf(R, c) == rt, "copy", at("a copy changed")); cx.check(c == d && !(c != d) && (z == d) == [&] { Canon<AR> P(PLAIN); return canonOf(P, z) == canonOf(P, d); }(), "equal", at("equality"));
        cx.check(canonOf(Z, DdStructure<AR>(zddLookahead(st), mp)) == zt && canonOf(B, DdStructure<AR>(bddLookahead(st), mp)) == bt, "lookahead", at("lookahead")); cx.check(canonOf(Z, DdStructure<AR>(zddUnreduction(d, top + 1), mp)) == zt && canonOf(B, DdStructure<AR>(bddUnreduction(d, top + 1), mp)) == bt, "unreduction", at("unreduction"));
        if constexpr (AR == 2) {
            int join = combine(Z, zt, zu, false), bu = u.canon(B); cx.check(canonOf(Z, DdStructure<2>(zddUnion(st, su), mp)) == join && canonOf(Z, DdStructure<2>(zddIntersection(st, su), mp)) == meet && canonOf(B, DdStructure<2>(bddAnd(st, su), mp)) == combine(B, bt, bu, true) && canonOf(B, DdStructure<2>(bddOr(st, su), mp)) == combine(B, bt, bu, false), "operation", at("combination"));
            size_t k = 0; for (auto it = d.begin(); it != d.end(); ++it) ++k; cx.check(Big(k).text() == cnt.text(), "iterate", at("iteration")); DdStructure<2> back(d.zdd2bdd(top + 1), mp); back.bddReduce(); back = DdStructure<2>(back.bdd2zdd(top + 1), mp); back.zddReduce(); cx.check(canonOf(Z, back) == zt, "convert", at("conversion"));
        }
        std::ostringstream o1, o2; d.dumpDot(o1, "x"); c.dumpDot(o2, "x"); cx.check(o1.str() == o2.str(), "dump", at("dump")); cx.op(24);
    }
    { SP a(t), b(t), c(t); cx.check(countPaths(a) == cnt.text() && countPaths(b, true) == cnt.text() && Big(countPaths64(c)).text() == cnt.text(), "count", "path counting"); }
    bool some = true; try { auto v = st.findOneInstance(); int c = t.root; std::map<int, int> m(v.begin(), v.end()); while (c > 1) c = t.at(t.levelOf(c), t.stateOf(c), m[t.levelOf(c)]); cx.check(c == 1, "find", "found a non-member"); } catch (std::runtime_error&) { some = false; } cx.check(some == (rt != 0), "find", "instance search");
cx.outcome(mix(rt, Z.count(zt) * 1000 + B.count(bt))); cx.trace();
}
template<int AR> static void tables(Scopes& s, std::string name, int n, int w, bool thorough = false, uint64_t step = 1) {
    s.add(std::string(VARIANT) + name, str(VARIANTTEXT, ": ", step > 1 ? str("every ", step, "th of the") : std::string("all"), " tables with ", n, " levels, ", widthText(w), ", arity ", AR, ", each with another one as second operand; about 30 operations"), Table<AR>::count(n, w) / step, [=](uint64_t x, Ctx& cx) {
        x = x * step + (x * 7) % step; uint64_t c = Table<AR>::count(n, w); Table<AR> t, u; t.decode(x, n, w); u.decode((x * 13 + 7) % c, n, w); cx.desc = t.text() + " with " + u.text(); for (int thr = 1; thr <= (NTHR); thr += 2) { omprt::setThreads(thr); battery<AR>(cx, t, u); } });
    s.v.back().thorough = thorough;
}
SCOPES(s) {
    omprt::setThreads(1);
#if PART == 0
    s.add(std::string(VARIANT) + "constants", "constant specifications", 4, [](uint64_t x, Ctx& cx) { Table<2> t, u; t.n = u.n = 0; t.root = x & 1; u.root = x >> 1; cx.desc = t.text(); battery<2>(cx, t, u); u.decode(5, 2, 1); battery<2>(cx, t, u); battery<2>(cx, u, t); });
    tables<2>(s, "n2w2", 2, 2); tables<2>(s, "n3w1", 3, 1); if (DEEP) { tables<2>(s, "g3w3", 3, dag(3, 6)); tables<2>(s, "g4k5", 4, dag(2, 5)); tables<2>(s, "g5k5", 5, dag(2, 5)); tables<2>(s, "T-g4k6", 4, dag(2, 6), true); tables<2>(s, "T-g6k5", 6, dag(2, 5), true); }
    else { tables<2>(s, "g4k5", 4, dag(2, 5), false, 7); tables<2>(s, "g5k5", 5, dag(2, 5), false, 31); tables<2>(s, "g3w3", 3, dag(3, 6), false, 5); tables<2>(s, "T-g5k5", 5, dag(2, 5), true); }
#else
    tables<3>(s, "3n2w1", 2, 1); tables<3>(s, "3g3k3", 3, dag(2, 3), false, DEEP ? 1 : 5); tables<4>(s, "4n2w1", 2, 1, false, 2);
#endif
}
