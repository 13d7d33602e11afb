// P11: every operation sequence on a handful of diagram objects agrees with a value-semantics model; no leak, no stale memory.
#include "model.hpp"
using namespace model; using namespace tdzdd;
typedef DdStructure<2> DD;
static Canon<2> cn(RAW);
struct IdSpec : DdSpec<IdSpec, int, 2> { int id; explicit IdSpec(int id) : id(id) {} int lv(int f) const { return f == 1 ? -1 : cn.level(f); } int getRoot(int& s) const { s = id; return lv(id); } int getChild(int& s, int, int b) const { s = cn.child(s, b); return lv(s); } };
static Table<2> tab(int k) {
    Table<2> t;
    if (k == 0) { t.n = 3; t.w = 2; t.root = Table<2>::code(3, 0, 2); t.ch.assign(12, 0); auto c = [&](int l, int s) { return Table<2>::code(l, s, 2); }; int v[] = {0, 1, 0, 1, /*2.0*/ c(1, 0), 1, /*2.1*/ c(1, 1), 1, /*3.0*/ c(2, 0), c(2, 1), 0, 0}; t.ch.assign(v, v + 12); }
    else if (k == 1) { t.n = 2; t.w = 1; t.root = Table<2>::code(2, 0, 1); int v[] = {1, 1, 1, 2}; t.ch.assign(v, v + 4); }
    else { t.n = 4; t.w = 1; t.root = Table<2>::code(4, 0, 1); int v[] = {1, 0, 2, 1, 0, 0, 3, 4}; t.ch.assign(v, v + 8); }  // dead node and a skip
    return t;
}
enum K { SET, EMPTY, UNIV, ASSIGN, ZRED, BRED, QRED, SUBT, SUBD, TOZDD, TOBDD, LOOK, MP, SWAP, UNION, COPYCTOR, ROOT };
struct Op { K k; int a, b; };
static char const* NM[] = {"set", "clear", "universe", "assign", "zddReduce", "bddReduce", "qddReduce", "subset-spec", "subset-dd", "bdd2zdd", "zdd2bdd", "look", "toggle-mp", "swap", "union", "rebuild-from", "descend"};
static std::string txt(Op o) { return str(NM[o.k], "(", o.a, ",", o.b, ")"); }
static std::vector<Op> ops(int slots) {
    std::vector<Op> r;
    for (int a = 0; a < slots; ++a) {
        for (int t = 0; t < 3; ++t) r.push_back({SET, a, t}); r.push_back({EMPTY, a, 0}); r.push_back({UNIV, a, 3});
        for (int b = 0; b < slots; ++b) { r.push_back({ASSIGN, a, b}); r.push_back({SUBD, a, b}); if (slots < 3 || b != a) r.push_back({UNION, a, b}); if (b != a) r.push_back({COPYCTOR, a, b}); }
        r.push_back({ZRED, a, 0}); r.push_back({BRED, a, 0}); r.push_back({QRED, a, 0}); for (int t = 0; t < 2; ++t) r.push_back({SUBT, a, t}); r.push_back({TOZDD, a, (a + 1) % slots}); r.push_back({TOBDD, a, (a + 1) % slots}); r.push_back({LOOK, a, (a + 1) % slots}); r.push_back({MP, a, 0}); r.push_back({ROOT, a, 1});
        for (int b = a + 1; b < slots; ++b) r.push_back({SWAP, a, b});
    }
    return r;
}
// what the operation does to one object, on fresh unshared objects (memoised): the value-semantics model
static int pure(K k, int va, int vb, int arg) {
    static std::map<std::array<int, 4>, int> memo; auto key = std::array<int, 4>{k, va, vb, arg}; auto it = memo.find(key); if (it != memo.end()) return it->second;
    int r = va; 
    if (k == SET) { r = tab(arg).canon(cn); } else if (k == EMPTY) r = 0; else if (k == UNIV) { DD d(arg); r = canonOf(cn, d); }
    else if (k == ROOT) r = va < 2 ? va : cn.child(va, arg);
    else { DD d{IdSpec(va)};
        if (k == ZRED) d.zddReduce(); else if (k == BRED) d.bddReduce(); else if (k == QRED) d.qddReduce();
        else if (k == SUBT) { Table<2> t = tab(arg); d.zddSubset(TScalar<2, PInt>(t)); } else if (k == SUBD) { d.zddSubset(IdSpec(vb)); }
        else if (k == TOZDD) { DD e{IdSpec(vb)}; d = e.bdd2zdd(4); d.zddReduce(); } else if (k == TOBDD) { DD e{IdSpec(vb)}; d = e.zdd2bdd(4); d.bddReduce(); }
        else if (k == UNION) { IdSpec x(va), y(vb); d = DD(zddUnion(x, y)); d.zddReduce(); }
        r = canonOf(cn, d); }
    return memo[key] = r;
}
static void look(Ctx& cx, DD& a, DD& b, int va) {   // iterate a while b is made a copy of it and changed, and evaluate
    std::vector<std::set<int>> p, q; for (auto const& s : a) p.push_back(s);
    DD t(a); DD::const_iterator it = a.begin(); size_t k = 0;
    for (; it != a.end(); ++it, ++k) { q.push_back(*it); if (k == 0) { t.bddReduce(); t = b; } if (k == 1) { DD u(a); u.zddSubset(IdSpec(va)); u.zddReduce(); } }
    cx.check(p == q, "iteration", "iterating a diagram was disturbed by operations on its copies"); std::string c = a.zddCardinality(), d = DD(a).zddCardinality(); cx.check(c == str(p.size()) && c == d, "cardinality", "cardinality of an object and its copy differ");
    cx.check(a == a && (DD(a) == a), "equal", "an object differs from its copy");
}
static void run(Ctx& cx, std::vector<Op> const& seq, int slots) {
    {
        std::vector<DD> v(slots); std::vector<int> m(slots, 0); std::string hist;
        for (int i = 0; i < slots; ++i) { Table<2> t = tab(i % 2); v[i] = DD(TScalar<2, PInt>(t)); m[i] = t.canon(cn); } if (slots > 2) { v[2] = v[0]; m[2] = m[0]; }
        for (Op o : seq) {
            hist += txt(o) + " "; cx.desc = hist; DD& a = v[o.a]; cx.op();
            switch (o.k) {
            case SET: { Table<2> t = tab(o.b); a = DD(TScalar<2, PInt>(t)); break; }
            case EMPTY: a = DD(); break;
            case UNIV: a = DD(o.b); break;
            case ASSIGN: a = v[o.b]; break;
            case ZRED: a.zddReduce(); break;
            case BRED: a.bddReduce(); break;
            case QRED: a.qddReduce(); break;
            case SUBT: { Table<2> t = tab(o.b); a.zddSubset(TScalar<2, PInt>(t)); break; }
            case SUBD: a.zddSubset(v[o.b]); break;
            case TOZDD: a = v[o.b].bdd2zdd(4); a.zddReduce(); break;
            case TOBDD: a = v[o.b].zdd2bdd(4); a.bddReduce(); break;
            case LOOK: look(cx, a, v[o.b], m[o.a]); break;
            case MP: a.useMultiProcessors(!a.useMultiProcessors(true)); break;
            case SWAP: std::swap(a, v[o.b]); std::swap(m[o.a], m[o.b]); break;
            case UNION: a = DD(zddUnion(a, v[o.b])); a.zddReduce(); break;
            case COPYCTOR: { DdSpecBase<DD, 2> const& sp = v[o.b]; a = DD(sp, true); break; }
            case ROOT: if (a.topLevel() > 0) a.root() = a.child(a.root(), o.b); break;
            }
            if (o.k == ASSIGN || o.k == COPYCTOR) m[o.a] = m[o.b]; else if (o.k != LOOK && o.k != MP && o.k != SWAP) m[o.a] = pure(o.k, m[o.a], m[o.b < slots ? o.b : 0], o.b);
            for (int i = 0; i < slots; ++i) { int c = canonOf(cn, v[i]); cx.require(c == m[i], "value", [&] { return str("after ", hist, " object ", i, " represents ", cn.text(c), ", expected ", cn.text(m[i])); }); }
        }
        uint64_t h = 1; for (int x : m) h = mix(h, x); cx.outcome(h);
    }
    cx.trace();
}
static void scope(Scopes& s, std::string name, int slots, int depth, bool thorough) {
    std::vector<Op> O = ops(slots); uint64_t N = 1; for (int i = 0; i < depth; ++i) N *= O.size();
    s.add(name, str("all sequences of ", depth, " operations (", O.size(), " operations on ", slots, " objects)"), N, [=](uint64_t x, Ctx& cx) {
        Dec q(x); std::vector<Op> seq; for (int i = 0; i < depth; ++i) seq.push_back(O[q(O.size())]);
        long l0 = liveAllocations(); size_t memo0 = cn.node.size(); run(cx, seq, slots); static uint64_t n = 0;
        if (++n % 64 == 0) { std::string d = cx.desc; long a = liveAllocations(); run(cx, seq, slots); long b = liveAllocations(); cx.outcome(0); run(cx, seq, slots); long c = liveAllocations(); cx.check(c - b <= 0 || b - a <= 0 || (c - b) != (b - a), "leak", str("every run of this sequence leaves ", c - b, " allocations behind")); }
        (void)l0; (void)memo0; }, 512);
    s.v.back().thorough = thorough;
}
SCOPES(s) {
    omprt::setThreads(2); omprt::setPolicy(0);
    scope(s, "2x2", 2, 2, false); scope(s, "3x2", 3, 2, false); scope(s, "3x3", 3, 3, false); scope(s, "2x3", 2, 3, false); scope(s, "2x4", 2, 4, true); scope(s, "3x4", 3, 4, true);
    s.add("leak", "every sequence of two operations on three objects, run three times: allocation count returns to the same value", ops(3).size() * ops(3).size(), [](uint64_t x, Ctx& cx) {
        static std::vector<Op> O = ops(3); std::vector<Op> seq{O[x % O.size()], O[x / O.size()]}; run(cx, seq, 3); long a = liveAllocations(); run(cx, seq, 3); long b = liveAllocations(); run(cx, seq, 3); long c = liveAllocations();
        cx.require(a == b && b == c, "leak", [&] { return str("allocations after identical runs: ", a, " ", b, " ", c); }); });
}
