// P16: MyHashTable / MyHashMap over all bounded operation histories, against std::set / std::map.
#include "mc.hpp"
#include <tdzdd/util/MyHashTable.hpp>
#include <limits>
#include <memory>
using namespace mc; using namespace tdzdd;

enum { NH = 7 };
struct H { int k; explicit H(int k = 0) : k(k) {}
    size_t operator()(int x) const { switch (k) { case 0: return 0; case 1: return ~size_t(0); case 2: return x; case 3: return size_t(x) * 11 + 10; case 4: return x & 1; case 5: return size_t(-x); default: return size_t(x) * 314159257ULL; } } };
struct E { int m; explicit E(int m = 0) : m(m) {} bool operator()(int a, int b) const { return m ? (a - 1) % m == (b - 1) % m : a == b; } };
// an equality coarser than == needs a hash that respects it
struct HE { int k, m; explicit HE(int k = 0, int m = 0) : k(k), m(m) {} size_t operator()(int x) const { return H(k)(m ? (x - 1) % m + 1 : x); } };
typedef MyHashTable<int, HE, E> T;
typedef MyHashMap<int, int, HE, E> M;

struct Model { std::map<int, int> v; int m = 0; int key(int x) const { return m ? (x - 1) % m + 1 : x; } };   // class -> representative (set) or value (map)

static void same(Ctx& cx, T& t, Model const& mo, int K, char const* at) {
    cx.require(t.size() == mo.v.size() && t.empty() == mo.v.empty(), "size", [&] { return str(at, ": size ", t.size(), " expected ", mo.v.size()); });
    std::set<int> seen; size_t c = 0;
    for (T::iterator i = t.begin(); i != t.end(); ++i) { ++c; cx.require(seen.insert(mo.key(*i)).second && mo.v.count(mo.key(*i)) && mo.v.at(mo.key(*i)) == *i, "iterate", [&] { return str(at, ": iteration yields ", *i, " wrongly"); }); }
    cx.require(c == mo.v.size(), "iterate", [&] { return str(at, ": iteration yields ", c, " elements, expected ", mo.v.size()); });
    T const& ct = t; size_t cc = 0; for (T::const_iterator i = ct.begin(); i != ct.end(); ++i) { ++cc; cx.check(seen.count(mo.key(*i)), "iterate", "const iteration differs"); cx.check(*i.operator->() == *i, "iterate", "->"); } cx.check(cc == c, "iterate", "const iteration yields another number of elements");
    for (int x = 1; x <= K; ++x) { int* p = t.get(x); auto it = mo.v.find(mo.key(x)); cx.require((p != 0) == (it != mo.v.end()), "get", [&] { return str(at, ": get(", x, p ? ") finds an element that was not added" : ") misses an element that was added"); }); if (p) cx.require(*p == it->second, "get", [&] { return str(at, ": get(", x, ") = ", *p, " expected ", it->second); }); }
    cx.require(t.size() <= t.tableSize() && t.tableCapacity() >= t.tableSize() * sizeof(int), "capacity", [&] { return str(at, ": table size ", t.tableSize(), " capacity ", t.tableCapacity()); });
}
static void add(Ctx& cx, T& t, Model& mo, int x, char const* at) {
    int r = t.add(x); auto it = mo.v.insert(std::make_pair(mo.key(x), x)).first; cx.op();
    cx.require(r == it->second, "add", [&] { return str(at, ": add(", x, ") returned ", r, " expected ", it->second); });
    cx.check(&t.add(x) == t.get(x), "add", "add and get refer to different entries");
}
// two tables, all operation sequences; the first table starts with `pre` elements
static void history(Ctx& cx, int hk, int em, int pre, int K, int depth, uint64_t x) {
    std::unique_ptr<T> t[2]; Model mo[2]; std::string log;
    for (int i = 0; i < 2; ++i) { t[i].reset(i == 0 ? new T(HE(hk, em), E(em)) : new T(5, HE(hk, em), E(em))); mo[i].m = em; }
    for (int i = 0; i < pre; ++i) add(cx, *t[0], mo[0], K + 1 + i, "prefix");
    int const P = K + pre + 2; Dec d(x); cx.desc = str("hash ", hk, " equal mod ", em, " prefix ", pre, ":");
    for (int k = 0; k < depth; ++k) {
        int o = d(K * 2 + 13), s = 0; std::string op;
        if (o < 2 * K) { s = o / K; int v = o % K + 1; op = str(" add", s, "(", v, ")"); cx.desc += op; add(cx, *t[s], mo[s], v, op.c_str()); }
        else switch (o - 2 * K) {
            case 0: op = " clear0"; cx.desc += op; t[0]->clear(); mo[0].v.clear(); break;
            case 1: op = " init0(0)"; cx.desc += op; t[0]->initialize(0); mo[0].v.clear(); break;
            case 2: op = " init0(40)"; cx.desc += op; t[0]->initialize(40); mo[0].v.clear(); break;
            case 3: op = " rehash0()"; cx.desc += op; t[0]->rehash(); break;
            case 4: op = " rehash0(90)"; cx.desc += op; t[0]->rehash(90); break;
            case 5: op = " 1=0"; cx.desc += op; *t[1] = *t[0]; mo[1] = mo[0]; break;
            case 6: op = " 0=1"; cx.desc += op; *t[0] = *t[1]; mo[0] = mo[1]; break;
            case 7: op = " move0<-1"; cx.desc += op; t[0]->moveAssign(*t[1]); mo[0] = mo[1]; mo[1].v.clear(); break;
            case 8: op = " move1<-0"; cx.desc += op; t[1]->moveAssign(*t[0]); mo[1] = mo[0]; mo[0].v.clear(); break;
            case 9: op = " 1=copy(0)"; cx.desc += op; t[1].reset(new T(*t[0])); mo[1] = mo[0]; break;
            case 10: op = " 1=copy(0,70)"; cx.desc += op; t[1].reset(new T(*t[0], 70)); mo[1] = mo[0]; break;
            case 11: op = " 0=0"; cx.desc += op; *t[0] = *&*t[0]; break;
            case 12: op = " new0(3)"; cx.desc += op; t[0].reset(new T(3, HE(hk, em), E(em))); mo[0].v.clear(); break;
        }
        cx.op(); same(cx, *t[0], mo[0], P, op.c_str()); same(cx, *t[1], mo[1], P, op.c_str());
    }
    cx.trace(); cx.outcome(mix(t[0]->size() * 64 + t[1]->size(), t[0]->tableSize() * 131 + t[1]->tableSize())); cx.maxdepth = std::max<uint64_t>(cx.maxdepth, depth);
}
static void maps(Ctx& cx, int hk, int em, int pre, int K, int depth, uint64_t x) {
    std::unique_ptr<M> t[2]; std::map<int, int> mo[2]; Dec d(x); cx.desc = str("map hash ", hk, " equal mod ", em, " prefix ", pre, ":");
    auto key = [&](int v) { return em ? (v - 1) % em + 1 : v; };
    for (int i = 0; i < 2; ++i) t[i].reset(i ? new M(4, HE(hk, em), E(em)) : new M(HE(hk, em), E(em)));
    for (int i = 0; i < pre; ++i) { int v = K + 1 + i; (*t[0])[v] = 1000 + v; mo[0][key(v)] = 1000 + v; }
    for (int k = 0; k < depth; ++k) {
        int o = d(3 * K + 9), v = o % K + 1;
        if (o < K) { cx.desc += str(" m0[", v, "]=", k + 1); (*t[0])[v] = k + 1; mo[0][key(v)] = k + 1; }
        else if (o < 2 * K) { cx.desc += str(" m1[", v, "]+=1"); (*t[1])[v] += 1; mo[1][key(v)] += 1; }
        else if (o < 3 * K) { cx.desc += str(" touch m0[", v, "]"); cx.check((*t[0])[v] == mo[0][key(v)], "value", "reading m0[v] gives a wrong value"); }
        else switch (o - 3 * K) {
            case 0: cx.desc += " clear0"; t[0]->clear(); mo[0].clear(); break;
            case 1: cx.desc += " init0(30)"; t[0]->initialize(30); mo[0].clear(); break;
            case 2: cx.desc += " rehash0(60)"; t[0]->rehash(60); break;
            case 3: cx.desc += " 1=0"; *t[1] = *t[0]; mo[1] = mo[0]; break;
            case 4: cx.desc += " 0=copy(1,50)"; t[0].reset(new M(*t[1], 50)); mo[0] = mo[1]; break;
            case 5: cx.desc += " move0<-1"; t[0]->moveAssign(*t[1]); mo[0] = mo[1]; mo[1].clear(); break;
            case 6: cx.desc += " 0=0"; *t[0] = *&*t[0]; break;
            case 7: cx.desc += " each0 value+=7"; for (M::iterator i = t[0]->begin(); i != t[0]->end(); ++i) i->value += 7; for (auto& e : mo[0]) e.second += 7; break;
            case 8: cx.desc += " init0(0)"; t[0]->initialize(0); mo[0].clear(); break;
        }
        cx.op();
        for (int s = 0; s < 2; ++s) { cx.require(t[s]->size() == mo[s].size(), "size", [&] { return str("map ", s, " has ", t[s]->size(), " entries, expected ", mo[s].size()); });
            for (int v = 1; v <= K + pre + 2; ++v) { int* p = t[s]->getValue(v); auto it = mo[s].find(key(v)); cx.require((p != 0) == (it != mo[s].end()) && (!p || *p == it->second), "value", [&] { return str("map ", s, " key ", v, p ? str(": value ", *p) : std::string(": missing"), it == mo[s].end() ? std::string(" expected none") : str(" expected ", it->second)); }); }
            size_t c = 0; std::set<int> seen; for (M::iterator i = t[s]->begin(); i != t[s]->end(); ++i) { ++c; auto it = mo[s].find(key(i->key)); cx.check(it != mo[s].end() && it->second == (*i).value && seen.insert(it->first).second, "iterate", "map iteration yields a wrong entry"); } cx.check(c == mo[s].size(), "iterate", "map iteration yields another number of entries"); }
    }
    cx.trace(); cx.outcome(mix(t[0]->size(), t[1]->tableSize()));
}
struct Obj { int v; Obj(int v = 0) : v(v) {} size_t hash() const { return v % 3; } bool operator==(Obj const& o) const { return v == o.v; } };
template<typename I> static void ints(Ctx& cx, char const* name) {
    std::vector<I> vals; for (int i = 1; i < 100; ++i) vals.push_back(I(i)); vals.push_back(std::numeric_limits<I>::max()); vals.push_back(I(std::numeric_limits<I>::max() - 1)); if (std::numeric_limits<I>::is_signed) for (int i = 1; i < 60; ++i) vals.push_back(I(-i)); vals.push_back(I(std::numeric_limits<I>::max() / 2 + 1));
    MyHashTable<I> t; std::set<I> s; MyHashMap<I, std::string> m; std::map<I, std::string> ms; cx.desc = name;
    for (size_t i = 0; i < vals.size(); ++i) { I v = vals[i]; if (v == 0) continue; cx.op(); cx.check(t.add(v) == v, "add", "add returned another value"); s.insert(v); m[v] = str("v", i); ms[v] = str("v", i); cx.check(t.size() == s.size() && m.size() == ms.size(), "size", "wrong size");
        for (I w : vals) if (w != 0) { cx.check((t.get(w) != 0) == (s.count(w) != 0), "get", "membership wrong"); std::string* p = m.getValue(w); cx.check((p != 0) == (ms.count(w) != 0) && (!p || *p == ms[w]), "value", "map value wrong"); } }
    std::set<I> it(t.begin().operator->(), t.begin().operator->()); for (typename MyHashTable<I>::iterator i = t.begin(); i != t.end(); ++i) cx.check(it.insert(*i).second, "iterate", "twice"); cx.check(it == s, "iterate", "iteration differs"); cx.trace(); cx.outcome(t.tableSize());
}
SCOPES(s) {
    (void)mcReg_;
    auto hist = [&](std::string name, std::vector<int> pres, std::vector<int> ems, int K, int depth, bool th) {
        uint64_t per = 1; for (int i = 0; i < depth; ++i) per *= K * 2 + 13; size_t np = pres.size(), ne = ems.size();
        s.add(name, str("all sequences of ", depth, " operations (add of ", K, " keys, clear, initialize, rehash, assign, self-assign, move, copy, renew) on two tables, ", np, " starting sizes, ", ne, " equalities, ", int(NH), " hash functions"), per * np * ne * NH, [=](uint64_t x, Ctx& cx) { Dec d(x); int hk = d(NH), em = ems[d(ne)], pre = pres[d(np)]; history(cx, hk, em, pre, K, depth, d.x); });
        s.v.back().thorough = th;
    };
    std::vector<int> lo{0}, grow{7, 8, 9, 13, 14, 15, 28}, many; for (int i = 0; i <= 60; ++i) many.push_back(i);
    hist("short4", lo, {0, 2}, 3, 3, false); hist("grow", grow, {0, 5}, 2, 3, false); hist("every-size", many, {0}, 2, 2, false); hist("long", lo, {0}, 2, 4, false);
    hist("long5", {0, 7}, {0}, 2, 5, true);
    auto mp = [&](std::string name, std::vector<int> pres, std::vector<int> ems, int K, int depth, bool th) {
        uint64_t per = 1; for (int i = 0; i < depth; ++i) per *= K * 3 + 9; size_t np = pres.size(), ne = ems.size();
        s.add(name, str("all sequences of ", depth, " map operations on two maps, ", np, " starting sizes"), per * np * ne * NH, [=](uint64_t x, Ctx& cx) { Dec d(x); int hk = d(NH), em = ems[d(ne)], pre = pres[d(np)]; maps(cx, hk, em, pre, K, depth, d.x); }); s.v.back().thorough = th;
    };
    mp("map", {0}, {0, 2}, 2, 4, false); mp("map-grow", grow, {0, 5}, 2, 3, false); mp("map-sizes", many, {0}, 2, 2, false); mp("map5", {0, 8}, {0}, 2, 5, true);
    s.add("growth", "adding 1..n in one table for every hash function, checked at every size", NH * 3, [](uint64_t x, Ctx& cx) { Dec d(x); int hk = d(NH), ord = d(3); cx.desc = str("growth hash ", hk, " order ", ord); int n = hk <= 1 || hk == 4 ? 600 : 5000; T t(HE(hk, 0), E(0)); Model mo; for (int i = 1; i <= n; ++i) { int v = ord == 0 ? i : ord == 1 ? n + 1 - i : int((i * 7919ll) % n + 1); add(cx, t, mo, v, "growth"); if (i % (n / 40) == 0 || i < 40) same(cx, t, mo, n + 2, "growth"); } same(cx, t, mo, n + 2, "growth"); T c(t), e(1000, HE(hk, 0), E(0)); same(cx, c, mo, n, "copy"); e = t; same(cx, e, mo, n, "assign"); cx.trace(); cx.outcome(t.tableSize()); }, 1, 120);
    s.add("ints", "default hashing of every integer type, extreme and negative values, checked after each insertion", 8, [](uint64_t x, Ctx& cx) { switch (x) { case 0: ints<int8_t>(cx, "int8"); break; case 1: ints<int16_t>(cx, "int16"); break; case 2: ints<int32_t>(cx, "int32"); break; case 3: ints<int64_t>(cx, "int64"); break; case 4: ints<uint8_t>(cx, "uint8"); break; case 5: ints<uint16_t>(cx, "uint16"); break; case 6: ints<uint32_t>(cx, "uint32"); break; default: ints<uint64_t>(cx, "uint64"); } });
    s.add("pointers", "tables of pointers compare the pointed-to objects; tables of objects use hash()", 2, [](uint64_t x, Ctx& cx) { cx.desc = x ? "pointers" : "objects"; std::vector<Obj> a, b; for (int i = 1; i <= 40; ++i) { a.push_back(Obj(i)); b.push_back(Obj(i)); } MyHashTable<Obj*> p; MyHashTable<Obj> o; for (int i = 0; i < 40; ++i) { cx.op(); if (x) { cx.check(p.add(&a[i]) == &a[i], "add", "pointer add"); cx.check(p.add(&b[i]) == &a[i], "add", "an equal object was added twice"); cx.check(p.size() == size_t(i + 1), "size", "size"); for (int j = 0; j < 40; ++j) { Obj** q = p.get(&b[j]); cx.check((q != 0) == (j <= i) && (!q || *q == &a[j]), "get", "pointer get"); } } else { cx.check(o.add(b[i]).v == i + 1, "add", "object add"); for (int j = 0; j < 40; ++j) cx.check((o.get(b[j]) != 0) == (j <= i), "get", "object get"); } } cx.trace(); });
    s.add("prime-size", "table size chosen for every request up to 2^20 and around every power of two: never below the request", 1 + 60, [](uint64_t x, Ctx& cx) { auto one = [&](uint64_t n) { cx.op(); uint64_t p = MyHashConstant::primeSize(n); cx.require(p >= n && p > 0, "primeSize", [&] { return str("primeSize(", n, ") = ", p); }); }; cx.desc = str("primeSize ", x); if (x == 0) for (uint64_t n = 0; n < (1 << 20); ++n) one(n); else for (uint64_t n = (1ull << x) > 300 ? (1ull << x) - 300 : 0; n < (1ull << x) + 300; ++n) one(n); cx.trace(); });
}
