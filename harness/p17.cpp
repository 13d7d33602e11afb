// P17: MyVector, MyList, MyListOnPool, MemoryPool, DataTable over all bounded operation histories.
#include "mc.hpp"
#include <tdzdd/dd/NodeTable.hpp>
#include <tdzdd/util/MemoryPool.hpp>
#include <tdzdd/util/MyList.hpp>
#include <tdzdd/util/MyVector.hpp>
#include <deque>
#include <memory>
using namespace mc; using namespace tdzdd;

// element that must be constructed and destroyed exactly once
inline std::set<void const*> gLive; inline std::string gErr;
struct Obj {
    int v; char pad[9];
    void born() { if (!gLive.insert(this).second && gErr.empty()) gErr = "object constructed over a living one"; memset(pad, v & 0x7f, sizeof pad); }
    void use() const { if (!gLive.count(this) && gErr.empty()) gErr = "use of an object that is not alive"; for (char c : pad) if (c != char(v & 0x7f) && gErr.empty()) gErr = "object contents damaged"; }
    Obj() : v(0) { born(); }
    Obj(int v) : v(v) { born(); }
    Obj(Obj const& o) : v(o.v) { o.use(); born(); }
    Obj& operator=(Obj const& o) { use(); o.use(); v = o.v; memset(pad, v & 0x7f, sizeof pad); return *this; }
    ~Obj() { if (!gLive.erase(this) && gErr.empty()) gErr = "object destroyed twice or never constructed"; }
    bool operator==(Obj const& o) const { use(); o.use(); return v == o.v; }
    size_t hash() const { use(); return v; }
    friend std::ostream& operator<<(std::ostream& os, Obj const& o) { return os << o.v; }
};
struct Int { int v; Int(int v = 0) : v(v) {} bool operator==(Int const& o) const { return v == o.v; } size_t hash() const { return v; } friend std::ostream& operator<<(std::ostream& os, Int const& o) { return os << o.v; } };
static void healthy(Ctx& cx) { cx.require(gErr.empty(), "lifetime", [&] { return gErr; }); }

#if PART == 0
template<typename T, typename Size> struct Vec {
    typedef MyVector<T, Size> V; typedef std::vector<int> W;
    static void same(Ctx& cx, V& v, W const& w, std::string const& op) {
        auto bad = [&](char const* sig, char const* what) { cx.require(false, sig, [&] { std::string s = str(what, " after", op, ": expected ("); for (int x : w) s += str(x, ","); s += ") got ("; for (size_t i = 0; i < size_t(v.size()) && i < 50; ++i) s += str(v.data()[i].v, ","); return s + ")"; }); };
        V const& c = v;
        if (size_t(v.size()) != w.size() || v.empty() != w.empty()) bad("size", "size differs"); if (v.capacity() < v.size()) bad("capacity", "capacity below size");
        for (size_t i = 0; i < w.size(); ++i) if (v[i].v != w[i] || c[i].v != w[i] || v.data()[i].v != w[i]) bad("element", "element differs");
        size_t k = 0; for (typename V::iterator t = v.begin(); t != v.end(); ++t, ++k) if (k >= w.size() || t->v != w[k]) bad("iterate", "iteration differs"); if (k != w.size()) bad("iterate", "iteration ends early");
        k = 0; for (typename V::const_iterator t = c.begin(); t != c.end(); ++t, ++k) if (t->v != w[k]) bad("iterate", "const iteration differs");
        k = w.size(); for (typename V::reverse_iterator t = v.rbegin(); t != v.rend(); ++t) if (k == 0 || (*t).v != w[--k]) bad("reverse", "reverse iteration differs"); if (k) bad("reverse", "reverse iteration ends early");
        k = w.size(); for (typename V::const_reverse_iterator t = c.rbegin(); t != c.rend(); ++t) if (k == 0 || t->v != w[--k]) bad("reverse", "const reverse iteration differs");
        if (!w.empty() && (v.back().v != w.back() || c.back().v != w.back())) bad("back", "back() differs");
        std::ostringstream a, b; a << v; b << "("; for (size_t i = 0; i < w.size(); ++i) b << (i ? "," : "") << w[i]; b << ")"; if (a.str() != b.str()) bad("print", "printed text differs");
    }
    static int ops() { return 33; }
    static void run(Ctx& cx, uint64_t x, int depth, char const* tn) {
        gLive.clear(); gErr.clear(); cx.desc = str("MyVector<", tn, ">:");
        { std::unique_ptr<V> v[2] = {std::unique_ptr<V>(new V), std::unique_ptr<V>(new V)}; W w[2]; Dec d(x); int val = 10;
        for (int k = 0; k < depth; ++k) {
            int o = d(ops()); std::string op; V &a = *v[0], &b = *v[1]; W &p = w[0], &q = w[1]; T* before = a.data(); bool still = false;
            auto range = [&](size_t i, size_t j) { i = std::min(i, p.size()); j = std::min(std::max(i, j), p.size()); op = str(" a.erase(", i, "..", j, ")"); cx.desc += op; T* r = a.erase(a.begin() + i, a.begin() + j); p.erase(p.begin() + i, p.begin() + j); cx.check(r == a.begin() + i, "erase", "erase returns a wrong iterator"); };
            auto single = [&](size_t i) { if (p.empty()) return; i = std::min(i, p.size() - 1); op = str(" a.erase(", i, ")"); cx.desc += op; T* r = a.erase(a.begin() + i); p.erase(p.begin() + i); cx.check(r == a.begin() + i, "erase", "erase returns a wrong iterator"); };
            ++val;
            switch (o) {
            case 0: case 1: op = " a.push"; cx.desc += op; still = a.size() < a.capacity(); a.push_back(T(val)); p.push_back(val); break;
            case 2: op = " b.push"; cx.desc += op; b.push_back(T(val)); q.push_back(val); break;
            case 3: op = " a.push*3"; cx.desc += op; for (int i = 0; i < 3; ++i) { a.push_back(T(val * 4 + i)); p.push_back(val * 4 + i); } break;
            case 4: if (p.empty()) continue; op = " a.push(a[0])"; cx.desc += op; a.push_back(a[0]); p.push_back(int(p[0])); break;
            case 5: op = " a.pop"; cx.desc += op; still = true; a.pop_back(); if (!p.empty()) p.pop_back(); break;
            case 6: case 7: case 8: case 9: case 10: case 11: { static int const n[] = {0, 1, 2, 4, 10, 11}; int m = n[o - 6]; op = str(" a.resize(", m, ")"); cx.desc += op; still = m > 0 && Size(m) == a.capacity(); a.resize(m); p.resize(m); break; }
            case 12: op = " a.reserve(6)"; cx.desc += op; still = a.capacity() >= 6; a.reserve(6); cx.check(a.capacity() >= 6, "capacity", "reserve did not reserve"); break;
            case 13: op = " a.reserve(0)"; cx.desc += op; still = true; a.reserve(0); break;
            case 14: op = " a.init(3)"; cx.desc += op; a.init(3); p.assign(3, 0); break;
            case 15: op = " a.clear"; cx.desc += op; a.clear(); p.clear(); cx.check(a.capacity() == 0, "capacity", "clear keeps memory"); break;
            case 16: range(0, 1); break; case 17: range(1, 3); break; case 18: range(1, 2); break; case 19: range(0, 9); break; case 20: range(1, 1); break;
            case 21: single(0); break; case 22: single(1); break;
            case 23: op = " a=b"; cx.desc += op; a = b; p = q; break;
            case 24: op = " b=a"; cx.desc += op; b = a; q = p; break;
            case 25: op = " a=a"; cx.desc += op; a = *&a; break;
            case 26: op = " a.swap(b)"; cx.desc += op; a.swap(b); p.swap(q); break;
            case 27: op = " b=copy(a)"; cx.desc += op; v[1].reset(new V(a)); q = p; break;
            case 28: op = " a=std(b)"; cx.desc += op; a = std::vector<int>(q); p = q; break;
            case 29: op = " b=new(std(a))"; cx.desc += op; v[1].reset(new V(std::vector<int>(p))); q = p; break;
            case 30: op = " a=new(2)"; cx.desc += op; v[0].reset(new V(2)); p.assign(2, 0); break;
            case 31: op = " a=new(3,v)"; cx.desc += op; v[0].reset(new V(3, T(val))); p.assign(3, val); break;
            case 32: if (p.empty()) continue; op = " a[last]=v"; cx.desc += op; still = true; a[p.size() - 1] = T(val); p.back() = val; break;
            }
            cx.op(); same(cx, *v[0], w[0], op); same(cx, *v[1], w[1], op); healthy(cx);
            if (still) cx.check(v[0]->data() == before, "address", str("elements moved by", op));
            cx.check((*v[0] == *v[1]) == (w[0] == w[1]), "equal", str("== wrong after", op)); if (w[0] == w[1]) cx.check(v[0]->hash() == v[1]->hash(), "hash", "equal vectors hash differently");
        }
        cx.outcome(mix(w[0].size() * 100 + w[1].size(), v[0]->capacity() * 100 + v[1]->capacity())); }
        healthy(cx); cx.require(gLive.empty(), "lifetime", [&] { return str(gLive.size(), " elements were never destroyed"); }); cx.trace(); cx.maxdepth = std::max<uint64_t>(cx.maxdepth, depth);
    }
    static void add(Scopes& s, char const* tn, int depth, bool th) { uint64_t n = 1; for (int i = 0; i < depth; ++i) n *= ops(); s.add(str("vector-", tn, "-", depth), str("all sequences of ", depth, " out of ", ops(), " operations on two MyVector<", tn, ">"), n, [=](uint64_t x, Ctx& cx) { run(cx, x, depth, tn); }); s.v.back().thorough = th; }
};
// per-level tables
template<typename T> static void table(Ctx& cx, uint64_t x, int depth) {
    gLive.clear(); gErr.clear(); cx.desc = "DataTable:";
    { DataTable<T> a(2), b; std::vector<std::vector<int>> p(2), q; Dec d(x); int val = 5;
    for (int k = 0; k < depth; ++k) {
        int o = d(17); ++val;
        if (o < 3) { static int const n[] = {0, 1, 3}; cx.desc += str(" init(", n[o], ")"); a.init(n[o]); p.assign(n[o], {}); }
        else if (o < 6) { static int const n[] = {1, 2, 4}; cx.desc += str(" rows(", n[o - 3], ")"); a.setNumRows(n[o - 3]); p.resize(n[o - 3]); }
        else if (o < 10) { int i = (o - 6) / 2, m = (o & 1) * 3; if (i >= int(p.size())) continue; cx.desc += str(" initRow(", i, ",", m, ")"); a.initRow(i, m); p[i].assign(m, 0); }
        else if (o < 12) { int i = o - 10; if (i >= int(p.size())) continue; cx.desc += str(" addColumn(", i, ")"); size_t c = a.addColumn(i); p[i].push_back(0); cx.check(c == p[i].size() - 1, "column", "addColumn returns a wrong index"); }
        else if (o == 12) { for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p[i].size(); ++j) { a[i][j] = T(val + 10 * i + j); p[i][j] = val + 10 * i + j; } cx.desc += " fill"; }
        else if (o == 13) { cx.desc += " b=a"; b = a; q = p; }
        else if (o == 14) { cx.desc += " a=b"; a = b; p = q; }
        else if (o == 15) { cx.desc += " a=a"; a = *&a; }
        else { cx.desc += " b=copy(a)"; DataTable<T> c(a); b = c; q = p; }
        cx.op(); healthy(cx);
        for (int s = 0; s < 2; ++s) { DataTable<T>& t = s ? b : a; auto& m = s ? q : p; size_t tot = 0; cx.check(t.numRows() == int(m.size()), "rows", "number of rows differs"); std::ostringstream e, g; for (size_t i = 0; i < m.size(); ++i) { tot += m[i].size(); cx.check(t[i].size() == m[i].size(), "row-size", "row size differs"); e << i << ": "; for (size_t j = 0; j < m[i].size(); ++j) { cx.check(t[i][j].v == m[i][j], "cell", "cell differs"); e << (j ? ", " : "") << m[i][j]; } e << "\n"; } cx.check(t.totalSize() == tot, "total", "total size differs"); g << t; cx.check(g.str() == e.str(), "print", "printed table differs"); }
    }
    cx.outcome(mix(a.totalSize(), b.totalSize())); }
    healthy(cx); cx.check(gLive.empty(), "lifetime", "cells never destroyed"); cx.trace();
}
SCOPES(s) {
    (void)mcReg_;
    Vec<Obj, size_t>::add(s, "Obj", 3, false); Vec<Int, size_t>::add(s, "Int", 3, false); Vec<Obj, int>::add(s, "Obj,int", 3, false);
    Vec<Obj, size_t>::add(s, "Obj", 4, false); Vec<Obj, size_t>::add(s, "Obj", 5, true);
    s.add("vector-grow", "pushing 1..3000 elements, popping them, every size checked", 3, [](uint64_t x, Ctx& cx) { gLive.clear(); gErr.clear(); cx.desc = str("grow ", x); { MyVector<Obj> v; std::vector<int> w; for (int i = 0; i < 3000; ++i) { v.push_back(Obj(i)); w.push_back(i); cx.op(); if (i % 97 == 0 || i < 40) Vec<Obj, size_t>::same(cx, v, w, " push"); } if (x == 1) for (int n = 3000; n > 0; n = n * 9 / 10) { v.resize(n); w.resize(n); Vec<Obj, size_t>::same(cx, v, w, " shrink"); } if (x == 2) while (!w.empty()) { v.pop_back(); w.pop_back(); if (w.size() % 97 == 0) Vec<Obj, size_t>::same(cx, v, w, " pop"); } healthy(cx); } healthy(cx); cx.check(gLive.empty(), "lifetime", "elements never destroyed"); cx.trace(); }, 1, 120);
    s.add("table-obj", "all sequences of 4 operations on per-level tables of tracked objects", 17 * 17 * 17 * 17, [](uint64_t x, Ctx& cx) { table<Obj>(cx, x, 4); });
    s.add("table-int", "all sequences of 4 operations on per-level tables", 17 * 17 * 17 * 17, [](uint64_t x, Ctx& cx) { table<Int>(cx, x, 4); });
    s.add("table-obj5", "all sequences of 5 operations on per-level tables of tracked objects", 17 * 17 * 17 * 17 * 17, [](uint64_t x, Ctx& cx) { table<Obj>(cx, x, 5); }); s.v.back().thorough = true;
}
#else
struct Blk { unsigned char* p; size_t n; unsigned char tag; };
static void paint(Blk const& b) { for (size_t i = 0; i < b.n; ++i) b.p[i] = b.tag + 7 * i; }
static bool intact(Blk const& b) { for (size_t i = 0; i < b.n; ++i) if (b.p[i] != (unsigned char)(b.tag + 7 * i)) return false; return true; }
template<size_t N> struct Cellz { unsigned char b[N]; friend std::ostream& operator<<(std::ostream& os, Cellz const& c) { return os << int(c.b[0]); } };

template<size_t N, size_t B> static void list(Ctx& cx, uint64_t x, int depth, int pre) {
    typedef Cellz<N> C; typedef MyList<C, B> L; cx.desc = str("MyList<", N, " bytes, ", B, " per block>, ", pre, " elements before:"); cx.desc.reserve(2000); uint64_t oc = 0; long live = liveAllocations();
    { L a; std::deque<Blk> m; Dec d(x); unsigned char tag = 1;
    auto alloc = [&](size_t n) { C* p = a.alloc_front(n); m.push_front(Blk{(unsigned char*)p, n * N, tag++}); paint(m.front()); };
    auto checkAll = [&] {
        L const& c = a; cx.check(a.size() == m.size() && a.empty() == m.empty(), "size", "list size differs"); size_t i = 0;
        for (typename L::iterator t = a.begin(); t != a.end(); ++t, ++i) { cx.check(i < m.size(), "iterate", "iteration too long"); cx.check((unsigned char*)*t == m[i].p && (unsigned char*)t.operator->() == m[i].p, "iterate", "iteration order differs"); cx.check(intact(m[i]), "contents", "list element damaged"); }
        cx.check(i == m.size(), "iterate", "iteration ends early"); if (!m.empty()) cx.check((unsigned char*)a.front() == m[0].p && (unsigned char const*)c.front() == m[0].p, "front", "front() differs");
        i = 0; for (typename L::const_iterator t = c.begin(); t != c.end(); ++t, ++i) { cx.check(i < m.size() && (unsigned char const*)*t == m[i].p && (unsigned char const*)t.operator->() == m[i].p, "iterate", "const iteration order differs"); } cx.check(i == m.size(), "iterate", "const iteration ends early");
        std::ostringstream o, e; o << c; e << "("; for (size_t i = 0; i < m.size(); ++i) e << (i ? "," : "") << int(m[i].p[0]); e << ")"; cx.check(o.str() == e.str(), "print", "printed list differs");
    };
    for (int i = 0; i < pre; ++i) alloc(1);
    checkAll();
    for (int k = 0; k < depth; ++k) {
        int o = d(6);
        if (o < 3) { cx.desc += str(" alloc(", o + 1, ")"); alloc(o + 1); }
        else if (o == 3) { if (m.empty()) continue; cx.desc += " pop"; a.pop_front(); m.pop_front(); }
        else if (o == 4) { cx.desc += " clear"; a.clear(); m.clear(); }
        else { cx.desc += " copy"; bool threw = false; try { L c(a); cx.check(c.empty(), "copy", "copy of an empty list is not empty"); } catch (std::runtime_error&) { threw = true; } cx.check(threw == !m.empty(), "copy", "copying a list must be refused exactly when it is not empty"); L e; try { e.alloc_front(); e = a; threw = false; } catch (std::runtime_error&) { threw = true; } cx.check(threw == !m.empty(), "copy", "assignment"); if (m.empty()) cx.check(e.empty(), "copy", "assigning an empty list does not empty the target"); }
        cx.op(); checkAll();
    }
    oc = mix(m.size(), N * 100 + B); }
    cx.require(liveAllocations() == live, "leak", [&] { return str(liveAllocations() - live, " blocks leaked"); }); cx.trace(); cx.outcome(oc);
}
template<size_t N> static void listAll(Scopes& s) {
    s.add(str("list-", N), str("all sequences of 6 operations (alloc 1-3, pop, clear, copy) on MyList of ", N, "-byte elements, blocks of 1, 2, 3 elements, 0-3 elements before"), 46656 * 3 * 2, [](uint64_t x, Ctx& cx) { Dec d(x); int b = d(3), pre = d(2) * 3; if (b == 0) list<N, 1>(cx, d.x, 6, pre); else if (b == 1) list<N, 2>(cx, d.x, 6, pre); else list<N, 3>(cx, d.x, 6, pre); });
    s.add(str("list-default-", N), str("default block size: every fill from 997 to 1002 and 1997 to 2002, then all sequences of 3 operations; ", N, "-byte elements"), 216 * 12, [](uint64_t x, Ctx& cx) { Dec d(x); int f = d(12); list<N, 1000>(cx, d.x, 3, f < 6 ? 997 + f : 1991 + f); });
}
// pools
enum { OPS_POOL = 13 };
static void pool(Ctx& cx, uint64_t x, int depth) {
    cx.desc = "MemoryPool:"; cx.desc.reserve(2000); uint64_t oc = 0; long live = liveAllocations();
    { MemoryPool a, b; std::vector<Blk> m[2]; Dec d(x); unsigned char tag = 1; int fill = 0;
    static size_t const sz[] = {1, 8, 24, 39999, 40000, 40001, 200000, 399992, 500000};
    auto alloc = [&](MemoryPool& p, int w, size_t n) { unsigned char* q = (unsigned char*)p.alloc(n); Blk k{q, n, tag++}; cx.check(reinterpret_cast<size_t>(q) % sizeof(void*) == 0, "align", "memory is not aligned"); for (int s = 0; s < 2; ++s) for (Blk const& o : m[s]) cx.require(q + n <= o.p || o.p + o.n <= q, "overlap", [&] { return str("allocation of ", n, " bytes overlaps a block of ", o.n); }); paint(k); m[w].push_back(k); };
    for (int k = 0; k < depth; ++k) {
        int o = d(OPS_POOL);
        if (o < 9) { cx.desc += str(" a.alloc(", sz[o], ")"); alloc(a, 0, sz[o]); }
        else if (o == 9) { cx.desc += " a.reuse"; a.reuse(); m[0].clear(); }
        else if (o == 10) { cx.desc += " a.clear"; a.clear(); m[0].clear(); cx.check(a.empty(), "empty", "cleared pool is not empty"); }
        else if (o == 11) { cx.desc += " b.alloc(30000)*2"; alloc(b, 1, 30000); alloc(b, 1, 30000); }
        else { cx.desc += " a.splice(b)"; a.splice(b); m[0].insert(m[0].end(), m[1].begin(), m[1].end()); m[1].clear(); cx.check(b.empty(), "splice", "spliced pool is not empty"); }
        cx.op(); (void)fill;
    }
    // fill up to two more ordinary blocks, then every live block must be intact
    for (int i = 0; i < 26; ++i) { alloc(a, 0, 30000 + i); if (i % 2) alloc(b, 1, 30000 - i); }
    for (int s = 0; s < 2; ++s) for (Blk const& o : m[s]) cx.require(intact(o), "contents", [&] { return str("block of ", o.n, " bytes damaged"); });
    oc = mix(m[0].size(), m[1].size()); }
    cx.require(liveAllocations() == live, "leak", [&] { return str(liveAllocations() - live, " blocks leaked"); }); cx.trace(); cx.outcome(oc);
}
static void pools(Ctx& cx, uint64_t x, int depth) {
    cx.desc = "MemoryPools:"; cx.desc.reserve(2000); uint64_t oc = 0; long live = liveAllocations();
    { MemoryPools v; std::vector<std::vector<Blk>> m; Dec d(x); unsigned char tag = 1;
    for (int k = 0; k < depth; ++k) {
        int o = d(11);
        if (o < 5) { static int const n[] = {0, 1, 2, 3, 7}; cx.desc += str(" resize(", n[o], ")"); v.resize(n[o]); m.resize(n[o]); }
        else if (o < 9) { int i = (o - 5) / 2; size_t n = o & 1 ? 24 : 60000; if (i >= int(m.size())) continue; cx.desc += str(" [", i, "].alloc(", n, ")"); m[i].push_back(Blk{(unsigned char*)v[i].alloc(n), n, tag++}); paint(m[i].back()); }
        else if (o == 9) { if (m.empty()) continue; cx.desc += " [0].clear"; v[0].clear(); m[0].clear(); }
        else { cx.desc += " push"; v.push_back(MemoryPool()); m.push_back({}); }
        cx.op(); cx.check(v.size() == m.size(), "size", "number of pools differs");
        for (auto& r : m) for (Blk const& b : r) cx.check(intact(b), "contents", "memory of a pool damaged");
        for (size_t i = 0; i < m.size(); ++i) if (m[i].empty()) { /* a pool without blocks must still work */ }
    }
    for (size_t i = 0; i < m.size(); ++i) { m[i].push_back(Blk{(unsigned char*)v[i].alloc(100), 100, tag++}); paint(m[i].back()); }
    for (auto& r : m) for (Blk const& b : r) cx.check(intact(b), "contents", "memory of a pool damaged");
    oc = m.size(); }
    cx.require(liveAllocations() == live, "leak", [&] { return str(liveAllocations() - live, " blocks leaked"); }); cx.trace(); cx.outcome(oc);
}
template<size_t N> static void onPool(Ctx& cx, uint64_t x, int depth) {
    typedef Cellz<N> C; typedef MyListOnPool<C> L; cx.desc = str("MyListOnPool<", N, " bytes>:"); cx.desc.reserve(2000); uint64_t oc = 0; long live = liveAllocations();
    { MemoryPool p; L a[2]; std::deque<Blk> m[2]; Dec d(x); unsigned char tag = 1;
    for (int k = 0; k < depth; ++k) {
        int o = d(7), w = 0;
        if (o < 4) { w = o / 3; size_t n = o == 0 ? 1 : o == 1 ? 2 : o == 2 ? 45000 / N : 3; cx.desc += str(" alloc", w, "(", n, ")"); m[w].push_front(Blk{(unsigned char*)a[w].alloc_front(p, n), n * N, tag++}); paint(m[w].front()); }
        else if (o == 4) { if (m[0].empty()) continue; cx.desc += " pop0"; a[0].pop_front(); m[0].pop_front(); }
        else if (o == 5) { cx.desc += " clear0"; a[0].clear(); m[0].clear(); }
        else { cx.desc += " copy0"; bool threw = false; try { L c(a[0]); cx.check(c.empty() && c.size() == 0, "copy", "copy of an empty list is not empty"); } catch (std::runtime_error&) { threw = true; } cx.check(threw == !m[0].empty(), "copy", "copying a list must be refused exactly when it is not empty"); }
        cx.op();
        for (int s = 0; s < 2; ++s) { L const& c = a[s]; size_t i = 0; cx.check(c.size() == m[s].size() && c.empty() == m[s].empty(), "size", "list size differs"); for (typename L::iterator t = a[s].begin(); t != a[s].end(); ++t, ++i) { cx.check(i < m[s].size() && (unsigned char*)*t == m[s][i].p && intact(m[s][i]), "iterate", "list contents or order differ"); } cx.check(i == m[s].size(), "iterate", "iteration ends early"); i = 0; for (typename L::const_iterator t = c.begin(); t != c.end(); ++t, ++i) cx.check((unsigned char const*)*t == m[s][i].p, "iterate", "const iteration differs"); if (i) cx.check((unsigned char const*)c.front() == m[s][0].p && (unsigned char*)a[s].front() == m[s][0].p, "front", "front() differs");
            std::ostringstream g, e; g << c; e << "("; for (size_t i = 0; i < m[s].size(); ++i) e << (i ? "," : "") << int(m[s][i].p[0]); e << ")"; cx.check(g.str() == e.str(), "print", "printed list differs"); }
    }
    oc = mix(m[0].size(), m[1].size()); }
    cx.check(liveAllocations() == live, "leak", "blocks leaked"); cx.trace(); cx.outcome(oc);
}
SCOPES(s) {
    (void)mcReg_;
    listAll<1>(s); listAll<4>(s); listAll<8>(s); listAll<9>(s); listAll<16>(s); listAll<24>(s);
    s.add("pool-3", "all sequences of 3 operations (9 allocation sizes around every threshold, reuse, clear, second pool, splice), then both pools filled over two more blocks", 13 * 13 * 13, [](uint64_t x, Ctx& cx) { pool(cx, x, 3); });
    s.add("pool-4", "all sequences of 4 pool operations", 13 * 13 * 13 * 13, [](uint64_t x, Ctx& cx) { pool(cx, x, 4); }); s.v.back().thorough = true;
    s.add("pools", "all sequences of 5 operations on a vector of pools (resize, allocate, clear, push)", 11 * 11 * 11 * 11 * 11, [](uint64_t x, Ctx& cx) { pools(cx, x, 5); });
    s.add("on-pool", "all sequences of 5 operations on two lists sharing a pool, element sizes 1, 4, 8, 12, 24", 16807 * 5, [](uint64_t x, Ctx& cx) { Dec d(x); switch (d(5)) { case 0: onPool<1>(cx, d.x, 5); break; case 1: onPool<4>(cx, d.x, 5); break; case 2: onPool<8>(cx, d.x, 5); break; case 3: onPool<12>(cx, d.x, 5); break; default: onPool<24>(cx, d.x, 5); } });
    s.add("pool-every-size", "every allocation size 1..2000 bytes and around multiples of the block size, ten times each", 2000 + 400, [](uint64_t x, Ctx& cx) { size_t n = x < 2000 ? x + 1 : x < 2200 ? 40000 - 100 + (x - 2000) : 400000 - 100 + (x - 2200); cx.desc = str("pool size ", n); MemoryPool p; std::vector<Blk> m; for (int i = 0; i < 10; ++i) { Blk b{(unsigned char*)p.alloc(n), n, (unsigned char)i}; paint(b); m.push_back(b); cx.op(); } for (Blk& b : m) cx.check(intact(b), "contents", "block damaged"); MemoryPool::Allocator<int> al = p.allocator<int>(); int* q = al.allocate(5); for (int i = 0; i < 5; ++i) q[i] = i; al.deallocate(q, 5); for (Blk& b : m) cx.check(intact(b), "contents", "block damaged"); cx.trace(); cx.outcome(n); });
}
#endif
