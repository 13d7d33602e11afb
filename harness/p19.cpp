// P19: MyBitSet, MyBitSetOnPool, MySmallSet, MySmallSetOnPool against std::set over all bounded histories.
#include "mc.hpp"
#include <stdexcept>
#include <tdzdd/util/MySet.hpp>
#include <memory>
using namespace mc; using namespace tdzdd; typedef std::set<uint64_t> S;
static std::string st(S const& s) { std::string r = "{"; bool c = false; for (auto x : s) { if (c) r += ","; r += str(x); c = true; } return r + "}"; }
template<typename B> static void sameB(Ctx& cx, B const& b, S const& m, size_t bits, std::string const& op) {
    auto bad = [&](char const* sig, std::string const& w) { std::ostringstream o; o << b; cx.fail(sig, str(w, " after", op, ": ", o.str(), " expected ", st(m))); };
    if (b.empty() != m.empty()) bad("empty", "empty() differs"); for (size_t i = 0; i < bits; ++i) if (b.includes(i) != (m.count(i) != 0)) bad("includes", str("membership of ", i, " differs"));
    auto it = m.begin(); size_t n = 0; for (typename B::const_iterator t = b.begin(); t != b.end(); ++t, ++it) { if (it == m.end() || *t != *it || ++n > 1000) bad("iterate", "iteration differs"); } if (it != m.end()) bad("iterate", "iteration ends early");
    std::ostringstream o; o << b; if (o.str() != st(m)) bad("print", "printed text differs");
}
static S pulled(S const& m, uint64_t i) { S r; for (uint64_t x : m) if (x < i) r.insert(x); else if (x > i) r.insert(x - 1); return r; }
static std::vector<uint64_t> POS(int words) { std::vector<uint64_t> p; for (int w = 0; w < words; ++w) for (int b : {0, 1, 31, 62, 63}) p.push_back(w * 64 + b); return p; }
template<typename B> static void bitOps(Ctx& cx, B& a, B& b, size_t bits, uint64_t x, int depth) {
    S p, q; Dec d(x); auto pos = POS(bits / 64); int P = pos.size(); std::string op;
    for (int k = 0; k < depth; ++k) {
        int o = d(4 * P + 2);
        if (o < P) { op = str(" a.add(", pos[o], ")"); cx.desc += op; a.add(pos[o]); p.insert(pos[o]); } else if (o < 2 * P) { op = str(" a.remove(", pos[o - P], ")"); cx.desc += op; a.remove(pos[o - P]); p.erase(pos[o - P]); }
        else if (o < 3 * P) { op = str(" b.add(", pos[o - 2 * P], ")"); cx.desc += op; b.add(pos[o - 2 * P]); q.insert(pos[o - 2 * P]); } else if (o < 4 * P) { op = str(" a.pullout(", pos[o - 3 * P], ")"); cx.desc += op; a.pullout(pos[o - 3 * P]); p = pulled(p, pos[o - 3 * P]); }
        else if (o == 4 * P) { op = " a.clear"; cx.desc += op; a.clear(); p.clear(); } else { op = " a.fill"; cx.desc += op; for (size_t i = 0; i < bits; ++i) { a.add(i); p.insert(i); } }
        cx.op(); sameB(cx, a, p, bits, op); sameB(cx, b, q, bits, op); bool is = false; for (auto v : p) is |= q.count(v) != 0;
        cx.check(a.intersects(b) == is && b.intersects(a) == is, "intersects", str("intersects wrong after", op)); cx.check((a == b) == (p == q), "equal", str("== wrong after", op)); if (p == q) cx.check(a.hash() == b.hash(), "hash", "equal sets hash differently");
    }
    cx.trace(); cx.outcome(hashStr(st(p))); cx.maxdepth = std::max<uint64_t>(cx.maxdepth, depth);
}
template<size_t N> static void bits(Scopes& s, int depth, bool th) { uint64_t n = 1; for (int i = 0; i < depth; ++i) n *= 4 * 5 * N + 2; s.add(str("bitset", N, "-", depth), str("all sequences of ", depth, " operations (add, remove, pullout at every word edge, clear, fill) on two sets of ", N, " words"), n, [=](uint64_t x, Ctx& cx) { cx.desc = str("MyBitSet<", N, ">:"); std::unique_ptr<MyBitSet<N>> a(new MyBitSet<N>), b(new MyBitSet<N>); bitOps(cx, *a, *b, 64 * N, x, depth); }); s.v.back().thorough = th; }

template<typename T> static std::vector<T> elems() { return {T(3), T(1), T(4), T(2)}; }
template<typename C, typename T> static void sameS(Ctx& cx, C const& c, std::set<T> const& m, std::string const& op) {
    auto bad = [&](char const* sig, std::string const& w) { std::ostringstream o; o << c; std::string e; for (T v : m) e += str(+v, " "); cx.fail(sig, str(w, " after", op, ": ", o.str(), " expected ", e)); };
    if (c.size() != m.size() || c.empty() != m.empty()) bad("size", "size differs"); size_t i = 0; for (typename C::const_iterator t = c.begin(); t != c.end(); ++t, ++i) if (*t != *std::next(m.begin(), i) || c.get(i) != *t) bad("iterate", "iteration differs"); if (i != m.size()) bad("iterate", "iteration ends early");
    for (typename C::const_reverse_iterator t = c.rbegin(); t != c.rend(); ++t) { if (i == 0 || *t != *std::next(m.begin(), --i) || *t.operator->() != *t) bad("reverse", "reverse iteration differs"); } if (i) bad("reverse", "reverse iteration ends early");
    for (int v = 0; v < 8; ++v) if (c.includes(T(v)) != (m.count(T(v)) != 0)) bad("includes", str("membership of ", v, " differs"));
}
template<typename A, typename B, typename T> static void relations(Ctx& cx, A const& a, B const& b, std::set<T> const& p, std::set<T> const& q, std::string const& op) {
    bool is = false, all = true; for (T v : q) { is |= p.count(v) != 0; all &= p.count(v) != 0; }
    cx.check(a.equals(b) == (p == q) && a.equals(q) == (p == q), "equal", str("equals() wrong after", op)); cx.check(a.intersects(b) == is && a.intersects(q) == is, "intersects", str("intersects() wrong after", op)); cx.check(a.containsAll(b) == all && a.containsAll(q) == all, "contains", str("containsAll() wrong after", op));
    cx.check((a == b) == (p == q), "equal", str("== wrong after", op)); if (p == q) cx.check(a.hash() == b.hash(), "hash", "equal sets hash differently");
}
enum { OS = 14 };
template<typename T, size_t N> static void small(Ctx& cx, uint64_t x, int depth) {
    typedef MySmallSet<T, N> C; cx.desc = str("MySmallSet<", sizeof(T), " bytes,", N, ">:"); std::unique_ptr<C> a(new C), b(new C); std::set<T> p, q; Dec d(x); auto e = elems<T>(); std::string op;
    for (int k = 0; k < depth; ++k) {
        int o = d(OS); auto add = [&](C& c, std::set<T>& m, T v) { bool threw = false; try { c.add(v); } catch (std::out_of_range&) { threw = true; } if (threw) cx.check(m.size() + 1 >= N, "capacity", str("add refused below capacity at", op)); else { cx.check(m.count(v) || m.size() < N, "capacity", str("add beyond capacity not refused at", op)); m.insert(v); } };
        if (o < 4) { op = str(" a.add(", +e[o], ")"); cx.desc += op; add(*a, p, e[o]); } else if (o < 8) { op = str(" a.remove(", +e[o - 4], ")"); cx.desc += op; a->remove(e[o - 4]); p.erase(e[o - 4]); } else if (o < 12) { op = str(" b.add(", +e[o - 8], ")"); cx.desc += op; add(*b, q, e[o - 8]); } else if (o == 12) { op = " a.clear"; cx.desc += op; a->clear(); p.clear(); } else { op = " b=a"; cx.desc += op; *b = *a; q = p; }
        cx.op(); sameS(cx, *a, p, op); sameS(cx, *b, q, op); relations(cx, *a, *b, p, q, op); relations(cx, *b, *a, q, p, op);
    }
    cx.trace(); cx.outcome(mix(p.size(), q.size())); cx.maxdepth = std::max<uint64_t>(cx.maxdepth, depth);
}
template<typename T> static void onPool(Ctx& cx, uint64_t x, int n, int depth) {
    typedef MySmallSetOnPool<T> C; cx.desc = str("MySmallSetOnPool<", sizeof(T), " bytes> for ", n, ":"); MemoryPool pool; C* a = C::newInstance(pool, n); uint64_t* guard = pool.allocate<uint64_t>(2); guard[0] = guard[1] = 0x5a5a5a5a5a5a5a5aull; std::set<T> p; Dec d(x); auto e = elems<T>(); std::string op;
    for (int k = 0; k < depth; ++k) {
        int o = d(10);
        if (o < 4) { if (int(p.size()) >= n && !p.count(e[o])) continue; op = str(" add(", +e[o], ")"); cx.desc += op; a->add(e[o]); p.insert(e[o]); } else if (o < 8) { op = str(" remove(", +e[o - 4], ")"); cx.desc += op; a->remove(e[o - 4]); p.erase(e[o - 4]); } else if (o == 8) { op = " clear"; cx.desc += op; a->clear(); p.clear(); }
        else { op = " copy"; cx.desc += op; C* c = C::newInstance(pool, *a); sameS(cx, *c, p, op); C* f = C::newInstance(pool, p); sameS(cx, *f, p, op); std::vector<T> v(p.rbegin(), p.rend()); C* g = C::newInstance(pool, v); sameS(cx, *g, p, op); cx.check(*c == *a && *f == *g && c->hash() == g->hash(), "equal", "copy differs"); relations(cx, *a, *g, p, p, op); }
        cx.op(); sameS(cx, *a, p, op); cx.check(guard[0] == 0x5a5a5a5a5a5a5a5aull && guard[1] == guard[0], "overrun", str("memory next to the set was overwritten by", op));
    }
    cx.trace(); cx.outcome(p.size());
}
SCOPES(s) {
    (void)mcReg_;
    bits<1>(s, 4, false); bits<2>(s, 3, false); bits<3>(s, 3, false); bits<2>(s, 4, true);
    s.add("bitset-init", "one-word sets built from every single- and two-bit pattern; every single element in three words", 64 * 64 + 192, [](uint64_t x, Ctx& cx) { if (x < 4096) { uint64_t v = (uint64_t(1) << (x % 64)) | (uint64_t(1) << (x / 64)); cx.desc = str("init ", v); S m{x % 64, x / 64}; sameB(cx, MyBitSet<1>(v), m, 64, " init"); MyBitSet<2> b(v); sameB(cx, b, m, 128, " init"); } else { x -= 4096; cx.desc = str("element ", x); MyBitSet<3> b; b.add(x); sameB(cx, b, S{x}, 192, " add"); for (size_t i = 0; i < 192; ++i) { MyBitSet<3> c(b); c.pullout(i); sameB(cx, c, pulled(S{x}, i), 192, str(" pullout(", i, ")")); c = b; for (size_t j = 0; j < 192; ++j) c.add(j); c.remove(x); S all; for (size_t j = 0; j < 192; ++j) if (j != x) all.insert(j); c.pullout(i); sameB(cx, c, pulled(all, i), 192, str(" pullout(", i, ")")); } } cx.op(); cx.trace(); cx.outcome(x); });
    s.add("bitset-pool", "bit sets on a pool: every bit count 1..200, every element; then all sequences of 2 operations; neighbours stay intact", 200, [](uint64_t x, Ctx& cx) { size_t n = x + 1; cx.desc = str(n, " bits on pool"); MemoryPool pool; MyBitSetOnPool* a = MyBitSetOnPool::newInstance(pool, n); MyBitSetOnPool* b = MyBitSetOnPool::newInstance(pool, n); sameB<MyBitSet<0>>(cx, *a, S(), n, " new"); size_t full = (n + 63) / 64 * 64; cx.check(a->numWords() == full / 64, "words", "number of words differs"); S m; for (size_t i = 0; i < n; ++i) { a->add(i); m.insert(i); cx.op(); if (i % 16 == 0 || i + 1 == n) { sameB<MyBitSet<0>>(cx, *a, m, n, " add"); sameB<MyBitSet<0>>(cx, *b, S(), n, " add to the other"); } } for (size_t i = 0; i < n; i += 7) { b->add(i); cx.check(a->intersects(*b), "intersects", "intersects"); b->clear(); cx.check(!a->intersects(*b), "intersects", "intersects"); } a->pullout(n / 2); b->add(n - 1); sameB<MyBitSet<0>>(cx, *a, pulled(m, n / 2), n, " pullout"); sameB<MyBitSet<0>>(cx, *b, S{n - 1}, n, " pullout of the other"); cx.trace(); cx.outcome(n); });
    s.add("bitset-pool-seq", "all sequences of 3 operations on two 2-word sets on a pool", 42 * 42 * 42, [](uint64_t x, Ctx& cx) { cx.desc = "MyBitSetOnPool:"; MemoryPool pool; MyBitSet<0>* a = MyBitSetOnPool::newInstance(pool, 128); MyBitSet<0>* b = MyBitSetOnPool::newInstance(pool, 128); bitOps(cx, *a, *b, 128, x, 3); });
    auto seq = [&](char const* name, auto f, int depth, bool th) { uint64_t n = 1; for (int i = 0; i < depth; ++i) n *= OS; s.add(str(name, "-", depth), str("all sequences of ", depth, " operations (add, remove, clear, assign) on two small sets"), n, [=](uint64_t x, Ctx& cx) { f(cx, x, depth); }); s.v.back().thorough = th; };
    seq("small-int2", small<int, 2>, 4, false); seq("small-int4", small<int, 4>, 4, false); seq("small-int6", small<int, 6>, 4, false); seq("small-u16", small<uint16_t, 4>, 4, false); seq("small-u64", small<uint64_t, 5>, 4, false); seq("small-i8", small<int8_t, 5>, 4, false); seq("small-int5", small<int, 5>, 5, false); seq("small-int5", small<int, 5>, 6, true);
    s.add("small-pool", "all sequences of 5 operations on pool-allocated small sets for 1-4 elements of 1, 2, 4, 8 bytes, neighbouring memory guarded", 100000 * 16, [](uint64_t x, Ctx& cx) { Dec d(x); int n = 1 + d(4), t = d(4); if (t == 0) onPool<uint8_t>(cx, d.x, n, 5); else if (t == 1) onPool<uint16_t>(cx, d.x, n, 5); else if (t == 2) onPool<int32_t>(cx, d.x, n, 5); else onPool<uint64_t>(cx, d.x, n, 5); });
}
