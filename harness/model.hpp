// Reference models: hash-consed canonical diagrams (raw paths / ZDD / BDD semantics), bounded
// transition tables, and specifications of every base class driven by such a table.
#pragma once
#include "mc.hpp"
#include "omprt.hpp"
#include <array>
#include <memory>
#include <unordered_map>
#include <tdzdd/DdSpec.hpp>
#include <tdzdd/DdSpecOp.hpp>
#include <tdzdd/DdStructure.hpp>

namespace model {
using namespace mc;
using tdzdd::NodeId;

enum Kind { RAW, ZDD, BDD, PLAIN };   // PLAIN: sharing only, no deletion

// canonical diagram store; ids: 0 = F, 1 = T
template<int AR> struct Canon {
    typedef std::array<int, AR + 1> Key;   // level, children
    struct H { size_t operator()(Key const& k) const { uint64_t h = 7; for (int x : k) h = mix(h, x); return h; } };
    Kind kind;
    std::unordered_map<Key, int, H> tab;
    std::vector<Key> node;
    explicit Canon(Kind k) : kind(k), node(2) {}
    int mk(int level, int const* c) {
        bool all0 = true, rest0 = true, same = true;
        for (int b = 0; b < AR; ++b) {
            if (c[b]) { all0 = false; if (b) rest0 = false; }
            if (c[b] != c[0]) same = false;
        }
        if (kind == RAW && all0) return 0;
        if (kind == ZDD && rest0) return c[0];
        if (kind == BDD && same) return c[0];
        Key k; k[0] = level; for (int b = 0; b < AR; ++b) k[b + 1] = c[b];
        auto r = tab.emplace(k, (int)node.size());
        if (r.second) node.push_back(k);
        return r.first->second;
    }
    int level(int f) const { return f < 2 ? 0 : node[f][0]; }
    int child(int f, int b) const { return node[f][b + 1]; }
    size_t count(int f) const {
        std::unordered_set<int> seen; std::vector<int> st{f};
        while (!st.empty()) { int g = st.back(); st.pop_back(); if (g < 2 || !seen.insert(g).second) continue; for (int b = 0; b < AR; ++b) st.push_back(child(g, b)); }
        return seen.size();
    }
    // all accepted paths as level->value maps would be exponential; count them
    std::vector<std::string> show(int f, int lim = 40) const {
        std::vector<std::string> out; std::string cur;
        std::function<void(int)> rec = [&](int g) {
            if ((int)out.size() >= lim || g == 0) return;
            if (g == 1) { out.push_back("[" + cur + "]"); return; }
            for (int b = 0; b < AR; ++b) { std::string sv = cur; cur += str(" ", node[g][0], "=", b); rec(child(g, b)); cur = sv; }
        };
        rec(f); return out;
    }
    std::string text(int f) const { std::string s; for (auto& x : show(f)) s += x; return s.empty() ? "{}" : s; }
    void gc() { if (node.size() > 3000000) { tab.clear(); node.resize(2); } }
};

// set operations on canonical ZDD ids / logical operations on canonical BDD ids (skipped level: value 0 / don't care)
template<int AR> int combine(Canon<AR>& cn, int f, int g, bool meet, std::map<std::pair<int, int>, int>& memo) {
    if (f < 2 && g < 2) return meet ? (f & g) : (f | g);
    auto k = std::make_pair(f, g); auto it = memo.find(k); if (it != memo.end()) return it->second;
    int l = std::max(cn.level(f), cn.level(g)), c[AR];
    for (int b = 0; b < AR; ++b) {
        int fb = cn.level(f) == l ? cn.child(f, b) : (cn.kind == BDD || b == 0) ? f : 0;
        int gb = cn.level(g) == l ? cn.child(g, b) : (cn.kind == BDD || b == 0) ? g : 0;
        c[b] = combine(cn, fb, gb, meet, memo);
    }
    return memo[k] = cn.mk(l, c);
}
template<int AR> int combine(Canon<AR>& cn, int f, int g, bool meet) { std::map<std::pair<int, int>, int> memo; return combine(cn, f, g, meet, memo); }

// canonical id of a DdStructure, walked through its public interface
template<int AR> int canonOf(Canon<AR>& cn, tdzdd::DdStructure<AR> const& dd) {
    std::unordered_map<uint64_t, int> memo;
    std::function<int(NodeId)> rec = [&](NodeId f) -> int {
        if (f == 0) return 0;
        if (f == 1) return 1;
        if (f.row() <= 0) throw Fail("bad-node", str("bad terminal id ", f.row(), ":", f.col()));
        auto it = memo.find(f.code());
        if (it != memo.end()) return it->second;
        int c[AR];
        for (int b = 0; b < AR; ++b) {
            NodeId g = dd.child(f, b);
            if (g.row() >= f.row()) throw Fail("bad-order", str("child level ", g.row(), " not below level ", f.row()));
            c[b] = rec(g);
        }
        int r = cn.mk(f.row(), c);
        memo[f.code()] = r;
        return r;
    };
    return rec(dd.root());
}
// number of nodes reachable from the root
template<int AR> size_t reachable(tdzdd::DdStructure<AR> const& dd) {
    std::unordered_set<uint64_t> seen; std::vector<NodeId> st{dd.root()};
    while (!st.empty()) { NodeId f = st.back(); st.pop_back(); if (f.row() == 0 || !seen.insert(f.code()).second) continue; for (int b = 0; b < AR; ++b) st.push_back(dd.child(f, b)); }
    return seen.size();
}

// All state graphs with at most w states per level and K states in total in which every state is reached, up to renaming of
// states: states are numbered in the order in which a breadth-first (top-down) walk meets them. Selected by the width code
// dag(w, K), so that every harness that enumerates tables can enumerate these instead.
inline int dag(int w, int K) { return w + 100 * K; }
inline std::string widthText(int w) { return w < 100 ? str(w, " states per level") : str("at most ", w % 100, " states per level and ", w / 100, " in total, all reached, up to renaming"); }
template<int AR> struct Dags {
    int n, w, K; std::unordered_map<uint64_t, uint64_t> memo;
    Dags(int n, int w, int K) : n(n), w(w), K(K) {}
    static int pop(uint64_t prof, int l) { return prof >> (4 * (l - 1)) & 15; }
    uint64_t count(int l, int j, int b, uint64_t prof, int tot) {
        while (l > 0) { if (j >= pop(prof, l)) { prof &= (1ull << (4 * (l - 1))) - 1; --l; j = b = 0; } else if (b == AR) { ++j; b = 0; } else break; }
        if (l == 0) return 1;
        uint64_t key = prof | (uint64_t)l << 40 | (uint64_t)j << 44 | (uint64_t)b << 48 | (uint64_t)tot << 52; auto it = memo.find(key); if (it != memo.end()) return it->second;
        uint64_t same = count(l, j, b + 1, prof, tot), r = 2 * same;
        for (int q = 1; q < l; ++q) { r += pop(prof, q) * same; if (pop(prof, q) < w && tot < K) r += count(l, j, b + 1, prof + (1ull << (4 * (q - 1))), tot + 1); }
        return memo[key] = r;
    }
    uint64_t rootProf() const { return 1ull << (4 * (n - 1)); }
    uint64_t total() { return count(n, 0, 0, rootProf(), 1); }
    void decode(uint64_t x, std::vector<int>& ch) {
        uint64_t prof = rootProf(); int tot = 1; ch.assign(n * w * AR, 0);
        for (int l = n; l > 0; --l) for (int j = 0; j < pop(prof, l); ++j) for (int b = 0; b < AR; ++b) {
            int& c = ch[((l - 1) * w + j) * AR + b]; uint64_t same = count(l, j, b + 1, prof, tot); bool done = false;
            for (int v = 0; v < 2 && !done; ++v) { if (x < same) { c = v; done = true; } else x -= same; }
            for (int q = 1; q < l && !done; ++q) {
                for (int k = 0; k < pop(prof, q) && !done; ++k) { if (x < same) { c = 2 + (q - 1) * w + k; done = true; } else x -= same; }
                if (!done && pop(prof, q) < w && tot < K) { uint64_t p2 = prof + (1ull << (4 * (q - 1))), m = count(l, j, b + 1, p2, tot + 1); if (x < m) { c = 2 + (q - 1) * w + pop(prof, q); prof = p2; ++tot; done = true; } else x -= m; }
            }
            if (!done) throw std::logic_error("Dags::decode");
        }
    }
    static Dags& get(int n, int wk) { static std::map<std::pair<int, int>, std::unique_ptr<Dags>> m; auto& p = m[std::make_pair(n, wk)]; if (!p) p.reset(new Dags(n, wk % 100, wk / 100)); return *p; }
};

// transition table: levels 1..n, w states per level; codes 0 = F, 1 = T, 2+(level-1)*w+state
template<int AR> struct Table {
    int n = 0, w = 1, root = 0;
    std::vector<int> ch;
    int at(int level, int s, int b) const { return ch[((level - 1) * w + s) * AR + b]; }
    static int code(int level, int s, int w) { return 2 + (level - 1) * w + s; }
    int levelOf(int c) const { return c == 0 ? 0 : c == 1 ? -1 : (c - 2) / w + 1; }
    int stateOf(int c) const { return c < 2 ? 0 : (c - 2) % w; }
    // every table whose root is (n,0), plus (if roots) the degenerate roots
    static uint64_t count(int n, int w) {
        if (w >= 100) return Dags<AR>::get(n, w).total();
        uint64_t r = 1;
        for (int i = 1; i <= n; ++i) { int k = 2 + w * (i - 1); int m = (i == n) ? AR : AR * w; for (int j = 0; j < m; ++j) r *= k; }
        return r;
    }
    void decode(uint64_t x, int n_, int w_) {
        if (w_ >= 100) { n = n_; w = w_ % 100; root = code(n, 0, w); Dags<AR>::get(n_, w_).decode(x, ch); return; }
        n = n_; w = w_; ch.assign(n * w * AR, 0); root = n == 0 ? (int)x : code(n, 0, w);
        for (int i = n; i >= 1; --i) { int k = 2 + w * (i - 1); int m = (i == n) ? AR : AR * w; for (int j = 0; j < m; ++j) { ch[(i - 1) * w * AR + j] = x % k; x /= k; } }
    }
    size_t reachableStates() const {
        std::vector<char> seen(2 + n * w); std::vector<int> st{root}; size_t r = 0;
        while (!st.empty()) { int c = st.back(); st.pop_back(); if (c < 2 || seen[c]) continue; seen[c] = 1; ++r; for (int b = 0; b < AR; ++b) st.push_back(ch[(c - 2) * AR + b]); }
        return r;
    }
    int canon(Canon<AR>& cn) const {
        std::vector<int> v(2 + n * w); v[1] = 1;
        for (int c = 2; c < 2 + n * w; ++c) {
            int k[AR]; for (int b = 0; b < AR; ++b) k[b] = v[ch[(c - 2) * AR + b]];
            v[c] = cn.mk((c - 2) / w + 1, k);
        }
        return v[root];
    }
    std::string text() const {
        std::string s = "root=" + name(root) + ";";
        std::vector<char> seen(2 + n * w); std::vector<int> st{root};
        while (!st.empty()) {
            int c = st.back(); st.pop_back(); if (c < 2 || seen[c]) continue; seen[c] = 1;
            s += " " + name(c) + "->("; for (int b = 0; b < AR; ++b) { int d = ch[(c - 2) * AR + b]; s += (b ? "," : "") + name(d); st.push_back(d); } s += ")";
        }
        return s;
    }
    std::string name(int c) const { return c == 0 ? "F" : c == 1 ? "T" : str(levelOf(c), ".", stateOf(c)); }
};

// ---- specifications of every base class over one table ----
template<int AR> struct TStateless : tdzdd::StatelessDdSpec<TStateless<AR>, AR> {
    Table<AR> const* t; explicit TStateless(Table<AR> const& t) : t(&t) {}
    int getRoot() const { return t->levelOf(t->root); }
    int getChild(int level, int b) const { return t->levelOf(t->at(level, 0, b)); }
};
// scalar states: P packs an int into a user type
struct PInt { typedef int T; static void set(T& x, int v) { x = v; } static int get(T const& x) { return x; } };
struct PChar { typedef signed char T; static void set(T& x, int v) { x = (T)v; } static int get(T const& x) { return x; } };
struct PShort { typedef short T; static void set(T& x, int v) { x = (T)v; } static int get(T const& x) { return x; } };
struct PLong { typedef long T; static void set(T& x, int v) { x = (long)v << 40; } static int get(T const& x) { return (int)(x >> 40); } };
struct PDouble { typedef double T; static void set(T& x, int v) { x = v + 0.5; } static int get(T const& x) { return (int)x; } };
template<int N> struct Bytes { unsigned char b[N]; bool operator==(Bytes const& o) const { return memcmp(b, o.b, N) == 0; } friend std::ostream& operator<<(std::ostream& os, Bytes const& o) { return os << (int)o.b[N - 1]; } };
template<int N> struct PBytes { typedef Bytes<N> T; static void set(T& x, int v) { memset(x.b, 0, N); x.b[N - 1] = (unsigned char)v; } static int get(T const& x) { return x.b[N - 1]; } };
// residues of the prefix value: levels below log_AR(M) have M nodes each (beyond 2^16 for M > 65536)
template<int AR> struct Huge : tdzdd::DdSpec<Huge<AR>, unsigned, AR> {
    int n; unsigned M, K, flip; Huge(int n, unsigned M, unsigned K = 3, unsigned flip = ~0u) : n(n), M(M), K(K), flip(flip) {}
    int getRoot(unsigned& s) const { s = 0; return n; }
    bool accept(unsigned s) const { return ((s * 2654435761u >> 9) % K != 0) != (s == flip); }
    int getChild(unsigned& s, int level, int b) const { s = (unsigned)((s * (uint64_t)AR + b) % M); if (level == 1) { bool a = accept(s); s = 0; return a ? -1 : 0; } return level - 1; }
    std::vector<std::vector<unsigned>> levels() const { std::vector<std::vector<unsigned>> r(n + 1); r[n].push_back(0); std::vector<char> seen; for (int l = n; l > 1; --l) { seen.assign(M, 0); for (unsigned s : r[l]) for (int b = 0; b < AR; ++b) { unsigned t = (unsigned)((s * (uint64_t)AR + b) % M); if (!seen[t]) { seen[t] = 1; r[l - 1].push_back(t); } } } return r; }
    template<typename V, typename F> V fold(F const& f) const {   // f(level, children) bottom up; children of level 1 are f(0, accept)
        auto lv = levels(); std::vector<V> cur(M), nxt(M); for (int l = 1; l <= n; ++l) { for (unsigned s : lv[l]) { V c[AR]; for (int b = 0; b < AR; ++b) { unsigned t = (unsigned)((s * (uint64_t)AR + b) % M); c[b] = l == 1 ? V(accept(t)) : cur[t]; } nxt[s] = f(l, c); } std::swap(cur, nxt); } return cur[0]; }
    int canon(Canon<AR>& cn) const { return this->template fold<int>([&](int l, int* c) { return cn.mk(l, c); }); }
    size_t states() const { size_t k = 0; for (auto& v : levels()) k += v.size(); return k; }
};
// exactly one item of n, for n beyond 2^16 levels; checked by walking, not by recursion
struct Tall : tdzdd::DdSpec<Tall, int, 2> {
    int n; explicit Tall(int n) : n(n) {}
    int getRoot(int& s) const { s = 0; return n; }
    int getChild(int& s, int level, int b) const { if (b) { if (s) return 0; s = 1; } if (level > 1) return level - 1; bool a = s; s = 0; return a ? -1 : 0; }
    // mode 0: not reduced, 1: ZDD rule, 2: BDD rule / QDD rule (nothing to remove but the shared tail)
    static std::string wrong(tdzdd::DdStructure<2> const& d, int n, int mode) {
        tdzdd::NodeId f = d.root(), tail = 1; if (f.row() != n) return str("root at level ", f.row()); bool have = false;
        for (int l = n; l >= 1; --l) {
            if (f.row() != l) return str("level ", f.row(), " instead of ", l); tdzdd::NodeId a = d.child(f, 0), b = d.child(f, 1);
            if (mode == 1) { if (!(b == 1)) return str("1-branch of level ", l, " is not accepted"); }
            else if (l == 1) { if (!(b == 1)) return str("1-branch of level 1"); }
            else { if (b.row() != l - 1) return str("1-branch of level ", l, " leads to level ", b.row()); if (have && !(tail == b)) return str("the rest below level ", l, " is not shared"); if (!(d.child(b, 1) == 0)) return str("second item accepted at level ", l - 1); tail = d.child(b, 0); if (l - 1 == 1 ? !(tail == 1) : tail.row() != l - 2) return str("rest below level ", l - 1); have = true; }
            if (l == 1) { if (!(a == 0)) return "0-branch of level 1"; } f = a;
        }
        size_t want = mode == 1 ? n : 2 * (size_t)n - 1; if (d.size() != want) return str(d.size(), " nodes instead of ", want); return "";
    }
};
static int const TALL_N[] = {65534, 65535, 65536, 65537, 70000};
static unsigned const HUGE_M[] = {65535, 65536, 65537, 70001};
template<int AR, typename P> struct TScalar : tdzdd::DdSpec<TScalar<AR, P>, typename P::T, AR> {
    Table<AR> const* t; explicit TScalar(Table<AR> const& t) : t(&t) {}
    int getRoot(typename P::T& s) const { P::set(s, t->stateOf(t->root)); return t->levelOf(t->root); }
    int getChild(typename P::T& s, int level, int b) const {
        int c = t->at(level, P::get(s), b); P::set(s, t->stateOf(c)); return t->levelOf(c);
    }
};
// array states: state kept in element pos; other elements hold fixed values
template<int AR, typename E> struct TArray : tdzdd::PodArrayDdSpec<TArray<AR, E>, E, AR> {
    Table<AR> const* t; int len, pos;
    TArray(Table<AR> const& t, int len, int pos) : t(&t), len(len), pos(pos) { this->setArraySize(len); }
    void put(E* a, int v) const { for (int i = 0; i < len; ++i) a[i] = (E)(i + 3); if (len) a[pos] = (E)v; }
    int getRoot(E* a) const { put(a, t->stateOf(t->root)); return t->levelOf(t->root); }
    int getChild(E* a, int level, int b) const {
        for (int i = 0; i < len; ++i) if (i != pos && a[i] != (E)(i + 3)) throw Fail("state-corrupt", str("array state element ", i, " corrupted"));
        int c = t->at(level, len ? (int)a[pos] : 0, b); put(a, t->stateOf(c)); return t->levelOf(c);
    }
};
// hybrid: low bit of the state in the scalar, the rest in the array
template<int AR, typename S, typename E> struct THybrid : tdzdd::HybridDdSpec<THybrid<AR, S, E>, S, E, AR> {
    Table<AR> const* t; int len, pos;
    THybrid(Table<AR> const& t, int len, int pos) : t(&t), len(len), pos(pos) { this->setArraySize(len); }
    void put(S& s, E* a, int v) const { s = (S)(len ? v & 1 : v); for (int i = 0; i < len; ++i) a[i] = (E)(i + 5); if (len) a[pos] = (E)(v >> 1); }
    int getRoot(S& s, E* a) const { put(s, a, t->stateOf(t->root)); return t->levelOf(t->root); }
    int getChild(S& s, E* a, int level, int b) const {
        for (int i = 0; i < len; ++i) if (i != pos && a[i] != (E)(i + 5)) throw Fail("state-corrupt", str("hybrid array element ", i, " corrupted"));
        int v = len ? ((int)s & 1) | ((int)a[pos] << 1) : (int)s;
        int c = t->at(level, v, b); put(s, a, t->stateOf(c)); return t->levelOf(c);
    }
};

template<int AR> tdzdd::DdStructure<AR> build(Table<AR> const& t, bool mp = false) {
    return tdzdd::DdStructure<AR>(TScalar<AR, PInt>(t), mp);
}

// ---- families over n items as bit masks: bit s set iff the set with characteristic vector s is a member
// (item i = level i, bit i-1 of s) ----
struct FamSpec : tdzdd::DdSpec<FamSpec, uint64_t, 2> {   // unreduced: no skipping, state = residual family
    int n; uint64_t fam;
    FamSpec(int n, uint64_t fam) : n(n), fam(fam) {}
    int getRoot(uint64_t& s) const { s = fam; return n > 0 ? n : (fam & 1) ? -1 : 0; }
    int getChild(uint64_t& s, int level, int b) const {
        int half = 1 << (level - 1);
        uint64_t mask = (half >= 64) ? ~0ull : (1ull << half) - 1;
        s = b ? (s >> half) & mask : s & mask;
        if (level == 1) return (s & 1) ? -1 : 0;
        return level - 1;
    }
};
inline std::string famText(int n, uint64_t f) {
    std::string s = "{";
    for (uint64_t x = 0; x < (1ull << n); ++x) if (f >> x & 1) { s += s.size() > 1 ? " " : ""; s += "{"; for (int i = 1; i <= n; ++i) if (x >> (i - 1) & 1) s += str(i, " "); s += "}"; }
    return s + "}";
}
// ZDD family of a diagram (n <= 6): walks the public interface
inline uint64_t zddFamily(tdzdd::DdStructure<2> const& dd) {
    uint64_t r = 0;
    std::function<void(NodeId, uint64_t)> rec = [&](NodeId f, uint64_t s) {
        if (f == 0) return;
        if (f == 1) { r |= 1ull << s; return; }
        rec(dd.child(f, 0), s); rec(dd.child(f, 1), s | 1ull << (f.row() - 1));
    };
    rec(dd.root(), 0); return r;
}
// BDD truth table over n variables: value of the diagram on each assignment (level i = bit i-1)
inline uint64_t bddTable(tdzdd::DdStructure<2> const& dd, int n) {
    uint64_t r = 0;
    for (uint64_t x = 0; x < (1ull << n); ++x) { NodeId f = dd.root(); while (f.row() > 0) f = dd.child(f, x >> (f.row() - 1) & 1); if (f == 1) r |= 1ull << x; }
    return r;
}
// any spec, walked by its own transition function through the low-level interface (no construction)
template<int AR, typename SPEC> int canonSpec(Canon<AR>& cn, SPEC const& spec0) {
    SPEC spec(spec0);
    std::function<int(std::vector<size_t>&, int)> rec = [&](std::vector<size_t>& st, int level) -> int {
        if (level == 0) return 0;
        if (level < 0) return 1;
        int c[AR];
        for (int b = 0; b < AR; ++b) {
            std::vector<size_t> t(st.size()); spec.get_copy(t.data(), st.data());
            int l = spec.get_child(t.data(), level, b); c[b] = rec(t, l); spec.destruct(t.data());
        }
        return cn.mk(level, c);
    };
    std::vector<size_t> st((spec.datasize() + sizeof(size_t) - 1) / sizeof(size_t) + 1);
    int l = spec.get_root(st.data()); int r = rec(st, l); spec.destruct(st.data());
    return r;
}
// multi-word exact naturals for reference counts
struct Big {
    std::vector<uint32_t> d; // base 1e9
    Big(uint64_t v = 0) { while (v) { d.push_back(v % 1000000000u); v /= 1000000000u; } }
    Big& operator+=(Big const& o) {
        uint64_t c = 0; if (d.size() < o.d.size()) d.resize(o.d.size());
        for (size_t i = 0; i < d.size(); ++i) { c += d[i] + (uint64_t)(i < o.d.size() ? o.d[i] : 0); d[i] = c % 1000000000u; c /= 1000000000u; }
        if (c) d.push_back(c); return *this;
    }
    Big& mul(uint32_t k) { uint64_t c = 0; for (auto& x : d) { c += (uint64_t)x * k; x = c % 1000000000u; c /= 1000000000u; } if (c) d.push_back(c); while (!d.empty() && !d.back()) d.pop_back(); return *this; }
    std::string text() const { if (d.empty()) return "0"; std::string s = std::to_string(d.back()); for (size_t i = d.size() - 1; i-- > 0;) { char b[12]; snprintf(b, 12, "%09u", d[i]); s += b; } return s; }
};
} // namespace model
