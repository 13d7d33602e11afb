// P18: BigNumber and FixedBigNumber against an independent arbitrary-precision integer (boost cpp_int).
#include "mc.hpp"
#include <cassert>
#include <limits>
#include <tdzdd/util/BigNumber.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <memory>
using namespace mc; using namespace tdzdd; typedef boost::multiprecision::cpp_int Z;
static uint64_t const TOP = uint64_t(1) << 63;
static std::vector<uint64_t> words(Z v) { std::vector<uint64_t> w; Z const m = (Z(1) << 63) - 1; do { w.push_back(uint64_t(v & m)); v >>= 63; } while (v != 0); for (size_t i = 0; i + 1 < w.size(); ++i) w[i] |= TOP; return w; }
static std::string text(Z const& v) { return v.str(); }
// storage with exactly n words, so that an overrun is caught
struct Store { std::unique_ptr<uint64_t[]> a; size_t n; explicit Store(size_t n) : a(new uint64_t[n]), n(n) { for (size_t i = 0; i < n; ++i) a[i] = 0xABABABABABABABABull; } };
static void load(Store& s, Z const& v) { auto w = words(v); for (size_t i = 0; i < w.size(); ++i) s.a[i] = w[i]; }
static void same(Ctx& cx, BigNumber const& b, Z const& v, std::string const& op, bool full = true) {
    auto bad = [&](char const* sig, std::string const& m) { cx.fail(sig, str(m, " after ", op, ": expected ", text(v))); };
    auto w = words(v); if (size_t(b.size()) != w.size()) bad("size", str("size() is ", b.size(), ", expected ", w.size(), " words"));
    std::ostringstream o; o << b; if (o.str() != text(v)) bad("print", "prints " + o.str()); if (std::string(b) != text(v)) bad("print", "string conversion gives " + std::string(b));
    if (!full) return;
    Z t = b.translate<Z>(); if (t != v) bad("translate", "translates to " + text(t)); if (v < (Z(1) << 64)) { uint64_t x = uint64_t(v); if (b.translate<uint64_t>() != x) bad("translate", "64-bit translation differs"); if (!(b == x) || b != x) bad("equal", "does not equal its own value"); }
    for (uint64_t x : {uint64_t(0), uint64_t(1), TOP - 1, TOP, TOP + 1, ~uint64_t(0)}) if ((b == x) != (v == Z(x)) || (b != x) == (v == Z(x))) bad("equal", str("comparison with ", x, " is wrong"));
    Store s(w.size()); load(s, v); BigNumber r(s.a.get()); if (!(b == r) || b != r || !(r == b) || r != b) bad("equal", "does not equal the same value stored directly");
}
static std::vector<uint64_t> const EDGE{0, 1, 2, uint64_t(1) << 31, (uint64_t(1) << 32) - 1, uint64_t(1) << 32, uint64_t(1) << 62, TOP - 2, TOP - 1};
static std::vector<Z> values(int maxWords, std::vector<uint64_t> const& e) { std::set<Z> s; std::function<void(int, Z)> rec = [&](int k, Z v) { if (k == 0) { s.insert(v); return; } for (uint64_t x : e) rec(k - 1, (v << 63) + x); }; rec(maxWords, 0); return std::vector<Z>(s.begin(), s.end()); }
static uint32_t const DIV[] = {1, 2, 3, 7, 10, 16, 1000, 65535, 65536, 1000000007u, 0x7fffffffu, 0x80000000u, 0xffffffffu};

template<int N> static void fixedOne(Ctx& cx, uint64_t x) {
    typedef FixedBigNumber<N> F; static uint32_t const E[] = {0, 1, 9, 10, 0x7fffffffu, 0x80000000u, 0xffffffffu}; Dec d(x); Z v[2]; F f[2];
    for (int k = 0; k < 2; ++k) { v[k] = 0; for (int i = 0; i < N; ++i) v[k] = (v[k] << 32) + E[d(7)]; F acc; for (int bit = 32 * N - 1; bit >= 0; --bit) { acc += F(acc); if ((v[k] >> bit) & 1) acc += F(1); } f[k] = acc; }
    cx.desc = str("FixedBigNumber<", N, "> ", text(v[0]), " and ", text(v[1]));
    for (int k = 0; k < 2; ++k) { std::ostringstream o; o << f[k]; cx.require(o.str() == text(v[k]) && std::string(f[k]) == text(v[k]), "print", [&] { return str("prints ", o.str(), " expected ", text(v[k])); }); cx.check(f[k].template translate<Z>() == v[k], "translate", "translation differs"); if (v[k] < (Z(1) << 64)) cx.check(f[k].template translate<uint64_t>() == uint64_t(v[k]), "translate", "64-bit translation differs"); for (uint32_t e : E) cx.check((f[k] == e) == (v[k] == e) && (f[k] != e) == (v[k] != e), "equal", str("comparison with ", e, " is wrong")); cx.op(6); }
    cx.check((f[0] == f[1]) == (v[0] == v[1]) && (f[0] != f[1]) == (v[0] != v[1]), "equal", "comparison is wrong");
    bool over = v[0] + v[1] >= (Z(1) << (32 * N)), threw = false; F s; try { s = f[0] + f[1]; } catch (std::runtime_error&) { threw = true; } cx.check(over == threw, "overflow", over ? "an overflow was not reported" : "an overflow was reported wrongly"); if (!over) cx.require(std::string(s) == text(v[0] + v[1]), "add", [&] { return str("sum is ", std::string(s), " expected ", text(v[0] + v[1])); });
    for (uint32_t n : DIV) { F q = f[0]; uint32_t r = q.divide(n); cx.op(); cx.require(r == uint32_t(v[0] % n) && std::string(q) == text(v[0] / n), "divide", [&] { return str(text(v[0]), " / ", n, " gives ", std::string(q), " remainder ", r); }); }
    F a; a = 77u; cx.check(a == 77u && std::string(a) == "77", "assign", "assignment of a small number"); cx.trace(); cx.outcome(hashStr(text(v[0] + v[1])));
}
SCOPES(s) {
    (void)mcReg_;
    auto pairs = [&](std::string name, int w, std::vector<uint64_t> e, bool th) {
        auto v = std::make_shared<std::vector<Z>>(values(w, e)); uint64_t n = v->size();
        s.add(name, str("all ordered pairs of the ", n, " numbers of up to ", w, " words over ", e.size(), " edge words: add (also to itself), store, compare, print, translate"), n * n, [=](uint64_t x, Ctx& cx) {
            Z const &a = (*v)[x % n], &b = (*v)[x / n]; cx.desc = text(a) + " and " + text(b); auto wa = words(a), wb = words(b), ws = words(a + b);
            Store sa(std::max({wa.size(), wb.size(), ws.size()})), sb(wb.size()); load(sa, a); load(sb, b); BigNumber p(sa.a.get()), q(sb.a.get());
            bool eq = p == q, eq2 = q == p; cx.require(eq == (a == b) && eq2 == eq && (p != q) == !eq, "equal", [&] { return str(text(a), " == ", text(b), " answers ", eq); });
            size_t r = p.add(q); cx.op(4); cx.require(r == ws.size(), "words", [&] { return str("add returns ", r, " words, expected ", ws.size()); }); same(cx, p, a + b, "add", x % 7 == 0 || n < 100); same(cx, q, b, "add (operand)", false);
            size_t t = p.store(q); cx.check(t == wb.size(), "words", "store returns a wrong word count"); same(cx, p, b, "store", false); cx.trace(); cx.outcome(hashStr(text(a + b))); });
        s.v.back().thorough = th;
    };
    pairs("pairs-2", 2, EDGE, false); pairs("pairs-3", 3, {0, 1, uint64_t(1) << 62, TOP - 2, TOP - 1}, false); pairs("pairs-4", 4, {0, 1, TOP - 1}, false); pairs("pairs-3e", 3, EDGE, true); pairs("pairs-5", 5, {0, 1, TOP - 1}, false);
    { auto v = std::make_shared<std::vector<Z>>(values(3, EDGE)); uint64_t n = v->size();
      s.add("single", str("every one of ", n, " numbers: print, translate, compare, double by adding itself, divide by 13 divisors"), n, [=](uint64_t x, Ctx& cx) { Z a = (*v)[x]; cx.desc = text(a); Store sa(words(a).size()); load(sa, a); BigNumber p(sa.a.get()); same(cx, p, a, "load"); for (uint32_t d : DIV) { load(sa, a); uint32_t r = p.divide(d); cx.op(); cx.require(r == uint32_t(a % d), "divide", [&] { return str(text(a), " mod ", d, " gives ", r); }); same(cx, p, a / d, str("divide(", d, ")")); } Store s2(words(a * 2).size()); load(s2, a); BigNumber q(s2.a.get()); size_t w = q.add(q); cx.check(w == words(a * 2).size(), "words", "word count of a+a"); same(cx, q, a * 2, "add itself"); cx.trace(); cx.outcome(x); });
      s.add("shift", str("every one of ", n, " numbers shifted by every amount 0..260"), n * 261, [=](uint64_t x, Ctx& cx) { Z a = (*v)[x % n]; int k = x / n; cx.desc = str(text(a), " << ", k); Z r = a << k; Store sa(std::max<size_t>(words(r).size(), words(a).size())); load(sa, a); BigNumber p(sa.a.get()); size_t w = p.shiftLeft(k); cx.op(); cx.require(w == words(r).size(), "words", [&] { return str("shiftLeft returns ", w, " words, expected ", words(r).size()); }); same(cx, p, r, str("shiftLeft(", k, ")"), x % 5 == 0); cx.trace(); cx.outcome(hashStr(text(r))); }); }
    s.add("store64", "storing every edge 64-bit value, comparing with every other", 4096, [](uint64_t x, Ctx& cx) { auto e = [](int k) { uint64_t b = uint64_t(1) << k; return b; }; uint64_t a = e(x % 64), b = e(x / 64); for (uint64_t v : {a, a - 1, ~a, a + b, a | TOP}) { Store s(v & TOP ? 2 : 1); BigNumber p(s.a.get()); cx.desc = str("store ", v); size_t w = p.store(v); cx.op(); cx.check(w == words(Z(v)).size(), "words", "store returns a wrong word count"); same(cx, p, Z(v), "store"); cx.check((p == b) == (v == b), "equal", "comparison with a 64-bit value is wrong"); } cx.trace(); cx.outcome(x); });
    s.add("null", "the null number behaves as zero in store, compare, size and print", 4, [](uint64_t x, Ctx& cx) { cx.desc = str("null ", x); BigNumber z, y; uint64_t a[2] = {5, 0}; BigNumber p(a); if (x == 0) { cx.check(z == uint64_t(0) && !(z != uint64_t(0)) && z != uint64_t(1) && z == y && !(z == p) && !(p == z), "equal", "null is not zero"); cx.check(std::string(z) == "0" && z.size() == 1, "print", "null does not print 0"); } if (x == 1) { cx.check(p.store(z) == 1 && p == uint64_t(0) && p == z && z == p, "store", "storing null does not give zero"); cx.check(z.store(p) == 1 && z.store(0) == 1, "store", "storing zero into null"); } if (x >= 2) { bool t = false; try { if (x == 2) z.store(7); else z.store(p); } catch (std::runtime_error&) { t = true; } cx.check(t, "null-store", "storing a non-zero value into null is not refused"); } cx.op(); cx.trace(); });
    // histories on two numbers
    auto hist = [&](std::string name, int depth, bool th) { uint64_t n = 1; for (int i = 0; i < depth; ++i) n *= 19; s.add(name, str("all sequences of ", depth, " out of 19 operations on two numbers"), n, [=](uint64_t x, Ctx& cx) {
        Store sa(40), sb(40); BigNumber a(sa.a.get()), b(sb.a.get()); Z p = 0, q = 0; a.store(0); b.store(0); Dec d(x); cx.desc = "history:";
        for (int k = 0; k < depth; ++k) { int o = d(19); std::string op; size_t w = 0; bool inA = true;
            static uint64_t const ST[] = {0, 1, TOP - 1, TOP, ~uint64_t(0)}; static int const SH[] = {0, 1, 31, 62, 63, 64, 127};
            if (o < 5) { op = str(" a=", ST[o]); w = a.store(ST[o]); p = ST[o]; } else if (o < 12) { op = str(" a<<=", SH[o - 5]); w = a.shiftLeft(SH[o - 5]); p <<= SH[o - 5]; }
            else if (o == 12) { op = " a+=b"; w = a.add(b); p += q; } else if (o == 13) { op = " b+=a"; w = b.add(a); q += p; inA = false; } else if (o == 14) { op = " a+=a"; w = a.add(a); p += p; } else if (o == 15) { op = " b=a"; w = b.store(a); q = p; inA = false; } else if (o == 16) { op = " a=b"; w = a.store(b); p = q; }
            else { uint32_t n = o == 17 ? 10 : 0x10001; op = str(" a/=", n); uint32_t r = a.divide(n); cx.check(r == uint32_t(p % n), "divide", "remainder wrong"); p /= n; w = words(p).size(); }
            cx.desc += op; cx.op(); cx.require(w == words(inA ? p : q).size(), "words", [&] { return str(op, " returns ", w, " words"); }); same(cx, a, p, op, k + 1 == depth); same(cx, b, q, op, k + 1 == depth); cx.check((a == b) == (p == q) && (b == a) == (p == q) && (a != b) == (p != q), "equal", str("comparison wrong after", op)); }
        cx.trace(); cx.outcome(hashStr(text(p) + "," + text(q))); cx.maxdepth = std::max<uint64_t>(cx.maxdepth, depth); }); s.v.back().thorough = th; };
    hist("history-4", 4, false); hist("history-5", 5, true);
    s.add("fixed-1", "all pairs of 1-word fixed numbers over 7 edge words", 49, [](uint64_t x, Ctx& cx) { fixedOne<1>(cx, x); }); s.add("fixed-2", "all pairs of 2-word fixed numbers over 7 edge words", 2401, [](uint64_t x, Ctx& cx) { fixedOne<2>(cx, x); }); s.add("fixed-3", "all pairs of 3-word fixed numbers over 7 edge words", 117649, [](uint64_t x, Ctx& cx) { fixedOne<3>(cx, x); });
}
