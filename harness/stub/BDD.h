// Stand-in for the external Sapporo BDD/ZBDD package: the interface the bridges use, implemented on
// hash-consed canonical diagrams, with monitors for handle lifetime and for concurrent entry.
#pragma once
#include "../model.hpp"
#include <iostream>
#include <algorithm>
#include <iterator>
#include <fstream>
typedef long long bddword;
namespace sapporo {
using model::Canon;
struct Store {
    Canon<2> b{model::BDD}, z{model::ZDD};
    std::vector<int> varOfLev{0}, levOfVar{0};
    std::set<void const*> live;
    int inside = -1; bool busy = false, raced = false;
    void reset() { b.tab.clear(); b.node.resize(2); z.tab.clear(); z.node.resize(2); varOfLev = {0}; levOfVar = {0}; busy = raced = false; }
};
inline Store S;
// every package operation: entering while another thread is inside corrupts the real package
struct Op {
    Op() { if (S.busy && S.inside != omprt::currentFiber()) S.raced = true; S.busy = true; S.inside = omprt::currentFiber(); if (omprt::currentFiber() >= 0) omprt::yieldPoint(); }
    ~Op() { S.busy = false; }
};
inline void newVarAt(int lev) { S.varOfLev.insert(S.varOfLev.begin() + lev, (int)S.varOfLev.size()); S.levOfVar.resize(S.varOfLev.size()); for (int l = 1; l < (int)S.varOfLev.size(); ++l) S.levOfVar[S.varOfLev[l]] = l; }
struct Handle {
    int id;
    explicit Handle(int v) : id(v) { S.live.insert(this); }
    Handle(Handle const& o) : id(o.get()) { S.live.insert(this); }
    Handle& operator=(Handle const& o) { if (!S.live.count(this)) throw mc::Fail("handle", "assignment to a handle that was never constructed"); id = o.get(); return *this; }
    ~Handle() { if (!S.live.erase(this)) { fprintf(stderr, "destroyed handle destroyed again\n"); abort(); } }
    int get() const { if (!S.live.count(this)) throw mc::Fail("handle", "use of a handle that is not alive"); return id; }
};
// restrict var to value (value 0/1), BDD; OffSet/OnSet0, ZBDD
inline int walk(Canon<2>& c, int f, int lev, int b, bool z) {
    if (c.level(f) < lev) return z && b ? 0 : f;
    if (c.level(f) == lev) return c.child(f, b);
    int k[2]; for (int i = 0; i < 2; ++i) k[i] = walk(c, c.child(f, i), lev, b, z);
    return c.mk(c.level(f), k);
}
inline int lev(int var) { if (var < 0 || var >= (int)S.levOfVar.size()) throw mc::Fail("package-arg", mc::str("variable ", var, " does not exist")); return S.levOfVar[var]; }
} // namespace sapporo
inline int BDD_Init(bddword = 256, bddword = 1024) { sapporo::S.reset(); return 0; }
inline int BDD_NewVar() { sapporo::Op o; sapporo::newVarAt((int)sapporo::S.varOfLev.size()); return (int)sapporo::S.varOfLev.size() - 1; }
inline int BDD_NewVarOfLev(int l) { sapporo::Op o; sapporo::newVarAt(l); return (int)sapporo::S.varOfLev.size() - 1; }
inline int BDD_VarUsed() { return (int)sapporo::S.varOfLev.size() - 1; }
inline int BDD_TopLev() { return BDD_VarUsed(); }
inline int BDD_LevOfVar(int v) { return sapporo::lev(v); }
inline int BDD_VarOfLev(int l) { if (l < 0 || l > BDD_VarUsed()) throw mc::Fail("package-arg", mc::str("level ", l, " does not exist")); return sapporo::S.varOfLev[l]; }
class BDD {
public:
    sapporo::Handle h;
    BDD() : h(0) {}
    BDD(int v) : h(v < 0 ? 0 : v != 0) {}
    struct Raw {}; BDD(Raw, int id) : h(id) {}
    int Top() const { sapporo::Op o; return sapporo::S.varOfLev.at(sapporo::S.b.level(h.get())); }
    bddword GetID() { return h.get(); }
    bddword Size() const { return (bddword)sapporo::S.b.count(h.get()); }
    void Print() const { std::cout << "BDD " << h.get() << "\n"; }
    BDD At0(int var) const { sapporo::Op o; return BDD(Raw(), sapporo::walk(sapporo::S.b, h.get(), sapporo::lev(var), 0, false)); }
    BDD At1(int var) const { sapporo::Op o; return BDD(Raw(), sapporo::walk(sapporo::S.b, h.get(), sapporo::lev(var), 1, false)); }
    BDD operator~() const { sapporo::Op o; return BDD(Raw(), inv(h.get())); }
    BDD& operator&=(BDD const& x) { *this = *this & x; return *this; }
    BDD& operator|=(BDD const& x) { *this = *this | x; return *this; }
    friend BDD operator&(BDD const& a, BDD const& b) { sapporo::Op o; return BDD(Raw(), model::combine(sapporo::S.b, a.h.get(), b.h.get(), true)); }
    friend BDD operator|(BDD const& a, BDD const& b) { sapporo::Op o; return BDD(Raw(), model::combine(sapporo::S.b, a.h.get(), b.h.get(), false)); }
    friend bool operator==(BDD const& a, BDD const& b) { return a.h.get() == b.h.get(); }
    friend bool operator!=(BDD const& a, BDD const& b) { return a.h.get() != b.h.get(); }
    friend std::ostream& operator<<(std::ostream& os, BDD const& b) { return os << b.h.get(); }
private:
    static int inv(int f) { if (f < 2) return !f; int k[2] = {inv(sapporo::S.b.child(f, 0)), inv(sapporo::S.b.child(f, 1))}; return sapporo::S.b.mk(sapporo::S.b.level(f), k); }
};
inline BDD BDDvar(int var) { sapporo::Op o; int k[2] = {0, 1}; int l = sapporo::lev(var); if (l <= 0) throw mc::Fail("package-arg", "variable 0"); return BDD(BDD::Raw(), sapporo::S.b.mk(l, k)); }
