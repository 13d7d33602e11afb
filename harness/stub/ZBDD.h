// Stand-in for the external package's ZBDD class (see BDD.h beside it).
#pragma once
#include "BDD.h"
class ZBDD {
public:
    sapporo::Handle h;
    ZBDD() : h(0) {}
    ZBDD(int v) : h(v < 0 ? 0 : v != 0) {}
    struct Raw {}; ZBDD(Raw, int id) : h(id) {}
    int Top() const { sapporo::Op o; return sapporo::S.varOfLev.at(sapporo::S.z.level(h.get())); }
    bddword GetID() { return h.get(); }
    bddword Size() const { return (bddword)sapporo::S.z.count(h.get()); }
    void Print() const { std::cout << "ZBDD " << h.get() << "\n"; }
    ZBDD OffSet(int var) const { sapporo::Op o; int l = sapporo::lev(var); return ZBDD(Raw(), l ? sapporo::walk(sapporo::S.z, h.get(), l, 0, true) : h.get()); }
    ZBDD OnSet0(int var) const { sapporo::Op o; int l = sapporo::lev(var); return ZBDD(Raw(), l ? sapporo::walk(sapporo::S.z, h.get(), l, 1, true) : 0); }
    ZBDD Change(int var) const { sapporo::Op o; int l = sapporo::lev(var); if (l <= 0) throw mc::Fail("package-arg", "Change of variable 0"); return ZBDD(Raw(), change(h.get(), l)); }
    ZBDD& operator+=(ZBDD const& x) { *this = *this + x; return *this; }
    friend ZBDD operator+(ZBDD const& a, ZBDD const& b) { sapporo::Op o; return ZBDD(Raw(), model::combine(sapporo::S.z, a.h.get(), b.h.get(), false)); }
    friend ZBDD operator&(ZBDD const& a, ZBDD const& b) { sapporo::Op o; return ZBDD(Raw(), model::combine(sapporo::S.z, a.h.get(), b.h.get(), true)); }
    friend bool operator==(ZBDD const& a, ZBDD const& b) { return a.h.get() == b.h.get(); }
    friend bool operator!=(ZBDD const& a, ZBDD const& b) { return a.h.get() != b.h.get(); }
    friend std::ostream& operator<<(std::ostream& os, ZBDD const& b) { return os << b.h.get(); }
private:
    static int change(int f, int l) {
        auto& z = sapporo::S.z; int k[2];
        if (z.level(f) < l) { k[0] = 0; k[1] = f; return z.mk(l, k); }
        if (z.level(f) == l) { k[0] = z.child(f, 1); k[1] = z.child(f, 0); return z.mk(l, k); }
        for (int b = 0; b < 2; ++b) k[b] = change(z.child(f, b), l);
        return z.mk(z.level(f), k);
    }
};
