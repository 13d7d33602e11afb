// Stand-in for the CUDD package (not installed here): a small reduced BDD package
// with complement edges and CUDD's names for what the sample applications use.
// It counts references strictly: stubBadRefs is the number of misuses.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <utility>
#include <vector>
#include "../omprt.hpp"

#define CUDD_UNIQUE_SLOTS 256
#define CUDD_CACHE_SLOTS 262144
#define CUDD_CONST_INDEX 0x7fffffff
enum Cudd_ReorderingType { CUDD_REORDER_SAME, CUDD_REORDER_NONE, CUDD_REORDER_SIFT };

struct DdNode {
    int index;
    long ref;
    DdNode* t;
    DdNode* e;
};

struct DdManager {
    DdNode one;
    std::map<std::pair<int,std::pair<DdNode*,DdNode*> >,DdNode*> unique;
    int size; // number of variables; index = height, the newest variable on top
    DdManager() : size(0) {
        one.index = CUDD_CONST_INDEX;
        one.ref = 1;
        one.t = one.e = 0;
    }
};

namespace cuddstub {
static long badRefs; // operations on unreferenced or null nodes
static long liveRefs; // references taken and not yet given back
static bool busy, raced; // another thread entered the package while one was inside
static int inside;
struct Op {
    bool outer;
    Op() : outer(!(busy && inside == omprt::currentFiber())) {
        if (busy && inside != omprt::currentFiber()) raced = true;
        busy = true;
        inside = omprt::currentFiber();
        if (outer && omprt::currentFiber() >= 0) omprt::yieldPoint();
    }
    ~Op() { if (outer) busy = false; }
};
}

#define Cudd_Regular(n) ((DdNode*) ((uintptr_t) (n) & ~(uintptr_t) 1))
#define Cudd_Not(n) ((DdNode*) ((uintptr_t) (n) ^ (uintptr_t) 1))
#define Cudd_NotCond(n, c) ((DdNode*) ((uintptr_t) (n) ^ (uintptr_t) ((c) != 0)))
#define Cudd_IsComplement(n) ((int) ((uintptr_t) (n) & (uintptr_t) 1))
#define Cudd_IsConstant(n) (Cudd_Regular(n)->index == CUDD_CONST_INDEX)
#define Cudd_T(n) (Cudd_Regular(n)->t)
#define Cudd_E(n) (Cudd_Regular(n)->e)

static inline unsigned int Cudd_NodeReadIndex(DdNode* n) { return Cudd_Regular(n)->index; }
static inline DdManager* Cudd_Init(unsigned, unsigned, unsigned, unsigned, unsigned long) { return new DdManager; }
static inline DdNode* Cudd_ReadOne(DdManager* m) { return &m->one; }
static inline DdNode* Cudd_ReadLogicZero(DdManager* m) { return Cudd_Not(&m->one); }
static inline int Cudd_ReadSize(DdManager* m) { return m->size; }
static inline int Cudd_ReadPeakLiveNodeCount(DdManager* m) { return (int) m->unique.size(); }
static inline int Cudd_ReduceHeap(DdManager*, Cudd_ReorderingType, int) { return 1; }

static inline void Cudd_Ref(DdNode* n) {
    cuddstub::Op op;
    if (Cudd_Regular(n) == 0) { ++cuddstub::badRefs; return; }
    ++Cudd_Regular(n)->ref;
    ++cuddstub::liveRefs;
}

static inline void Cudd_RecursiveDeref(DdManager*, DdNode* n) {
    cuddstub::Op op;
    DdNode* r = Cudd_Regular(n);
    if (r == 0 || r->ref <= (r->index == CUDD_CONST_INDEX ? 1 : 0)) { ++cuddstub::badRefs; return; }
    --r->ref;
    --cuddstub::liveRefs;
}

namespace cuddstub {
static inline DdNode* mk(DdManager* m, int i, DdNode* t, DdNode* e) {
    if (t == e) return t;
    if (Cudd_IsComplement(t)) return Cudd_Not(mk(m, i, Cudd_Not(t), Cudd_Not(e)));
    DdNode*& p = m->unique[std::make_pair(i, std::make_pair(t, e))];
    if (p == 0) {
        p = new DdNode;
        p->index = i;
        p->ref = 0;
        p->t = t;
        p->e = e;
    }
    return p;
}

static inline int top(DdNode* n) { return Cudd_IsConstant(n) ? -1 : Cudd_Regular(n)->index; }

static inline DdNode* co(DdNode* n, int i, int b) {
    if (top(n) != i) return n;
    return Cudd_NotCond(b ? Cudd_T(n) : Cudd_E(n), Cudd_IsComplement(n));
}

static inline DdNode* ite(DdManager* m, DdNode* f, DdNode* g, DdNode* h,
        std::map<std::pair<DdNode*,std::pair<DdNode*,DdNode*> >,DdNode*>& c) {
    if (f == &m->one) return g;
    if (f == Cudd_Not(&m->one)) return h;
    if (g == h) return g;
    std::pair<DdNode*,std::pair<DdNode*,DdNode*> > k(f, std::make_pair(g, h));
    if (c.count(k)) return c[k];
    int i = top(f);
    if (top(g) > i) i = top(g);
    if (top(h) > i) i = top(h);
    DdNode* t = ite(m, co(f, i, 1), co(g, i, 1), co(h, i, 1), c);
    DdNode* e = ite(m, co(f, i, 0), co(g, i, 0), co(h, i, 0), c);
    return c[k] = mk(m, i, t, e);
}

static inline bool bad(DdNode* n) {
    if (Cudd_Regular(n) == 0 || Cudd_Regular(n)->ref < 1) { ++badRefs; return Cudd_Regular(n) == 0; }
    return false;
}

static inline DdNode* ite0(DdManager* m, DdNode* f, DdNode* g, DdNode* h) {
    std::map<std::pair<DdNode*,std::pair<DdNode*,DdNode*> >,DdNode*> c;
    return ite(m, f, g, h, c);
}

static inline void dfs(DdNode* n, std::set<DdNode*>& s, std::set<int>& v) {
    n = Cudd_Regular(n);
    if (!s.insert(n).second) return;
    if (n->index == CUDD_CONST_INDEX) return;
    v.insert(n->index);
    dfs(n->t, s, v);
    dfs(n->e, s, v);
}

static inline double count(DdNode* n) { // fraction of the assignments
    if (Cudd_IsConstant(n)) return Cudd_IsComplement(n) ? 0 : 1;
    return (count(Cudd_NotCond(Cudd_T(n), Cudd_IsComplement(n))) + count(Cudd_NotCond(Cudd_E(n), Cudd_IsComplement(n)))) / 2;
}

static inline DdNode* constrain(DdManager* m, DdNode* f, DdNode* c) {
    DdNode* one = &m->one;
    if (c == one) return f;
    if (Cudd_IsConstant(f)) return f;
    if (c == Cudd_Not(one)) return Cudd_Not(one);
    if (f == c) return one;
    if (f == Cudd_Not(c)) return Cudd_Not(one);
    int i = top(f) > top(c) ? top(f) : top(c);
    if (co(c, i, 1) == Cudd_Not(one)) return constrain(m, co(f, i, 0), co(c, i, 0));
    if (co(c, i, 0) == Cudd_Not(one)) return constrain(m, co(f, i, 1), co(c, i, 1));
    return mk(m, i, constrain(m, co(f, i, 1), co(c, i, 1)), constrain(m, co(f, i, 0), co(c, i, 0)));
}

static inline DdNode* exist(DdManager* m, DdNode* f, DdNode* cube) {
    if (Cudd_IsConstant(f)) return f;
    while (top(cube) > top(f)) cube = co(cube, top(cube), 1);
    if (Cudd_IsConstant(cube)) return f;
    int i = top(f);
    DdNode* t = exist(m, co(f, i, 1), cube);
    DdNode* e = exist(m, co(f, i, 0), cube);
    if (top(cube) == i) return ite0(m, t, &m->one, e);
    return mk(m, i, t, e);
}
}

static inline DdNode* Cudd_bddIthVar(DdManager* m, int i) {
    cuddstub::Op op;
    if (i >= m->size) m->size = i + 1;
    return cuddstub::mk(m, i, &m->one, Cudd_Not(&m->one));
}
static inline DdNode* Cudd_bddNewVarAtLevel(DdManager* m, int level) {
    cuddstub::Op op;
    if (level != 0) abort(); // only insertion at the top is modelled
    return Cudd_bddIthVar(m, m->size);
}
static inline DdNode* Cudd_bddIte(DdManager* m, DdNode* f, DdNode* g, DdNode* h) {
    cuddstub::Op op;
    if (Cudd_Regular(f) == 0 || cuddstub::bad(g) || cuddstub::bad(h)) return 0;
    return cuddstub::ite0(m, f, g, h);
}
static inline DdNode* Cudd_bddAnd(DdManager* m, DdNode* f, DdNode* g) {
    cuddstub::Op op;
    if (cuddstub::bad(f) || cuddstub::bad(g)) return 0;
    return cuddstub::ite0(m, f, g, Cudd_Not(&m->one));
}
static inline DdNode* Cudd_bddOr(DdManager* m, DdNode* f, DdNode* g) {
    cuddstub::Op op;
    if (cuddstub::bad(f) || cuddstub::bad(g)) return 0;
    return cuddstub::ite0(m, f, &m->one, g);
}
static inline DdNode* Cudd_bddXor(DdManager* m, DdNode* f, DdNode* g) {
    cuddstub::Op op;
    if (cuddstub::bad(f) || cuddstub::bad(g)) return 0;
    return cuddstub::ite0(m, f, Cudd_Not(g), g);
}
static inline int Cudd_bddLeq(DdManager* m, DdNode* f, DdNode* g) {
    cuddstub::Op op;
    return cuddstub::ite0(m, f, g, &m->one) == &m->one;
}
static inline DdNode* Cudd_bddConstrain(DdManager* m, DdNode* f, DdNode* c) {
    cuddstub::Op op;
    if (cuddstub::bad(f) || cuddstub::bad(c)) return 0;
    return cuddstub::constrain(m, f, c);
}
static inline DdNode* Cudd_bddMinimize(DdManager* m, DdNode* f, DdNode* c) { return Cudd_bddConstrain(m, f, c); }
static inline DdNode* Cudd_bddExistAbstract(DdManager* m, DdNode* f, DdNode* c) {
    cuddstub::Op op;
    if (cuddstub::bad(f) || cuddstub::bad(c)) return 0;
    return cuddstub::exist(m, f, c);
}
static inline DdNode* Cudd_bddAndAbstract(DdManager* m, DdNode* f, DdNode* g, DdNode* c) {
    cuddstub::Op op;
    return cuddstub::exist(m, cuddstub::ite0(m, f, g, Cudd_Not(&m->one)), c);
}
static inline DdNode* Cudd_Cofactor(DdManager* m, DdNode* f, DdNode* g) {
    cuddstub::Op op;
    if (cuddstub::bad(f)) return 0;
    return cuddstub::constrain(m, f, g);
}
static inline DdNode* Cudd_Support(DdManager* m, DdNode* f) {
    cuddstub::Op op;
    std::set<DdNode*> s;
    std::set<int> v;
    cuddstub::dfs(f, s, v);
    DdNode* r = &m->one;
    for (std::set<int>::iterator t = v.begin(); t != v.end(); ++t) r = cuddstub::mk(m, *t, r, Cudd_Not(&m->one));
    return r;
}
static inline int Cudd_DagSize(DdNode* f) {
    std::set<DdNode*> s;
    std::set<int> v;
    cuddstub::dfs(f, s, v);
    return (int) s.size();
}
static inline int Cudd_SharingSize(DdNode** f, int n) {
    std::set<DdNode*> s;
    std::set<int> v;
    for (int i = 0; i < n; ++i) cuddstub::dfs(f[i], s, v);
    return (int) s.size();
}
static inline double Cudd_CountMinterm(DdManager*, DdNode* f, int nvars) {
    return cuddstub::count(f) * std::pow(2.0, nvars);
}
static inline int Cudd_bddVarIsDependent(DdManager* m, DdNode* f, DdNode* v) { // f determines v
    return Cudd_bddLeq(m, f, v) || Cudd_bddLeq(m, f, Cudd_Not(v));
}
static inline DdNode* Cudd_bddVectorCompose(DdManager* m, DdNode* f, DdNode** v) {
    if (Cudd_IsConstant(f)) return f;
    int i = cuddstub::top(f);
    DdNode* t = Cudd_bddVectorCompose(m, cuddstub::co(f, i, 1), v);
    DdNode* e = Cudd_bddVectorCompose(m, cuddstub::co(f, i, 0), v);
    return cuddstub::ite0(m, v[i], t, e);
}
