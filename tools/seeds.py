#!/usr/bin/env python3
"""Regenerates /verif/seeded (developer tool; no check reads it).  seeds.py [ID...]"""
import sys
from mkseed import make
I = "include/tdzdd/"
S = {}
def seed(sid, prop, edits, needs, breaks, demo=None, **kw): S[sid] = (prop, edits, needs, breaks, demo, kw)

seed("p12-sweep-one", "P12", [[I+"dd/DdSweeper.hpp", "if (nbi.row >= k) {", "if (nbi.row > k) {"]],
 "a sweep during construction that renumbers the lowest swept row while 1-terminal branches of that row are still remembered, followed by a merge that prefers a later 1-terminal",
 "branches to the superseded 1-terminal are cleared at the wrong nodes, so wrong sets survive the merge", r'''
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/DdSpec.hpp>
#include <set>
#include <cstdio>
#include <random>
// minimum-cost selection: merge keeps only the cheapest way to reach the 1-terminal.
using namespace tdzdd;
struct Min: PodArrayDdSpec<Min,int,2> {   // [0]=key state, [1]=cost
    int n; unsigned seed;
    Min(int n,unsigned s):n(n),seed(s){ setArraySize(2); }
    unsigned h(unsigned a,unsigned b,unsigned c) const { unsigned x=seed*2654435761u^a*40503u^b*97u^c*1000003u; x^=x>>13; x*=0x5bd1e995; x^=x>>15; return x; }
    int getRoot(int* s) const { s[0]=0;s[1]=0; return n; }
    int getChild(int* s,int level,int v) const {
        unsigned x=h(level,s[0],v);
        s[1]+= x%5; s[0]=(x>>4)%3;
        if ((x>>8)%3==0) return 0;
        if (level==1) return -1;
        if ((x>>12)%4==0) return -1;
        return level-1;
    }
    int mergeStates(int* a,int* b) const { return a[1]>b[1]?1:a[1]<b[1]?2:0; }
    size_t hashCode(int const* s) const { return s[0]; }
    bool equalTo(int const* a,int const* b) const { return a[0]==b[0]; }
    size_t hash_code(void const* p,int) const { return ((int const*)p)[0]; }
    bool equal_to(void const* p,void const* q,int) const { return ((int const*)p)[0]==((int const*)q)[0]; }
};
struct Brute { Min& m; int best=1<<30; std::set<std::set<int>> f;
    void go(int lev,int k,int c,std::set<int>& cur){
        for(int v=0;v<2;++v){ int s[2]={k,c}; int r=m.getChild(s,lev,v); if(r==0) continue; if(v)cur.insert(lev);
            if(r<0){ if(s[1]<best){best=s[1];f.clear();} if(s[1]==best) f.insert(cur);} else go(r,s[0],s[1],cur);
            if(v)cur.erase(lev);} } };
int main(){ int bad=0;
    for(int n=2;n<=7;++n) for(unsigned s=0;s<3000;++s){ Min m(n,s); Brute b{m}; std::set<int> c; b.go(n,0,0,c);
        DdStructure<2> d(m); std::set<std::set<int>> g; for(auto const& x:d) g.insert(x);
        if(g!=b.f) { ++bad; } }
    printf("bad %d\n",bad); return bad?1:0; }
''')

seed("p16-reinit-tail", "P16", [[I+"util/MyHashTable.hpp", """            for (size_t i = 0; i < tableSize_; ++i) {
                table[i] = Entry();""", """            for (size_t i = 0; i < maxSize_; ++i) {
                table[i] = Entry();"""]],
 "re-initialising (or assigning to) a table that has held elements near the end of its storage",
 "stale elements survive initialisation and assignment", r'''
#include <tdzdd/util/MyHashTable.hpp>
#include <cstdio>
using namespace tdzdd;
int main(){ int bad=0;
  for(int k=1;k<200;++k){ MyHashTable<int> t; for(int i=1;i<=20;++i) t.add(i*k); t.initialize(18);
    int c=0; for(auto it=t.begin();it!=t.end();++it) ++c; if(c||t.size()) ++bad; for(int i=1;i<=20;++i) if(t.get(i*k)) ++bad; }
  printf("bad %d\n",bad); return bad?1:0; }
''')

seed("p08-iter-eq", "P08", [[I+"DdStructure.hpp", "return cursor == o.cursor && path == o.path;", "return cursor == o.cursor && path.size() == o.path.size();"]],
 "comparing two iterators that stand at different members whose paths have the same length and last free decision",
 "iterators at different members compare equal, so a loop up to a middle position stops early", r'''
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/spec/SizeConstraint.hpp>
#include <cstdio>
using namespace tdzdd;
int main(){ IntRange r(2,2); DdStructure<2> d(SizeConstraint(5,&r)); d.zddReduce(); int bad=0;
  int i=0; for(auto a=d.begin();a!=d.end();++a,++i){ int j=0; for(auto b=d.begin();b!=d.end();++b,++j) if((a==b)!=(i==j)) ++bad; }
  printf("bad %d\n",bad); return bad?1:0; }
''')

seed("p05-union-stale-level", "P05", [[I+"op/BinaryOperation.hpp", """        else if (take) {
            base::setLevel2(p, 0);
        }
""", """        else if (take && base::level2(p) > 0) {
            base::setLevel2(p, 0);
        }
"""]],
 "a union whose second operand reached its 1-terminal while the first operand still has levels to go",
 "sets that are in neither operand appear in the union", r'''
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/DdSpecOp.hpp>
#include <set>
#include <cstdio>
using namespace tdzdd;
// family of subsets of {1,2,3} given as a bit mask over the 8 subsets; a level at which nothing can be taken is skipped
struct Fam: DdSpec<Fam,unsigned,2> { unsigned f; Fam(unsigned f):f(f){}
  static int norm(unsigned m){ if(!m) return 0; for(int l=3;l>0;--l) for(int s=0;s<8;++s) if((m>>s&1)&&(s>>(l-1)&1)&&(s>>l)==0) return l; return -1; }
  int getRoot(unsigned& m) const { m=f; return norm(m); }
  int getChild(unsigned& m,int l,int v) const { unsigned r=0; for(int s=0;s<8;++s) if((m>>s&1)&&(s>>(l-1)&1)==v) r|=1u<<(s&~(1<<(l-1))); m=r; return norm(m); } 
  size_t hashCode(unsigned m) const { return m; } };
int main(){ int bad=0; for(unsigned a=0;a<256;++a) for(unsigned b=0;b<256;++b){
   DdStructure<2> d(zddUnion(Fam(a),Fam(b))); unsigned got=0; for(auto const& s:d){ int k=0; for(int x:s) k|=1<<(x-1); got|=1u<<k; }
   if(got!=(a|b)) ++bad; }
  printf("bad %d\n",bad); return bad?1:0; }
''')


# ---- shared demonstration prelude: a pseudo-random specification with level skips, and its meaning by brute force
PRE = r"""
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/DdSpecOp.hpp>
#include <set>
#include <map>
#include <vector>
#include <string>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#ifdef _OPENMP
#include <omp.h>
#endif
using namespace tdzdd;
template<int AR> struct Rnd: DdSpec<Rnd<AR>,int,AR> {
  int n; unsigned seed; int W, skip, dead, one;
  Rnd(int n,unsigned s,int W=3,int skip=4,int dead=4,int one=6):n(n),seed(s),W(W),skip(skip),dead(dead),one(one){}
  unsigned h(unsigned a,unsigned b,unsigned c) const { unsigned x=seed*2654435761u^a*40503u^b*97u^c*1000003u; x^=x>>13; x*=0x5bd1e995; x^=x>>15; x*=0x27d4eb2d; x^=x>>13; return x; }
  int getRoot(int& s) const { s=0; return n; }
  int getChild(int& s,int l,int v) const { unsigned x=h(l,s,v); s=(x>>4)%W;
    if((x>>8)%dead==0) return 0; if(l==1||(x>>12)%one==0) return -1;
    int d=1; if((x>>16)%skip==0) d+=(x>>20)%3; return l-d>=1?l-d:-1; }
  size_t hashCode(int s) const { return s; } };
typedef std::map<int,int> A; typedef std::set<A> F;   // non-zero choices by level
template<int AR> void brute(Rnd<AR> const& r,int s,int l,A& cur,F& f){ for(int v=0;v<AR;++v){ int t=s; int k=r.getChild(t,l,v); if(k==0) continue; if(v) cur[l]=v; if(k<0) f.insert(cur); else brute(r,t,k,cur,f); cur.erase(l);} }
template<int AR> F brute(Rnd<AR> const& r){ F f; A c; brute(r,0,r.n,c,f); return f; }
template<int AR> void walk(DdStructure<AR> const& d,NodeId f,A& c,F& o,int fuel){ if(f==0||fuel<0) return; if(f==1){ o.insert(c); return; } for(int v=0;v<AR;++v){ if(v) c[f.row()]=v; NodeId g=d.child(f,v); if(g.row()<f.row()||g<=NodeId(1)) walk(d,g,c,o,fuel-1); c.erase(f.row()); } }
template<int AR> F fam(DdStructure<AR> const& d){ F o; A c; walk(d,d.root(),c,o,64); return o; }
"""
def demo(body): return PRE + "int main(){ int bad=0; " + body + ' printf("bad %d\\n",bad); return bad?1:0; }\n'
ASAN = "-O1 -g -fopenmp -fsanitize=address,undefined -fno-sanitize-recover=all"
B = I + "dd/DdBuilder.hpp"

seed("p01-sweep-early", "P01", [[B, "srcPtr(ppp) = &q.branch[b];\n                    if (ii < lowestChild) lowestChild = ii;", "srcPtr(ppp) = &q.branch[b];\n                    if (lowestChild == i - 1) lowestChild = ii;"]],
 "a level with edges to two different deeper levels, the deeper one found second, and enough dead nodes to trigger a sweep between the two",
 "nodes are renumbered while a pending event still points into their row, so branches end up at the wrong node", demo(r"""
 for(int n=4;n<=9;++n) for(unsigned s=0;s<1500;++s){ Rnd<2> r(n,s,4,2,2,5); DdStructure<2> d(r); if(fam(d)!=brute(r)) ++bad; }"""), flags="-O1")

seed("p02-lowest-last", "P02", [[B, "if (lc < lowestChild) lowestChild = lc;\n        }\n\n        sweeper.update(i, lowestChild, deadCount);\n#ifdef DEBUG", "if (lc < i - 1) lowestChild = lc;\n        }\n\n        sweeper.update(i, lowestChild, deadCount);\n#ifdef DEBUG"]],
 "two threads that both find long edges on the same level, the one with the shorter edge reporting last, and enough dead nodes to sweep before the longer edge arrives",
 "the parallel builder renumbers nodes while events still point at them", demo(r"""
 omp_set_num_threads(4); for(int rep=0;rep<20&&!bad;++rep) for(int n=6;n<=9;++n) for(unsigned s=0;s<400;++s){ Rnd<2> r(n,s,24,2,2,5); DdStructure<2> d(r,true); if(fam(d)!=brute(r)) ++bad; }"""))

seed("p04-root-terminal", "P04", [[B, "void* const tmpState = tmp.data();\n        int n = spec.get_root(tmpState);\n\n        int k = (root == 1) ? -1 : root.row();\n\n        while (n != 0 && k != 0 && n != k) {", "void* const tmpState = tmp.data();\n        int n = spec.get_root(tmpState);\n\n        int k = (root == 1) ? -1 : root.row();\n\n        while (n > 0 && k > 0 && n != k) {"]],
 "subsetting when one side is already at its terminal at the root while the other still has levels",
 "the levels above are not followed along their 0-branches, so the empty set is kept although the other side does not have it", demo(r"""
 for(int n=1;n<=5;++n) for(unsigned s=0;s<400;++s){ Rnd<2> r(n,s,3,3,2,4); F f=brute(r); DdStructure<2> e(0); DdStructure<2> base(Rnd<2>(0,0)); 
   struct One: DdSpec<One,int,2>{ int getRoot(int&s)const{s=0;return -1;} int getChild(int&,int,int)const{return 0;} };
   DdStructure<2> d{One()}; d.zddSubset(r); if(fam(d).size()!=f.count(A())) ++bad; DdStructure<2> g(r); g.zddSubset(One()); if(fam(g).size()!=f.count(A())) ++bad; }""".replace("DdStructure<2> e(0); DdStructure<2> base(Rnd<2>(0,0));","")), flags="-O1")

seed("p11-two-owners", "P11", [[I+"dd/NodeTable.hpp", "        if (pointer->refCount == 1) pointer->entity[i].clear();", "        if (pointer->refCount <= 2) pointer->entity[i].clear();"]],
 "subsetting a diagram of which exactly one copy exists, and using the copy afterwards",
 "the copy loses its nodes", demo(r"""
 for(int n=2;n<=5;++n) for(unsigned s=0;s<50;++s){ Rnd<2> r(n,s), q(n,s+77); F f=brute(r); DdStructure<2> d(r); DdStructure<2> keep(d); d.zddSubset(q); for(int i=1;i<=n;++i) if((*keep.getDiagram())[i].size()==0 && keep.size()==0 && f.size()>1) {++bad; break;} if(!bad && fam(keep)!=f) ++bad; if(bad) break; }"""), flags="-O1")

seed("p03-mark-one", "P03", [[I+"dd/DdReducer.hpp", "newId[k] = NodeId(i, mm++, g0.hasEmpty());", "newId[k] = NodeId(i, mm++, g0.hasEmpty() || g1 == 1);"]],
 "asking a reduced binary diagram for the descendant along 0-edges of a node whose 1-branch is the 1-terminal",
 "the mark that says whether the empty set is contained is wrong, so the shortcut ends at the 1-terminal although the 0-edges end at 0", demo(r"""
 for(int n=1;n<=5;++n) for(unsigned s=0;s<300;++s){ Rnd<2> r(n,s,3,4,2,3); DdStructure<2> d(r); d.zddReduce(); NodeId f=d.root(); NodeId g=f; while(g.row()>0) g=d.child(g,0); if(!(d.getDiagram()->getZeroDescendant(f,0)==g)) ++bad; }"""), flags="-O1")

seed("p06-const-root", "P06", [[I+"op/Unreduction.hpp", "        if (level(p) == 0) return 0;\n        if (level(p) >= numVars)", "        if (level(p) <= 0) return level(p);\n        if (level(p) >= numVars)"]],
 "converting (or expanding) the constant-true diagram over at least one variable",
 "a constant is not expanded over the stated variables: the tautology becomes the family that holds only the empty set", r"""
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/DdSpecOp.hpp>
#include <cstdio>
using namespace tdzdd;
struct K: DdSpec<K,int,2>{ int v; K(int v):v(v){} int getRoot(int&s)const{s=0;return v;} int getChild(int&,int,int)const{return 0;} };
int main(){ int bad=0; for(int n=1;n<=6;++n){ DdStructure<2> t{K(-1)}; if(t.bdd2zdd(n).zddCardinality()!=std::to_string(1<<n)) ++bad; if(t.zdd2bdd(n).bddCardinality(n)!="1") ++bad; DdStructure<2> f{K(0)}; if(f.bdd2zdd(n).zddCardinality()!="0") ++bad; } printf("bad %d\n",bad); return bad?1:0; }
""", flags="-O1")

seed("p20-range-mod", "P20", [[I+"util/IntSubset.hpp", "return (x - min) % step == 0;", "return x % step == min % step;"]],
 "a range with a negative start and a step greater than one",
 "non-negative members of the range are not recognised", r"""
#include <tdzdd/util/IntSubset.hpp>
#include <tdzdd/spec/SizeConstraint.hpp>
#include <tdzdd/DdStructure.hpp>
#include <cstdio>
using namespace tdzdd;
int main(){ int bad=0; for(int lo=-4;lo<=4;++lo) for(int hi=lo;hi<=6;++hi) for(int st=1;st<=4;++st){ IntRange r(lo,hi,st); for(int x=-6;x<=8;++x){ bool in=false; for(int v=lo;v<=hi;v+=st) in|=v==x; if(r.contains(x)!=in) ++bad; } } printf("bad %d\n",bad); return bad?1:0; }
""", flags="-O1")

seed("p32-abort-nesting", "P32", [[I+"util/MessageHandler.hpp", "    virtual ~MessageHandler_() {\n        if (!name.empty()) end(\"aborted\");", "    virtual ~MessageHandler_() {\n        if (!name.empty() && column != 0) end(\"aborted\");"]],
 "an exception leaving an operation right after a nested report has finished its line, with messages on",
 "the report is never closed and all later messages are indented", r"""
#include <tdzdd/util/MessageHandler.hpp>
#include <sstream>
#include <cstdio>
using namespace tdzdd;
int main(){ std::ostringstream o; std::streambuf* b=std::cerr.rdbuf(o.rdbuf()); MessageHandler::showMessages();
 { MessageHandler a; a.begin("outer"); { MessageHandler c; c.begin("inner"); c.end(); } }   // left without end()
 { MessageHandler a; a.begin("next"); a.end(); } std::cerr.rdbuf(b); std::string s=o.str(); size_t p=s.find("Next"); bool ok=p!=std::string::npos && p>0 && s[p-1]=='\n' && s.find("Aborted")!=std::string::npos; printf("%s%s\n",s.c_str(),ok?"ok":"bad"); return ok?0:1; }
""", flags="-O1")

seed("p07-shift-63", "P07", [[I+"util/BigNumber.hpp", "        if (k >= 63) {", "        if (k > 63) {"]],
 "a BDD count in which exactly 63 levels (or numVars minus the root level = 63) are skipped",
 "the count misses a factor of 2^63", demo(r"""
 struct Lit: DdSpec<Lit,int,2>{ int n,k; Lit(int n,int k):n(n),k(k){} int getRoot(int&s)const{s=0;return n;} int getChild(int&s,int l,int v)const{ if(l==n) return v?(k>0?k:-1):0; return v?-1:0;} };
 for(int n=2;n<130;++n) for(int k=0;k<n;++k){ DdStructure<2> d(Lit(n,k)); unsigned __int128 x=1; int e=n-1-(k>0); if(e>120) continue; for(int i=0;i<e;++i) x*=2; std::string w; while(x){ w=char('0'+int(x%10))+w; x/=10; } if(d.bddCardinality(n)!=w) ++bad; }"""), flags="-O1")

seed("p09-eq-column", "P09", [[I+"DdStructure.hpp", "equiv[i][j] = NodeId(i, (p != 0) ? *p : m);", "equiv[i][j] = NodeId(i, (p != 0) ? *p : 0);"]],
 "comparing two diagrams with the same root level where a node of the larger one has no counterpart and the smaller one's first node of that level lies on the way to the root",
 "diagrams with different families compare equal", demo(r"""
 for(int n=1;n<=4;++n){ std::vector<DdStructure<2>> v; std::vector<F> f; for(unsigned s=0;s<70;++s){ Rnd<2> r(n,s,2,4,3,4); v.emplace_back(r); v.back().zddReduce(); f.push_back(fam(v.back())); }
  for(size_t i=0;i<v.size();++i) for(size_t j=0;j<v.size();++j) if((v[i]==v[j])!=(f[i]==f[j])) ++bad; }"""), flags="-O1")

seed("p13-one-leak", "P13", [[B, "                            spec.destruct(one);\n                            spec.get_copy(one, state(pp));", "                            spec.get_copy(one, state(pp));"]],
 "a merging specification that prefers a later 1-terminal state over an earlier one",
 "the superseded 1-terminal state is never destroyed", r"""
#include <tdzdd/DdStructure.hpp>
#include <vector>
#include <cstdio>
using namespace tdzdd;
static int live=0; struct St { int v; std::vector<int> mem; St():v(0),mem(1){++live;} St(St const&o):v(o.v),mem(o.mem){++live;} ~St(){--live;} bool operator==(St const&o)const{return true;} size_t hash()const{return 0;} };
struct Sp: DdSpec<Sp,St,2>{ int n; Sp(int n):n(n){} int getRoot(St&s)const{s.v=0;return n;} int getChild(St&s,int l,int b)const{ s.v+=b; return l>1?l-1:-1; }
 int mergeStates(St&a,St&b)const{ return a.v<b.v?1:a.v>b.v?2:0; } size_t hashCode(St const&)const{return 0;} bool equalTo(St const&a,St const&b)const{return a.v==b.v;} };
int main(){ for(int n=1;n<5;++n){ DdStructure<2> d{Sp(n)}; } printf("live %d\n",live); return live?1:0; }
""")

seed("p14-root-one", "P14", [[I+"dd/DepthFirstSearcher.hpp", "ok = (n != 0);", "ok = (n > 0);"]],
 "asking for an instance of a specification whose root is already the 1-terminal",
 "the search reports that there is no instance although the empty set is one", demo(r"""
 struct One: DdSpec<One,int,2>{ int r; One(int r):r(r){} int getRoot(int&s)const{s=0;return r;} int getChild(int&,int,int)const{return 0;} };
 try { if(!One(-1).findOneInstance().empty()) ++bad; } catch(std::exception&) { ++bad; } bool t=false; try { One(0).findOneInstance(); } catch(std::exception&) { t=true; } if(!t) ++bad;"""), flags="-O1")

seed("p15-dump-uniq", "P15", [[B, "        uniqTable[i - 1].clear();\n        spec.destructLevel(i);", "        uniqTable[i - 1].clear();\n        if (i >= 2) uniqTable[i - 2].clear();\n        spec.destructLevel(i);"]],
 "dumping a specification in which a state two levels down is reached both from above and from the level in between",
 "the dump shows one state as two nodes", demo(r"""
 for(int n=2;n<=6;++n) for(unsigned s=0;s<200;++s){ Rnd<2> r(n,s,2,2,6,6); DdStructure<2> d(r); std::ostringstream o; r.dumpDot(o); size_t c=0,p=0; std::string t=o.str(); std::istringstream is(t); std::string line;
   while(std::getline(is,line)) if(line.find("  \"")==0&&line.find("-> ")==std::string::npos&&line.find("[label=")!=std::string::npos) ++c; 
   std::set<std::pair<int,int>> seen; std::vector<std::pair<int,int>> st{{n,0}}; while(!st.empty()){ auto q=st.back(); st.pop_back(); if(!seen.insert(q).second) continue; for(int v=0;v<2;++v){ int u=q.second; int k=r.getChild(u,q.first,v); if(k>0) st.push_back({k,u}); } }
   if(c!=seen.size()) ++bad; }"""), flags="-O1")

seed("p17-pool-edge", "P17", [[I+"util/MemoryPool.hpp", "size_t m = elementUnits + 1;", "size_t m = std::max(elementUnits, BLOCK_UNITS / 5);"]],
 "an element larger than a fifth of a pool block",
 "the end of a large element lies outside its block", r"""
#include <tdzdd/util/MemoryPool.hpp>
#include <cstring>
#include <cstdio>
using namespace tdzdd;
int main(){ for(size_t u=1000;u<30000;u+=500){ MemoryPool p; for(int i=0;i<5;++i) memset(p.alloc(8*u),i,8*u); } puts("ok"); }
""", flags=ASAN)

seed("p18-eq-word", "P18", [[I+"util/BigNumber.hpp", "array[0] == n && ((n & MSB) == 0 || array[1] == 1);", "array[0] == n && ((n & MSB) == 0 || array[1] != 0);"]],
 "comparing a multi-word number with a 64-bit number that has its highest bit set and the same low word",
 "different numbers compare equal", r"""
#include <tdzdd/util/BigNumber.hpp>
#include <cstdio>
using namespace tdzdd;
int main(){ int bad=0; uint64_t M=uint64_t(1)<<63; for(uint64_t lo=0;lo<5;++lo) for(uint64_t hi=1;hi<5;++hi){ uint64_t a[4]={M|lo,hi,0,0}; BigNumber b(a); if((b==(M|lo))!=(hi==1)) ++bad; } printf("bad %d\n",bad); return bad?1:0; }
""")

seed("p23-final2", "P23", [[I+"util/Graph.hpp", "                secondLastEdge[e.v1] = lastEdge[e.v1];\n                secondLastEdge[e.v2] = lastEdge[e.v2];\n                lastEdge[e.v1] = a;\n                lastEdge[e.v2] = a;", "                if (lastEdge[e.v1] >= 0) secondLastEdge[e.v1] = lastEdge[e.v1];\n                if (lastEdge[e.v2] > 0) secondLastEdge[e.v2] = lastEdge[e.v2];\n                lastEdge[e.v1] = a;\n                lastEdge[e.v2] = a;"]],
 "a vertex of degree two whose first edge is the first edge of the graph and which is the later endpoint of it",
 "the second-to-last edge flag of that vertex is missing", r"""
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/util/Graph.hpp>
#include <cstdio>
#include <vector>
using namespace tdzdd;
int main(){ int bad=0; int n=4; std::vector<std::pair<int,int>> all; for(int i=1;i<=n;++i) for(int j=i+1;j<=n;++j) all.push_back({i,j});
 for(int m=1;m<(1<<all.size());++m) for(int rev=0;rev<2;++rev){ Graph g; for(size_t k=0;k<all.size();++k) if(m>>k&1){ auto e=all[rev?all.size()-1-k:k]; g.addEdge(std::to_string(e.first),std::to_string(e.second)); } g.update();
  for(int v=1;v<=g.vertexSize();++v){ std::vector<int> in; for(int a=0;a<g.edgeSize();++a) if(g.edgeInfo(a).v1==v||g.edgeInfo(a).v2==v) in.push_back(a);
   for(int a: in){ auto& e=g.edgeInfo(a); bool f2=e.v1==v?e.v1final2:e.v2final2; bool w=in.size()>=2&&a==in[in.size()-2]; if(f2!=w) ++bad; } } }
 printf("bad %d\n",bad); return bad?1:0; }
""")

seed("p24-fast-zero", "P24", [[I+"dd/PathCounter.hpp", "                UniqTable uniq(vnodes.size(), hasher, hasher);", "                UniqTable uniq(vnodes.size(), hasher, hasher);\n                numberWords = 1;"]],
 "fast path counting whose numbers pass a word boundary and are then copied on a level where no two paths meet",
 "numbers overrun the storage of their list node", demo(r"""
 struct Pow: DdSpec<Pow,int,2>{ int n,m; Pow(int n,int m):n(n),m(m){} int getRoot(int&s)const{s=0;return n;} int getChild(int&s,int l,int v)const{ if(l>m) { s=0; return l-1; } if(v) return 0; return l>1?l-1:-1; } };
 #include <tdzdd/dd/PathCounter.hpp>
 """.replace(" #include <tdzdd/dd/PathCounter.hpp>\n","") + r"""
 for(int n=60;n<210;n+=1){ int m=n/5; Pow p(n,m); Pow q(n,m); if(countPaths(p,true)!=countPaths(q,false)) ++bad; }""").replace("using namespace tdzdd;","#include <tdzdd/dd/PathCounter.hpp>\nusing namespace tdzdd;",1), flags=ASAN)


seed("p19-equals-tail", "P19", [[I+"util/MySet.hpp", "        return p == pz && q == qz;", "        return p == pz || q == qz;"]],
 "comparing a small set with a container that starts with the same elements but is longer or shorter",
 "a set compares equal to a proper prefix or extension of itself", r"""
#include <tdzdd/util/MySet.hpp>
#include <vector>
#include <cstdio>
using namespace tdzdd;
int main(){ int bad=0; for(int a=0;a<32;++a) for(int b=0;b<32;++b){ MySmallSet<int,9> s; std::vector<int> v; for(int i=0;i<5;++i){ if(a>>i&1) s.add(i); if(b>>i&1) v.push_back(i); } if(s.equals(v)!=(a==b)) ++bad; } printf("bad %d\n",bad); return bad?1:0; }
""")

seed("p26-first-column", "P26", [["apps/ddqueens/NQueenZdd.hpp", "if (takeTop && level == topLevel) return 0;", "if (takeTop && level == n * n) return 0;"]],
 "the specification with a fixed first queen in a column other than the first",
 "placements without the required first queen are accepted", r"""
#include <tdzdd/DdStructure.hpp>
#include <stdint.h>
#include <cstdio>
#include <ddqueens/NQueenZdd.hpp>
using namespace tdzdd;
static int cnt(int n,int r,unsigned c,unsigned d,unsigned e,int first){ if(r==n) return 1; int k=0; for(int j=0;j<n;++j){ if(r==0&&j!=first) continue; if((c>>j&1)||(d>>(r+j)&1)||(e>>(r-j+n)&1)) continue; k+=cnt(n,r+1,c|1u<<j,d|1u<<(r+j),e|1u<<(r-j+n),first); } return k; }
int main(){ int bad=0; for(int n=2;n<=6;++n) for(int f=0;f<n;++f){ DdStructure<2> d{NQueenZdd(n,f)}; if(d.zddCardinality()!=std::to_string(cnt(n,0,0,0,0,f))) ++bad; } printf("bad %d\n",bad); return bad?1:0; }
""")

seed("p27-bottom-number", "P27", [["apps/numberlink/NumlinZdd.cpp", "            else if (mk != n) {\n                return 0;", "            else if (mk < n) {\n                return 0;"]],
 "a board with a number in the bottom row (or a path from a number that has to end there)",
 "numbers left unconnected in the bottom row count as solved", r"""
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <iostream>
#include <fstream>
#include <stdexcept>
#include <tdzdd/DdStructure.hpp>
#include <numberlink/Board.cpp>
#include <numberlink/NumlinZdd.cpp>
using namespace tdzdd;
// board of 2 rows and 3 columns with one pair of equal numbers, at all pairs of cells; solutions counted by walking self-avoiding paths that cover everything
static int R=3,C=3; static int paths(int at,int to,unsigned seen){ if(at==to) return __builtin_popcount(seen)==R*C; int n=0,r=at/C,c=at%C; int d[4][2]={{0,1},{1,0},{0,-1},{-1,0}}; for(auto& x:d){ int a=r+x[0],b=c+x[1]; if(a<0||b<0||a>=R||b>=C) continue; int q=a*C+b; if(seen>>q&1) continue; n+=paths(q,to,seen|1u<<q); } return n; }
int main(){ int bad=0; for(int a=0;a<R*C;++a) for(int b=a+1;b<R*C;++b){ Board q; q.rows=R; q.cols=C; q.init(); q.number[a/C][a%C]=1; q.number[b/C][b%C]=1; NumlinZdd z(q,0); DdStructure<2> d(z); d.zddReduce(); if(d.zddCardinality()!=std::to_string(paths(a,b,1u<<a))) ++bad; }
 printf("bad %d\n",bad); return bad?1:0; }
""")

seed("p28-cc-ub", "P28", [["apps/ddpaths/ddpaths.cpp", """            if (opt["lb"] || opt["ub"]) {
//                f.zddSubset(fbs, opt["p"]);""", """            if (opt["lb"]) {
//                f.zddSubset(fbs, opt["p"]);"""]],
 "the option combination -t cc (or forest) with an upper bound but no lower bound",
 "the upper bound is ignored and too many solutions are reported", sh=r"""#!/bin/bash
# exit 0 when the behaviour is right: with a bound of zero edges there is at most the empty selection
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -w -O1 -fopenmp -I"$PWD/include" apps/ddpaths/ddpaths.cpp -o "$T/p" || exit 3
printf '2 3\n3\n4\n\n' > "$T/g"
"$T/p" -t forest -ub 0 -count "$T/g" > "$T/out" 2>&1 || exit 4
"$T/p" -t forest -lb 0 -ub 0 -count "$T/g" > "$T/out2" 2>&1 || exit 4
a=$(grep -oE '#solution = [0-9]+' "$T/out"); b=$(grep -oE '#solution = [0-9]+' "$T/out2"); echo "$a / $b"; [ -n "$a" ] && [ "$a" = "$b" ]
""")

if __name__ == "__main__":
    for k in (sys.argv[1:] or S): p, e, n, b, d, kw = S[k]; make(k, p, e, n, b, d, **kw)
