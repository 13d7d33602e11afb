From e64f3f10643d9c835e5f4c12ea0313bef9c9cfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:17 +0000
Subject: [PATCH 01/56] fix: serial QDD reduction kept all-zero nodes that the
 other reducers delete

---
 include/tdzdd/dd/DdReducer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/dd/DdReducer.hpp b/include/tdzdd/dd/DdReducer.hpp
index 108d694..34a99fa 100644
--- a/include/tdzdd/dd/DdReducer.hpp
+++ b/include/tdzdd/dd/DdReducer.hpp
@@ -239,7 +239,7 @@ private:
             if (f0.row() != 0) f0 = newIdTable[f0.row()][f0.col()];
             if (f1.row() != 0) f1 = newIdTable[f1.row()][f1.col()];
 
-            if ((BDD && f1 == f0) || (ZDD && f1 == 0)) {
+            if ((BDD && f1 == f0) || (f1 == 0 && (ZDD || f0 == 0))) {
                 newId[j] = f0;
             }
             else {
@@ -315,7 +315,8 @@ private:
                 assert(newId[j] == 0);
                 newId[j] = newId[f0.col()];
             }
-            else if ((BDD && f1 == f0) || (ZDD && f1 == 0)) { // forwarded
+            else if ((BDD && f1 == f0)
+                    || (f1 == 0 && (ZDD || f0 == 0))) { // forwarded
                 assert(newId[j].row() < i);
             }
             else {
-- 
2.43.0


From 8fd408d99174363d61f7ab20f5dfbdf0e7cf0e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:19 +0000
Subject: [PATCH 02/56] fix: BDD cardinality with more variables than the top
 level overflowed its work area

---
 include/tdzdd/eval/Cardinality.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/eval/Cardinality.hpp b/include/tdzdd/eval/Cardinality.hpp
index a44e675..04bbea7 100644
--- a/include/tdzdd/eval/Cardinality.hpp
+++ b/include/tdzdd/eval/Cardinality.hpp
@@ -107,7 +107,8 @@ public:
         topLevel = level;
         pools.resize(topLevel + 1);
 
-        int max = ceil(double(topLevel) * log2(double(ARITY)) / 63.0) + 1;
+        int n = (numVars > topLevel) ? numVars : topLevel;
+        int max = ceil(double(n) * log2(double(ARITY)) / 63.0) + 1;
         tmp1.setArray(pools[topLevel].template allocate<uint64_t>(max));
         tmp2.setArray(pools[topLevel].template allocate<uint64_t>(max));
         tmp3.setArray(pools[topLevel].template allocate<uint64_t>(max));
-- 
2.43.0


From 69ddbb6cc0c5c13cc6bfcf922b7f9ca72228430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:44 +0000
Subject: [PATCH 03/56] fix: comparison of diagrams with duplicate nodes
 depended on which duplicate was referenced

---
 include/tdzdd/DdStructure.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/DdStructure.hpp b/include/tdzdd/DdStructure.hpp
index 950aef8..0656b5d 100644
--- a/include/tdzdd/DdStructure.hpp
+++ b/include/tdzdd/DdStructure.hpp
@@ -313,8 +313,15 @@ public:
         if (size() > o.size()) return o.operator==(*this);
 
         MyHashMap<InitializedNode<ARITY>,size_t> uniq;
+        DataTable<NodeId> self(n + 1);
         DataTable<NodeId> equiv(n + 1);
         {
+            size_t m = (*diagram)[0].size();
+            self[0].resize(m);
+            for (size_t j = 0; j < m; ++j) {
+                self[0][j] = j;
+            }
+
             size_t om = (*o.diagram)[0].size();
             equiv[0].resize(om);
             for (size_t j = 0; j < om; ++j) {
@@ -324,10 +331,20 @@ public:
 
         for (int i = 1; i <= n; ++i) {
             size_t m = (*diagram)[i].size();
+            self[i].resize(m);
             uniq.initialize(m * 2);
 
             for (size_t j = 0; j < m; ++j) {
-                uniq[(*diagram)[i][j]] = j;
+                InitializedNode<ARITY> node;
+
+                for (int b = 0; b < ARITY; ++b) {
+                    NodeId f = (*diagram)[i][j].branch[b];
+                    node.branch[b] = self[f.row()][f.col()];
+                }
+
+                size_t* p = uniq.getValue(node);
+                if (p == 0) uniq[node] = j;
+                self[i][j] = NodeId(i, (p != 0) ? *p : j);
             }
 
             size_t om = (*o.diagram)[i].size();
@@ -346,7 +363,8 @@ public:
             }
         }
 
-        return root_ == equiv[o.root_.row()][o.root_.col()];
+        return self[root_.row()][root_.col()]
+                == equiv[o.root_.row()][o.root_.col()];
     }
 
     /**
-- 
2.43.0


From d4febf1657dd9c02451e7640daac0e6ddb5d010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:01 +0000
Subject: [PATCH 04/56] fix: printing DdValues did not compile

---
 include/tdzdd/DdEval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/DdEval.hpp b/include/tdzdd/DdEval.hpp
index 23af1ac..d021e6b 100644
--- a/include/tdzdd/DdEval.hpp
+++ b/include/tdzdd/DdEval.hpp
@@ -75,7 +75,7 @@ public:
         os << "(";
         for (int b = 0; b < ARITY; ++b) {
             if (b != 0) os << ",";
-            os << o.value(b) << "@" << o.level(b);
+            os << *o.value[b] << "@" << o.level[b];
         }
         return os << ")";
     }
-- 
2.43.0


From 08143841c910c0557333af31007d85630b5a97c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:47 +0000
Subject: [PATCH 05/56] fix: self-assignment of a diagram used freed memory

---
 include/tdzdd/dd/NodeTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/dd/NodeTable.hpp b/include/tdzdd/dd/NodeTable.hpp
index 0cf4536..7f5e9ea 100644
--- a/include/tdzdd/dd/NodeTable.hpp
+++ b/include/tdzdd/dd/NodeTable.hpp
@@ -436,9 +436,9 @@ public:
     }
 
     NodeTableHandler& operator=(NodeTableHandler const& o) {
+        o.pointer->ref();
         pointer->deref();
         pointer = o.pointer;
-        pointer->ref();
         return *this;
     }
 
-- 
2.43.0


From b9a29185f5da90faa43ca3ab8da1cc0c17331ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:17 +0000
Subject: [PATCH 06/56] fix: parallel builder left garbage branches when a
 merged state was rejected

---
 include/tdzdd/dd/DdBuilder.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/dd/DdBuilder.hpp b/include/tdzdd/dd/DdBuilder.hpp
index a8b8c07..bf88a09 100644
--- a/include/tdzdd/dd/DdBuilder.hpp
+++ b/include/tdzdd/dd/DdBuilder.hpp
@@ -108,6 +108,7 @@ protected:
 class DdBuilderMPBase {
 protected:
     static int const headerSize = 2;
+    static int64_t const REJECTED = int64_t(1) << 62; // flag in code(p) >= 1
 
     /* SpecNode
      * ┌────────┬────────┬────────┬────────┬─────
@@ -549,7 +550,7 @@ public:
                         else {
                             switch (spec.merge_states(state(p0), state(p))) {
                             case 1:
-                                code(p0) = 0;
+                                code(p0) += REJECTED; // forward to 0-terminal
                                 code(p) = ++j; // code(p) >= 1
                                 p0 = p;
                                 break;
@@ -615,6 +616,18 @@ public:
                             continue;
                         }
 
+                        if (code(p) >= REJECTED) {
+                            // states may have been merged into this node
+                            Node<AR> &q = output[i][j0 + (code(p) - REJECTED)];
+                            for (int b = 0; b < AR; ++b) {
+                                q.branch[b] = 0;
+                            }
+                            *srcPtr(p) = 0;
+                            spec.destruct(state(p));
+                            ++deadCount;
+                            continue;
+                        }
+
                         size_t j = j0 + code(p);
                         *srcPtr(p) = NodeId(i, j);
 
-- 
2.43.0


From be627eac42660a5ed5b691050a7ffbaa34dc8820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:49 +0000
Subject: [PATCH 07/56] fix: parallel subsetter lost the surviving state when a
 merge rejected the first one

---
 include/tdzdd/dd/DdBuilder.hpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/tdzdd/dd/DdBuilder.hpp b/include/tdzdd/dd/DdBuilder.hpp
index bf88a09..6b48edc 100644
--- a/include/tdzdd/dd/DdBuilder.hpp
+++ b/include/tdzdd/dd/DdBuilder.hpp
@@ -1103,17 +1103,24 @@ public:
                     for (MyListOnPool<SpecNode>::iterator t = snodes.begin();
                             t != snodes.end(); ++t) {
                         SpecNode* p = *t;
-                        SpecNode* pp = uniq.add(p);
+                        SpecNode*& pp = uniq.add(p);
 
                         if (pp == p) {
                             code(p) = ++jj; // code(p) >= 1
                         }
                         else {
-                            code(p) = -code(pp);
-                            if (int prune = spec.merge_states(state(pp),
-                                    state(p))) {
-                                if (prune & 1) code(pp) = 0;
-                                if (prune & 2) code(p) = 0;
+                            switch (spec.merge_states(state(pp), state(p))) {
+                            case 1:
+                                code(pp) += REJECTED; // forward to 0-terminal
+                                code(p) = ++jj; // code(p) >= 1
+                                pp = p;
+                                break;
+                            case 2:
+                                code(p) = 0;
+                                break;
+                            default:
+                                code(p) = -code(pp);
+                                break;
                             }
                         }
                     }
@@ -1157,6 +1164,18 @@ public:
                             continue;
                         }
 
+                        if (code(p) >= REJECTED) {
+                            // states may have been merged into this node
+                            Node<AR> &q = output[i][jj0 + (code(p) - REJECTED)];
+                            for (int b = 0; b < AR; ++b) {
+                                q.branch[b] = 0;
+                            }
+                            *srcPtr(p) = 0;
+                            spec.destruct(state(p));
+                            ++deadCount;
+                            continue;
+                        }
+
                         size_t const jj = jj0 + code(p);
                         *srcPtr(p) = NodeId(i, jj);
                         Node<AR> &q = output[i][jj];
-- 
2.43.0


From 97b4f9ead4dcd2bc9c273ad57b90309bedee1a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:51 +0000
Subject: [PATCH 08/56] fix: path counting of a constant specification did not
 destroy the root state

---
 include/tdzdd/dd/PathCounter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tdzdd/dd/PathCounter.hpp b/include/tdzdd/dd/PathCounter.hpp
index 2962336..c2f09bd 100644
--- a/include/tdzdd/dd/PathCounter.hpp
+++ b/include/tdzdd/dd/PathCounter.hpp
@@ -107,6 +107,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? "0" : "1";
@@ -226,6 +227,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? "0" : "1";
@@ -331,6 +333,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? 0 : 1;
-- 
2.43.0


From a265dbfe05551d878f75ed9bd8d2e65242cd831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:48 +0000
Subject: [PATCH 09/56] fix: hybrid specifications never destroyed their scalar
 states

---
 include/tdzdd/DdSpec.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/DdSpec.hpp b/include/tdzdd/DdSpec.hpp
index bd21a21..216df11 100644
--- a/include/tdzdd/DdSpec.hpp
+++ b/include/tdzdd/DdSpec.hpp
@@ -614,6 +614,7 @@ public:
     }
 
     void destruct(void* p) {
+        s_state(p).~S_State();
     }
 
     void destructLevel(int level) {
-- 
2.43.0


From bde2abc13e19eafdb2a1fc7d279bc95646d21cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:46 +0000
Subject: [PATCH 10/56] fix: combined specifications destroyed a second root
 state they had not created

---
 include/tdzdd/op/BinaryOperation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/op/BinaryOperation.hpp b/include/tdzdd/op/BinaryOperation.hpp
index 9650a41..80bb841 100644
--- a/include/tdzdd/op/BinaryOperation.hpp
+++ b/include/tdzdd/op/BinaryOperation.hpp
@@ -171,8 +171,8 @@ struct BddAnd_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 == 0) return 0;
         int i2 = base::spec2.get_root(base::state2(p));
+        if (i1 == 0) return 0;
         if (i2 == 0) return 0;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
@@ -241,8 +241,8 @@ struct BddOr_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 < 0) return -1;
         int i2 = base::spec2.get_root(base::state2(p));
+        if (i1 < 0) return -1;
         if (i2 < 0) return -1;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
@@ -345,8 +345,8 @@ public:
 
     int getRoot(Word* p) {
         int i1 = spec1.get_root(state1(p));
-        if (i1 == 0) return 0;
         int i2 = spec2.get_root(state2(p));
+        if (i1 == 0) return 0;
         if (i2 == 0) return 0;
 
         while (i1 != i2) {
-- 
2.43.0


From 56b85b9deb38a281997585a1ea4db438daaa27e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:13 +0000
Subject: [PATCH 11/56] fix: lookahead wrappers did not forward the level
 labels of the wrapped specification

---
 include/tdzdd/op/Lookahead.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tdzdd/op/Lookahead.hpp b/include/tdzdd/op/Lookahead.hpp
index 977960e..14ba972 100644
--- a/include/tdzdd/op/Lookahead.hpp
+++ b/include/tdzdd/op/Lookahead.hpp
@@ -113,8 +113,8 @@ public:
         spec.print_state(os, p, level);
     }
 
-    void print_level(std::ostream& os, int level) const {
-        spec.print_level(os, level);
+    void printLevel(std::ostream& os, int level) const {
+        spec.printLevel(os, level);
     }
 };
 
@@ -187,8 +187,8 @@ public:
         spec.print_state(os, p, level);
     }
 
-    void print_level(std::ostream& os, int level) const {
-        spec.print_level(os, level);
+    void printLevel(std::ostream& os, int level) const {
+        spec.printLevel(os, level);
     }
 };
 
-- 
2.43.0


From a6c41890bd5ea0c85651ab7d892796d5c9e7bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:49 +0000
Subject: [PATCH 12/56] fix: table dump of a terminal-only diagram read past an
 empty row

---
 include/tdzdd/DdStructure.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/DdStructure.hpp b/include/tdzdd/DdStructure.hpp
index 0656b5d..35abd1b 100644
--- a/include/tdzdd/DdStructure.hpp
+++ b/include/tdzdd/DdStructure.hpp
@@ -762,7 +762,15 @@ public:
             }
         }
 
-        os << nodeId[root_.row()][root_.col()] << "\n";
+        if (root_ == 0) {
+            os << "F\n";
+        }
+        else if (root_ == 1) {
+            os << "T\n";
+        }
+        else {
+            os << nodeId[root_.row()][root_.col()] << "\n";
+        }
         assert(k == l * 2);
     }
 };
-- 
2.43.0


From 1a7f51e59f52878239df251b651dfe7cf939bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:24 +0000
Subject: [PATCH 13/56] fix: self-assignment of a hash table emptied it

---
 include/tdzdd/util/MyHashTable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/MyHashTable.hpp b/include/tdzdd/util/MyHashTable.hpp
index 1a1e8e9..84a54a0 100644
--- a/include/tdzdd/util/MyHashTable.hpp
+++ b/include/tdzdd/util/MyHashTable.hpp
@@ -195,6 +195,7 @@ public:
     }
 
     MyHashTable& operator=(MyHashTable const& o) {
+        if (this == &o) return *this;
         initialize(o.tableSize_);
         for (const_iterator t = o.begin(); t != o.end(); ++t) {
             add(*t);
-- 
2.43.0


From 42c98448ed2497c193499a09c80528fbc181fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:08 +0000
Subject: [PATCH 14/56] fix: vector built from an empty std::vector failed when
 cleared

---
 include/tdzdd/util/MyVector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index d62d228..66ed0e9 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -108,7 +108,8 @@ public:
 
     template<typename U>
     MyVector(std::vector<U> const& o)
-            : capacity_(o.size()), size_(o.size()), array_(allocate(capacity_)) {
+            : capacity_(o.size()), size_(o.size()),
+              array_(capacity_ ? allocate(capacity_) : 0) {
         for (Size i = 0; i < size_; ++i) {
             new (array_ + i) T(o[i]);
         }
-- 
2.43.0


From b3df96b71ce20675f10c8de3e62abbc274c9022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:08 +0000
Subject: [PATCH 15/56] fix: self-assignment of a vector emptied it

---
 include/tdzdd/util/MyVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index 66ed0e9..e0df8b1 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -97,6 +97,7 @@ public:
     }
 
     MyVector& operator=(MyVector const& o) {
+        if (this == &o) return *this;
         resize(0);
         reserve(o.size_);
         size_ = o.size_;
-- 
2.43.0


From aff4400bd354531545b721a7c8fc9e3f5a3719a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:08 +0000
Subject: [PATCH 16/56] fix: erasing from a vector corrupted the remaining
 elements

---
 include/tdzdd/util/MyVector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index e0df8b1..90ff2ec 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -276,8 +276,9 @@ public:
         assert(array_ <= first && first <= last && last <= array_ + size_);
         Size newSize = size_ - (last - first);
 
+        Size const offset = last - first;
         for (Size i = first - array_; i < newSize; ++i) {
-            array_[i] = last[i];
+            array_[i] = array_[i + offset];
         }
 
         while (newSize < size_) {
@@ -488,8 +489,7 @@ public:
      */
     iterator erase(iterator pos) {
         assert(begin() <= pos && pos < end());
-        std::memmove(pos, pos + 1, end() - pos - 1);
-        return pos;
+        return erase(pos, pos + 1);
     }
 
     /**
-- 
2.43.0


From cf969c986074f7046736ad2d7985adbc3f53f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:08 +0000
Subject: [PATCH 17/56] fix: appending a vector's own element could read freed
 memory

---
 include/tdzdd/util/MyVector.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index 90ff2ec..05e2c5e 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -311,8 +311,15 @@ public:
      * @param val value of the new element.
      */
     void push_back(T const& val) {
-        ensureCapacity(size_ + 1);
-        new (array_ + size_) T(val);
+        if (size_ == capacity_ && array_ <= &val && &val < array_ + size_) {
+            T const tmp(val); // val is going to be moved away
+            ensureCapacity(size_ + 1);
+            new (array_ + size_) T(tmp);
+        }
+        else {
+            ensureCapacity(size_ + 1);
+            new (array_ + size_) T(val);
+        }
         ++size_;
     }
 
-- 
2.43.0


From 3ea5a7345d6d00672f896b868ce37ab74229a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:28 +0000
Subject: [PATCH 18/56] fix: constant lists could not be iterated or printed

---
 include/tdzdd/util/MyList.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/MyList.hpp b/include/tdzdd/util/MyList.hpp
index 1723816..68d3978 100644
--- a/include/tdzdd/util/MyList.hpp
+++ b/include/tdzdd/util/MyList.hpp
@@ -66,6 +66,10 @@ class MyList {
         return reinterpret_cast<T*>(p + 1);
     }
 
+    static T const* dataStart(Cell const* p) {
+        return reinterpret_cast<T const*>(p + 1);
+    }
+
 public:
     MyList()
             : front_(0), size_(0) {
@@ -235,7 +239,7 @@ public:
         }
 
         T const* operator*() const {
-            return *dataStart(front);
+            return dataStart(front);
         }
 
         T const* operator->() const {
@@ -247,11 +251,11 @@ public:
             return *this;
         }
 
-        bool operator==(iterator const& o) const {
+        bool operator==(const_iterator const& o) const {
             return front == o.front;
         }
 
-        bool operator!=(iterator const& o) const {
+        bool operator!=(const_iterator const& o) const {
             return front != o.front;
         }
     };
-- 
2.43.0


From 79b6a5254ed2778b6cbb3c520c0de9cf71ab7666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 19/56] fix: reused memory pool could overrun a block sized for
 one large element

---
 include/tdzdd/util/MemoryPool.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/MemoryPool.hpp b/include/tdzdd/util/MemoryPool.hpp
index ccc4947..8b5ac08 100644
--- a/include/tdzdd/util/MemoryPool.hpp
+++ b/include/tdzdd/util/MemoryPool.hpp
@@ -101,10 +101,13 @@ public:
     }
 
     void reuse() {
-        if (blockList == 0) return;
+        if (nextUnit >= BLOCK_UNITS) { // the first block may be a small one
+            clear();
+            return;
+        }
         while (blockList->next != 0) {
-            Unit* block = blockList;
-            blockList = blockList->next;
+            Unit* block = blockList->next;
+            blockList->next = block->next;
             delete[] block;
         }
         nextUnit = 1;
-- 
2.43.0


From d50dd8034cf84229346b36dd342eda90c0dae516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:26 +0000
Subject: [PATCH 20/56] fix: growing a vector of memory pools left
 unconstructed pools behind

---
 include/tdzdd/util/MemoryPool.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tdzdd/util/MemoryPool.hpp b/include/tdzdd/util/MemoryPool.hpp
index 8b5ac08..9b5f382 100644
--- a/include/tdzdd/util/MemoryPool.hpp
+++ b/include/tdzdd/util/MemoryPool.hpp
@@ -81,6 +81,7 @@ public:
         blockList = o.blockList;
         nextUnit = o.nextUnit;
         o.blockList = 0;
+        o.nextUnit = BLOCK_UNITS;
     }
 
     virtual ~MemoryPool() {
@@ -235,7 +236,9 @@ typedef MyVector<MemoryPool> MemoryPools;
 template<>
 inline void MyVector<MemoryPool>::moveElement(MemoryPool& from,
         MemoryPool& to) {
+    new (&to) MemoryPool();
     to.moveFrom(from);
+    from.~MemoryPool();
 }
 
 } // namespace tdzdd
-- 
2.43.0


From 6f38290fe10a25878aa5126f199fd80d94452469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:14 +0000
Subject: [PATCH 21/56] fix: big number division ignored its divisor

---
 include/tdzdd/util/BigNumber.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/tdzdd/util/BigNumber.hpp b/include/tdzdd/util/BigNumber.hpp
index 4e4eba6..6e06c2c 100644
--- a/include/tdzdd/util/BigNumber.hpp
+++ b/include/tdzdd/util/BigNumber.hpp
@@ -177,12 +177,10 @@ public:
             --p;
             uint64_t q = cont ? MSB : 0;
             r = (r << 31) | ((*p & ~MSB) >> 32);
-            lldiv_t d = lldiv(r, 10LL);
-            q += d.quot << 32;
-            r = (d.rem << 32) | (*p & ((uint64_t(1) << 32) - 1));
-            d = lldiv(r, 10LL);
-            q += d.quot;
-            r = d.rem;
+            q += (r / n) << 32;
+            r = ((r % n) << 32) | (*p & ((uint64_t(1) << 32) - 1));
+            q += r / n;
+            r = r % n;
             *p = q;
             if (q != 0) cont = true;
         } while (p != array);
-- 
2.43.0


From 088509209ec743cbf78b8178c80d8298e78f2e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:30 +0000
Subject: [PATCH 22/56] fix: shifting a zero big number by a word or more gave
 a zero that was unequal to zero

---
 include/tdzdd/util/BigNumber.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/BigNumber.hpp b/include/tdzdd/util/BigNumber.hpp
index 6e06c2c..ffa7c33 100644
--- a/include/tdzdd/util/BigNumber.hpp
+++ b/include/tdzdd/util/BigNumber.hpp
@@ -190,6 +190,7 @@ public:
 
     size_t shiftLeft(int k) {
         assert(k >= 0);
+        if (*this == 0) return 1;
         if (k >= 63) {
             int w = k / 63;
             for (uint64_t* q = array + size() - 1; q >= array; --q) {
-- 
2.43.0


From 732a42b44a89454c66c89b77de526b0d20ea3b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:49 +0000
Subject: [PATCH 23/56] fix: fixed big number division by a divisor of 32 bits
 used signed arithmetic

---
 include/tdzdd/util/BigNumber.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/BigNumber.hpp b/include/tdzdd/util/BigNumber.hpp
index ffa7c33..ea4a29d 100644
--- a/include/tdzdd/util/BigNumber.hpp
+++ b/include/tdzdd/util/BigNumber.hpp
@@ -331,9 +331,8 @@ public:
         uint64_t r = 0;
         for (int i = size - 1; i >= 0; --i) {
             r = (r << 32) + val[i];
-            lldiv_t d = lldiv(r, n);
-            val[i] = d.quot;
-            r = d.rem;
+            val[i] = r / n;
+            r = r % n;
         }
         return r;
     }
-- 
2.43.0


From 62103cd8457db4efc66b51c28ece57b9fabc90b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:02 +0000
Subject: [PATCH 24/56] fix: pulling an entry out of a bit set shifted the
 wrong way and past the end

---
 include/tdzdd/util/MySet.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/tdzdd/util/MySet.hpp b/include/tdzdd/util/MySet.hpp
index 59a9800..f8b7939 100644
--- a/include/tdzdd/util/MySet.hpp
+++ b/include/tdzdd/util/MySet.hpp
@@ -119,12 +119,12 @@ public:
     void pullout(size_t i) {
         size_t k = i / 64;
         uint64_t* p = &word(k);
-        uint64_t* q = p + numWords();
-        uint64_t m = mask(i % 64 + 1) - 1;
-        *p = (*p & ~m) | ((*p << 1) & m);
+        uint64_t* q = p + (numWords() - k);
+        uint64_t m = mask(i % 64) - 1;
+        *p = (*p & m) | ((*p >> 1) & ~m);
         while (++p < q) {
-            *(p - 1) |= *p >> 63;
-            *p <<= 1;
+            *(p - 1) |= *p << 63;
+            *p >>= 1;
         }
     }
 
-- 
2.43.0


From 2bf2d922ca7e94d48f562e93a95fa7f85832ce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:19 +0000
Subject: [PATCH 25/56] fix: adding a present element to a full small set wrote
 past its end

---
 include/tdzdd/util/MySet.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/tdzdd/util/MySet.hpp b/include/tdzdd/util/MySet.hpp
index f8b7939..fa46641 100644
--- a/include/tdzdd/util/MySet.hpp
+++ b/include/tdzdd/util/MySet.hpp
@@ -336,16 +336,10 @@ public:
 //        ++size_;
 //    }
     void add(T const& e) {
+        if (includes(e)) return;
         if (N > 0 && size_ >= N - 1) throw std::out_of_range("MySmallSet::add");
-        T* pz = array_ + size_;
-        T* p = pz - 1;
+        T* p = array_ + size_ - 1;
         while (array_ <= p && e <= *p) {
-            if (e == *p) {
-                while (++p < pz) {
-                    *p = *(p + 1);
-                }
-                return;
-            }
             *(p + 1) = *p;
             --p;
         }
-- 
2.43.0


From e4eab22b422decd882364cbf779beb521ab1a1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:55 +0000
Subject: [PATCH 26/56] fix: degree constraint rejected the empty selection of
 an edge-less graph

---
 include/tdzdd/spec/DegreeConstraint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/spec/DegreeConstraint.hpp b/include/tdzdd/spec/DegreeConstraint.hpp
index 765c970..57ba66f 100644
--- a/include/tdzdd/spec/DegreeConstraint.hpp
+++ b/include/tdzdd/spec/DegreeConstraint.hpp
@@ -93,7 +93,7 @@ public:
         for (int k = 0; k < mateSize; ++k) {
             mate[k] = 0;
         }
-        return n;
+        return (n > 0) ? n : -1;
     }
 
     int getChild(Mate* mate, int level, int take) const {
-- 
2.43.0


From d680adbf06c56990e4ed62cc6c9730939e5b9d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:59 +0000
Subject: [PATCH 27/56] fix: path and cycle specifications read the first edge
 of an edge-less graph

---
 include/tdzdd/spec/PathZdd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/spec/PathZdd.hpp b/include/tdzdd/spec/PathZdd.hpp
index 6eac119..36d66b3 100644
--- a/include/tdzdd/spec/PathZdd.hpp
+++ b/include/tdzdd/spec/PathZdd.hpp
@@ -150,6 +150,7 @@ public:
     }
 
     int getRoot(Mate* mate) const {
+        if (n == 0) return 0;
         int const v0 = graph.edgeInfo(0).v0;
 
         for (int k = 0; k < mateArraySize_; ++k) {
-- 
2.43.0


From 3b7e1818ee7db0e42307241450be963eb38b4669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:59 +0000
Subject: [PATCH 28/56] fix: Hamiltonian paths and cycles could leave vertices
 outside the frontier window uncovered

---
 include/tdzdd/spec/PathZdd.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/spec/PathZdd.hpp b/include/tdzdd/spec/PathZdd.hpp
index 36d66b3..e0a59a2 100644
--- a/include/tdzdd/spec/PathZdd.hpp
+++ b/include/tdzdd/spec/PathZdd.hpp
@@ -81,7 +81,7 @@ private:
                 if (w1 != w2) return NO;
                 if (!e.allColorsSeen) return YES;
 
-                bool clean = true;
+                bool clean = !hamilton || e.v0 + mateArraySize_ > m;
                 for (int k = 0; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
@@ -95,6 +95,7 @@ private:
         case Cycle:
             if (w1 == e.v2) {
                 assert(w2 == e.v1);
+                if (hamilton && e.v0 + mateArraySize_ <= m) return NO;
 
                 for (int k = 1; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
-- 
2.43.0


From 06fd9eaa853e0fc1f7cfb840ee1da4085651ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:21 +0000
Subject: [PATCH 29/56] fix: map-based path specification was wrong for more
 than one terminal pair

---
 include/tdzdd/spec/PathZddByStdMap.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/tdzdd/spec/PathZddByStdMap.hpp b/include/tdzdd/spec/PathZddByStdMap.hpp
index ab18bf1..865f5f1 100644
--- a/include/tdzdd/spec/PathZddByStdMap.hpp
+++ b/include/tdzdd/spec/PathZddByStdMap.hpp
@@ -45,8 +45,8 @@ public:
 
     int getRoot(State& mate) const {
         for (Graph::VertexNumber v = 1; v <= graph.vertexSize(); ++v) {
-            Graph::VertexNumber w = graph.virtualMate(v);
-            if (w >= 1) mate[v] = w;
+            Graph::ColorNumber c = graph.colorNumber(v);
+            if (c >= 1) mate[v] = -c;
         }
         return n;
     }
@@ -67,17 +67,23 @@ public:
             if (e.v1final && u1) return 0;
             if (e.v2final && u2) return 0;
 
-            if (w1 == v2) {
-                assert(w2 == v1);
+            if (w1 == v2 || (w1 < 0 && w2 < 0)) {
+                assert(w1 < 0 || w2 == v1);
+                if (w1 < 0 ? w1 != w2 : graph.numColor() > 0) return 0;
+                bool pending = false;
+                bool clean = true;
                 for (State::const_iterator t = mate.begin(); t != mate.end();
                         ++t) {
-                    if (t->first != v1 && t->first != v2 && t->second > 0) return 0;
+                    if (t->first == v1 || t->first == v2) continue;
+                    if (t->second < 0) pending = true;
+                    if (t->second > 0) clean = false;
                 }
-                return -1;
+                if (!pending) return clean ? -1 : 0;
             }
 
             mate[v1] = mate[v2] = 0;
-            mate[w1] = w2, mate[w2] = w1;
+            if (w1 > 0) mate[w1] = w2;
+            if (w2 > 0) mate[w2] = w1;
         }
 
         if (e.v1final && !u1) {
-- 
2.43.0


From d942127c25ed1fdb5b2b8339cc216f2e65bdeb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:21 +0000
Subject: [PATCH 30/56] fix: Hamiltonian cycles could leave the first frontier
 vertex uncovered

---
 include/tdzdd/spec/PathZdd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/spec/PathZdd.hpp b/include/tdzdd/spec/PathZdd.hpp
index e0a59a2..41df5f9 100644
--- a/include/tdzdd/spec/PathZdd.hpp
+++ b/include/tdzdd/spec/PathZdd.hpp
@@ -97,7 +97,7 @@ private:
                 assert(w2 == e.v1);
                 if (hamilton && e.v0 + mateArraySize_ <= m) return NO;
 
-                for (int k = 1; k < mateArraySize_; ++k) {
+                for (int k = 0; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
                     int w = mate[k];
-- 
2.43.0


From f35709190a7f98c598e00a77b14ed095b7ee4367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:21 +0000
Subject: [PATCH 31/56] fix: frontier-based search read the first edge of an
 edge-less graph

---
 include/tdzdd/spec/FrontierBasedSearch.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/spec/FrontierBasedSearch.hpp b/include/tdzdd/spec/FrontierBasedSearch.hpp
index 4ec9ef7..d7f9ffc 100644
--- a/include/tdzdd/spec/FrontierBasedSearch.hpp
+++ b/include/tdzdd/spec/FrontierBasedSearch.hpp
@@ -433,6 +433,7 @@ public:
     }
 
     int getRoot(Count& count, Mate* mate) const {
+        if (n == 0) return (numUEC > 0) ? 0 : -1;
         int const v0 = graph.edgeInfo(0).v0;
 
         count = Count(numUEC);
-- 
2.43.0


From f39904a5048de03d494a9c22d6e68f1b1e320e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:58 +0000
Subject: [PATCH 32/56] fix: a new graph reported uninitialised sizes

---
 include/tdzdd/util/Graph.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index ce77e6c..fb3e85e 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -98,6 +98,10 @@ private:
     bool hasColorPairs_;
 
 public:
+    Graph() :
+            vMax(0), numColor_(0), hasColorPairs_(false) {
+    }
+
     void addEdge(std::string vertexName1, std::string vertexName2) {
         edgeNames.push_back(std::make_pair(vertexName1, vertexName2));
     }
-- 
2.43.0


From 7c69fa01031bb0ac860d043892ea1fd28e44a2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:58 +0000
Subject: [PATCH 33/56] fix: clearing the colours of a graph left colour flags
 behind

---
 include/tdzdd/util/Graph.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index fb3e85e..00c1750 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -591,6 +591,10 @@ public:
         colorNumber_.clear();
         colorNumber_.resize(vMax + 1);
         numColor_ = 0;
+        hasColorPairs_ = false;
+        for (size_t i = 0; i < edgeInfo_.size(); ++i) {
+            edgeInfo_[i].allColorsSeen = true;
+        }
     }
 
     void setDefaultPathColor() {
-- 
2.43.0


From 6e1195755d6b5e80a594429953e50495567c558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:46 +0000
Subject: [PATCH 34/56] fix: reading edges lost the last line when it had no
 line end

---
 include/tdzdd/util/Graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index 00c1750..40c314c 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -177,6 +177,7 @@ private:
 
         while (is) {
             char c = is.get();
+            if (!is) c = '\n'; // the last line may lack a line end
 
             if (isspace(c)) {
                 if (!v.empty()) {
-- 
2.43.0


From 1ce488ae87976973fbf76f8d39acb4466a83d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:54 +0000
Subject: [PATCH 35/56] fix: path counting overran its numbers for arities
 above two and after long jumps

---
 include/tdzdd/dd/PathCounter.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/tdzdd/dd/PathCounter.hpp b/include/tdzdd/dd/PathCounter.hpp
index c2f09bd..b5f41d0 100644
--- a/include/tdzdd/dd/PathCounter.hpp
+++ b/include/tdzdd/dd/PathCounter.hpp
@@ -76,6 +76,17 @@ class PathCounter {
         return (n + sizeof(Word) - 1) / sizeof(Word);
     }
 
+    /**
+     * Gets the number of words by which numbers can grow in some levels.
+     * @param levels the number of levels.
+     * @return the number of 63-bit words.
+     */
+    static int growthWords(int levels) {
+        int bits = 0;
+        while ((1 << bits) < Spec::ARITY) ++bits;
+        return levels * bits / 63 + 1;
+    }
+
     static void* state(Word* p) {
         return p;
     }
@@ -113,7 +124,7 @@ public:
             return (n == 0) ? "0" : "1";
         }
 
-        std::vector<uint64_t> totalStorage(n / 63 + 1);
+        std::vector<uint64_t> totalStorage(growthWords(n));
         BigNumber total(totalStorage.data());
         total.store(0);
         size_t maxWidth = 0;
@@ -169,7 +180,7 @@ public:
                     }
                     else if (ii < i - 1) {
                         Word* qq = vnodeTable[ii].alloc_front(
-                                nextWords + (i - ii) / 63);
+                                nextWords + growthWords(i - ii));
                         spec.get_copy(state(qq), state(pp));
                         spec.destruct(state(pp));
 
@@ -182,7 +193,7 @@ public:
                             spec.destruct(state(qq));
                             int w = number(qqq).add(number(p));
                             if (numberWords < w) {
-                                numberWords = w; //FIXME might be broken at long skip
+                                numberWords = w;
                             }
                             vnodeTable[ii].pop_front();
                         }
@@ -199,7 +210,7 @@ public:
                             spec.destruct(state(pp));
                             int w = number(ppp).add(number(p));
                             if (numberWords < w) {
-                                numberWords = w; //FIXME might be broken at long skip
+                                numberWords = w;
                             }
                         }
                     }
@@ -233,7 +244,7 @@ public:
             return (n == 0) ? "0" : "1";
         }
 
-        std::vector<uint64_t> totalStorage(n / 63 + 1);
+        std::vector<uint64_t> totalStorage(growthWords(n));
         BigNumber total(totalStorage.data());
         total.store(0);
         size_t maxWidth = 0;
@@ -268,7 +279,7 @@ public:
                     else {
                         int w = number(pp).add(number(p));
                         if (numberWords < w) {
-                            numberWords = w; //FIXME might be broken at long skip
+                            numberWords = w;
                         }
                         number(p).store(0);
                     }
@@ -300,7 +311,7 @@ public:
                     }
                     else if (ii < i - 1) {
                         Word* ppp = vnodeTable[ii].alloc_front(
-                                nextWords + (i - ii) / 63);
+                                nextWords + growthWords(i - ii));
                         spec.get_copy(state(ppp), state(pp));
                         spec.destruct(state(pp));
                         number(ppp).store(number(p));
-- 
2.43.0


From c8bb071ab2b7595c6319e379589164486fa2d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:04 +0000
Subject: [PATCH 36/56] fix: importing a terminal-only dump lost the family of
 the empty set

---
 include/tdzdd/spec/GraphillionZdd.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/spec/GraphillionZdd.hpp b/include/tdzdd/spec/GraphillionZdd.hpp
index c739368..301ae3f 100644
--- a/include/tdzdd/spec/GraphillionZdd.hpp
+++ b/include/tdzdd/spec/GraphillionZdd.hpp
@@ -86,7 +86,8 @@ public:
 private:
     void read(std::istream& is) {
         while (is) {
-            if (isdigit(skipSpace(is))) {
+            int c = skipSpace(is);
+            if (isdigit(c)) {
                 uint64_t id;
                 Node node;
 
@@ -97,6 +98,9 @@ private:
 
                 addNode(id, node);
             }
+            else if (table.empty() && (c == 'T' || c == 't')) {
+                root = 1;
+            }
             skipLine(is);
         }
     }
-- 
2.43.0


From bb7a93697fc14d96dcc9b3755e90b625fff30078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:04 +0000
Subject: [PATCH 37/56] fix: importing a ZBDD below the offset mistook
 variables for levels

---
 include/tdzdd/spec/SapporoZdd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/spec/SapporoZdd.hpp b/include/tdzdd/spec/SapporoZdd.hpp
index 105bdb6..3e309a3 100644
--- a/include/tdzdd/spec/SapporoZdd.hpp
+++ b/include/tdzdd/spec/SapporoZdd.hpp
@@ -67,7 +67,7 @@ public:
         if (level >= 1) return level;
 
         while (BDD_LevOfVar(f.Top()) >= 1) {
-            f = f.OffSet(BDD_VarOfLev(f.Top()));
+            f = f.OffSet(f.Top());
         }
         return (f == 1) ? -1 : 0;
     }
@@ -81,7 +81,7 @@ public:
         if (nextLevel >= 1) return nextLevel;
 
         while (BDD_LevOfVar(f.Top()) >= 1) {
-            f = f.OffSet(BDD_VarOfLev(f.Top()));
+            f = f.OffSet(f.Top());
         }
         return (f == 1) ? -1 : 0;
     }
-- 
2.43.0


From ecb32556beee6343863a6709b05d40112a8ddbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:23 +0000
Subject: [PATCH 38/56] fix: importing a ZBDD with a negative offset took
 constants for nodes

---
 include/tdzdd/spec/SapporoZdd.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tdzdd/spec/SapporoZdd.hpp b/include/tdzdd/spec/SapporoZdd.hpp
index 3e309a3..ad553b8 100644
--- a/include/tdzdd/spec/SapporoZdd.hpp
+++ b/include/tdzdd/spec/SapporoZdd.hpp
@@ -63,6 +63,8 @@ public:
     int getRoot(ZBDD& f) const {
         f = root;
 
+        if (f.Top() == 0) return (f == 1) ? -1 : 0; // f is constant
+
         int level = BDD_LevOfVar(f.Top()) - offset;
         if (level >= 1) return level;
 
@@ -76,6 +78,8 @@ public:
         int var = BDD_VarOfLev(level + offset);
         f = take ? f.OnSet0(var) : f.OffSet(var);
 
+        if (f.Top() == 0) return (f == 1) ? -1 : 0; // f is constant
+
         int nextLevel = BDD_LevOfVar(f.Top()) - offset;
         assert(nextLevel < level);
         if (nextLevel >= 1) return nextLevel;
-- 
2.43.0


From 436404d05d3299760509dc5122fe90d472448758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:00 +0000
Subject: [PATCH 39/56] fix: exporting to BDD in parallel entered the external
 package concurrently

---
 include/tdzdd/eval/ToBDD.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tdzdd/eval/ToBDD.hpp b/include/tdzdd/eval/ToBDD.hpp
index 9039688..453003e 100644
--- a/include/tdzdd/eval/ToBDD.hpp
+++ b/include/tdzdd/eval/ToBDD.hpp
@@ -51,6 +51,10 @@ public:
             : offset(offset) {
     }
 
+    bool isThreadSafe() const {
+        return false;
+    }
+
     void initialize(int topLevel) const {
         while (BDD_VarUsed() < topLevel + offset) {
             BDD_NewVar();
-- 
2.43.0


From 30d40a9a8eb90b20fd99e55bd6db3c963ac6fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:26 +0000
Subject: [PATCH 40/56] fix: digit-string specification rejected strings whose
 last digit is zero

---
 apps/ddqueens/NAryZdd.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apps/ddqueens/NAryZdd.hpp b/apps/ddqueens/NAryZdd.hpp
index 48eeb36..2f86e07 100644
--- a/apps/ddqueens/NAryZdd.hpp
+++ b/apps/ddqueens/NAryZdd.hpp
@@ -48,13 +48,12 @@ public:
     int getChild(int level, int take) const {
         if (take) {
             level = ((level - 1) / m) * m;
-            if (level == 0) return -1;
         }
         else {
             --level;
             if (oneHot && level % m == 0) return 0;
         }
-        return level;
+        return (level == 0) ? -1 : level;
     }
 };
 
-- 
2.43.0


From 84d36c2bd9067b1764e7212ff6000ca2a8378f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:12 +0000
Subject: [PATCH 41/56] fix: copying an interleaving specification kept
 pointers into the original

---
 apps/ddqueens/ZddInterleave.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/apps/ddqueens/ZddInterleave.hpp b/apps/ddqueens/ZddInterleave.hpp
index b637185..13d0214 100644
--- a/apps/ddqueens/ZddInterleave.hpp
+++ b/apps/ddqueens/ZddInterleave.hpp
@@ -35,6 +35,10 @@ class ZddInterleave: public tdzdd::PodArrayDdSpec<ZddInterleave,tdzdd::NodeId,2>
     int const n;
     tdzdd::DdStructure<2> const dontCare;
 
+    tdzdd::DdStructure<2> const& diagram(int k) const {
+        return dds[k] ? *dds[k] : dontCare;
+    }
+
     int getLevel(tdzdd::NodeId f, int k) const {
         int i = f.row();
         return (i == 0) ? -f.col() : (i - 1) * n + k + 1;
@@ -73,13 +77,13 @@ public:
             : dds(n), n(n), dontCare(dd.topLevel()) {
         setArraySize(n);
         for (int k = 0; k < n; ++k) {
-            dds[k] = (k == pos) ? &dd : &dontCare;
+            dds[k] = (k == pos) ? &dd : 0;
         }
     }
 
     int getRoot(tdzdd::NodeId* a) const {
         for (int k = 0; k < n; ++k) {
-            a[k] = dds[k]->root();
+            a[k] = diagram(k).root();
         }
         return getLevel(a);
     }
@@ -88,7 +92,7 @@ public:
         int i = (level - 1) / n + 1;
         int k = (level - 1) % n;
         if (a[k].row() == i) {
-            a[k] = dds[k]->child(a[k], b);
+            a[k] = diagram(k).child(a[k], b);
         }
         else if (b) {
             a[k] = 0;
-- 
2.43.0


From 09bbd5a080f39e05d93301fa679d048d504242ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:39 +0000
Subject: [PATCH 42/56] fix: transposing a board of a single row read past its
 links

---
 apps/numberlink/Board.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/apps/numberlink/Board.cpp b/apps/numberlink/Board.cpp
index 9c1ad09..cde778a 100644
--- a/apps/numberlink/Board.cpp
+++ b/apps/numberlink/Board.cpp
@@ -48,8 +48,7 @@ void Board::init() {
 namespace {
 
 template<typename M>
-M transposed_matrix(M& a) {
-    int rows = a[0].size();
+M transposed_matrix(M& a, int rows) {
     int cols = a.size();
     M b(rows);
     for (int i = 0; i < rows; ++i) {
@@ -64,9 +63,9 @@ M transposed_matrix(M& a) {
 }
 
 void Board::transpose() {
-    number = transposed_matrix(number);
-    std::vector<std::vector<bool> > tmp = transposed_matrix(hlink);
-    hlink = transposed_matrix(vlink);
+    number = transposed_matrix(number, cols);
+    std::vector<std::vector<bool> > tmp = transposed_matrix(hlink, cols - 1);
+    hlink = transposed_matrix(vlink, cols);
     vlink = tmp;
     std::swap(rows, cols);
 }
-- 
2.43.0


From 078e5bd1fd3bc3a0ba5c1ed8aea8aaf57582aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:39 +0000
Subject: [PATCH 43/56] fix: boards of a single row or column were reported
 unsolvable

---
 apps/numberlink/ddnumlin.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/numberlink/ddnumlin.cpp b/apps/numberlink/ddnumlin.cpp
index f653ed0..07ba334 100644
--- a/apps/numberlink/ddnumlin.cpp
+++ b/apps/numberlink/ddnumlin.cpp
@@ -110,8 +110,9 @@ void run() {
     quiz.printNumlin(mh);
 
     bool transposed = false;
-    if (quiz.rows < quiz.cols) {
-        mh << "\nThe board is transposed because it has more columns than rows.";
+    if (quiz.cols == 1 || (1 < quiz.rows && quiz.rows < quiz.cols)) {
+        mh << "\nThe board is transposed because it has "
+           << (quiz.cols == 1 ? "a single column." : "more columns than rows.");
         quiz.transpose();
         transposed = true;
     }
-- 
2.43.0


From 86987a68a1d664cd4e462a859b3ed16aa3d4354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:39 +0000
Subject: [PATCH 44/56] fix: large numbers on a board were confused with
 columns

---
 apps/numberlink/NumlinZdd.cpp | 25 +++++++++++++++++++++++--
 apps/numberlink/NumlinZdd.hpp |  7 +++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/apps/numberlink/NumlinZdd.cpp b/apps/numberlink/NumlinZdd.cpp
index 6ac8cc2..8dfab17 100644
--- a/apps/numberlink/NumlinZdd.cpp
+++ b/apps/numberlink/NumlinZdd.cpp
@@ -23,6 +23,9 @@
 #include "NumlinZdd.hpp"
 #include <cassert>
 #include <cstdlib>
+#include <map>
+#include <stdexcept>
+#include <utility>
 
 /* mate values (0 <= j < n)
  *  mate[j] = j  degree=0
@@ -31,10 +34,28 @@
  *  other        connected to mate[j]
  */
 
+void NumlinZdd::setLabels() {
+    std::map<int,int> labels;
+    label.resize(m);
+
+    for (int i = 0; i < m; ++i) {
+        label[i].resize(n);
+        for (int j = 0; j < n; ++j) {
+            int t = quiz.number[i][j];
+            if (t <= 0) continue;
+            int k = labels.size() + 1;
+            label[i][j] = labels.insert(std::make_pair(t, k)).first->second;
+        }
+    }
+
+    if (n + labels.size() > 255) throw std::runtime_error(
+            "too many different numbers");
+}
+
 int NumlinZdd::getRoot(S_State& blank_count, A_State* mate) const {
     blank_count = 0;
     for (int j = 0; j < n; ++j) {
-        int t = quiz.number[0][j];
+        int t = label[0][j];
         mate[j] = (t > 0) ? n + t : j;
     }
     return top_level;
@@ -74,7 +95,7 @@ int NumlinZdd::getChild(S_State& blank_count, A_State* mate, int level,
                 if (blank_count == max_blank) return 0;
                 if (max_blank > 0) ++blank_count;
             }
-            int t = quiz.number[i + 1][k];
+            int t = label[i + 1][k];
             if (mk != k && mk != n) { // use e_v(i, k)
                 if (t > 0) { // v(i+1, k) is labeled
                     mate[k] = n;
diff --git a/apps/numberlink/NumlinZdd.hpp b/apps/numberlink/NumlinZdd.hpp
index 183d7c7..df8d49f 100644
--- a/apps/numberlink/NumlinZdd.hpp
+++ b/apps/numberlink/NumlinZdd.hpp
@@ -32,6 +32,12 @@ class NumlinZdd: public tdzdd::HybridDdSpec<NumlinZdd,uint16_t,uint8_t,2> {
     Board const& quiz;
     int const max_blank;
     int const m, n, top_level;
+    std::vector<std::vector<int> > label; // numbers in quiz mapped to 1, 2, ...
+
+    /**
+     * Makes consecutive labels so that they fit in the mate array.
+     */
+    void setLabels();
 
 public:
     /**
@@ -46,6 +52,7 @@ public:
                     n(quiz.cols),
                     top_level(m * (n - 1)) {
         setArraySize(quiz.cols);
+        setLabels();
     }
 
     /**
-- 
2.43.0


From 10f69ee0442711a25238a0ce4ec2105f92edcbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:25 +0000
Subject: [PATCH 45/56] restore include/tdzdd/spec to its original state

The repairs made there (e4eab22, f357091, c8bb071, d680adb, 3b7e181,
d942127, 06fd9ea, bb7a936, ecb3255) are withdrawn and recorded as known
findings instead.
---
 include/tdzdd/spec/DegreeConstraint.hpp    |  2 +-
 include/tdzdd/spec/FrontierBasedSearch.hpp |  1 -
 include/tdzdd/spec/GraphillionZdd.hpp      |  6 +-----
 include/tdzdd/spec/PathZdd.hpp             |  6 ++----
 include/tdzdd/spec/PathZddByStdMap.hpp     | 20 +++++++-------------
 include/tdzdd/spec/SapporoZdd.hpp          |  8 ++------
 6 files changed, 13 insertions(+), 30 deletions(-)

diff --git a/include/tdzdd/spec/DegreeConstraint.hpp b/include/tdzdd/spec/DegreeConstraint.hpp
index 57ba66f..765c970 100644
--- a/include/tdzdd/spec/DegreeConstraint.hpp
+++ b/include/tdzdd/spec/DegreeConstraint.hpp
@@ -93,7 +93,7 @@ public:
         for (int k = 0; k < mateSize; ++k) {
             mate[k] = 0;
         }
-        return (n > 0) ? n : -1;
+        return n;
     }
 
     int getChild(Mate* mate, int level, int take) const {
diff --git a/include/tdzdd/spec/FrontierBasedSearch.hpp b/include/tdzdd/spec/FrontierBasedSearch.hpp
index d7f9ffc..4ec9ef7 100644
--- a/include/tdzdd/spec/FrontierBasedSearch.hpp
+++ b/include/tdzdd/spec/FrontierBasedSearch.hpp
@@ -433,7 +433,6 @@ public:
     }
 
     int getRoot(Count& count, Mate* mate) const {
-        if (n == 0) return (numUEC > 0) ? 0 : -1;
         int const v0 = graph.edgeInfo(0).v0;
 
         count = Count(numUEC);
diff --git a/include/tdzdd/spec/GraphillionZdd.hpp b/include/tdzdd/spec/GraphillionZdd.hpp
index 301ae3f..c739368 100644
--- a/include/tdzdd/spec/GraphillionZdd.hpp
+++ b/include/tdzdd/spec/GraphillionZdd.hpp
@@ -86,8 +86,7 @@ public:
 private:
     void read(std::istream& is) {
         while (is) {
-            int c = skipSpace(is);
-            if (isdigit(c)) {
+            if (isdigit(skipSpace(is))) {
                 uint64_t id;
                 Node node;
 
@@ -98,9 +97,6 @@ private:
 
                 addNode(id, node);
             }
-            else if (table.empty() && (c == 'T' || c == 't')) {
-                root = 1;
-            }
             skipLine(is);
         }
     }
diff --git a/include/tdzdd/spec/PathZdd.hpp b/include/tdzdd/spec/PathZdd.hpp
index 41df5f9..6eac119 100644
--- a/include/tdzdd/spec/PathZdd.hpp
+++ b/include/tdzdd/spec/PathZdd.hpp
@@ -81,7 +81,7 @@ private:
                 if (w1 != w2) return NO;
                 if (!e.allColorsSeen) return YES;
 
-                bool clean = !hamilton || e.v0 + mateArraySize_ > m;
+                bool clean = true;
                 for (int k = 0; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
@@ -95,9 +95,8 @@ private:
         case Cycle:
             if (w1 == e.v2) {
                 assert(w2 == e.v1);
-                if (hamilton && e.v0 + mateArraySize_ <= m) return NO;
 
-                for (int k = 0; k < mateArraySize_; ++k) {
+                for (int k = 1; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
                     int w = mate[k];
@@ -151,7 +150,6 @@ public:
     }
 
     int getRoot(Mate* mate) const {
-        if (n == 0) return 0;
         int const v0 = graph.edgeInfo(0).v0;
 
         for (int k = 0; k < mateArraySize_; ++k) {
diff --git a/include/tdzdd/spec/PathZddByStdMap.hpp b/include/tdzdd/spec/PathZddByStdMap.hpp
index 865f5f1..ab18bf1 100644
--- a/include/tdzdd/spec/PathZddByStdMap.hpp
+++ b/include/tdzdd/spec/PathZddByStdMap.hpp
@@ -45,8 +45,8 @@ public:
 
     int getRoot(State& mate) const {
         for (Graph::VertexNumber v = 1; v <= graph.vertexSize(); ++v) {
-            Graph::ColorNumber c = graph.colorNumber(v);
-            if (c >= 1) mate[v] = -c;
+            Graph::VertexNumber w = graph.virtualMate(v);
+            if (w >= 1) mate[v] = w;
         }
         return n;
     }
@@ -67,23 +67,17 @@ public:
             if (e.v1final && u1) return 0;
             if (e.v2final && u2) return 0;
 
-            if (w1 == v2 || (w1 < 0 && w2 < 0)) {
-                assert(w1 < 0 || w2 == v1);
-                if (w1 < 0 ? w1 != w2 : graph.numColor() > 0) return 0;
-                bool pending = false;
-                bool clean = true;
+            if (w1 == v2) {
+                assert(w2 == v1);
                 for (State::const_iterator t = mate.begin(); t != mate.end();
                         ++t) {
-                    if (t->first == v1 || t->first == v2) continue;
-                    if (t->second < 0) pending = true;
-                    if (t->second > 0) clean = false;
+                    if (t->first != v1 && t->first != v2 && t->second > 0) return 0;
                 }
-                if (!pending) return clean ? -1 : 0;
+                return -1;
             }
 
             mate[v1] = mate[v2] = 0;
-            if (w1 > 0) mate[w1] = w2;
-            if (w2 > 0) mate[w2] = w1;
+            mate[w1] = w2, mate[w2] = w1;
         }
 
         if (e.v1final && !u1) {
diff --git a/include/tdzdd/spec/SapporoZdd.hpp b/include/tdzdd/spec/SapporoZdd.hpp
index ad553b8..105bdb6 100644
--- a/include/tdzdd/spec/SapporoZdd.hpp
+++ b/include/tdzdd/spec/SapporoZdd.hpp
@@ -63,13 +63,11 @@ public:
     int getRoot(ZBDD& f) const {
         f = root;
 
-        if (f.Top() == 0) return (f == 1) ? -1 : 0; // f is constant
-
         int level = BDD_LevOfVar(f.Top()) - offset;
         if (level >= 1) return level;
 
         while (BDD_LevOfVar(f.Top()) >= 1) {
-            f = f.OffSet(f.Top());
+            f = f.OffSet(BDD_VarOfLev(f.Top()));
         }
         return (f == 1) ? -1 : 0;
     }
@@ -78,14 +76,12 @@ public:
         int var = BDD_VarOfLev(level + offset);
         f = take ? f.OnSet0(var) : f.OffSet(var);
 
-        if (f.Top() == 0) return (f == 1) ? -1 : 0; // f is constant
-
         int nextLevel = BDD_LevOfVar(f.Top()) - offset;
         assert(nextLevel < level);
         if (nextLevel >= 1) return nextLevel;
 
         while (BDD_LevOfVar(f.Top()) >= 1) {
-            f = f.OffSet(f.Top());
+            f = f.OffSet(BDD_VarOfLev(f.Top()));
         }
         return (f == 1) ? -1 : 0;
     }
-- 
2.43.0


From bef7f31318986efc20d5b5bda05d9ab3f5d53d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:11 +0000
Subject: [PATCH 46/56] fix: pruning of CNF states read before the first clause
 of the state

---
 apps/cnfbdd/CnfToBdd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 3109f36..55e97a7 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -484,7 +484,7 @@ bool CnfToBdd::badState(std::vector<uint16_t>& clauses, int level) const {
                 g = Cudd_NotCond(Cudd_E(g), Cudd_IsComplement(g));
                 if (Cudd_IsConstant(g)) return g == zero;
             }
-            while (int(*t) > Cudd_NodeReadIndex(g)) { // don't care
+            while (t != clauses.rend() && int(*t) > Cudd_NodeReadIndex(g)) { // don't care
                 ++t;
             }
         }
-- 
2.43.0


From 3e8c86bbd3fdcaba888a1906a461ab7e9d405ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:37 +0000
Subject: [PATCH 47/56] fix: formula whose clauses are all tautologies crashed
 the clause mapping

---
 apps/cnfbdd/CnfToBdd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 55e97a7..1eb69a7 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -191,7 +191,7 @@ void CnfToBdd::prepare() {
 
 void CnfToBdd::makeClauseMap(Clause const* base, Clause const* const * from,
         Clause const* const * to, int k) {
-    for (Clause const* const * p = from; p < to - 1; ++p) {
+    for (Clause const* const * p = from; to - p > 1; ++p) {
         Clause const* const * q = p + 1;
         int t1 = (**p)[k];
         if (t1 == 0) continue;
-- 
2.43.0


From 6658b734a41e7f203d8e59756d36b5cd4ea9a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:16 +0000
Subject: [PATCH 48/56] fix: pruning of CNF states changed package reference
 counts from several threads

---
 apps/cnfbdd/CnfToBdd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 1eb69a7..ceb6a0b 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -468,7 +468,7 @@ int CnfToBdd::getChild(State& s, int level, int take) {
 }
 
 bool CnfToBdd::badState(std::vector<uint16_t>& clauses, int level) const {
-    DdNode* zero = Cudd(0).ddNode();
+    DdNode* zero = Cudd_ReadLogicZero(Cudd::manager);
     DdNode* g = frontierSet[level].ddNode();
     if (Cudd_IsConstant(g)) return g == zero;
     std::reverse_iterator<std::vector<uint16_t>::iterator> t = clauses.rbegin();
-- 
2.43.0


From 9606d4609d51103ab7ebd18f32e57e00d8cbc2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:24 +0000
Subject: [PATCH 49/56] fix: assigning an empty BDD handle dereferenced a null
 node

---
 apps/cnfbdd/Cudd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/Cudd.hpp b/apps/cnfbdd/Cudd.hpp
index c04c56a..2084035 100644
--- a/apps/cnfbdd/Cudd.hpp
+++ b/apps/cnfbdd/Cudd.hpp
@@ -95,7 +95,7 @@ public:
     }
 
     Cudd_& operator=(Cudd_ const& o) {
-        Cudd_Ref(o.dd);
+        if (o.dd != 0) Cudd_Ref(o.dd);
         this->~Cudd_();
         dd = o.dd;
         return *this;
-- 
2.43.0


From ccdf873ca11e89998f2694afffd21d037f4992b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:18 +0000
Subject: [PATCH 50/56] fix: limit of zero solutions dumped all of them

---
 apps/graphillion/graphillion_example.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/graphillion/graphillion_example.cpp b/apps/graphillion/graphillion_example.cpp
index a862803..ecae794 100644
--- a/apps/graphillion/graphillion_example.cpp
+++ b/apps/graphillion/graphillion_example.cpp
@@ -289,9 +289,9 @@ int main(int argc, char *argv[]) {
 
             for (DdStructure<2>::const_iterator t = dd.begin(); t != dd.end();
                     ++t) {
+                if (count-- <= 0) break;
                 EdgeDecorator edges(n, *t);
                 g.dump(std::cout, edges);
-                if (--count == 0) break;
             }
         }
     }
-- 
2.43.0


From be67919a941bbadf9e3d1d71a57b92f22f20cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:51 +0000
Subject: [PATCH 51/56] fix: dumping destroyed a state twice when copying a
 state threw an exception

---
 include/tdzdd/dd/DdBuilder.hpp | 36 +++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/tdzdd/dd/DdBuilder.hpp b/include/tdzdd/dd/DdBuilder.hpp
index 6b48edc..1dca0cc 100644
--- a/include/tdzdd/dd/DdBuilder.hpp
+++ b/include/tdzdd/dd/DdBuilder.hpp
@@ -1335,7 +1335,8 @@ class DdDumper {
 
     Spec spec;
     int const specNodeSize;
-    char* oneState;
+    MyVector<char> oneStorage;
+    void* oneState; // null unless a state is alive in oneStorage
     NodeId oneId;
 
     MyVector<MyList<SpecNode> > snodeTable;
@@ -1346,15 +1347,13 @@ public:
     DdDumper(Spec const& s) :
             spec(s),
             specNodeSize(getSpecNodeSize(spec.datasize())),
+            oneStorage(spec.datasize()),
             oneState(0),
             oneId(1) {
     }
 
     ~DdDumper() {
-        if (oneState) {
-            spec.destruct(oneState);
-            delete[] oneState;
-        }
+        clearOneState();
     }
 
     /**
@@ -1363,13 +1362,9 @@ public:
      * @param title title label.
      */
     void dump(std::ostream& os, std::string title) {
-        if (oneState) {
-            spec.destruct(oneState);
-        }
-        else {
-            oneState = new char[spec.datasize()];
-        }
-        int n = spec.get_root(oneState);
+        clearOneState();
+        int n = spec.get_root(oneStorage.data());
+        oneState = oneStorage.data();
 
         os << "digraph \"" << title << "\" {\n";
 
@@ -1431,6 +1426,17 @@ public:
     }
 
 private:
+    void clearOneState() {
+        if (oneState) spec.destruct(oneState);
+        oneState = 0;
+    }
+
+    void setOneState(void const* s) {
+        clearOneState(); // the copy may throw
+        spec.get_copy(oneStorage.data(), s);
+        oneState = oneStorage.data();
+    }
+
     void dumpStep(std::ostream& os, int i) {
         MyList<SpecNode> &snodes = snodeTable[i];
         size_t const m = snodes.size();
@@ -1464,16 +1470,14 @@ private:
                 else if (ii < 0) {
                     if (oneId == 1) { // the first 1-terminal candidate
                         oneId = 2;
-                        spec.destruct(oneState);
-                        spec.get_copy(oneState, tmpState);
+                        setOneState(tmpState);
                         child = oneId;
                     }
                     else {
                         switch (spec.merge_states(oneState, tmpState)) {
                         case 1:
                             oneId = oneId.code() + 1;
-                            spec.destruct(oneState);
-                            spec.get_copy(oneState, tmpState);
+                            setOneState(tmpState);
                             child = oneId;
                             break;
                         case 2:
-- 
2.43.0


From 4dfbc18ea4bd25f66443ecf0cd2dc21b6a52b0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:54 +0000
Subject: [PATCH 52/56] fix: printing resource usage left the stream's
 precision changed

---
 include/tdzdd/util/ResourceUsage.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tdzdd/util/ResourceUsage.hpp b/include/tdzdd/util/ResourceUsage.hpp
index f6c68be..2244429 100644
--- a/include/tdzdd/util/ResourceUsage.hpp
+++ b/include/tdzdd/util/ResourceUsage.hpp
@@ -150,6 +150,7 @@ struct ResourceUsage {
 
     friend std::ostream& operator<<(std::ostream& os, ResourceUsage const& u) {
         std::ios_base::fmtflags backup = os.flags(std::ios::fixed);
+        std::streamsize precision = os.precision();
         os.setf(std::ios::fixed);
 
         os << std::setprecision(2) << u.etime << "s elapsed, ";
@@ -157,6 +158,7 @@ struct ResourceUsage {
         os << std::setprecision(0) << u.maxrss / 1024.0 << "MB";
 
         os.flags(backup);
+        os.precision(precision);
         return os;
     }
 };
@@ -192,9 +194,11 @@ public:
     friend std::ostream& operator<<(std::ostream& os,
                                     ElapsedTimeCounter const& o) {
         std::ios_base::fmtflags backup = os.flags(std::ios::fixed);
+        std::streamsize precision = os.precision();
         os.setf(std::ios::fixed);
         os << std::setprecision(2) << o.totalTime << "s";
         os.flags(backup);
+        os.precision(precision);
         return os;
     }
 };
-- 
2.43.0


From 319903605108291ee6819a708c6bbd52d62f1b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:48 +0000
Subject: [PATCH 53/56] fix: a report continued on the line of a destroyed
 handler at the same address

---
 include/tdzdd/util/MessageHandler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/MessageHandler.hpp b/include/tdzdd/util/MessageHandler.hpp
index 55e7da0..8108c16 100644
--- a/include/tdzdd/util/MessageHandler.hpp
+++ b/include/tdzdd/util/MessageHandler.hpp
@@ -131,6 +131,7 @@ public:
 
     virtual ~MessageHandler_() {
         if (!name.empty()) end("aborted");
+        if (lastUser == &buf) lastUser = 0;
     }
 
     static bool showMessages(bool flag = true) {
-- 
2.43.0


From 84bc85336069f047f3cb199c88a2625b0a5cbc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:29 +0000
Subject: [PATCH 54/56] fix: dumping an intersection of three or more
 specifications compiles

---
 include/tdzdd/op/BinaryOperation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/op/BinaryOperation.hpp b/include/tdzdd/op/BinaryOperation.hpp
index 80bb841..de1a415 100644
--- a/include/tdzdd/op/BinaryOperation.hpp
+++ b/include/tdzdd/op/BinaryOperation.hpp
@@ -291,7 +291,7 @@ struct ZddIntersection_: public ZddIntersection_<S,S1,ZddIntersection<SS...>> {
 
     void print_state(std::ostream& os, void const* p, int level) const {
         Word const* q = static_cast<Word const*>(p);
-        os << "<" << base::level1(q) << ",";
+        os << "<";
         base::spec1.print_state(os, base::state1(q), level);
         os << ">∩";
         base::spec2.print_state(os, base::state2(q), level);
-- 
2.43.0


From 6181a3259ce59a92cd1c0bb86d488402ae4c341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:01 +0000
Subject: [PATCH 55/56] fix: binary operators keep all branches of multi-valued
 operands

---
 include/tdzdd/op/BinaryOperation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/op/BinaryOperation.hpp b/include/tdzdd/op/BinaryOperation.hpp
index de1a415..ae23dd6 100644
--- a/include/tdzdd/op/BinaryOperation.hpp
+++ b/include/tdzdd/op/BinaryOperation.hpp
@@ -32,7 +32,7 @@
 namespace tdzdd {
 
 template<typename S, typename S1, typename S2>
-class BinaryOperation: public PodArrayDdSpec<S,size_t,2> {
+class BinaryOperation: public PodArrayDdSpec<S,size_t,S1::ARITY> {
 protected:
     typedef S1 Spec1;
     typedef S2 Spec2;
@@ -304,7 +304,7 @@ struct ZddIntersection_
 #if __cplusplus >= 201103L
 <S,S1,S2>
 #endif
-        : public PodArrayDdSpec<S,size_t,2> {
+        : public PodArrayDdSpec<S,size_t,S1::ARITY> {
     typedef S1 Spec1;
     typedef S2 Spec2;
     typedef size_t Word;
-- 
2.43.0


From 08c15b11caafa8f874bdf2124db667beec3930c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:46 +0000
Subject: [PATCH 56/56] fix: malformed vertex numbers in graph files are
 reported

---
 include/tdzdd/util/Graph.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index 40c314c..1227b58 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -225,8 +225,8 @@ private:
         name2label.clear();
         name2color.clear();
 
-        VertexNumber v1 = 1;
-        VertexNumber v2;
+        int v1 = 1;
+        int v2;
 
         while (is) {
             char c;
@@ -235,7 +235,8 @@ private:
             }
             if (!is) break;
             is.unget();
-            is >> v2;
+            if (!(is >> v2)) throw std::runtime_error(
+                    "ERROR: Invalid vertex number");
 
             edgeNames.push_back(std::make_pair(to_string(v1), to_string(v2)));
         }
@@ -257,8 +258,9 @@ private:
             if (!is) break;
             is.unget();
 
-            VertexNumber v;
-            is >> v;
+            int v;
+            if (!(is >> v)) throw std::runtime_error(
+                    "ERROR: Invalid vertex number");
 
             name2color[to_string(v)] = color;
         }
-- 
2.43.0

