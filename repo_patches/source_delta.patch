From 5df72477970972aff170eba4ed657e9a432dbb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 01/20] fix: xor results must not share the memo cache key of
 or

xor_symb() returned the symbol of or, so after or_rec(f,g) a call of xor_rec(f,g) returned f or g, and vice versa.
---
 include/bdd_memo_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_memo_cache.h b/include/bdd_memo_cache.h
index cfa6b39..d5e7f4a 100644
--- a/include/bdd_memo_cache.h
+++ b/include/bdd_memo_cache.h
@@ -25,7 +25,7 @@ namespace BDD {
 
         template<typename T>
         constexpr static node* xor_symb_impl() { return static_cast<T*>(nullptr) + 3; }
-        constexpr static node* xor_symb() { return or_symb_impl<node>(); }
+        constexpr static node* xor_symb() { return xor_symb_impl<node>(); }
 
         bool operator==(const memo_struct& m) const;
         bool operator!=(const memo_struct& m) const;
-- 
2.43.0


From 43b7ba63b3dc4b9bfda2655d3fc3d5b5dbbc5a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 02/20] fix: xor_rec must branch on the smaller variable

Branching on the larger one gave BDDs that are not ordered (hence not canonical) and that made ~bdd_mgr abort.
---
 src/bdd_mgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index af87c96..85c3d85 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -242,7 +242,7 @@ namespace BDD {
         var& vf = vars[f.variable()];
         assert(g.variable() < nr_variables());
         var& vg = vars[g.variable()];
-        var& v = *std::max(&vg,&vf);
+        var& v = *std::min(&vg,&vf);
 
         node_ref r0 = xor_rec(&v == &vf ? f.low() : f, &v == &vg ? g.low() : g);
         assert(r0.ref != nullptr);
-- 
2.43.0


From fa1a05e49c725eea2a095e97eb67cfe929ed4beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 03/20] fix: ite_rec must not descend into terminal nodes

A terminal g or h counts as being on the last variable when the branching variable is chosen. When that is the
branching variable, ite_rec took low()/high() of the terminal, i.e. used the bdd_mgr pointer stored there as a node,
e.g. ite(x, !x, 1) for the last variable x.
---
 src/bdd_mgr.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 85c3d85..50f6769 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -287,15 +287,15 @@ namespace BDD {
 
         node_ref r0 = ite_rec(
                 (&vf == &v ? f.low() : f),
-                (&vg == &v ? g.low() : g),
-                (&vh == &v ? h.low() : h)
+                (&vg == &v && !g.is_terminal() ? g.low() : g),
+                (&vh == &v && !h.is_terminal() ? h.low() : h)
                 );
         assert(r0.ref != nullptr);
 
         node_ref r1 = ite_rec(
                 (&vf == &v ? f.high() : f),
-                (&vg == &v ? g.high() : g),
-                (&vh == &v ? h.high() : h)
+                (&vg == &v && !g.is_terminal() ? g.high() : g),
+                (&vh == &v && !h.is_terminal() ? h.high() : h)
                 );
         assert(r1.ref != nullptr);
 
-- 
2.43.0


From c0a42401c5a234b5495ae941f43fcc9778ee5eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 04/20] fix: at_most with a bound above the number of bdds is
 always true

---
 include/bdd_mgr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index cbc72b6..689ef8d 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -346,7 +346,7 @@ namespace BDD {
             const size_t n = std::distance(begin, end);
 
             if(n < b)
-                return node_cache_.botsink();
+                return node_cache_.topsink();
 
             if(n == 1 && b == 1)
                 return node_cache_.topsink();
-- 
2.43.0


From 5a2d4c19ec2a6c02bbade4c160144742f5ab381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 05/20] fix: add_bdd aborted for collections with 1000 or more
 instructions

---
 src/bdd_mgr.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 50f6769..49380bc 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -412,7 +412,6 @@ namespace BDD {
             }
             else
             { 
-                assert(bdd_col.offset(bdd) < 1000); // TODO: remove
                 assert(bdd_map.count(bdd.lo) > 0);
                 node_ref lo = bdd_map.find(bdd.lo)->second;
 
-- 
2.43.0


From 9a54e81898f1ad63b15a0ce49d844d867d2c9c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 06/20] fix: bdd_collection::remove read past the end of the
 given range

After the last bdd to remove had been skipped, *bdd_it_end was still compared, which dropped a further bdd if the
memory behind the range held its number.
---
 include/bdd_collection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 7d6ff09..cfdaa9c 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -265,7 +265,7 @@ namespace BDD {
             auto bdd_it = bdd_it_begin;
             for(size_t bdd_nr=*bdd_it; bdd_nr<nr_bdds(); ++bdd_nr)
             {
-                if(bdd_nr == *bdd_it) // skip bdd
+                if(bdd_it != bdd_it_end && bdd_nr == *bdd_it) // skip bdd
                 {
                     ++bdd_it;
                 }
-- 
2.43.0


From 6ff7a250b9275f5baf7209e98522343bd5305b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 07/20] fix: remove_dead_nodes corrupted the unique table

Live nodes were reinserted without clearing their old slot (double free, wrong count of free slots, endless probing),
dead nodes found while moving entries were dropped without being freed, wrapping around skipped entries, and the
shrinking loop could probe forever and placed nodes at their old index instead of their hash. Free the dead nodes, then
rehash the remaining ones. This was what made test_bdd_and_or fail for many hash seeds.
---
 src/bdd_var.cpp | 79 ++++++++++++-------------------------------------
 1 file changed, 19 insertions(+), 60 deletions(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index d0d52f3..87ac8aa 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -204,76 +204,35 @@ namespace BDD {
 
     void var_struct::remove_dead_nodes()
     {
+        // free dead nodes and take the others out of the table
+        std::vector<node*> live_nodes;
         for(std::size_t k = 0; k < hash_table_size(); ++k)
         {
             node* p = fetch_node(k);
-            if(p != nullptr && p->dead())
-            {
+            if(p == nullptr)
+                continue;
+            if(p->dead())
                 bdd_mgr_.get_node_cache().free_node(p);
-                store_node(k, nullptr);
-                free++;
-                // move nodes that follow this one back if hash value indicates so
-                size_t first_free_slot = k;
-                for(size_t j = k+1;; ++j)
-                {
-                    const size_t jj = j & mask;
-                    node* p = fetch_node(jj);
-                    if(p == nullptr)
-                    {
-                        k = j;
-                        break;
-                    }
-                    if(p->dead())
-                    {
-                        store_node(jj, nullptr);
-                        free++;
-                    }
-                    else
-                    {
-                        // shift one place up if hash code says so
-                        // TODO: can be made faster.
-                        store_node(next_free_slot(hash_code(p)), p);
-                    }
-                }
-            }
+            else
+                live_nodes.push_back(p);
+            store_node(k, nullptr);
         }
 
         // reduce nr of pages if unique table too sparsely populated
-        if(mask > 63 && occupied_rate() <= min_unique_table_fill)
+        size_t new_size = hash_table_size();
+        while(new_size > 64 && live_nodes.size() <= min_unique_table_fill * new_size)
+            new_size /= 2;
+        if(new_size < hash_table_size())
         {
-            const size_t new_mask = [&]() {
-                size_t n = (mask+1)/2 - 1;
-                while(n >= 63 && occupied_rate(n) >= min_unique_table_fill)
-                    n /= (mask+1)/2 - 1;
-                return n;
-            }();
-
-            node** new_base = new_page(new_mask);
-
-            for(std::size_t k = 0; k <= mask; ++k)
-            {
-                node* p = fetch_node(k);
-                if(p != nullptr)
-                {
-                    const size_t next_free_slot = [&]() {
-                        for(size_t l=k;; l++)
-                        {
-                            l = l & new_mask;
-                            if(new_base[k] == nullptr)
-                                return l;
-                        }
-                        assert(false);
-                        return size_t(0);
-                    }();
-
-                    new_base[next_free_slot] = p;
-                } 
-            }
-
             free_page(base, mask);
-            base = new_base;
-            mask = new_mask;
+            mask = new_size - 1;
+            base = new_page(mask);
         }
+
+        // removing nodes leaves gaps in probe sequences, hence reinsert the remaining nodes
+        free = hash_table_size() - live_nodes.size();
+        for(node* p : live_nodes)
+            store_node(next_free_slot(hash_code(p)), p);
     }
 
     node* var_struct::unique_find(const size_t index, node* l, node* h)
-- 
2.43.0


From 08fa3ec2179888958cd2e207930d8bc9f3e82a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 08/20] fix: garbage collection must purge memo entries of
 freed nodes

Nodes without references have xref 0, not a negative one, hence no entry was ever purged and later operations could return
freed or reused nodes. The third operand of if-then-else was not looked at either.
---
 src/bdd_memo_cache.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bdd_memo_cache.cpp b/src/bdd_memo_cache.cpp
index ab090f6..682d124 100644
--- a/src/bdd_memo_cache.cpp
+++ b/src/bdd_memo_cache.cpp
@@ -148,11 +148,10 @@ namespace BDD {
     {
         if(r == nullptr)
             return true; // TODO: or false?
-        if(r->xref < 0)
+        if(r->dead() || f->dead() || g->dead())
             return true;
-        if(f->xref < 0)
-            return true;
-        if(h != nullptr && g->xref < 0)
+        // h is either an operation symbol or a node (if-then-else)
+        if(h != and_symb() && h != or_symb() && h != xor_symb() && h->dead())
             return true;
         return false;
     }
-- 
2.43.0


From 8b2fee5c8ed0661f2f8c2e1f19b2fa50d3c8b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 09/20] fix: and_rec_limited must apply the limit to the size
 of the conjunction

It compared the limit with the sum of the sizes of both branches, which leaves out the node itself and counts shared nodes
twice, and not at all if one operand was the topsink: conjunctions with as many nodes as the limit or more were returned, small
ones rejected, the reported count was wrong, and all of it depended on the memo cache. Nodes of intermediate results are nodes
of the conjunction, so that it is still possible to abort early.
---
 src/bdd_mgr.cpp | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 49380bc..ae57129 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -103,36 +103,35 @@ namespace BDD {
     // return
     std::tuple<node_ref,size_t> bdd_mgr::and_rec_limited(node_ref f, node_ref g, const size_t node_limit)
     {
+        // return bdd if it is small enough
+        auto limited = [node_limit](node_ref r) -> std::tuple<node_ref,size_t>
+        {
+            const size_t nr_nodes = r.nr_nodes();
+            if(nr_nodes >= node_limit)
+                return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
+            return {r, nr_nodes};
+        };
+
         if(f == g)
         {
-            const size_t nr_nodes = f.nr_nodes();
-            if(nr_nodes > node_limit)
-               return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-            return {f,nr_nodes};
+            return limited(f);
         }
 
         if(f.ref > g.ref)
             return and_rec_limited(g,f,node_limit);
 
         if(f.ref == node_cache_.topsink())
-            return {g,g.nr_nodes()};
+            return limited(g);
         else if(f.ref == node_cache_.botsink())
-            return {node_ref(node_cache_.botsink()),0};
+            return limited(node_ref(node_cache_.botsink()));
         else if(g.ref == node_cache_.topsink())
-            return {f,f.nr_nodes()};
+            return limited(f);
         else if(g.ref == node_cache_.botsink())
-            return {node_ref(node_cache_.botsink()),0};
+            return limited(node_ref(node_cache_.botsink()));
 
         node* m = memo_.cache_lookup(f.ref, g.ref, memo_struct::and_symb());
         if(m != nullptr)
-        {
-            const size_t m_nr_nodes = m->nr_nodes();
-            if(m != nullptr)
-                if(m_nr_nodes <= node_limit)
-                    return {node_ref(m), m_nr_nodes};
-                else 
-                    return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-        }
+            return limited(node_ref(m));
 
         var& f_var = vars[f.variable()];
         var& g_var = vars[g.variable()];
@@ -146,19 +145,19 @@ namespace BDD {
         auto [r0, r0_nr_nodes] = and_rec_limited(&v == &f_var ? f.low() : f, &v == &g_var ? g.low() : g, node_limit);
         assert((r0 == nullptr) == (r0_nr_nodes == std::numeric_limits<size_t>::max()));
         assert(r0.ref != nullptr || r0_nr_nodes == std::numeric_limits<size_t>::max());
-        if(r0_nr_nodes > node_limit)
+        if(r0_nr_nodes == std::numeric_limits<size_t>::max())
             return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
         auto [r1, r1_nr_nodes] = and_rec_limited(&v == &f_var ? f.high() : f, &v == &g_var ? g.high() : g, node_limit);
         assert((r1 == nullptr) == (r1_nr_nodes == std::numeric_limits<size_t>::max()));
         assert(r1.ref != nullptr || r1_nr_nodes == std::numeric_limits<size_t>::max());
-        if(r0_nr_nodes == std::numeric_limits<size_t>::max() || r1_nr_nodes == std::numeric_limits<size_t>::max() || r0_nr_nodes + r1_nr_nodes > node_limit)
+        if(r1_nr_nodes == std::numeric_limits<size_t>::max())
             return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
         
         node* r = v.unique_find(r0.ref, r1.ref);
         assert(r != nullptr);
         //if(r != nullptr)
         memo_.cache_insert(f.ref, g.ref, memo_struct::and_symb(), r);
-        return {node_ref(r),r0_nr_nodes + r1_nr_nodes}; 
+        return limited(node_ref(r)); 
     }
 
     node_ref bdd_mgr::or_rec(node_ref f, node_ref g)
-- 
2.43.0


From 41c141989535d16f49d98b4070358c8381b988c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 10/20] fix: initialize mark and hash key of terminal nodes

A set mark bit makes nr_nodes() etc. abort on terminals.
---
 src/bdd_node.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 7518bc8..f9c333e 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -118,6 +118,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = botsink_index;
+        this->hash_key = 0;
+        this->marked_ = 0;
     }
 
     bool node::is_botsink() const
@@ -132,7 +134,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = topsink_index;
-
+        this->hash_key = 1;
+        this->marked_ = 0;
     }
 
     bool node::is_topsink() const
-- 
2.43.0


From fb8b4df2f1e25f5dff444649141f5280f3d4dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 11/20] fix: nodes_bfs of a terminal used its bdd_mgr pointer
 as a node

As for nodes_postorder, the list of a terminal is empty.
---
 src/bdd_node.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index f9c333e..5074027 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -84,6 +84,8 @@ namespace BDD {
         assert(marked_ == 0);
         std::vector<node*> nodes;
         std::deque<node*> dq;
+        if(is_terminal())
+            return nodes;
 
         dq.push_back(this);
         this->marked_ = 1;
-- 
2.43.0


From f2347737dd9eb0792f7a7cf78f0bd6803f86af67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 12/20] fix: rebase of a terminal by a vector map accessed an
 empty vector

---
 include/bdd_mgr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index 689ef8d..aece5da 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -129,7 +129,9 @@ namespace BDD {
     node_ref bdd_mgr::rebase(node_ref p, ITERATOR var_map_begin, ITERATOR var_map_end)
     {
         const size_t nr_vars = std::distance(var_map_begin, var_map_end);
-        assert(p.variables().back() <= nr_vars);
+        if(p.is_terminal())
+            return p;
+        assert(p.variables().back() < nr_vars);
         const size_t last_var = *std::max_element(var_map_begin, var_map_end);
         for(size_t i=nr_variables(); i<=last_var; ++i)
             add_variable();
-- 
2.43.0


From ef3de218eb6024b69956c9c311c6d8f8d7ac3242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 13/20] fix: rebase to variables in a different order

Nodes were created above nodes of smaller variables, which is no ordered BDD (not canonical, wrong results of further
operations, abort in ~bdd_mgr).
---
 include/bdd_mgr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index aece5da..5eb6b8f 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -119,7 +119,7 @@ namespace BDD {
             assert(node_map.count(p->hi) > 0);
             node* lo_mapped = node_map.find(p->lo)->second;
             node* hi_mapped = node_map.find(p->hi)->second;
-            node_map.insert({p, vars[v_new].unique_find(lo_mapped, hi_mapped)});
+            node_map.insert({p, ite_rec(projection(v_new), node_ref(hi_mapped), node_ref(lo_mapped)).address()});
         }
 
         return node_ref(node_map.find(p.address())->second);
@@ -149,7 +149,7 @@ namespace BDD {
             assert(node_map.count(p->hi) > 0);
             node* lo_mapped = node_map.find(p->lo)->second;
             node* hi_mapped = node_map.find(p->hi)->second;
-            node_map.insert({p, vars[v_new].unique_find(lo_mapped, hi_mapped)});
+            node_map.insert({p, ite_rec(projection(v_new), node_ref(hi_mapped), node_ref(lo_mapped)).address()});
         }
 
         return node_ref(node_map.find(p.address())->second);
-- 
2.43.0


From 4830b8600238ded73d8bec63c57779651d44c31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 14/20] fix: unique tables can have 1048576 slots

double_cache and free_page support this size, but new_page threw for it after the mask had been changed already, so that a
variable could not have more than 262144 nodes and the table was left unusable.
---
 src/bdd_var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index 87ac8aa..93f0dc3 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -52,7 +52,7 @@ namespace BDD {
             case 131071:return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
             case 262143:return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
             case 524287:return reinterpret_cast<node**>(cache.cache_524288.reserve_page());
-            case 1048575: throw std::runtime_error("Cannot increase unique table page cache size.");;
+            case 1048575: return reinterpret_cast<node**>(cache.cache_1048576.reserve_page());
             default: assert(false);
         } 
     }
-- 
2.43.0


From d62d0e2d50290384ef39ed2333e5f61b97489595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 15/20] fix: bdd_collection_entry::botsink/topsink of bdds
 computed by bdd_and

bdd_and and close_bdd store the topsink before the botsink, add_bdd the botsink first; only the latter was handled.
---
 src/bdd_collection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index d9c08ec..a75dc2c 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -642,6 +642,8 @@ namespace BDD {
     bdd_collection_node bdd_collection_entry::botsink() const
     {
         bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-2, *this);
+        if(!node.is_botsink()) // order of sinks depends on how bdd was constructed
+            node = bdd_collection_node(bdd_col.bdd_delimiters[bdd_nr+1]-1, *this);
         assert(node.is_botsink());
         return node;
     }
@@ -649,6 +651,8 @@ namespace BDD {
     bdd_collection_node bdd_collection_entry::topsink() const
     {
         bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-1, *this);
+        if(!node.is_topsink())
+            node = bdd_collection_node(bdd_col.bdd_delimiters[bdd_nr+1]-2, *this);
         assert(node.is_topsink());
         return node;
     }
-- 
2.43.0


From dce72521f6f5da54a6126a160ae7bc67ff3c9b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 16/20] fix: constant bdds in a bdd_collection

---
 include/bdd_collection.h |  4 ++--
 src/bdd_collection.cpp   | 19 +++++++++++++------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index cfdaa9c..07920e0 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -286,7 +286,7 @@ namespace BDD {
                             new_bdd_instructions.push_back(bdd_instr);
                     }
                     new_bdd_delimiters.push_back(new_bdd_instructions.size());
-                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] > 2);
+                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] >= 2);
                 }
             }
             assert(bdd_it == bdd_it_end);
@@ -482,7 +482,7 @@ namespace BDD {
             for(auto [x,y] : cluster_nodes)
                 cluster_nodes2.push_back({x,y});
             std::sort(cluster_nodes2.begin(), cluster_nodes2.end(), [](const auto a, const auto b) { return a[0] < b[0]; });
-            for(size_t c=0; c<cluster_nodes2.size()-1; ++c)
+            for(size_t c=0; c+1<cluster_nodes2.size(); ++c)
                 s << cluster_nodes2[c][1] << " -> " << cluster_nodes2[c+1][1] << " [style=invis];\n";
 
             for(size_t i=bdd_delimiters[bdd_nr]; i<bdd_delimiters[bdd_nr+1]; ++i)
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index a75dc2c..d9c79ff 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -29,7 +29,8 @@ namespace BDD {
 
         if(root_idx != std::numeric_limits<size_t>::max())
         {
-            assert(stack.size() > 2);
+            if(root_idx == 0) // constant false: root comes first
+                std::swap(stack[0], stack[1]);
             const size_t offset = bdd_delimiters.back();
             for(ptrdiff_t s = stack.size()-1; s>=0; --s)
             {
@@ -131,7 +132,8 @@ namespace BDD {
 
             if(root_idx != std::numeric_limits<size_t>::max())
             {
-                assert(stack.size() > 2);
+                if(root_idx == 0) // constant false: root comes first
+                    std::swap(stack[0], stack[1]);
                 const size_t offset = bdd_delimiters.back();
                 for(ptrdiff_t s = stack.size()-1; s>=0; --s)
                 {
@@ -293,14 +295,17 @@ namespace BDD {
         }
 
         // TODO: not most efficient, record top and botsink above
-        node_ref_hash.insert({nodes.back().botsink(), bdd_instructions.size()});
+        node_ref_hash.insert({root.botsink(), bdd_instructions.size()});
         bdd_instructions.push_back(bdd_instruction::botsink());
         assert(bdd_instructions.back().is_botsink());
 
-        node_ref_hash.insert({nodes.back().topsink(), bdd_instructions.size()});
+        node_ref_hash.insert({root.topsink(), bdd_instructions.size()});
         bdd_instructions.push_back(bdd_instruction::topsink());
         assert(bdd_instructions.back().is_topsink());
 
+        if(root.is_topsink()) // constant true: root comes first
+            std::swap(bdd_instructions[bdd_instructions.size()-2], bdd_instructions[bdd_instructions.size()-1]);
+
         const size_t offset = bdd_delimiters.back();
         for(size_t i=0; i<nodes.size(); ++i)
         {
@@ -324,7 +329,10 @@ namespace BDD {
     node_ref bdd_collection::export_bdd(bdd_mgr& mgr, const size_t bdd_nr) const
     {
         assert(bdd_nr < nr_bdds());
-        assert(nr_bdd_nodes(bdd_nr) > 2);
+        if(bdd_instructions[bdd_delimiters[bdd_nr]].is_botsink())
+            return mgr.botsink();
+        if(bdd_instructions[bdd_delimiters[bdd_nr]].is_topsink())
+            return mgr.topsink();
         // TODO: use vector and shift indices by offset
         std::unordered_map<size_t, node_ref> bdd_instr_hash;
         assert(bdd_instructions[bdd_delimiters[bdd_nr+1]-2].is_terminal());
@@ -535,7 +543,6 @@ namespace BDD {
             vars.push_back(bdd_instructions[i].index);
         }
 
-        assert(vars.size() > 0);
         std::sort(vars.begin(), vars.end());
         vars.erase( std::unique(vars.begin(), vars.end() ), vars.end());
         return vars;
-- 
2.43.0


From 832518c882ff418bb4523f0a66e2f3775f64304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 17/20] fix: bdd_or_var for variables skipped by the bdd and
 for results with redundant nodes

---
 include/bdd_collection.h |  52 ++++------------
 src/bdd_collection.cpp   | 125 ++++++++++++++++++---------------------
 2 files changed, 70 insertions(+), 107 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 07920e0..f860deb 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -168,8 +168,8 @@ namespace BDD {
             size_t splitting_variable(const bdd_instruction& k, const bdd_instruction& l) const;
             size_t add_bdd_impl(node_ref bdd);
             bool is_bdd(const size_t i) const;
-            // bring last DAG into BDD-form
-            void reduce();
+            size_t bdd_or_literals(const size_t i, const std::vector<std::pair<size_t,bool>>& literals);
+            size_t bdd_or_literals_impl(const size_t i, const size_t literal_nr, const std::vector<std::pair<size_t,bool>>& literals);
 
             std::vector<bdd_instruction> bdd_instructions;
             std::vector<size_t> bdd_delimiters = {0};
@@ -374,45 +374,15 @@ namespace BDD {
         size_t bdd_collection::bdd_or_var(const size_t i, const VAR_SET& positive_variables, const VAR_SET& negative_variables)
         {
             assert(i < nr_bdds());
-            // copy old bdd instructions
-            for(size_t idx=bdd_delimiters[i]; idx<bdd_delimiters[i+1]; ++idx)
-            {
-                bdd_instruction instr = bdd_instructions[idx];
-                if(!instr.is_terminal())
-                {
-                    instr.lo += bdd_delimiters.back() - bdd_delimiters[i];
-                    instr.hi += bdd_delimiters.back() - bdd_delimiters[i];
-                }
-                bdd_instructions.push_back(instr);
-            }
-            bdd_delimiters.push_back(bdd_instructions.size());
-
-            assert(bdd_instructions.back().is_terminal());
-            assert(bdd_instructions[bdd_instructions.size()-2].is_terminal());
-            assert(bdd_instructions[bdd_instructions.size()-1] != bdd_instructions[bdd_instructions.size()-2]);
-
-            const size_t botsink_index = bdd_instructions[bdd_instructions.size()-1].is_botsink() ? bdd_instructions.size()-1 : bdd_instructions.size()-2;
-            assert(bdd_instructions[botsink_index].is_botsink());
-            const size_t topsink_index = bdd_instructions[bdd_instructions.size()-1].is_topsink() ? bdd_instructions.size()-1 : bdd_instructions.size()-2;
-            assert(bdd_instructions[topsink_index].is_topsink());
-            assert(botsink_index != topsink_index);
-
-            // reroute arcs to topsink for instructions that cover positive or negative variables
-            const size_t new_bdd_nr = bdd_delimiters.size()-2;
-            for(size_t idx=bdd_delimiters[new_bdd_nr]; idx<bdd_delimiters[new_bdd_nr+1]; ++idx)
-            {
-                auto& instr = bdd_instructions[idx];
-                if(instr.is_terminal())
-                    continue;
-                if(positive_variables.count(instr.index) > 0)
-                    instr.hi = topsink_index; 
-                if(negative_variables.count(instr.index) > 0)
-                    instr.lo = topsink_index; 
-            }
-
-            reduce(); 
-            assert(is_bdd(new_bdd_nr));
-            return new_bdd_nr;
+            // literals sorted by variable. Second entry is true for positive literals
+            std::vector<std::pair<size_t,bool>> literals;
+            for(const size_t v : positive_variables)
+                literals.push_back({v, true});
+            for(const size_t v : negative_variables)
+                literals.push_back({v, false});
+            std::sort(literals.begin(), literals.end());
+            literals.erase(std::unique(literals.begin(), literals.end()), literals.end());
+            return bdd_or_literals(i, literals);
         }
 
 
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index d9c79ff..c15291f 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -2,7 +2,6 @@
 #include <deque>
 #include <cassert>
 #include <unordered_set>
-#include <iostream> // TODO: remove
 
 namespace BDD {
 
@@ -455,81 +454,75 @@ namespace BDD {
         return true;
     }
 
-    void bdd_collection::reduce()
+    size_t bdd_collection::bdd_or_literals(const size_t i, const std::vector<std::pair<size_t,bool>>& literals)
     {
-        assert(nr_bdds() > 0);
-        const size_t bdd_nr = nr_bdds() - 1;
+        assert(i < nr_bdds());
+        assert(stack.empty());
+        assert(generated_nodes.empty());
+        assert(reduction.empty());
+
+        // generate terminal vertices
+        stack.push_back(bdd_instruction::botsink());
+        stack.push_back(bdd_instruction::topsink());
+        const size_t root_idx = bdd_or_literals_impl(bdd_delimiters[i], 0, literals);
+        if(root_idx == 0) // constant false: root comes first
+            std::swap(stack[0], stack[1]);
 
-        std::vector<char> remove(nr_bdd_nodes(bdd_nr), false);
-        
-        // remove nodes with identical lo and hi arcs
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
+        const size_t offset = bdd_delimiters.back();
+        for(ptrdiff_t s = stack.size()-1; s>=0; --s)
         {
-            bdd_instruction& instr = bdd_instructions[idx];
-            bdd_instruction& lo = bdd_instructions[instr.lo];
-            bdd_instruction& hi = bdd_instructions[instr.hi];
-            if(!lo.is_terminal() && lo.lo == lo.hi)
-                instr.lo = bdd_instructions[lo.lo].lo;
-            if(!hi.is_terminal() && hi.lo == hi.hi)
-                instr.hi = bdd_instructions[hi.hi].hi;
-            if(instr.lo == instr.hi)
-            {
-                std::cout << "remove instr due to same lo and hi\n";
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
-            }
+            const size_t lo = offset + stack.size() - stack[s].lo - 1;
+            const size_t hi = offset + stack.size() - stack[s].hi - 1;
+            bdd_instructions.push_back({lo, hi, stack[s].index});
         }
+        bdd_delimiters.push_back(bdd_instructions.size());
 
-        // remove isomorphic subgraphs
-        std::unordered_map<bdd_instruction, size_t, bdd_instruction_hasher> bdd_map;
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-1], bdd_delimiters[bdd_nr+1]-1});
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-2], bdd_delimiters[bdd_nr+1]-2});
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
+        generated_nodes.clear();
+        reduction.clear();
+        stack.clear();
+        assert(is_bdd(bdd_delimiters.size()-2));
+        return bdd_delimiters.size()-2;
+    }
+
+    // disjunction of bdd rooted at instruction f_i and the literals from literal_nr onwards. Return index on stack.
+    size_t bdd_collection::bdd_or_literals_impl(const size_t f_i, const size_t literal_nr, const std::vector<std::pair<size_t,bool>>& literals)
+    {
+        const auto it = generated_nodes.find({f_i,literal_nr});
+        if(it != generated_nodes.end())
+            return it->second;
+
+        const bdd_instruction f = bdd_instructions[f_i];
+        if(f.is_topsink())
+            return 1; //topsink position on stack
+        if(f.is_botsink() && literal_nr == literals.size())
+            return 0; //botsink position on stack
+
+        const size_t v = literal_nr < literals.size() ? std::min(f.index, literals[literal_nr].first) : f.index;
+        // a variable can have a positive and a negative literal
+        bool lo_true = false;
+        bool hi_true = false;
+        size_t next_literal_nr = literal_nr;
+        for(; next_literal_nr < literals.size() && literals[next_literal_nr].first == v; ++next_literal_nr)
+            (literals[next_literal_nr].second ? hi_true : lo_true) = true;
+
+        const size_t lo = lo_true ? 1 : bdd_or_literals_impl(v == f.index ? f.lo : f_i, next_literal_nr, literals);
+        const size_t hi = hi_true ? 1 : bdd_or_literals_impl(v == f.index ? f.hi : f_i, next_literal_nr, literals);
+
+        size_t idx = lo;
+        if(lo != hi)
         {
-            if(remove[idx - bdd_delimiters[bdd_nr]])
-                continue;
-            bdd_instruction& instr = bdd_instructions[idx];
-            auto it = bdd_map.find(instr);
-            if(it == bdd_map.end())
-                bdd_map.insert({instr, idx});
+            const auto reduction_it = reduction.find({lo,hi,v});
+            if(reduction_it != reduction.end())
+                idx = reduction_it->second;
             else
             {
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
-                std::cout << "remove due to isomorphic subgraphs\n";
+                stack.push_back({lo, hi, v});
+                idx = stack.size()-1;
+                reduction.insert(std::make_pair(bdd_instruction{lo,hi,v}, idx));
             }
-            assert(bdd_map.count(bdd_instructions[instr.lo]) > 0);
-            assert(bdd_map.count(bdd_instructions[instr.hi]) > 0);
-            instr.lo = bdd_map.find(bdd_instructions[instr.lo])->second;
-            instr.hi = bdd_map.find(bdd_instructions[instr.hi])->second;
-        }
-
-        // compactify: remove unused instructions and move remaining ones to contiguous placement
-        const size_t nr_remaining_instructions = std::count(remove.begin(), remove.end(), false);
-        std::vector<bdd_instruction> new_bdd_instructions;
-        new_bdd_instructions.reserve(nr_remaining_instructions);
-        std::vector<size_t> address_delta;
-        // TODO: counted correctly?
-        address_delta.reserve(nr_bdd_nodes(bdd_nr));
-        address_delta.push_back(0);
-        std::partial_sum(remove.begin(), remove.end()-1, std::back_inserter(address_delta));
-            
-        for(size_t idx=bdd_delimiters[bdd_nr]; idx<bdd_delimiters[bdd_nr+1]-2; ++idx)
-        {
-            if(remove[idx - bdd_delimiters[bdd_nr]])
-                continue;
-            bdd_instruction instr = bdd_instructions[idx];
-            instr.lo -= address_delta[instr.lo-bdd_delimiters[bdd_nr]];
-            instr.hi -= address_delta[instr.hi-bdd_delimiters[bdd_nr]]; 
-            new_bdd_instructions.push_back(instr);
         }
-        new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-2]);
-        new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-1]);
-        std::cout << "new bdd has " << new_bdd_instructions.size() << " nodes\n";
-
-        bdd_instructions.resize(bdd_delimiters[bdd_nr]);
-        for(const auto instr : new_bdd_instructions)
-            bdd_instructions.push_back(instr);
-        bdd_delimiters.back() = bdd_instructions.size(); 
-        assert(is_bdd(bdd_nr));
+        generated_nodes.insert(std::make_pair(std::array<size_t,2>{f_i,literal_nr}, idx));
+        return idx;
     }
 
     std::vector<size_t> bdd_collection::variables(const size_t bdd_nr) const
-- 
2.43.0


From 12ef8f637fd608ab6e015bfbd3cb7c26ec671161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 18/20] fix: constructing a bdd node by node in a
 bdd_collection

---
 include/bdd_collection.h | 61 ++++++++++++++++++++++------------------
 src/bdd_collection.cpp   | 42 ++++++++++++++++++---------
 2 files changed, 61 insertions(+), 42 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index f860deb..df07f26 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -54,7 +54,37 @@ namespace BDD {
         } 
     };
 
-    class bdd_collection_entry;
+    class bdd_collection;
+    class bdd_collection_node;
+
+    // convenience class to make bdd_collection bdds behave similary to node_ref
+    class bdd_collection_entry 
+    {
+        friend class bdd_collection_node;
+        public:
+            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
+            std::vector<size_t> variables();
+            bdd_collection_entry operator&(bdd_collection_entry& o);
+            bdd_collection_node operator[](const size_t i) const;
+            size_t nr_nodes() const;
+            size_t nr_nodes(const size_t variable) const;
+            template<typename ITERATOR>
+                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
+            template<typename VAR_MAP>
+                void rebase(const VAR_MAP& var_map);
+
+            bdd_collection_node root_node() const;
+            bdd_collection_node first_node_postorder() const;
+            bdd_collection_node botsink() const;
+            bdd_collection_node topsink() const;
+
+        private:
+            // false while bdd is under construction and has no sinks yet
+            bool is_closed() const;
+
+            const size_t bdd_nr;
+            bdd_collection& bdd_col;
+    };
 
     // convenience class for wrapping bdd node
     class bdd_collection_node
@@ -62,6 +92,7 @@ namespace BDD {
         friend class std::hash<bdd_collection_node>;
         public:
             bdd_collection_node(const size_t _i, const bdd_collection_entry& _bce);
+            bdd_collection_node(const bdd_collection_node&) = default;
             bdd_collection_node lo() const;
             bdd_collection_node low() const { return lo(); }
             bdd_collection_node hi() const;
@@ -85,33 +116,7 @@ namespace BDD {
 
         private:
             size_t i; 
-            const bdd_collection_entry& bce;
-    };
-
-    // convenience class to make bdd_collection bdds behave similary to node_ref
-    class bdd_collection_entry 
-    {
-        friend class bdd_collection_node;
-        public:
-            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
-            std::vector<size_t> variables();
-            bdd_collection_entry operator&(bdd_collection_entry& o);
-            bdd_collection_node operator[](const size_t i) const;
-            size_t nr_nodes() const;
-            size_t nr_nodes(const size_t variable) const;
-            template<typename ITERATOR>
-                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
-            template<typename VAR_MAP>
-                void rebase(const VAR_MAP& var_map);
-
-            bdd_collection_node root_node() const;
-            bdd_collection_node first_node_postorder() const;
-            bdd_collection_node botsink() const;
-            bdd_collection_node topsink() const;
-
-        private:
-            const size_t bdd_nr;
-            bdd_collection& bdd_col;
+            bdd_collection_entry bce;
     };
 
     class bdd_collection {
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index c15291f..d5787be 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -559,37 +559,44 @@ namespace BDD {
         instr.lo = bdd_instruction::temp_undefined_index;
         instr.hi = bdd_instruction::temp_undefined_index;
         bdd_instructions.push_back(instr);
+        bdd_delimiters.back() = bdd_instructions.size();
         return bdd_collection_node(bdd_instructions.size()-1, bdd_collection_entry(bdd_delimiters.size()-2, *this));
     }
 
     void bdd_collection::close_bdd()
     {
+        const size_t first = bdd_delimiters[bdd_delimiters.size()-2];
+        const size_t last = bdd_instructions.size();
+        for(size_t idx=first; idx<last; ++idx)
+        {
+            if(bdd_instructions[idx].lo == bdd_instruction::temp_undefined_index)
+                throw std::runtime_error("bdd lo arc not set");
+            if(bdd_instructions[idx].hi == bdd_instruction::temp_undefined_index)
+                throw std::runtime_error("bdd hi arc not set");
+        }
+
         // add top and botsink
         bdd_instructions.push_back(bdd_instruction::topsink());
         bdd_instructions.push_back(bdd_instruction::botsink());
 
         // go over previous bdd instructions and reroute topsink and botsink entries to correct entries
-        for(size_t idx=bdd_delimiters[bdd_delimiters.size()-2]; idx<bdd_delimiters[bdd_delimiters.size()-1]-2; ++idx)
+        for(size_t idx=first; idx<last; ++idx)
         {
             auto& instr = bdd_instructions[idx];
 
-            if(instr.lo == bdd_instruction::temp_undefined_index)
-                throw std::runtime_error("bdd lo arc not set");
-            else if(instr.lo == bdd_instruction::temp_topsink_index)
+            if(instr.lo == bdd_instruction::temp_topsink_index)
                 instr.lo = bdd_instructions.size()-2;
             else if(instr.lo == bdd_instruction::temp_botsink_index)
                 instr.lo = bdd_instructions.size()-1;
             else
-                assert(instr.lo < bdd_instructions.size() && instr.lo >= bdd_delimiters[bdd_delimiters.size()-2]);
+                assert(instr.lo < last && instr.lo >= first);
 
-            if(instr.hi == bdd_instruction::temp_undefined_index)
-                throw std::runtime_error("bdd hi arc not set");
-            else if(instr.hi == bdd_instruction::temp_topsink_index)
+            if(instr.hi == bdd_instruction::temp_topsink_index)
                 instr.hi = bdd_instructions.size()-2;
             else if(instr.hi == bdd_instruction::temp_botsink_index)
                 instr.hi = bdd_instructions.size()-1;
             else
-                assert(instr.hi < bdd_instructions.size() && instr.hi >= bdd_delimiters[bdd_delimiters.size()-2]); 
+                assert(instr.hi < last && instr.hi >= first);
         }
 
         bdd_delimiters.back() = bdd_instructions.size();
@@ -628,6 +635,12 @@ namespace BDD {
         return bdd_collection_entry(new_bdd_nr, bdd_col);
     }
 
+    bool bdd_collection_entry::is_closed() const
+    {
+        const auto& last_instr = bdd_col.bdd_instructions[bdd_col.bdd_delimiters[bdd_nr+1]-1];
+        return last_instr.is_botsink() || last_instr.is_topsink();
+    }
+
     bdd_collection_node bdd_collection_entry::root_node() const
     {
         return bdd_collection_node(bdd_col.bdd_delimiters[bdd_nr], *this);
@@ -723,25 +736,25 @@ namespace BDD {
     void bdd_collection_node::set_lo_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.botsink().i;
+        instr.lo = bce.is_closed() ? bce.botsink().i : bdd_instruction::temp_botsink_index;
     }
 
     void bdd_collection_node::set_lo_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.topsink().i;
+        instr.lo = bce.is_closed() ? bce.topsink().i : bdd_instruction::temp_topsink_index;
     }
 
     void bdd_collection_node::set_hi_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.botsink().i;
+        instr.hi = bce.is_closed() ? bce.botsink().i : bdd_instruction::temp_botsink_index;
     }
 
     void bdd_collection_node::set_hi_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.topsink().i;
+        instr.hi = bce.is_closed() ? bce.topsink().i : bdd_instruction::temp_topsink_index;
     }
 
     bdd_collection_node bdd_collection_node::next_postorder() const
@@ -764,7 +777,8 @@ namespace BDD {
 
     bdd_collection_node bdd_collection_node::operator=(const bdd_collection_node& o)
     {
-        assert(&bce == &o.bce);
+        assert(&bce.bdd_col == &o.bce.bdd_col);
+        assert(bce.bdd_nr == o.bce.bdd_nr);
         i = o.i;
         return *this;
     }
-- 
2.43.0


From 81fdd3360cdc4baa8ca313ebfa207a6e2e227fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:02 +0000
Subject: [PATCH 19/20] fix: export_bdd of stored bdds that were rebased to
 another variable order

Nodes were created above nodes of smaller variables, unlike in bdd_mgr::add_bdd.
---
 src/bdd_collection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index d5787be..7bf891d 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -361,7 +361,8 @@ namespace BDD {
 
             node_ref lo = get_node_ref(bdd_instr.lo);
             node_ref hi = get_node_ref(bdd_instr.hi);
-            node_ref bdd = mgr.unique_find(bdd_instr.index, lo, hi);
+            // nodes of a rebased bdd need not be ordered by variable
+            node_ref bdd = mgr.ite_rec(mgr.projection(bdd_instr.index), hi, lo);
             assert(bdd_instr_hash.count(i) == 0);
             bdd_instr_hash.insert({i, bdd});
         }
-- 
2.43.0


From d4c7f5d9bfd496f04696f79c3d33f3c38880af34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:38 +0000
Subject: [PATCH 20/20] fix: rebasing by an empty map adds no variable

---
 include/bdd_mgr.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index 5eb6b8f..37a21ad 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -99,11 +99,9 @@ namespace BDD {
     template<typename VAR_MAP>
     node_ref bdd_mgr::rebase(node_ref p, const VAR_MAP& var_map)
     {
-        size_t last_var = 0;
         for(const auto [x,y] : var_map)
-            last_var = std::max(y, last_var);
-        for(size_t i=nr_variables(); i<=last_var; ++i)
-            add_variable();
+            for(size_t i=nr_variables(); i<=y; ++i)
+                add_variable();
 
         // copy nodes one by one in postordering
         const auto postorder = p.address()->nodes_postorder();
-- 
2.43.0

