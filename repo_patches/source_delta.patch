From 5b438218e2a4175bcdfdbe1ae765dcf88ebf0bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 01/42] fix: keep the weight of a scaled identity in the
 Kronecker product

The shortcut for identity left operands only used the right operand's weight,
so kronecker(c*I, Y) evaluated to I (x) Y.
---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 1986f39..297af7d 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1992,7 +1992,7 @@ namespace dd {
                         e   = makeDDNode(idx, std::array{e, Edge<Node>::zero, Edge<Node>::zero, e});
                     }
 
-                    e.w = cn.getCached(CTEntry::val(y.w.r), CTEntry::val(y.w.i));
+                    e.w = cn.mulCached(x.w, y.w);
                     computeTable.insert(x, y, {e.p, e.w});
                     return e;
                 }
-- 
2.43.0


From 7bbd21e697d76dd1460608a45d98c4486fc74e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 02/42] fix: place identity levels correctly in Kronecker
 products without index shift

With incIdx=false, the identity shortcut stacked all of its nodes on the top
level of the right operand, which yielded an invalid decision diagram.
---
 include/dd/Package.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 297af7d..a344c62 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1985,11 +1985,13 @@ namespace dd {
             // special case handling for matrices
             if constexpr (n == NEDGE) {
                 if (x.p->isIdentity()) {
-                    auto idx = incIdx ? static_cast<Qubit>(y.p->v + 1) : y.p->v;
-                    auto e   = makeDDNode(idx, std::array{y, Edge<Node>::zero, Edge<Node>::zero, y});
-                    for (auto i = 0; i < x.p->v; ++i) {
-                        idx = incIdx ? static_cast<Qubit>(e.p->v + 1) : e.p->v;
-                        e   = makeDDNode(idx, std::array{e, Edge<Node>::zero, Edge<Node>::zero, e});
+                    // without index shift, the levels of `x` are located directly above the ones of `y`
+                    const auto top = incIdx ? static_cast<Qubit>(y.p->v + x.p->v + 1) : x.p->v;
+                    auto       idx = static_cast<Qubit>(y.p->v + 1);
+                    auto       e   = makeDDNode(idx, std::array{y, Edge<Node>::zero, Edge<Node>::zero, y});
+                    while (idx < top) {
+                        ++idx;
+                        e = makeDDNode(idx, std::array{e, Edge<Node>::zero, Edge<Node>::zero, e});
                     }
 
                     e.w = cn.mulCached(x.w, y.w);
-- 
2.43.0


From 189ced62c1808b3f43d5907d4052b2c3ad06ed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 03/42] fix: do not mix up Kronecker products with and without
 index shift

The compute table is not keyed by incIdx, so a product requested with
incIdx=false could return the cached result computed with incIdx=true.
---
 include/dd/Package.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index a344c62..380aa19 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1974,7 +1974,8 @@ namespace dd {
 
             auto& computeTable = getKroneckerComputeTable<Node>();
             auto  r            = computeTable.lookup(x, y);
-            if (r.p != nullptr) {
+            // the compute table does not distinguish between results with and without index shift
+            if (r.p != nullptr && (r.p->v == -1 || r.p->v == (incIdx ? static_cast<Qubit>(y.p->v + x.p->v + 1) : x.p->v))) {
                 if (r.w.approximatelyZero()) {
                     return Edge<Node>::zero;
                 }
-- 
2.43.0


From 79f0fa78238ddc12f13bc7e780ebe3662d1398d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 04/42] fix: transfer of decision diagrams with shared
 successors

The traversal inspected the top of an empty stack (e.g., for single-qubit DDs)
and skipped successors of a node whenever an already processed successor was
still pending on the stack, which left null nodes in the result.
---
 include/dd/Package.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 380aa19..3e414f0 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2915,8 +2915,13 @@ namespace dd {
                     currentEdge = stack.top();
                     stack.pop();
 
+                    // drop pending nodes that have been mapped in the meantime (e.g., successors shared by several edges)
+                    while (!stack.empty() && mappedNode.find(stack.top()->p) != mappedNode.end()) {
+                        stack.pop();
+                    }
+
                     bool hasChild = false;
-                    for (std::size_t i = 1; i < n && !hasChild; ++i) {
+                    for (std::size_t i = 1; i < n && !hasChild && !stack.empty(); ++i) {
                         auto& edge = currentEdge->p->e[i];
                         if (edge.w.approximatelyZero()) {
                             continue;
-- 
2.43.0


From b85cf10dc97e0ca9fee056f6cc74698f2b0a20ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 05/42] fix: only use the identity table for identities
 starting at qubit 0

makeIdent(l, m) with l > 0 returned the identity on qubits 0..m if the identity
on qubits 0..m-1 had been created before.
---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 3e414f0..f551ae8 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2183,7 +2183,7 @@ namespace dd {
             if (leastSignificantQubit == 0 && idTable[static_cast<std::size_t>(mostSignificantQubit)].p != nullptr) {
                 return idTable[static_cast<std::size_t>(mostSignificantQubit)];
             }
-            if (mostSignificantQubit >= 1 && (idTable[static_cast<std::size_t>(mostSignificantQubit - 1)]).p != nullptr) {
+            if (leastSignificantQubit == 0 && mostSignificantQubit >= 1 && (idTable[static_cast<std::size_t>(mostSignificantQubit - 1)]).p != nullptr) {
                 idTable[static_cast<std::size_t>(mostSignificantQubit)] = makeDDNode(mostSignificantQubit,
                                                                                      std::array{idTable[static_cast<std::size_t>(mostSignificantQubit - 1)],
                                                                                                 mEdge::zero,
-- 
2.43.0


From 1f666c8b113ded3e058fb153620a81fce1b716c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 06/42] fix: two-qubit gates on systems with the maximal number
 of qubits

The bound n + start overflows the qubit type for 128 qubits, so that the levels
above the targets were missing.
---
 include/dd/Package.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index f551ae8..fa03b8a 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -619,7 +619,8 @@ namespace dd {
             auto e = makeDDNode(z, em0);
 
             // process lines above the larger target (by creating identity structures)
-            for (++z; z < static_cast<Qubit>(n + start); ++z) {
+            while (z < static_cast<Qubit>(n - 1 + start)) {
+                ++z;
                 e = makeDDNode(z, std::array{e, mEdge::zero, mEdge::zero, e});
             }
 
-- 
2.43.0


From ff850fbf6c8a4d1bade3d99f4b288d9cb9447824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 07/42] fix: collapsing measurement of states with the maximal
 number of qubits

The loop variable overflowed for 128 qubits.
---
 include/dd/Package.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index fa03b8a..5e7dc68 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1142,15 +1142,15 @@ namespace dd {
                 vEdge                e = vEdge::one;
                 std::array<vEdge, 2> edges{};
 
-                for (Qubit p = 0; p < numberOfQubits; p++) {
-                    if (result[static_cast<std::size_t>(p)] == '0') {
+                for (std::size_t p = 0; p < numberOfQubits; p++) {
+                    if (result[p] == '0') {
                         edges[0] = e;
                         edges[1] = vEdge::zero;
                     } else {
                         edges[0] = vEdge::zero;
                         edges[1] = e;
                     }
-                    e = makeDDNode(p, edges, false);
+                    e = makeDDNode(static_cast<Qubit>(p), edges, false);
                 }
                 incRef(e);
                 rootEdge = e;
-- 
2.43.0


From 2b99ba259b22175747f08a1420f4db764cce099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 08/42] fix: keep edge weights when reducing ancillary qubits

The weight of a successor reached over several edges was copied from the first
of these edges, and the normalization factor of a reduced node was dropped when
the node itself belongs to an ancillary qubit (e.g., Z (x) I lost its -1).
---
 include/dd/Package.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 5e7dc68..edea634 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2337,10 +2337,13 @@ namespace dd {
                     if (e.p->e[i].isTerminal()) {
                         edges[i] = e.p->e[i];
                     } else {
-                        edges[i] = reduceAncillaeRecursion(f.p->e[i], ancillary, lowerbound, regular);
-                        for (auto j = i + 1; j < NEDGE; ++j) {
+                        mEdge      successor{f.p->e[i].p, Complex::one};
+                        const auto reduced = reduceAncillaeRecursion(successor, ancillary, lowerbound, regular);
+                        for (auto j = i; j < NEDGE; ++j) {
                             if (e.p->e[i].p == e.p->e[j].p) {
-                                edges[j] = edges[i];
+                                auto w   = cn.mulCached(reduced.w, e.p->e[j].w);
+                                edges[j] = {reduced.p, cn.lookup(w)};
+                                cn.returnToCache(w);
                                 handled.set(j);
                             }
                         }
@@ -2348,7 +2351,9 @@ namespace dd {
                     handled.set(i);
                 }
             }
-            f = makeDDNode(f.p->v, edges);
+            f               = makeDDNode(f.p->v, edges);
+            const auto norm = f.w;
+            f.w             = Complex::one;
 
             // something to reduce for this qubit
             if (f.p->v >= 0 && ancillary[static_cast<std::size_t>(f.p->v)]) {
@@ -2363,7 +2368,8 @@ namespace dd {
                 }
             }
 
-            auto c = cn.mulCached(f.w, e.w);
+            auto c = cn.mulCached(f.w, norm);
+            ComplexNumbers::mul(c, c, e.w);
             f.w    = cn.lookup(c);
             cn.returnToCache(c);
             return f;
-- 
2.43.0


From c0d60e3b51cac7a7297c80d51e135b995f904458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 09/42] fix: return nodes that turn out to be zero to the
 unique table

Nodes requested for intermediate results that are equal to zero were never
returned, so that memory consumption grew with every such operation.
---
 include/dd/Package.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index edea634..93a31a1 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1012,9 +1012,15 @@ namespace dd {
             }
 
             // normalize it
-            e = normalize(e, cached);
+            auto* const node = e.p;
+            e                = normalize(e, cached);
             assert(e.p->v == var || e.isTerminal());
 
+            if (cached && e.isTerminal()) {
+                // the node turned out to be zero in a cached computation and has to be put back into the chain
+                uniqueTable.returnNode(node);
+            }
+
             // look it up in the unique tables
             auto l = uniqueTable.lookup(e, false);
             assert(l.p->v == var || l.isTerminal());
-- 
2.43.0


From 3bb69ac186a9bce0a27d287f198ed9ac6ac70d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 10/42] fix: report collected density matrix nodes in
 garbageCollect

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 93a31a1..e745f99 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -981,7 +981,7 @@ namespace dd {
                 densityDensityMultiplication.clear();
                 densityNoise.clear();
             }
-            return vCollect > 0 || mCollect > 0 || cCollect > 0;
+            return vCollect > 0 || mCollect > 0 || dCollect > 0 || cCollect > 0;
         }
 
         void clearUniqueTables() {
-- 
2.43.0


From ab1eeb5bdb86a016a84341adb73d28392bd699ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 11/42] fix: do not share the visited set of size() among
 package instances

The function-local static set was a data race when independent packages are used
in different threads.
---
 include/dd/Package.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index e745f99..7eeffb8 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2239,10 +2239,8 @@ namespace dd {
         ///
         template<class Edge>
         unsigned int size(const Edge& e) {
-            static constexpr unsigned int            NODECOUNT_BUCKETS = 200000;
-            static std::unordered_set<decltype(e.p)> visited{NODECOUNT_BUCKETS}; // 2e6
+            std::unordered_set<decltype(e.p)> visited{};
             visited.max_load_factor(10);
-            visited.clear();
             return nodeCount(e, visited);
         }
 
-- 
2.43.0


From eea53cfa34a2f13113e5bcb5ea05df729c992275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 12/42] fix: extract vectors and matrices from terminal
 decision diagrams

The dimension was computed as 2 << -1, and the extraction threw.
---
 include/dd/Package.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 7eeffb8..2b7eec3 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2651,6 +2651,9 @@ namespace dd {
         }
 
         CVec getVector(const vEdge& e) {
+            if (e.isTerminal()) {
+                return {{CTEntry::val(e.w.r), CTEntry::val(e.w.i)}};
+            }
             const std::size_t dim = 2ULL << e.p->v;
             // allocate resulting vector
             auto vec = CVec(dim, {0.0, 0.0});
@@ -2713,6 +2716,9 @@ namespace dd {
         }
 
         CMat getMatrix(const mEdge& e) {
+            if (e.isTerminal()) {
+                return {{{CTEntry::val(e.w.r), CTEntry::val(e.w.i)}}};
+            }
             const std::size_t dim = 2ULL << e.p->v;
             // allocate resulting matrix
             auto mat = CMat(dim, CVec(dim, {0.0, 0.0}));
-- 
2.43.0


From 471e71ad4ff0d11f0e13cb7a5b40511f780b41c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 13/42] fix: reject basis states with too few qubit states

The states are indexed by the absolute qubit index, but the check did not take
the start index into account (and was missing for Boolean states).
---
 include/dd/Package.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 2b7eec3..9b41caa 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -254,6 +254,10 @@ namespace dd {
                                          std::to_string(nqubits) +
                                          " qubits. Please allocate a larger package instance."};
             }
+            if (state.size() < n + start) {
+                throw std::runtime_error("Insufficient qubit states provided. Requested " + std::to_string(n + start) + ", but received " + std::to_string(state.size()));
+            }
+
             auto f = vEdge::one;
             for (std::size_t p = start; p < n + start; ++p) {
                 if (!state[p]) {
@@ -273,8 +277,8 @@ namespace dd {
                                          std::to_string(nqubits) +
                                          " qubits. Please allocate a larger package instance."};
             }
-            if (state.size() < n) {
-                throw std::runtime_error("Insufficient qubit states provided. Requested " + std::to_string(n) + ", but received " + std::to_string(state.size()));
+            if (state.size() < n + start) {
+                throw std::runtime_error("Insufficient qubit states provided. Requested " + std::to_string(n + start) + ", but received " + std::to_string(state.size()));
             }
 
             auto f = vEdge::one;
-- 
2.43.0


From 4d4e76a706c34483be86059f8acee4dad7fe887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 14/42] fix: keep normalization factors of inner nodes when
 transferring DDs

If the weights of a node are almost equal in magnitude, normalizing it again may
select another edge and yield a factor (e.g., a phase) that was dropped.
---
 include/dd/Package.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 9b41caa..b216bc9 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2908,7 +2908,7 @@ namespace dd {
             Edge              root{};
             std::stack<Edge*> stack;
 
-            std::unordered_map<decltype(original.p), decltype(original.p)> mappedNode{};
+            std::unordered_map<decltype(original.p), Edge> mappedNode{};
 
             Edge* currentEdge = &original;
             if (!currentEdge->isTerminal()) {
@@ -2967,13 +2967,18 @@ namespace dd {
                         for (std::size_t i = 0; i < n; i++) {
                             if (currentEdge->p->e[i].isTerminal()) {
                                 edges[i].p = currentEdge->p->e[i].p;
+                                edges[i].w = cn.lookup(currentEdge->p->e[i].w);
                             } else {
-                                edges[i].p = mappedNode[currentEdge->p->e[i].p];
+                                // the normalization might (in rare cases) yield a different factor than in the original package
+                                const auto& mapped = mappedNode.at(currentEdge->p->e[i].p);
+                                auto        c      = cn.getTemporary();
+                                dd::ComplexNumbers::mul(c, currentEdge->p->e[i].w, mapped.w);
+                                edges[i].p = mapped.p;
+                                edges[i].w = cn.lookup(c);
                             }
-                            edges[i].w = cn.lookup(currentEdge->p->e[i].w);
                         }
                         root                       = makeDDNode(currentEdge->p->v, edges);
-                        mappedNode[currentEdge->p] = root.p;
+                        mappedNode[currentEdge->p] = root;
                         currentEdge                = nullptr;
                     }
                 } while (!stack.empty());
-- 
2.43.0


From f4846db82a9b16796ee421757ce55907fc4e6834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 15/42] fix: keep normalization factors of inner nodes when
 deserializing DDs

If the weights of a node are almost equal in magnitude, normalizing it again may
select another edge and yield a factor (e.g., a phase) that was dropped.
---
 include/dd/Package.hpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index b216bc9..e1e83a5 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -3004,11 +3004,11 @@ namespace dd {
             auto         result = Edge::zero;
             ComplexValue rootweight{};
 
-            std::unordered_map<std::int64_t, Node*> nodes{};
-            std::int64_t                            nodeIndex{};
-            Qubit                                   v{};
-            std::array<ComplexValue, N>             edgeWeights{};
-            std::array<std::int64_t, N>             edgeIndices{};
+            std::unordered_map<std::int64_t, Edge> nodes{};
+            std::int64_t                           nodeIndex{};
+            Qubit                                  v{};
+            std::array<ComplexValue, N>            edgeWeights{};
+            std::array<std::int64_t, N>            edgeIndices{};
             edgeIndices.fill(-2);
 
             if (readBinary) {
@@ -3028,7 +3028,7 @@ namespace dd {
                         is.read(reinterpret_cast<char*>(&edgeIndices[i]), sizeof(decltype(edgeIndices[i])));
                         edgeWeights[i].readBinary(is);
                     }
-                    result = deserializeNode(nodeIndex, v, edgeIndices, edgeWeights, nodes);
+                    result = deserializeNode<Node>(nodeIndex, v, edgeIndices, edgeWeights, nodes);
                 }
             } else {
                 std::string version;
@@ -3088,7 +3088,7 @@ namespace dd {
                         edgeWeights[i].fromString(m.str(edgeIdx + 3), m.str(edgeIdx + 4));
                     }
 
-                    result = deserializeNode(nodeIndex, v, edgeIndices, edgeWeights, nodes);
+                    result = deserializeNode<Node>(nodeIndex, v, edgeIndices, edgeWeights, nodes);
                 }
             }
 
@@ -3113,7 +3113,7 @@ namespace dd {
 
     private:
         template<class Node, class Edge = Edge<Node>, std::size_t N = std::tuple_size_v<decltype(Node::e)>>
-        Edge deserializeNode(std::int64_t index, Qubit v, std::array<std::int64_t, N>& edgeIdx, std::array<ComplexValue, N>& edgeWeight, std::unordered_map<std::int64_t, Node*>& nodes) {
+        Edge deserializeNode(std::int64_t index, Qubit v, std::array<std::int64_t, N>& edgeIdx, std::array<ComplexValue, N>& edgeWeight, std::unordered_map<std::int64_t, Edge>& nodes) {
             if (index == -1) {
                 return Edge::zero;
             }
@@ -3124,16 +3124,21 @@ namespace dd {
                     edges[i] = Edge::zero;
                 } else {
                     if (edgeIdx[i] == -1) {
-                        edges[i] = Edge::one;
+                        edges[i]   = Edge::one;
+                        edges[i].w = cn.lookup(edgeWeight[i]);
                     } else {
-                        edges[i].p = nodes[edgeIdx[i]];
+                        // the normalization might (in rare cases) yield a different factor than upon serialization
+                        const auto& node = nodes[edgeIdx[i]];
+                        auto        c    = cn.getTemporary(edgeWeight[i]);
+                        ComplexNumbers::mul(c, c, node.w);
+                        edges[i].p = node.p;
+                        edges[i].w = cn.lookup(c);
                     }
-                    edges[i].w = cn.lookup(edgeWeight[i]);
                 }
             }
 
             auto newedge = makeDDNode(v, edges);
-            nodes[index] = newedge.p;
+            nodes[index] = newedge;
 
             // reset
             edgeIdx.fill(-2);
-- 
2.43.0


From fab88ae0293e26799527eaf4f651d70a9e99dc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 16/42] fix: deserialization of terminal decision diagrams

A terminal is serialized as its weight only, but was always read as zero.
---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index e1e83a5..de0d0fb 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -3001,7 +3001,7 @@ namespace dd {
 
         template<class Node, class Edge = Edge<Node>, std::size_t N = std::tuple_size_v<decltype(Node::e)>>
         Edge deserialize(std::istream& is, bool readBinary = false) {
-            auto         result = Edge::zero;
+            auto         result = Edge::one; // a terminal is serialized without any nodes
             ComplexValue rootweight{};
 
             std::unordered_map<std::int64_t, Edge> nodes{};
-- 
2.43.0


From 8260aa7de11ce92dbada257a25fd0d6cd2ee0afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 17/42] fix: reject malformed serialized decision diagrams

Truncated binary data, invalid qubit indices, unknown successors, and weights
that are not finite resulted in null nodes and out-of-bounds accesses.
---
 include/dd/Package.hpp | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index de0d0fb..0b7bddb 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -3021,6 +3021,9 @@ namespace dd {
                 if (!is.eof()) {
                     rootweight.readBinary(is);
                 }
+                if (!is) {
+                    throw std::runtime_error("Unexpected end of serialized decision diagram.");
+                }
 
                 while (is.read(reinterpret_cast<char*>(&nodeIndex), sizeof(decltype(nodeIndex)))) {
                     is.read(reinterpret_cast<char*>(&v), sizeof(decltype(v)));
@@ -3028,8 +3031,14 @@ namespace dd {
                         is.read(reinterpret_cast<char*>(&edgeIndices[i]), sizeof(decltype(edgeIndices[i])));
                         edgeWeights[i].readBinary(is);
                     }
+                    if (!is) {
+                        throw std::runtime_error("Unexpected end of serialized decision diagram.");
+                    }
                     result = deserializeNode<Node>(nodeIndex, v, edgeIndices, edgeWeights, nodes);
                 }
+                if (is.gcount() != 0) {
+                    throw std::runtime_error("Unexpected end of serialized decision diagram.");
+                }
             } else {
                 std::string version;
                 std::getline(is, version);
@@ -3076,8 +3085,12 @@ namespace dd {
                     // match 5: real + imag (without i)
                     // match 6: real
                     // match 7: imag (without i)
-                    nodeIndex = std::stoi(m.str(1));
-                    v         = static_cast<Qubit>(std::stoi(m.str(2)));
+                    nodeIndex        = std::stoi(m.str(1));
+                    const auto qubit = std::stoi(m.str(2));
+                    if (qubit > std::numeric_limits<Qubit>::max()) {
+                        throw std::runtime_error("Invalid qubit index in serialized decision diagram: " + std::to_string(qubit));
+                    }
+                    v = static_cast<Qubit>(qubit);
 
                     for (auto edgeIdx = 3U, i = 0U; i < N; i++, edgeIdx += 5) {
                         if (m.str(edgeIdx).empty()) {
@@ -3092,6 +3105,9 @@ namespace dd {
                 }
             }
 
+            if (!std::isfinite(rootweight.r) || !std::isfinite(rootweight.i)) {
+                throw std::runtime_error("Invalid edge weight in serialized decision diagram.");
+            }
             auto w = cn.getCached(rootweight.r, rootweight.i);
             ComplexNumbers::mul(w, result.w, w);
             result.w = cn.lookup(w);
@@ -3117,18 +3133,28 @@ namespace dd {
             if (index == -1) {
                 return Edge::zero;
             }
+            if (v < 0 || static_cast<std::size_t>(v) >= nqubits) {
+                throw std::runtime_error("Invalid qubit index in serialized decision diagram: " + std::to_string(v));
+            }
 
             std::array<Edge, N> edges{};
             for (auto i = 0U; i < N; ++i) {
                 if (edgeIdx[i] == -2) {
                     edges[i] = Edge::zero;
                 } else {
+                    if (!std::isfinite(edgeWeight[i].r) || !std::isfinite(edgeWeight[i].i)) {
+                        throw std::runtime_error("Invalid edge weight in serialized decision diagram.");
+                    }
                     if (edgeIdx[i] == -1) {
                         edges[i]   = Edge::one;
                         edges[i].w = cn.lookup(edgeWeight[i]);
                     } else {
                         // the normalization might (in rare cases) yield a different factor than upon serialization
-                        const auto& node = nodes[edgeIdx[i]];
+                        const auto it = nodes.find(edgeIdx[i]);
+                        if (it == nodes.end() || (!it->second.isTerminal() && it->second.p->v != v - 1)) {
+                            throw std::runtime_error("Invalid successor in serialized decision diagram: " + std::to_string(edgeIdx[i]));
+                        }
+                        const auto& node = it->second;
                         auto        c    = cn.getTemporary(edgeWeight[i]);
                         ComplexNumbers::mul(c, c, node.w);
                         edges[i].p = node.p;
-- 
2.43.0


From fc775777e1a662e8928648da6e4c8df68f0fd822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 18/42] fix: check the capacity of the package when
 constructing DDs

Zero density operators, identities, states from vectors, DDs from matrices, and
Kronecker products that exceed the number of qubits of the package accessed the
unique tables out of bounds, as did matrices with rows of different lengths.
---
 include/dd/Package.hpp | 57 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 0b7bddb..d5e8766 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -223,6 +223,13 @@ namespace dd {
         }
 
         dEdge makeZeroDensityOperator(QubitCount n) {
+            if (n > nqubits) {
+                throw std::runtime_error{"Requested density operator with " +
+                                         std::to_string(n) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
             auto f = dEdge::one;
             for (std::size_t p = 0; p < n; p++) {
                 f = makeDDNode(static_cast<Qubit>(p), std::array{f, dEdge::zero, dEdge::zero, dEdge::zero});
@@ -321,9 +328,18 @@ namespace dd {
                 return vEdge::terminal(cn.lookup(stateVector[0]));
             }
 
+            const auto n = static_cast<std::size_t>(std::log2(length));
+            if (n > nqubits) {
+                throw std::runtime_error{"Requested state with " +
+                                         std::to_string(n) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
+
             [[maybe_unused]] const auto before = cn.cacheCount();
 
-            const auto level = static_cast<Qubit>(std::log2(length) - 1);
+            const auto level = static_cast<Qubit>(n - 1);
             auto       state = makeStateFromVector(stateVector.begin(), stateVector.end(), level);
 
             // the recursive function makes use of the cache, so we have to clean it up
@@ -354,7 +370,7 @@ namespace dd {
             }
 
             const auto& width = matrix[0].size();
-            if (length != width) {
+            if (std::any_of(matrix.begin(), matrix.end(), [&](const auto& row) { return row.size() != length; })) {
                 throw std::invalid_argument("Matrix must be square.");
             }
 
@@ -362,9 +378,18 @@ namespace dd {
                 return mEdge::terminal(cn.lookup(matrix[0][0]));
             }
 
+            const auto n = static_cast<std::size_t>(std::log2(length));
+            if (n > nqubits) {
+                throw std::runtime_error{"Requested matrix with " +
+                                         std::to_string(n) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
+
             [[maybe_unused]] const auto before = cn.cacheCount();
 
-            const auto level = static_cast<Qubit>(std::log2(length) - 1);
+            const auto level = static_cast<Qubit>(n - 1);
 
             auto matrixDD = makeDDFromMatrix(matrix, level, 0, length, 0, width);
 
@@ -1953,6 +1978,14 @@ namespace dd {
                 throw std::invalid_argument("Kronecker is currently not supported for density matrices");
             }
 
+            if (incIdx && x.p->v + y.p->v + 2 > static_cast<std::int64_t>(nqubits)) {
+                throw std::runtime_error{"Requested Kronecker product with " +
+                                         std::to_string(x.p->v + y.p->v + 2) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
+
             auto e = kronecker2(x, y, incIdx);
 
             if (e.w != Complex::zero && !e.w.exactlyOne()) {
@@ -2185,11 +2218,27 @@ namespace dd {
         /// Identity matrices
         ///
         // create n-qubit identity DD. makeIdent(n) === makeIdent(0, n-1)
-        mEdge makeIdent(QubitCount n) { return makeIdent(0, static_cast<Qubit>(n - 1)); }
+        mEdge makeIdent(QubitCount n) {
+            if (n > nqubits) {
+                throw std::runtime_error{"Requested identity with " +
+                                         std::to_string(n) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
+            return makeIdent(0, static_cast<Qubit>(n - 1));
+        }
         mEdge makeIdent(Qubit leastSignificantQubit, Qubit mostSignificantQubit) {
             if (mostSignificantQubit < leastSignificantQubit) {
                 return mEdge::one;
             }
+            if (static_cast<std::size_t>(mostSignificantQubit) >= nqubits) {
+                throw std::runtime_error{"Requested identity with " +
+                                         std::to_string(mostSignificantQubit + 1) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
 
             if (leastSignificantQubit == 0 && idTable[static_cast<std::size_t>(mostSignificantQubit)].p != nullptr) {
                 return idTable[static_cast<std::size_t>(mostSignificantQubit)];
-- 
2.43.0


From 31db3a8eb483aca1d1c3436bc426afe39d4352d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 19/42] fix: hash of large numbers in the complex table

The conversion to an integer overflowed before the key was clipped.
---
 include/dd/ComplexTable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index 0f29cb1..a567080 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -130,8 +130,8 @@ namespace dd {
         // linear (clipped) hash function
         static constexpr std::int64_t hash(const fp val) {
             assert(val >= 0);
-            auto key = static_cast<std::int64_t>(std::nearbyint(val * MASK));
-            return std::min<std::int64_t>(key, MASK);
+            // clip before the conversion as large values are not representable as integers
+            return static_cast<std::int64_t>(std::min<fp>(std::nearbyint(val * MASK), MASK));
         }
 
         // access functions
-- 
2.43.0


From b4d9e1acaa0ed87a9e142c929b3439715ea5e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 20/42] fix: read amplitudes and entries by index on systems
 with more than 64 qubits

---
 include/dd/Package.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index d5e8766..f60b6d3 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2612,7 +2612,8 @@ namespace dd {
                 return {CTEntry::val(c.r), CTEntry::val(c.i)};
             }
 
-            const bool one = (i & (1ULL << e.p->v)) != 0U;
+            // qubits that cannot be addressed by the index are in state 0
+            const bool one = (e.p->v < std::numeric_limits<std::size_t>::digits) && (i & (1ULL << e.p->v)) != 0U;
 
             ComplexValue r{};
             if (!one && !e.p->e[0].w.approximatelyZero()) {
@@ -2637,8 +2638,10 @@ namespace dd {
                 return {CTEntry::val(c.r), CTEntry::val(c.i)};
             }
 
-            const bool row = (i & (1ULL << e.p->v)) != 0U;
-            const bool col = (j & (1ULL << e.p->v)) != 0U;
+            // qubits that cannot be addressed by the indices are in state 0
+            const bool addressable = e.p->v < std::numeric_limits<std::size_t>::digits;
+            const bool row         = addressable && (i & (1ULL << e.p->v)) != 0U;
+            const bool col         = addressable && (j & (1ULL << e.p->v)) != 0U;
 
             ComplexValue r{};
             if (!row && !col && !e.p->e[0].w.approximatelyZero()) {
-- 
2.43.0


From 34a33ddaceb3ddd589c57e0dd0df046ac5b4fcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 21/42] fix: multiplication of DDs that do not start at qubit 0

---
 include/dd/Package.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index f60b6d3..fc0b231 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1632,7 +1632,8 @@ namespace dd {
                 return ResultEdge::zero;
             }
 
-            if (var == start - 1) {
+            // the recursion ends at the terminals, which may be reached early if the operands do not start at qubit 0
+            if (var == start - 1 || (x.isTerminal() && y.isTerminal())) {
                 return ResultEdge::terminal(cn.mulCached(x.w, y.w));
             }
 
-- 
2.43.0


From 6613b496c4e917cf42b2b12e64d52b2d7ed09baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 22/42] fix: undefined float conversion when hashing complex
 values

---
 include/dd/ComplexValue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexValue.hpp b/include/dd/ComplexValue.hpp
index 00d9444..53bc2c3 100644
--- a/include/dd/ComplexValue.hpp
+++ b/include/dd/ComplexValue.hpp
@@ -245,8 +245,8 @@ namespace std {
     template<>
     struct hash<dd::ComplexValue> {
         std::size_t operator()(dd::ComplexValue const& c) const noexcept {
-            auto h1 = dd::murmur64(static_cast<std::size_t>(std::round(c.r / dd::ComplexTable<>::tolerance())));
-            auto h2 = dd::murmur64(static_cast<std::size_t>(std::round(c.i / dd::ComplexTable<>::tolerance())));
+            auto h1 = dd::murmur64(std::hash<dd::fp>{}(std::round(c.r / dd::ComplexTable<>::tolerance())));
+            auto h2 = dd::murmur64(std::hash<dd::fp>{}(std::round(c.i / dd::ComplexTable<>::tolerance())));
             return dd::combineHash(h1, h2);
         }
     };
-- 
2.43.0


From f3158d5005bef3f4cfef09de27d9c1fd73ad83a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 23/42] fix: do not keep controlled gates with collected
 weights in the Toffoli table

---
 include/dd/Package.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index fc0b231..ba4edad 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1005,6 +1005,7 @@ namespace dd {
                 vectorInnerProduct.clear();
                 vectorKronecker.clear();
                 matrixKronecker.clear();
+                toffoliTable.clear();
                 stochasticNoiseOperationCache.clear();
                 densityAdd.clear();
                 densityDensityMultiplication.clear();
-- 
2.43.0


From d21f7e3b97494a4226f931c66300d11452bd4fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 24/42] fix: no negative zero for numbers at the tolerance
 boundary

---
 include/dd/ComplexNumbers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexNumbers.hpp b/include/dd/ComplexNumbers.hpp
index 6a45318..dee28a7 100644
--- a/include/dd/ComplexNumbers.hpp
+++ b/include/dd/ComplexNumbers.hpp
@@ -160,7 +160,7 @@ namespace dd {
             if (signR) {
                 auto absr = std::abs(r);
                 // if absolute value is close enough to zero, just return the zero entry (avoiding -0.0)
-                if (absr < decltype(complexTable)::tolerance()) {
+                if (absr <= decltype(complexTable)::tolerance()) {
                     ret.r = &decltype(complexTable)::zero;
                 } else {
                     ret.r = CTEntry::getNegativePointer(complexTable.lookup(absr));
@@ -173,7 +173,7 @@ namespace dd {
             if (signI) {
                 auto absi = std::abs(i);
                 // if absolute value is close enough to zero, just return the zero entry (avoiding -0.0)
-                if (absi < decltype(complexTable)::tolerance()) {
+                if (absi <= decltype(complexTable)::tolerance()) {
                     ret.i = &decltype(complexTable)::zero;
                 } else {
                     ret.i = CTEntry::getNegativePointer(complexTable.lookup(absi));
-- 
2.43.0


From dc54e69b72fbae6c4e3dbf5a0adc4a4b0693e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 25/42] fix: accuracy of matrix DDs with very small entries

---
 include/dd/Package.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index ba4edad..e72fbac 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -439,7 +439,8 @@ namespace dd {
                         maxc   = e.p->e[i].w;
                     } else {
                         auto mag = ComplexNumbers::mag2(e.p->e[i].w);
-                        if (mag - max > ComplexTable<>::tolerance()) {
+                        // squared magnitudes below the tolerance can still be of very different size
+                        if (mag - max > ComplexTable<>::tolerance() || mag > 2 * max) {
                             argmax = static_cast<decltype(argmax)>(i);
                             max    = mag;
                             maxc   = e.p->e[i].w;
-- 
2.43.0


From 296fa5447e05b2df60e0ec9daf7249ee9b101583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 26/42] fix: getDensityMatrix must not change the given density
 matrix

---
 include/dd/Package.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index e72fbac..7497946 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2815,12 +2815,14 @@ namespace dd {
         }
 
         CMat getDensityMatrix(dEdge& e) {
-            dEdge::applyDmChangesToEdge(e);
-            const std::size_t dim = 2ULL << e.p->v;
+            // work on a copy since applying the changes removes the density matrix flag from the edge
+            auto root = e;
+            dEdge::applyDmChangesToEdge(root);
+            const std::size_t dim = 2ULL << root.p->v;
             // allocate resulting matrix
             auto mat = CMat(dim, CVec(dim, {0.0, 0.0}));
-            getDensityMatrix(e, Complex::one, 0, 0, mat);
-            dd::dEdge::revertDmChangesToEdge(e);
+            getDensityMatrix(root, Complex::one, 0, 0, mat);
+            dd::dEdge::revertDmChangesToEdge(root);
             return mat;
         }
 
-- 
2.43.0


From ad46d748b6b22850858212d6189b250c1602f7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 27/42] fix: density matrix flags are part of the key of cached
 products

---
 include/dd/ComputeTable.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/dd/ComputeTable.hpp b/include/dd/ComputeTable.hpp
index 7ff8fea..5193215 100644
--- a/include/dd/ComputeTable.hpp
+++ b/include/dd/ComputeTable.hpp
@@ -11,7 +11,9 @@
 
 #include <array>
 #include <cstddef>
+#include <cstdint>
 #include <iostream>
+#include <type_traits>
 #include <utility>
 
 namespace dd {
@@ -46,7 +48,7 @@ namespace dd {
 
         void insert(const LeftOperandType& leftOperand, const RightOperandType& rightOperand, const ResultType& result) {
             const auto key = hash(leftOperand, rightOperand);
-            table[key]     = {leftOperand, rightOperand, result};
+            table[key]     = {withFlags(leftOperand), withFlags(rightOperand), result};
             ++count;
         }
 
@@ -58,10 +60,10 @@ namespace dd {
             if (entry.result.p == nullptr) {
                 return result;
             }
-            if (entry.leftOperand != leftOperand) {
+            if (entry.leftOperand != withFlags(leftOperand)) {
                 return result;
             }
-            if (entry.rightOperand != rightOperand) {
+            if (entry.rightOperand != withFlags(rightOperand)) {
                 return result;
             }
 
@@ -92,6 +94,17 @@ namespace dd {
         }
 
     private:
+        // the temporary flags of density matrix nodes (e.g., conjugation) are part of the key
+        template<class OperandType>
+        static OperandType withFlags(const OperandType& operand) {
+            if constexpr (std::is_same_v<OperandType, dEdge>) {
+                const auto flags = dNode::getDensityMatrixTempFlags(operand.p->flags);
+                return {reinterpret_cast<dNode*>(reinterpret_cast<std::uintptr_t>(operand.p) | flags), operand.w};
+            } else {
+                return operand;
+            }
+        }
+
         std::array<Entry, NBUCKET> table{};
         // compute table lookup statistics
         std::size_t hits    = 0;
-- 
2.43.0


From 8de572937b15fe49a28e34fc4415faea01cc89f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 28/42] fix: keep buckets of the complex table sorted for large
 values

---
 include/dd/ComplexTable.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index a567080..4e0ab2f 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -529,6 +529,10 @@ namespace dd {
                     ++hits;
                     return curr;
                 }
+                // for large values, val + TOLERANCE may be rounded up to an entry that is not in range anymore
+                if (curr->value > val) {
+                    break;
+                }
                 ++collisions;
                 prev = curr;
                 curr = curr->next;
-- 
2.43.0


From 9ad5110d2b93da03f0e4c989c208f704a485d847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 29/42] fix: reject measuring a qubit of the zero vector

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 7497946..ddebbc0 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1223,7 +1223,7 @@ namespace dd {
             visited.insert(rootEdge.p);
             q.push(rootEdge.p);
 
-            while (q.front()->v != index) {
+            while (!q.empty() && q.front()->v != index) {
                 vNode* ptr = q.front();
                 q.pop();
                 const fp prob = probsMone[ptr];
-- 
2.43.0


From 8ee54c1ea5ac48fde678d050ee1960b0c54f403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:49 +0000
Subject: [PATCH 30/42] fix: no zero weights on edges to nodes in matrix DDs

---
 include/dd/Package.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index ddebbc0..44e20a3 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -494,6 +494,9 @@ namespace dd {
                         auto c = cn.getTemporary();
                         ComplexNumbers::div(c, r.p->e[i].w, maxc);
                         r.p->e[i].w = cn.lookup(c);
+                        if (r.p->e[i].w == Complex::zero) {
+                            r.p->e[i] = Edge<Node>::zero;
+                        }
                     }
                 }
                 return r;
-- 
2.43.0


From ba31d793acb4a81c2acd8d6c19c7374c468d1989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:49 +0000
Subject: [PATCH 31/42] fix: overflowing and vanishing weights when
 deserializing

---
 include/dd/Package.hpp | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 44e20a3..18c2573 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -3165,15 +3165,14 @@ namespace dd {
                 }
             }
 
-            if (!std::isfinite(rootweight.r) || !std::isfinite(rootweight.i)) {
+            auto w = cn.getTemporary(rootweight);
+            ComplexNumbers::mul(w, result.w, w);
+            if (!std::isfinite(ComplexNumbers::mag2(w))) {
                 throw std::runtime_error("Invalid edge weight in serialized decision diagram.");
             }
-            auto w = cn.getCached(rootweight.r, rootweight.i);
-            ComplexNumbers::mul(w, result.w, w);
             result.w = cn.lookup(w);
-            cn.returnToCache(w);
 
-            return result;
+            return result.w.approximatelyZero() ? Edge::zero : result;
         }
 
         template<class Node, class Edge = Edge<Node>>
@@ -3198,28 +3197,27 @@ namespace dd {
             }
 
             std::array<Edge, N> edges{};
+            fp                  norm2 = 0;
             for (auto i = 0U; i < N; ++i) {
                 if (edgeIdx[i] == -2) {
                     edges[i] = Edge::zero;
                 } else {
-                    if (!std::isfinite(edgeWeight[i].r) || !std::isfinite(edgeWeight[i].i)) {
-                        throw std::runtime_error("Invalid edge weight in serialized decision diagram.");
-                    }
-                    if (edgeIdx[i] == -1) {
-                        edges[i]   = Edge::one;
-                        edges[i].w = cn.lookup(edgeWeight[i]);
-                    } else {
+                    auto c         = cn.getTemporary(edgeWeight[i]);
+                    auto successor = Node::terminal;
+                    if (edgeIdx[i] != -1) {
                         // the normalization might (in rare cases) yield a different factor than upon serialization
                         const auto it = nodes.find(edgeIdx[i]);
                         if (it == nodes.end() || (!it->second.isTerminal() && it->second.p->v != v - 1)) {
                             throw std::runtime_error("Invalid successor in serialized decision diagram: " + std::to_string(edgeIdx[i]));
                         }
-                        const auto& node = it->second;
-                        auto        c    = cn.getTemporary(edgeWeight[i]);
-                        ComplexNumbers::mul(c, c, node.w);
-                        edges[i].p = node.p;
-                        edges[i].w = cn.lookup(c);
+                        successor = it->second.p;
+                        ComplexNumbers::mul(c, c, it->second.w);
+                    }
+                    norm2 += ComplexNumbers::mag2(c);
+                    if (!std::isfinite(norm2)) {
+                        throw std::runtime_error("Invalid edge weight in serialized decision diagram.");
                     }
+                    edges[i] = c.approximatelyZero() ? Edge::zero : Edge{successor, cn.lookup(c)};
                 }
             }
 
-- 
2.43.0


From 6b19926f665e90f3e18c974c3a6f66d3071331c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 32/42] fix: reject oversized packages before allocating their
 tables

---
 include/dd/Package.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 18c2573..f77d184 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -91,7 +91,7 @@ namespace dd {
         static constexpr std::size_t MAX_POSSIBLE_QUBITS = static_cast<std::make_unsigned_t<Qubit>>(std::numeric_limits<Qubit>::max()) + 1U;
         static constexpr std::size_t DEFAULT_QUBITS      = 128;
         explicit Package(std::size_t nq = DEFAULT_QUBITS):
-            nqubits(nq) {
+            nqubits(checkQubits(nq)) { // reject oversized packages before any table is allocated
             resize(nq);
         };
         ~Package()                      = default;
@@ -101,12 +101,7 @@ namespace dd {
 
         // resize the package instance
         void resize(std::size_t nq) {
-            if (nq > MAX_POSSIBLE_QUBITS) {
-                throw std::invalid_argument("Requested too many qubits from package. Qubit datatype only allows up to " +
-                                            std::to_string(MAX_POSSIBLE_QUBITS) + " qubits, while " +
-                                            std::to_string(nq) + " were requested. Please recompile the package with a wider Qubit type!");
-            }
-            nqubits = nq;
+            nqubits = checkQubits(nq);
             vUniqueTable.resize(nqubits);
             mUniqueTable.resize(nqubits);
             dUniqueTable.resize(nqubits);
@@ -125,6 +120,15 @@ namespace dd {
         [[nodiscard]] auto qubits() const { return nqubits; }
 
     private:
+        static std::size_t checkQubits(std::size_t nq) {
+            if (nq > MAX_POSSIBLE_QUBITS) {
+                throw std::invalid_argument("Requested too many qubits from package. Qubit datatype only allows up to " +
+                                            std::to_string(MAX_POSSIBLE_QUBITS) + " qubits, while " +
+                                            std::to_string(nq) + " were requested. Please recompile the package with a wider Qubit type!");
+            }
+            return nq;
+        }
+
         std::size_t nqubits;
 
         ///
-- 
2.43.0


From 3653cda0365747ff62dae2297867104338edcca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 33/42] fix: outcome fidelity of states with more than 64
 qubits

---
 include/dd/Package.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index f77d184..39a2ff4 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1865,10 +1865,11 @@ namespace dd {
                 leftContribution = fidelityOfMeasurementOutcomesRecursive(e.p->e[0], probs, leftIdx);
             }
 
-            std::size_t rightIdx          = i | (1ULL << e.p->v);
-            auto        rightContribution = 0.;
-            if (!e.p->e[1].w.approximatelyZero()) {
-                rightContribution = fidelityOfMeasurementOutcomesRecursive(e.p->e[1], probs, rightIdx);
+            // outcomes that cannot be addressed by an index do not appear in the probability vector
+            auto rightContribution = 0.;
+            if (e.p->v < std::numeric_limits<std::size_t>::digits && !e.p->e[1].w.approximatelyZero()) {
+                const std::size_t rightIdx = i | (1ULL << e.p->v);
+                rightContribution          = fidelityOfMeasurementOutcomesRecursive(e.p->e[1], probs, rightIdx);
             }
 
             const dd::fp fidelity = topw * (leftContribution + rightContribution);
-- 
2.43.0


From 22522af6dcc73965de4ba92cdd9b1fc11845104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 34/42] fix: read a bare imaginary unit as one times i

---
 include/dd/ComplexValue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dd/ComplexValue.hpp b/include/dd/ComplexValue.hpp
index 53bc2c3..f20e207 100644
--- a/include/dd/ComplexValue.hpp
+++ b/include/dd/ComplexValue.hpp
@@ -60,9 +60,10 @@ namespace dd {
         void fromString(const std::string& realStr, std::string imagStr) {
             fp real = realStr.empty() ? 0. : std::stod(realStr);
 
+            const bool hasImag = imagStr.find('i') != std::string::npos;
             imagStr.erase(remove(imagStr.begin(), imagStr.end(), ' '), imagStr.end());
             imagStr.erase(remove(imagStr.begin(), imagStr.end(), 'i'), imagStr.end());
-            if (imagStr == "+" || imagStr == "-") {
+            if (imagStr == "+" || imagStr == "-" || (imagStr.empty() && hasImag)) {
                 imagStr = imagStr + "1";
             }
             fp imag = imagStr.empty() ? 0. : std::stod(imagStr);
-- 
2.43.0


From f64e6910d63ffc2f3d8aad412c62a8d65d846ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 35/42] fix: text of complex numbers with parts close to the
 tolerance

---
 include/dd/ComplexValue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexValue.hpp b/include/dd/ComplexValue.hpp
index f20e207..a02a496 100644
--- a/include/dd/ComplexValue.hpp
+++ b/include/dd/ComplexValue.hpp
@@ -198,11 +198,12 @@ namespace dd {
             }
             if (std::abs(imag) > tol) {
                 if (formatted) {
-                    if (std::abs(real - imag) <= tol) {
+                    // the real part is only printed (as common factor) if it is not zero
+                    if (std::abs(real) > tol && std::abs(real - imag) <= tol) {
                         ss << "(1+i)";
                         return ss.str();
                     }
-                    if (std::abs(real + imag) <= tol) {
+                    if (std::abs(real) > tol && std::abs(real + imag) <= tol) {
                         ss << "(1-i)";
                         return ss.str();
                     }
-- 
2.43.0


From 239059f7424fb00785b73e54dbc3ffbcf8a30764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 36/42] fix: unique names for the nodes of exported graphs

---
 include/dd/Export.hpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/dd/Export.hpp b/include/dd/Export.hpp
index eb3c2b5..8a37934 100644
--- a/include/dd/Export.hpp
+++ b/include/dd/Export.hpp
@@ -162,7 +162,7 @@ namespace dd {
         os << "digraph \"DD\" {graph[];node[shape=plain];edge[arrowhead=none]\n";
         os << "root [label=\"\",shape=point,style=invis]\n";
         os << "t [label=<<font point-size=\"20\">1</font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
-        auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+        auto toplabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         os << "root->";
         if (e.isTerminal()) {
             os << "t";
@@ -187,7 +187,7 @@ namespace dd {
         os << "root [label=\"\",shape=point,style=invis]\n";
         os << "t [label=<<font point-size=\"20\">1</font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
 
-        auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+        auto toplabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         auto mag      = thicknessFromMagnitude(e.w);
         auto color    = colorFromPhase(e.w);
         os << "root->";
@@ -209,7 +209,7 @@ namespace dd {
         os << "root [label=\"\",shape=point,style=invis]\n";
         os << "t [label=<<font point-size=\"20\">1</font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
 
-        auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+        auto toplabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         auto mag      = thicknessFromMagnitude(e.w);
         auto color    = colorFromPhase(e.w);
         os << "root->";
@@ -253,7 +253,7 @@ namespace dd {
     }
 
     [[maybe_unused]] static std::ostream& modernNode(const mEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         os << nodelabel << "[label=<";
         os << R"(<font point-size="10"><table border="1" cellspacing="0" cellpadding="2" style="rounded">)";
         os << R"(<tr><td colspan="2" rowspan="2" port="0" href="javascript:;" border="0" tooltip=")" << conditionalFormat(e.p->e[0].w, formatAsPolar) << "\">" << (e.p->e[0].w.approximatelyZero() ? "&nbsp;0 " : "<font color=\"white\">&nbsp;0 </font>")
@@ -270,7 +270,7 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& modernNode(const vEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         os << nodelabel << "[label=<";
         os << R"(<font point-size="8"><table border="1" cellspacing="0" cellpadding="0" style="rounded">)";
         os << R"(<tr><td colspan="2" border="0" cellpadding="1"><font point-size="20">q<sub><font point-size="12">)" << static_cast<std::size_t>(e.p->v) << R"(</font></sub></font></td></tr><tr>)";
@@ -280,7 +280,7 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& classicNode(const mEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         os << nodelabel << "[shape=circle, width=0.53, fixedsize=true, label=<";
         os << R"(<font point-size="6"><table border="0" cellspacing="0" cellpadding="0">)";
         os << R"(<tr><td colspan="4"><font point-size="18">q<sub><font point-size="10">)" << static_cast<std::size_t>(e.p->v) << R"(</font></sub></font></td></tr><tr>)";
@@ -318,7 +318,7 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& classicNode(const vEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         os << nodelabel << "[shape=circle, width=0.46, fixedsize=true, label=<";
         os << R"(<font point-size="6"><table border="0" cellspacing="0" cellpadding="0">)";
         os << R"(<tr><td colspan="2"><font point-size="18">q<sub><font point-size="10">)" << static_cast<std::size_t>(e.p->v) << R"(</font></sub></font></td></tr><tr>)";
@@ -342,7 +342,7 @@ namespace dd {
     template<class Edge>
     static std::ostream& memoryNode(const Edge& e, std::ostream& os) {
         constexpr std::size_t n         = std::tuple_size_v<decltype(e.p->e)>;
-        auto                  nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto                  nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         os << nodelabel << "[label=<";
         os << R"(<font point-size="10"><table border="1" cellspacing="0" cellpadding="2" style="rounded">)";
         os << R"(<tr><td colspan=")" << n << R"(" border="1" sides="B">)" << std::hex << reinterpret_cast<std::uintptr_t>(e.p) << std::dec << " ref: " << e.p->ref << "</td></tr>";
@@ -364,8 +364,8 @@ namespace dd {
     }
 
     [[maybe_unused]] static std::ostream& bwEdge(const mEdge& from, const mEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
         os << fromlabel << ":" << idx << ":";
         if (classic) {
@@ -405,8 +405,8 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& bwEdge(const vEdge& from, const vEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, [[maybe_unused]] bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
         os << fromlabel << ":" << idx << ":";
         os << (idx == 0 ? "sw" : "se") << "->";
@@ -429,8 +429,8 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& coloredEdge(const mEdge& from, const mEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
         os << fromlabel << ":" << idx << ":";
         if (classic) {
@@ -468,8 +468,8 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& coloredEdge(const vEdge& from, const vEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, [[maybe_unused]] bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
         os << fromlabel << ":" << idx << ":";
         os << (idx == 0 ? "sw" : "se") << "->";
@@ -491,8 +491,8 @@ namespace dd {
     }
     template<class Edge>
     static std::ostream& memoryEdge(const Edge& from, const Edge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
         os << fromlabel << ":" << idx << ":s->";
         if (to.isTerminal()) {
-- 
2.43.0


From c2886dbdf93dc13967bc8dcc28d576169c110d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 37/42] fix: keep track of the peak number of temporary complex
 numbers

---
 include/dd/ComplexCache.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dd/ComplexCache.hpp b/include/dd/ComplexCache.hpp
index 5c06b1b..21bea74 100644
--- a/include/dd/ComplexCache.hpp
+++ b/include/dd/ComplexCache.hpp
@@ -9,6 +9,7 @@
 #include "Complex.hpp"
 #include "ComplexTable.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 #include <vector>
@@ -45,6 +46,7 @@ namespace dd {
                 auto entry = Complex{available, available->next};
                 available  = entry.i->next;
                 count += 2;
+                peakCount = std::max(peakCount, count);
                 return entry;
             }
 
@@ -64,6 +66,7 @@ namespace dd {
             c.i = &(*chunkIt);
             ++chunkIt;
             count += 2;
+            peakCount = std::max(peakCount, count);
             return c;
         }
 
-- 
2.43.0


From 43d25faf92f414d08d5397e79dd6d604098c3bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:32 +0000
Subject: [PATCH 38/42] fix: start the number table with its configured garbage
 collection limit

A new complex table collected only at 100000 entries whatever its
INITIAL_GC_LIMIT parameter, while a cleared one used the parameter.
---
 include/dd/ComplexTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index 4e0ab2f..d037267 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -502,7 +502,7 @@ namespace dd {
         // garbage collection
         std::size_t gcCalls = 0;
         std::size_t gcRuns  = 0;
-        std::size_t gcLimit = 100000;
+        std::size_t gcLimit = INITIAL_GC_LIMIT;
 
         inline Entry* findOrInsert(const std::int64_t key, const fp val) {
             [[maybe_unused]] const fp valTol = val + TOLERANCE;
-- 
2.43.0


From 1a80b0c73b6353916733a0fd3bc5595219073642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:36 +0000
Subject: [PATCH 39/42] fix: write numbers of large magnitude as text without
 looping

The search for the closest fraction started at zero and advanced by one
per step, so that it did not end for huge numbers.
---
 include/dd/ComplexValue.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/dd/ComplexValue.hpp b/include/dd/ComplexValue.hpp
index a02a496..bbcbbdc 100644
--- a/include/dd/ComplexValue.hpp
+++ b/include/dd/ComplexValue.hpp
@@ -12,9 +12,11 @@
 #include <algorithm>
 #include <cmath>
 #include <cstddef>
+#include <cstdint>
 #include <cstdlib>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <utility>
@@ -74,8 +76,16 @@ namespace dd {
         static auto getLowestFraction(const double x, const std::uint64_t maxDenominator = 1U << 10, const fp tol = dd::ComplexTable<>::tolerance()) {
             assert(x >= 0.);
 
+            // start the search at the integral part; numbers beyond the range of integers are not represented by any fraction
             std::pair<std::uint64_t, std::uint64_t> lowerBound{0U, 1U};
             std::pair<std::uint64_t, std::uint64_t> upperBound{1U, 0U};
+            if (x >= static_cast<double>(std::numeric_limits<std::int64_t>::max())) {
+                return lowerBound;
+            }
+            lowerBound.first = static_cast<std::uint64_t>(x);
+            if (lowerBound.first > 0U && x - static_cast<fp>(lowerBound.first) <= tol) {
+                return lowerBound;
+            }
 
             while ((lowerBound.second <= maxDenominator) && (upperBound.second <= maxDenominator)) {
                 auto num    = lowerBound.first + upperBound.first;
-- 
2.43.0


From 21ebb9e8438501a5178a5e0bf90c0ca5be4d8b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:36 +0000
Subject: [PATCH 40/42] fix: do not write to the static terminal node in
 density operations

The terminal node is shared by all packages; writing its flags without a
change raced with every other thread.
---
 include/dd/Node.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dd/Node.hpp b/include/dd/Node.hpp
index 84ff004..fca84d1 100644
--- a/include/dd/Node.hpp
+++ b/include/dd/Node.hpp
@@ -190,7 +190,10 @@ namespace dd {
             if (isDensityMatrixTempFlagSet(p)) {
                 auto tmp = alignDensityNodeNode(p);
                 assert(getDensityMatrixTempFlags(p->flags) == 0);
-                p->flags = p->flags | tmp;
+                // the terminal node is shared by all packages and never modified
+                if (tmp != 0) {
+                    p->flags = p->flags | tmp;
+                }
             }
         }
 
-- 
2.43.0


From 7755a4e5dc46bb6fd70ff1f2f173a5754bbcc8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:36 +0000
Subject: [PATCH 41/42] fix: print and read terminal decision diagrams

The dimension was computed as 2 << -1.
---
 include/dd/Package.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 39a2ff4..873387e 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2674,7 +2674,7 @@ namespace dd {
                 throw std::runtime_error(std::string{"Density matrix is too large to measure!"});
             }
 
-            const std::size_t             statesToMeasure = 2ULL << e.p->v;
+            const std::size_t             statesToMeasure = e.isTerminal() ? 1ULL : 2ULL << e.p->v;
             std::map<std::string, dd::fp> measuredResult  = {};
             for (std::size_t m = 0; m < statesToMeasure; m++) {
                 std::size_t currentResult     = m;
@@ -2751,7 +2751,7 @@ namespace dd {
         }
 
         void printVector(const vEdge& e) {
-            const std::size_t element = 2ULL << e.p->v;
+            const std::size_t element = e.isTerminal() ? 1ULL : 2ULL << e.p->v;
             for (auto i = 0ULL; i < element; i++) {
                 const auto amplitude = getValueByPath(e, i);
                 for (Qubit j = e.p->v; j >= 0; j--) {
@@ -2767,7 +2767,7 @@ namespace dd {
         }
 
         void printMatrix(const mEdge& e) {
-            const std::size_t element = 2ULL << e.p->v;
+            const std::size_t element = e.isTerminal() ? 1ULL : 2ULL << e.p->v;
             for (auto i = 0ULL; i < element; i++) {
                 for (auto j = 0ULL; j < element; j++) {
                     const auto     amplitude = getValueByPath(e, i, j);
@@ -2826,7 +2826,7 @@ namespace dd {
             // work on a copy since applying the changes removes the density matrix flag from the edge
             auto root = e;
             dEdge::applyDmChangesToEdge(root);
-            const std::size_t dim = 2ULL << root.p->v;
+            const std::size_t dim = root.isTerminal() ? 1ULL : 2ULL << root.p->v;
             // allocate resulting matrix
             auto mat = CMat(dim, CVec(dim, {0.0, 0.0}));
             getDensityMatrix(root, Complex::one, 0, 0, mat);
-- 
2.43.0


From 6765f3da68fba02c04a5b47fa20e2d5c8fda6adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:06 +0000
Subject: [PATCH 42/42] fix: do not reuse compact zero results of density
 products as matrices

---
 include/dd/Package.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 873387e..bc95a36 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1787,7 +1787,10 @@ namespace dd {
             //                std::cout << "Caching error detected in mul" << std::endl;
             //            }
 
-            computeTable.insert(xCopy, yCopy, {e.p, e.w});
+            // a terminal does not reveal whether it stands for a matrix or for the reduced form of a density matrix
+            if (!generateDensityMatrix || !e.isTerminal()) {
+                computeTable.insert(xCopy, yCopy, {e.p, e.w});
+            }
 
             if (!e.w.exactlyZero() && (x.w.exactlyOne() || !y.w.exactlyZero())) {
                 if (e.w.exactlyOne()) {
-- 
2.43.0

