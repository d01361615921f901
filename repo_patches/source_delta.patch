From 2874717381d09fc97a20fe28d71c1341b188728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 01/11] fix: allow isometries back to the source in
 Triangulation.encode

---
 curver/kernel/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 8b5f736..8d5151d 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -841,7 +841,7 @@ class Triangulation:
                 if all(i in item or ~i in item for i in self.indices):
                     term = T.encode_relabel_edges(item)
                 else:  # If some edges are missing then we assume that we must be mapping back to this triangulation.
-                    term = T.find_isometry(self, item)
+                    term = T.find_isometry(self, item).encode()
             elif isinstance(item, tuple) and len(item) == 2:  # Twist or HalfTwist.
                 label, power = item
                 edge = Edge(label)
-- 
2.43.0


From 1432414804b08a2f0befe8f28332a0561836a02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 02/11] fix: make the topological type canonical

---
 curver/kernel/lamination.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 439c4d0..8def24b 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -562,14 +562,10 @@ class IntegralLamination(Lamination):
         for X in product(*(permutations(g) for k, g in groupby(range(len(nodes)), key=lambda i: node_labels[nodes[i]]))):  # pylint: disable=too-many-nested-blocks
             perm = list(chain(*X))
             
-            inverse_perm = [None] * len(perm)
-            for index, i in enumerate(perm):
-                inverse_perm[i] = index
-            permuted_link_labels = [link_labels[i][j] for index, i in enumerate(inverse_perm) for j in inverse_perm[index:]]
+            permuted_link_labels = [link_labels[i][j] for index, i in enumerate(perm) for j in perm[index:]]
             
-            if best_link_labels is not None and permuted_link_labels >= best_link_labels:
+            if best_link_labels is not None and permuted_link_labels > best_link_labels:
                 continue
-            best_link_labels = list(permuted_link_labels)
             
             permuted_nodes = [nodes[i] for i in perm]
             permuted_node_lookup = dict((node, index) for index, node in enumerate(permuted_nodes))
@@ -577,7 +573,7 @@ class IntegralLamination(Lamination):
             # Build marking.
             node_markings = []
             for node in permuted_nodes:
-                starting_edges = [edge for edge in node if image(edge)]
+                starting_edges = [edge for edge in node if image(edge)] if node_labels[node] >= 0 else []  # Only the real nodes have edges.
                 if starting_edges:  # Skip nodes that do not have any markings.
                     best_node_marking = None
                     for starting_edge in starting_edges:
@@ -608,9 +604,10 @@ class IntegralLamination(Lamination):
                 else:
                     node_markings.append([])
             
-            if best_node_markings is not None and node_markings >= best_node_markings:
+            # Only compare markings between permutations that achieve the same (best) link labels.
+            if best_link_labels is not None and (permuted_link_labels, node_markings) >= (best_link_labels, best_node_markings):
                 continue
-            best_node_markings = node_markings
+            best_link_labels, best_node_markings = permuted_link_labels, node_markings
         
         return TopologicalType(best_node_labels, best_link_labels, best_node_markings)
     
-- 
2.43.0


From fbf7895a1a6cd372aaa259a1eb528824eed09283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:58 +0000
Subject: [PATCH 03/11] fix: measure intersections with peripheral components
 on the short triangulation

---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 8def24b..06eae21 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -326,8 +326,8 @@ class IntegralLamination(Lamination):
         
         # Peripheral components.
         for _, (multiplicity, vertex) in short.peripheral_components().items():
-            for lamination in laminations:
-                intersection += multiplicity * sum(max(-lamination(edge), 0) + max(-lamination.left_weight(edge), 0) for edge in vertex)
+            for short_lamination in short_laminations:
+                intersection += multiplicity * sum(max(-short_lamination(edge), 0) + max(-short_lamination.left_weight(edge), 0) for edge in vertex)
         
         # Parallel components.
         for component, (multiplicity, p) in short.parallel_components().items():
-- 
2.43.0


From 31b1a07f6394369b8bfb967e065153e8982b61e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 04/11] fix: count repeated laminations when summing

---
 curver/kernel/triangulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 8d5151d..91b6c39 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -567,7 +567,7 @@ class Triangulation:
         
         # Convert iterable to dictionary of multiplicities.
         if not isinstance(laminations, dict):
-            laminations = dict((lamination, 1) for lamination in laminations)
+            laminations = Counter(laminations)
         
         if any(multiplicity < 0 for multiplicity in laminations.values()):
             raise ValueError('Laminations must occur with non-negative multiplicity')
@@ -595,7 +595,7 @@ class Triangulation:
         
         # Convert iterable to dictionary of multiplicities.
         if not isinstance(laminations, dict):
-            laminations = dict((lamination, 1) for lamination in laminations)
+            laminations = Counter(laminations)
         
         if any(multiplicity < 0 for multiplicity in laminations.values()):
             raise ValueError('Laminations must occur with non-negative multiplicity')
-- 
2.43.0


From c3307d33eac4fd773192c697bd8e6192d56d0823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 05/11] fix: bound the order of mapping classes of surfaces
 with repeated components

---
 curver/kernel/triangulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 91b6c39..e73fa62 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -285,8 +285,8 @@ class Triangulation:
             else:  # g == 0:
                 return v
         
-        # Set of orders that appear.
-        orders = set(order(S.g, S.p) for S in self.surface().values())
+        # The orders that appear, one for each component.
+        orders = [order(S.g, S.p) for S in self.surface().values()]
         for order in orders:
             prod *= order
         
-- 
2.43.0


From 3d4d66610401967a171044db542a993276d2ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 06/11] fix: membership in straight-line programs

The sinks are the values of the terminals, not the terminals themselves, so 'value in slp' was always False.
---
 curver/kernel/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/structures.py b/curver/kernel/structures.py
index b8131fa..607e10f 100644
--- a/curver/kernel/structures.py
+++ b/curver/kernel/structures.py
@@ -173,7 +173,7 @@ class StraightLineProgram:
         return self * other
     
     def __contains__(self, value):
-        return Terminal(value) in self.sinks
+        return value in self.sinks
     
     def reverse(self):
         ''' Return the StraightLineProgram that returns self[::-1]. '''
-- 
2.43.0


From 4a649c89dcde9ad953b2aecf15bf3da7b4eddca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:15 +0000
Subject: [PATCH 07/11] fix: reject words that are not understood

Characters that are not part of any token and integers that are not powers were
silently ignored, only the last group of words such as a)(b was used, and a power
without a letter raised an IndexError.
---
 curver/kernel/mappingclassgroup.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index 780714a..b5e4707 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -123,10 +123,18 @@ class MappingClassGroup:
             
             stack = [[]]
             tokens = TOKENS.findall(word)  # Break word into tokens.
+            if sum(len(token) for token in tokens) < len(word):  # Some characters are not part of any token.
+                raise ValueError(f'{data} could not be decomposed')
             for index, token in enumerate(tokens):
+                if len(stack) == 1 and index > 0:  # The outermost group has already been closed.
+                    raise ValueError('Unbalanced parentheses')
+                
                 if IS_INT.match(token):
-                    pass
+                    if tokens[index-1] != '^':
+                        raise ValueError(f'{token} is not a power')
                 elif token == '^':
+                    if not stack[-1]:
+                        raise ValueError('^ not preceded by a letter or group')
                     try:
                         power = int(tokens[index+1])
                     except (ValueError, IndexError) as err:
-- 
2.43.0


From 02b4669be524255d85e712f486c2cb1bb22d02b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 08/11] fix: apply powers in words to the letter before them
 only

a.b^2 was read as (a.b)^2, although a^2.b was not.
---
 curver/kernel/mappingclassgroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index b5e4707..582f787 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -150,7 +150,7 @@ class MappingClassGroup:
                         raise ValueError('Unbalanced parentheses')
                     stack[-1][-1] = SLP.sum(stack[-1][-1])
                 else:
-                    stack[-1].append(SLP(decompose(token)))
+                    stack[-1].extend(SLP([item]) for item in decompose(token))  # One for each letter, so that ^ applies to the last letter only.
             if len(stack) > 1:
                 raise ValueError('Unbalanced parentheses')
             
-- 
2.43.0


From 9cf973a42fc89801faba24a46a2381f321d687a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 09/11] fix: multiples of integral laminations are integral
 laminations

Multiples of mixed laminations (and zero multiples) were plain Laminations without
components, intersection numbers and so on.
---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 06eae21..71189df 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -285,7 +285,7 @@ class IntegralLamination(Lamination):
         assert other >= 0
         
         if other == 0:
-            new_class = Lamination
+            new_class = IntegralLamination
         elif other == 1:
             new_class = self.__class__
         elif isinstance(self, curver.kernel.MultiArc):  # or Arc.
@@ -293,7 +293,7 @@ class IntegralLamination(Lamination):
         elif isinstance(self, curver.kernel.MultiCurve):  # or Curve.
             new_class = curver.kernel.MultiCurve
         else:
-            new_class = Lamination
+            new_class = IntegralLamination
         
         geometric = [other * x for x in self]
         # TODO: 3) Could save components if they have already been computed.
-- 
2.43.0


From b8de9c4f87717ea962279897378a6dd2f5486e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:12 +0000
Subject: [PATCH 10/11] fix: accept words with other separators again

Characters that are not part of any token have always been skipped, as for ['a', 'b'].
---
 curver/kernel/mappingclassgroup.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index 582f787..93597f3 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -123,8 +123,6 @@ class MappingClassGroup:
             
             stack = [[]]
             tokens = TOKENS.findall(word)  # Break word into tokens.
-            if sum(len(token) for token in tokens) < len(word):  # Some characters are not part of any token.
-                raise ValueError(f'{data} could not be decomposed')
             for index, token in enumerate(tokens):
                 if len(stack) == 1 and index > 0:  # The outermost group has already been closed.
                     raise ValueError('Unbalanced parentheses')
-- 
2.43.0


From a26717ccef28a43e456d29ffeb61c43e8ecc953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 11/11] fix: decide exactly when a traced strand can be closed
 up

---
 curver/kernel/lamination.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 71189df..d8b3ca5 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -197,8 +197,8 @@ class Lamination:
         
         if isinstance(edge, curver.IntegerType): edge = curver.kernel.Edge(edge)  # If given an integer instead.
         
-        tilde_upper = self(edge) + 1
-        tilde_intersection = self(edge) - intersection
+        tilde_upper = self(edge)
+        tilde_intersection = self(edge) - 1 - intersection
         tilde_lower = -1
         
         #   ~upper ~intersection ~lower
@@ -223,7 +223,7 @@ class Lamination:
                 edge, intersection = z, self(z) - self(x) + intersection
             
             if edge == start_edge:
-                tilde_return = self(edge) - intersection
+                tilde_return = self(edge) - 1 - intersection
                 if tilde_lower < tilde_return < tilde_upper:
                     return self.triangulation.curve_from_cut_sequence(trace)
                 else:
-- 
2.43.0

