From 34ff2c930925273403a72f53d77c7e6c013ba006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 01/25] fix: import smawk relative to the package in wrap

---
 pads/wrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/wrap.py b/pads/wrap.py
index f9dc6e0..cc83250 100644
--- a/pads/wrap.py
+++ b/pads/wrap.py
@@ -10,7 +10,7 @@ time via the OnlineConcaveMinima algorithm in SMAWK.py.
 D. Eppstein, August 2005.
 """
 
-from smawk import OnlineConcaveMinima
+from .smawk import OnlineConcaveMinima
 
 
 def wrap(text,                 # string or unicode to be wrapped
-- 
2.43.0


From 16bb1efc3baa748f711fcee5663ca1150bd2e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 02/25] fix: use sys.maxsize for the tags of ordered sequences

sys.maxint does not exist in Python 3.
---
 pads/ordered_sequence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 9d6a933..82e0a61 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -45,7 +45,7 @@ class SimpleOrderedSequence(Sequence):
         """Add x to the end of the sequence."""
         if not self._next:  # add to empty sequence
             Sequence.append(self, x)
-            self._tag[self.key(x)] = sys.maxint // 2
+            self._tag[self.key(x)] = sys.maxsize // 2
         else:
             self.insertAfter(self._prev[self._first], x)
 
@@ -56,7 +56,7 @@ class SimpleOrderedSequence(Sequence):
         y = self.key(y)
         next = self._next[y]
         if next == self._first:
-            nexttag = sys.maxint
+            nexttag = sys.maxsize
         else:
             nexttag = self._tag[next]
         xtag = self._tag[x]
@@ -77,7 +77,7 @@ class SimpleOrderedSequence(Sequence):
     def rebalance(self, x):
         """Clean up after x and its successor's tags collide."""
         base = 0
-        increment = sys.maxint // len(self)
+        increment = sys.maxsize // len(self)
         for y in self:
             self._tag[y] = base
             base += increment
-- 
2.43.0


From 00cd1f52e9a3fe711afc1c879385694bda155977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 03/25] fix: iterate circle packings with items()

Dictionaries have no iteritems method in Python 3.
---
 pads/circle_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index 49ce484..75cc7d8 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -85,7 +85,7 @@ def NormalizePacking(packing, k=None, target=1.0):
     else:
         z, r = packing[k]
     s = target / r
-    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.iteritems())
+    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.items())
 
 
 def InvertAround(packing, k, smallCircles=None):
-- 
2.43.0


From 078dc55f4d34111e13710cfc71008eaad74cfef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 04/25] fix: pretty-print automata with the print function

The Python 2 redirection syntax raises TypeError in Python 3.
---
 pads/automata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index 590ae02..5305d3b 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -261,12 +261,13 @@ class NFA(FiniteAutomaton):
             if not [c for c in self.alphabet if self.transition(state, c)]:
                 adjectives.append("terminal")
             if not adjectives:
-                print >>output, state
+                print(state, file=output)
             else:
-                print >>output, state, "(" + ", ".join(adjectives) + ")"
+                print(state, "(" + ", ".join(adjectives) + ")",
+                      file=output)
             for c in self.alphabet:
                 for neighbor in self.transition(state, c):
-                    print >>output, "  --[" + str(c) + "]-->", neighbor
+                    print("  --[" + str(c) + "]-->", neighbor, file=output)
 
     def RegExp(self):
         """Convert to regular expression and return as a string.
-- 
2.43.0


From fcc207c3ad251a6ded2b28aed2772f0b3e011cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 05/25] fix: make the emptiness test of regular languages work

Python 3 looks for __bool__, and finality is asked of the automaton.
Inclusion tests depend on it.
---
 pads/automata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index 5305d3b..b607c4a 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -94,10 +94,10 @@ class RegularLanguage:
             raise LanguageError("Unable to intersect nonregular language")
         return language(self.recognizer.symmetricDifference(other.recognizer))
 
-    def __nonzero__(self):
-        """Is this the empty language?"""
+    def __bool__(self):
+        """Is this a nonempty language?"""
         for x in self.recognizer.states():
-            if x.isfinal():
+            if self.recognizer.isfinal(x):
                 return True
         return False
 
-- 
2.43.0


From 10376c1228e4fcf28b95be50667ed47d1516b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 06/25] fix: return a list of relevant LEDA lines

The caller indexes the result, which a filter object does not allow.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index b0299d3..583df2e 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -370,7 +370,7 @@ def ledaLines(lines):
     """
     def relevant(line):
         return line and not line.startswith('#')
-    return filter(relevant, lines)
+    return list(filter(relevant, lines))
 
 
 def readLeda(lines):
-- 
2.43.0


From 39f133055415a8d3b3df13ebe3d67c1b48dd6f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 07/25] fix: remove iteration over components from the
 st-orienter

The st-orienter never builds a list of components.
---
 pads/biconnectivity.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pads/biconnectivity.py b/pads/biconnectivity.py
index eacc0b1..dc3bb26 100644
--- a/pads/biconnectivity.py
+++ b/pads/biconnectivity.py
@@ -157,10 +157,6 @@ class STOrienter(Searcher):
         # clean up now-useless data structures
         del self._dfsnumber, self._low, self._down, self._lowv
 
-    def __iter__(self):
-        """Return iterator for sequence of biconnected components."""
-        return iter(self._components)
-
     def preorder(self, parent, child):
         self._low[child] = self._dfsnumber[child] = len(self._dfsnumber)
         self._lowv[self._low[child]] = self._down[parent] = child
-- 
2.43.0


From 29ac0c88c0bb12888a93c04071f1cab2730bcda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 08/25] fix: hand out copies of factorizations

The sieve keeps changing its own dictionaries after yielding them.
---
 pads/eratosthenes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pads/eratosthenes.py b/pads/eratosthenes.py
index 7822da8..0224725 100644
--- a/pads/eratosthenes.py
+++ b/pads/eratosthenes.py
@@ -76,17 +76,17 @@ def factored_integers():
     while True:
         if i not in factorization:  # prime
             F = {i: 1}
-            yield i, F
+            yield i, dict(F)
             factorization[2 * i] = F
         elif len(factorization[i]) == 1:    # prime power
             p, x = next(iter(factorization[i].items()))
             F = {p: x + 1}
-            yield i, F
+            yield i, dict(F)
             factorization[2 * i] = F
             factorization[i + p**x][p] = x
             del factorization[i]
         else:
-            yield i, factorization[i]
+            yield i, dict(factorization[i])
             for p, x in factorization[i].items():
                 q = p**x
                 iq = i + q
-- 
2.43.0


From be83fad4138c01974f71c73688e023bef8958038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 09/25] fix: do not compare items when merging union-find sets

---
 pads/union_find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/union_find.py b/pads/union_find.py
index 320bba1..402b836 100644
--- a/pads/union_find.py
+++ b/pads/union_find.py
@@ -59,7 +59,7 @@ class UnionFind:
     def union(self, *objects):
         """Find the sets containing the objects and merge them all."""
         roots = [self[x] for x in objects]
-        heaviest = max([(self.weights[r], r) for r in roots])[1]
+        heaviest = max(roots, key=lambda r: self.weights[r])
         for r in roots:
             if r != heaviest:
                 self.weights[heaviest] += self.weights[r]
-- 
2.43.0


From 06e26c4a2f3982672a69d8637219aba362237f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 10/25] fix: do not compare vertices when sorting edges by
 weight

---
 pads/minimum_spanning_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/minimum_spanning_tree.py b/pads/minimum_spanning_tree.py
index 53cb041..a0759da 100644
--- a/pads/minimum_spanning_tree.py
+++ b/pads/minimum_spanning_tree.py
@@ -28,7 +28,8 @@ def MinimumSpanningTree(G):
     # part (the sort) is sped up by being built in to Python.
     subtrees = UnionFind()
     tree = []
-    for W, u, v in sorted((G[u][v], u, v) for u in G for v in G[u]):
+    for W, u, v in sorted(((G[u][v], u, v) for u in G for v in G[u]),
+                          key=lambda edge: edge[0]):
         if subtrees[u] != subtrees[v]:
             tree.append((u, v))
             subtrees.union(u, v)
-- 
2.43.0


From 8f27509969a308c87e7605e72a1879cd7c32539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 11/25] fix: do not compare vertices when choosing the root of
 a partial cube

---
 pads/partial_cube.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/partial_cube.py b/pads/partial_cube.py
index 19ac1ba..bae4af4 100644
--- a/pads/partial_cube.py
+++ b/pads/partial_cube.py
@@ -60,7 +60,8 @@ def PartialCubeEdgeLabeling(G):
             raise MediumError("graph is not bipartite")
 
         # Find max degree vertex in G, and update label limit
-        deg, root = max([(len(CG[v]), v) for v in CG])
+        root = max(CG, key=lambda v: len(CG[v]))
+        deg = len(CG[root])
         if deg > NL:
             raise MediumError("graph has too many equivalence classes")
         NL -= deg
-- 
2.43.0


From 9f6b31cdf4d566ed86327cd337fb54fda7d46774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 12/25] fix: remove only the requested value from a bit vector
 heap

---
 pads/integer_heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/integer_heap.py b/pads/integer_heap.py
index f851690..206c464 100644
--- a/pads/integer_heap.py
+++ b/pads/integer_heap.py
@@ -83,7 +83,7 @@ class BitVectorHeap:
 
     def remove(self, x):
         """Remove x from the values in the heap."""
-        self._S &= ~ 1 << x
+        self._S &= ~(1 << x)
 
     def min(self):
         """Return the minimum value in the heap."""
-- 
2.43.0


From 7783456d539eacc0623ff4d81622964bd1c31798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 13/25] fix: place SVG rectangles at their own y coordinate

---
 pads/svg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/svg.py b/pads/svg.py
index 0ebc634..a439293 100644
--- a/pads/svg.py
+++ b/pads/svg.py
@@ -111,11 +111,11 @@ class SVG:
     def rectangle(self, p, q, style={}, **morestyle):
         """Rectangle with corners at points p and q"""
         x = min(p.real, q.real)
-        # y = min(p.imag, q.imag)
+        y = min(p.imag, q.imag)
         width = abs((p - q).real)
         height = abs((p - q).imag)
         self.element('rect x="%s" y="%s" width="%s" height="%s"' %
-                     (_coord(x), _coord(x), _coord(width), _coord(height)),
+                     (_coord(x), _coord(y), _coord(width), _coord(height)),
                      style=style, **morestyle)
 
     def polygon(self, points, style={}, **morestyle):
-- 
2.43.0


From 2d7d5799a7be16a2b3fdfa0750f153437da626af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 14/25] fix: compare accepting states in DFA equality

---
 pads/automata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/automata.py b/pads/automata.py
index b607c4a..53f13c7 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -209,6 +209,8 @@ class DFA(FiniteAutomaton):
         while unprocessed:
             x = unprocessed.pop()
             y = equivalences[x]
+            if self.isfinal(x) != other.isfinal(y):
+                return False
             for c in self.alphabet:
                 xc = self.transition(x, c)
                 yc = other.transition(y, c)
-- 
2.43.0


From 5ea9a3fcaa62ad17a15843baf3fe88abb622e40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 15/25] fix: accept the empty string without accepting initial
 states

Making the initial states final also accepts words that pass through
them again.
---
 pads/automata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index 53f13c7..543b076 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -392,7 +392,7 @@ class RegExp(NFA):
             self.successor[state].add(final)
         self.final = frozenset([final])
         if epsilon:
-            self.final = self.final | self.initial
+            self.initial = self.initial | self.final
 
     def transition(self, state, c):
         """Implement NFA transition function."""
-- 
2.43.0


From e1a7cd4dcc5c4842d3d541b4a0036ec137f9fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 16/25] fix: catch only the signal of the chordality test

---
 pads/chordal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/chordal.py b/pads/chordal.py
index 4568aa0..c3ec2ff 100644
--- a/pads/chordal.py
+++ b/pads/chordal.py
@@ -43,6 +43,6 @@ def is_chordal(G):
         raise ValueError("Input to Chordal is not an undirected graph")
     try:
         perfect_elimination_ordering(G)
-    except:
+    except ValueError:
         return False
     return True
-- 
2.43.0


From fd89ac9de14bb3d57c25a9b3f175c0c1f34c8047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 17/25] fix: only treat non-iterables as numbers in
 permutations

---
 pads/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/permutations.py b/pads/permutations.py
index b1cd2f1..147a841 100644
--- a/pads/permutations.py
+++ b/pads/permutations.py
@@ -67,7 +67,7 @@ def SteinhausJohnsonTrotter(x):
     # set up the permutation and its length
     try:
         perm = list(x)
-    except:
+    except TypeError:
         perm = list(range(x))
     n = len(perm)
 
-- 
2.43.0


From 26f068209d4b666f2c63b30619b17f528df70be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 18/25] fix: only report malformed numbers as graph format
 errors

---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 583df2e..4650c40 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -49,7 +49,7 @@ def graphNum(s):
     """Parse s as an integer, complain appropriately if it fails."""
     try:
         return int(s)
-    except:
+    except ValueError:
         raise GraphFormatError('Number expected: "%s"' % s)
 
 
-- 
2.43.0


From 1c4f8fe5911222861e6dd3e4a6e6379269c1f21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 19/25] fix: skip the whole sparse6 header

---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 4650c40..68e1c91 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -307,7 +307,7 @@ def readGraph6(str):
 def readSparse6(str):
     """Read undirected graph in sparse6 format."""
     if str.startswith('>>sparse6<<'):
-        str = str[10:]
+        str = str[11:]
     if not str.startswith(':'):
         raise GraphFormatError('Expected colon in sparse6')
     n, data = graph6n(graph6data(str[1:]))
-- 
2.43.0


From 15824feeac5b20d5033adc3f3f8e459ac64b8f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:40 +0000
Subject: [PATCH 20/25] fix: connect the third orbit of Coxeter graphs to
 itself

The listed graph was not undirected.
---
 pads/graph_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/graph_examples.py b/pads/graph_examples.py
index 69108a1..4584991 100644
--- a/pads/graph_examples.py
+++ b/pads/graph_examples.py
@@ -23,7 +23,7 @@ def GeneralizedCoxeterGraph(n, a, b):
         G[i, 0] = (i, 1), (i, 2), (i, 3)
         G[i, 1] = (i, 0), ((i + 1) % n, 1), ((i - 1) % n, 1)
         G[i, 2] = (i, 0), ((i + a) % n, 2), ((i - a) % n, 2)
-        G[i, 3] = (i, 0), ((i + b) % n, 1), ((i - b) % n, 1)
+        G[i, 3] = (i, 0), ((i + b) % n, 3), ((i - b) % n, 3)
     return G
 
 CoxeterGraph = GeneralizedCoxeterGraph(7, 2, 3)
-- 
2.43.0


From 258c3d4b496d658e9edae407ed390f62876d340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:55 +0000
Subject: [PATCH 21/25] fix: keep stored items when a lookup or a failed
 insertion has an equal key

---
 pads/sequence.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pads/sequence.py b/pads/sequence.py
index adc3a2b..85d6e4a 100644
--- a/pads/sequence.py
+++ b/pads/sequence.py
@@ -69,9 +69,7 @@ class Sequence:
         """Apply supplied key function."""
         if not self._key:
             return x
-        key = self._key(x)
-        self._items[key] = x
-        return key
+        return self._key(x)
 
     def _insafter(self, x, y):
         """Unkeyed version of insertAfter."""
@@ -83,6 +81,7 @@ class Sequence:
 
     def append(self, x):
         """Add x to the end of the sequence."""
+        item = x
         x = self.key(x)
         if not self._next:  # add to empty sequence
             self._next = {x: x}
@@ -90,6 +89,7 @@ class Sequence:
             self._first = x
         else:
             self._insafter(self._prev[self._first], x)
+        self._items[x] = item
 
     def remove(self, x):
         """Remove x from the sequence."""
@@ -103,15 +103,19 @@ class Sequence:
 
     def insertAfter(self, x, y):
         """Add y after x in the sequence."""
+        item = y
         y = self.key(y)
         x = self.key(x)
         self._insafter(x, y)
+        self._items[y] = item
 
     def insertBefore(self, x, y):
         """Add y before x in the sequence."""
+        item = y
         y = self.key(y)
         x = self.key(x)
         self._insafter(self._prev[x], y)
+        self._items[y] = item
         if self._first == x:
             self._first = y
 
-- 
2.43.0


From e3ec7b701b88c674eecef44bf11ba3c540f3113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:36 +0000
Subject: [PATCH 22/25] fix: give items inserted before a later item a position
 tag

---
 pads/ordered_sequence.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 82e0a61..297ecb9 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -71,8 +71,11 @@ class SimpleOrderedSequence(Sequence):
         y = self.key(y)
         if self._first == y:
             self._tag[y] = self._tag[x] // 2
-            if self._tag[y] == self._tag[x]:
-                self.rebalance(y)
+        else:
+            prevtag = self._tag[self._prev[y]]
+            self._tag[y] = prevtag + (self._tag[x] - prevtag + 1) // 2
+        if self._tag[y] == self._tag[x]:
+            self.rebalance(y)
 
     def rebalance(self, x):
         """Clean up after x and its successor's tags collide."""
-- 
2.43.0


From f38070cbb9dfd7c2bbb37208edeed644aebbee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:38 +0000
Subject: [PATCH 23/25] fix: list each item of a sorted set once

---
 pads/sorted_set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pads/sorted_set.py b/pads/sorted_set.py
index 82b71c2..4e18129 100644
--- a/pads/sorted_set.py
+++ b/pads/sorted_set.py
@@ -39,6 +39,8 @@ class SortedSet:
 
     def add(self, item):
         """Add the given item to a sorted set."""
+        if item in self._set:
+            return
         self._set.add(item)
         if self._previous:
             self._additions.add(item)
@@ -55,7 +57,7 @@ class SortedSet:
         neighbors in the order.
 
         """
-        if self._previous:
+        if self._previous and item in self._set:
             self._removals.add(item)
             self._additions.add(item)
 
-- 
2.43.0


From 77c06069cc62c881d4f80e585bb8658c98e2b894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:38 +0000
Subject: [PATCH 24/25] fix: add the weight of each merged set once

---
 pads/union_find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/union_find.py b/pads/union_find.py
index 402b836..0bc66db 100644
--- a/pads/union_find.py
+++ b/pads/union_find.py
@@ -60,7 +60,7 @@ class UnionFind:
         """Find the sets containing the objects and merge them all."""
         roots = [self[x] for x in objects]
         heaviest = max(roots, key=lambda r: self.weights[r])
-        for r in roots:
+        for r in set(roots):
             if r != heaviest:
                 self.weights[heaviest] += self.weights[r]
                 self.parents[r] = heaviest
-- 
2.43.0


From 01e460f2f2fc3917655583b86ac3f5a4c91787b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:21:28 +0000
Subject: [PATCH 25/25] fix: use the keys of items for the tags of ordered
 sequences

---
 pads/ordered_sequence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 297ecb9..28c00a7 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -47,7 +47,8 @@ class SimpleOrderedSequence(Sequence):
             Sequence.append(self, x)
             self._tag[self.key(x)] = sys.maxsize // 2
         else:
-            self.insertAfter(self._prev[self._first], x)
+            last = self._prev[self._first]
+            self.insertAfter(self._items.get(last, last), x)
 
     def insertAfter(self, x, y):
         """Add y after x and compute a tag for it."""
@@ -82,7 +83,7 @@ class SimpleOrderedSequence(Sequence):
         base = 0
         increment = sys.maxsize // len(self)
         for y in self:
-            self._tag[y] = base
+            self._tag[self.key(y)] = base
             base += increment
 
 
-- 
2.43.0

