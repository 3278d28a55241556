From fcfb2e1471e9eba2defef56416638d05c623383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 1/8] fix: skip a dormer whose side bisectors never meet

Ray2.intersect() returns None for diverging bisectors. processDormers() put
that None into the DormerEvent, from where it became a skeleton node and
raised a TypeError in mergeNodeClusters().
---
 bpypolyskel/bpypolyskel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 60c9261..1e63699 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -325,7 +325,7 @@ class _SLAV:
         self._lavs.remove(lav)
         self._lavs.append(new_lav[0])
 
-        p = v_prev.bisector.intersect(v_next.bisector)
+        p = event.intersection_point    # intersection of the bisectors of v_prev and v_next
         arcs = []
         # from edge event
         arcs.append( Subtree(ev_edge.intersection_point, ev_edge.distance, [ev_edge.vertex_a.point,ev_edge.vertex_b.point,p] ) )
@@ -790,6 +790,8 @@ def processDormers(dormers,initialEvents):
             v_prev = ev_prev.vertex
             v_next = ev_next.vertex
             p = v_prev.bisector.intersect(v_next.bisector)
+            if p is None:   # the bisectors never meet, can't be handled as a dormer
+                continue
             d = dormer[1]/2.0
             # process events:                         split1       split2       edge
             dormerEvents.append( DormerEvent(d, p, [d_events[0], d_events[3] ,d_events[1]]) )
-- 
2.43.0


From e2e33f0ae8912e1a7906058aca135f133844f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 2/8] fix: don't divide by zero for an apse candidate on a
 straight line

Six or more low angles in sequence may also be a subdivided straight edge.
fitCircle3Points() then divided by a zero imaginary part (or by the
difference of coincident points).
---
 bpypolyskel/bpyeuclid.py   | 4 ++++
 bpypolyskel/bpypolyskel.py | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpyeuclid.py b/bpypolyskel/bpyeuclid.py
index 7d25e36..e7c8a1c 100644
--- a/bpypolyskel/bpyeuclid.py
+++ b/bpypolyskel/bpyeuclid.py
@@ -100,8 +100,12 @@ def fitCircle3Points(points):
     x = complex(points[0].x, points[0].y)
     y = complex(points[N//2].x, points[N//2].y)
     z = complex(points[-1].x, points[-1].y)
+    if x == y:
+        return None     # no unique circle
     w = z-x
     w /= y-x
+    if w.imag == 0.0:
+        return None     # points are collinear
     c = (x-y)*(w-abs(w)**2)/2j/w.imag-x
     x0 = -c.real
     y0 = -c.imag
diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 1e63699..47ef71c 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -569,8 +569,10 @@ def detectApses(outerContour):
         if s < N and s >= nextStart:
             apseIndices = [ i%len(sequence) for i in range(*apse.span())]
             apseVertices = [outerContour[i].p1 for i in apseIndices]
-            center, R = fitCircle3Points(apseVertices)
-            centers.append(center)
+            circle = fitCircle3Points(apseVertices)
+            if circle is not None:
+                center, R = circle
+                centers.append(center)
     
     return centers
 
-- 
2.43.0


From 78137843781d92a68e5575ac404ded9c006ff590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 3/8] fix: don't divide by zero for coincident graph vertices

pseudoangle() got a zero vector, if a skeleton node coincides with one of
its neighbors in the graph.
---
 bpypolyskel/poly2FacesGraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/poly2FacesGraph.py b/bpypolyskel/poly2FacesGraph.py
index a854348..96f3839 100644
--- a/bpypolyskel/poly2FacesGraph.py
+++ b/bpypolyskel/poly2FacesGraph.py
@@ -8,7 +8,10 @@ EPSILON = 0.00001
 # Output: a number from the range [0 .. 4] which is monotonic
 #         in the angle this vector makes against the x axis.
 def pseudoangle(d):
-    p = d[0]/(abs(d[0])+abs(d[1])) # -1 .. 1 increasing with x
+    norm = abs(d[0])+abs(d[1])
+    if not norm:    # coincident vertices have no direction
+        return 0
+    p = d[0]/norm # -1 .. 1 increasing with x
     if d[1] < 0: 
         return 3 + p  #  2 .. 4 increasing with x
     else:
-- 
2.43.0


From 1767cb574bbbc4210e387179e204bffa46187d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 4/8] fix: restart the pair search in removeGhosts after
 removing a spike

The break left only the loop over the sinks of the near node. The search
went on with pairs of sinks that had already been removed, so that
arc.sinks.remove() raised a ValueError.
---
 bpypolyskel/bpypolyskel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 47ef71c..b26aacc 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -544,6 +544,8 @@ def removeGhosts(skeleton):
                                     arc.sinks.remove(nearSink)
                                     sinksAltered = True
                                     break
+                            if sinksAltered:    # the remaining pairs are outdated
+                                break
 
 def detectApses(outerContour):
     import re
-- 
2.43.0


From 9418e854993143c5e079528d6c5f0f1741e70ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:02 +0000
Subject: [PATCH 5/8] fix: don't read a missing attribute when a DormerEvent is
 printed

---
 bpypolyskel/bpypolyskel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index b26aacc..c39c628 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -84,9 +84,9 @@ class DormerEvent():
         # print('difference S: ', self.distance - other.distance, self.distance < other.distance, (self.distance - other.distance)< -EPSILON)
         return self.distance < other.distance
     def __str__(self):
-        return "DormerEvent:%4d d=%4.2f, ip=%s"%(self.id,self.distance,self.intersection_point)
+        return "DormerEvent: d=%4.2f, ip=%s"%(self.distance,self.intersection_point)
     def __repr__(self):
-        return "DormerEvent:%4d d=%4.2f, ip=%s"%(self.id,self.distance,self.intersection_point)
+        return "DormerEvent: d=%4.2f, ip=%s"%(self.distance,self.intersection_point)
 
 _OriginalEdge = namedtuple("_OriginalEdge", "edge bisector_prev, bisector_next")
 
-- 
2.43.0


From aa9bb3a3c6e27cf0bacbbe610d1ac7f75f7baf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 6/8] fix: judge every dormer candidate by its own neighbours

The turns before and after a candidate were read at the start of the last
match found in the contour, not of the candidate itself.
---
 bpypolyskel/bpypolyskel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index c39c628..c3abbaf 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -765,6 +765,7 @@ def detectDormers(slav, edgeContours):
 
     dormers = []
     for oi in dormerIndices:
+        s = oi[0]
         w = outerContour[oi[1]].length_squared()    # length^2 of base edge
         d1 = outerContour[oi[0]].length_squared()   # length^2 of side edge
         d2 = outerContour[oi[2]].length_squared()   # length^2 of side edge
-- 
2.43.0


From fe6fff8d0c2850c1b2c10883516b32c61f1ce4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 7/8] fix: take the events of a dormer in the order of its
 vertices

A dormer that contains the first vertex of the contour got its events in
the order of their indices, so it was not recognised as a dormer.
---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index c3abbaf..e6957f7 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -784,7 +784,7 @@ def processDormers(dormers,initialEvents):
     dormerEventIndices = []
     for dormer in dormers:
         dormerIndices = dormer[0]
-        d_events = [ev for i,ev in enumerate(initialEvents) if i in dormerIndices]
+        d_events = [initialEvents[i] for i in dormerIndices]
         if all([(d is not None) for d in d_events]): # if all events are valid
             if  not isinstance(d_events[0], _SplitEvent) or \
                 not isinstance(d_events[1], _EdgeEvent) or \
-- 
2.43.0


From 76cc071e8426aaa95d51eb906e18c5acff0fc5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:57 +0000
Subject: [PATCH 8/8] fix: keep the nearer arc when a ghost arc is handed over

removeGhosts() removed both arcs of a nearly parallel pair from the node,
though only the farther end is taken over by the near node. The arc between
the node and the near node was lost, and the roof faces on its two sides
were merged. Only the farther arc leaves the node now.
---
 bpypolyskel/bpypolyskel.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index e6957f7..4c7cb76 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -531,7 +531,6 @@ def removeGhosts(skeleton):
                         if dotCosineAbs < EPSILON:  # We have a ghost edge, sinks almost parallel
                             skeleton[nodeIndex].sinks.append(farSink)
                             arc.sinks.remove(farSink)
-                            arc.sinks.remove(nearSink)
                             sinksAltered = True
                             break
                         else:   # maybe we have a spike that crosses other skeleton edges
@@ -541,7 +540,6 @@ def removeGhosts(skeleton):
                                 if intersect(source, farSink, nearSink, sink):
                                     skeleton[nodeIndex].sinks.append(farSink)
                                     arc.sinks.remove(farSink)
-                                    arc.sinks.remove(nearSink)
                                     sinksAltered = True
                                     break
                             if sinksAltered:    # the remaining pairs are outdated
-- 
2.43.0

