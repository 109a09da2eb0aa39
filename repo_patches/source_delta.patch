From 2b23e0d9295ce6bd77905fd5fc11484c734a008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 01/31] fix: compare the first vertex with its true predecessor
 when removing collinear points of an orphan

---
 src/clipQuantizedTessellation2d.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/clipQuantizedTessellation2d.cc b/src/clipQuantizedTessellation2d.cc
index 6a3b36d..4033d2a 100644
--- a/src/clipQuantizedTessellation2d.cc
+++ b/src/clipQuantizedTessellation2d.cc
@@ -37,7 +37,8 @@ removeCollinearPoints(bp::polygon_data<IntType>& poly) {
   std::vector<Point> points;
   Segment segment;
   for (int i = 0; i != n-1; ++i) {
-    segment = bp::construct<Segment>(*(poly.begin()+(i-1)%n), *(poly.begin()+(i+1)%n));
+    // The last point repeats the first, so the point before the first is the one before the last.
+    segment = bp::construct<Segment>(*(poly.begin()+(i == 0 ? n-2 : i-1)), *(poly.begin()+(i+1)%n));
     if (!bp::contains(segment, *(poly.begin() + i))) points.push_back(*(poly.begin() + i));
   }
   POLY_ASSERT2(points.size() >= 3, points.size());
-- 
2.43.0


From 4456d342b02bccfc4513526d283fa9b1ba73dbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:47 +0000
Subject: [PATCH 02/31] fix: merge an orphan with every orphan it touches, not
 only the first found

---
 src/clipQuantizedTessellation2d.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/clipQuantizedTessellation2d.cc b/src/clipQuantizedTessellation2d.cc
index 4033d2a..2578a78 100644
--- a/src/clipQuantizedTessellation2d.cc
+++ b/src/clipQuantizedTessellation2d.cc
@@ -168,29 +168,32 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
       while (polygonIndex < cellSet.size() and not bp::contains(cellSet[polygonIndex], gen)) ++polygonIndex;
       POLY_ASSERT(polygonIndex < cellSet.size());
 
-      // For each new orphan check if it can be unioned with an existing orphan.  Otherwise add it to the orphan set.
+      // For each new orphan check if it can be unioned with existing orphans.  A new orphan may join
+      // several existing ones together, so keep absorbing until nothing left touches it.
       unsigned k;
-      PolygonSet trialunion;
       typename QuantizedTessellation2d<IntType, RealType>::RealPoint rp;
       IntType pp[2] = {gen.x(), gen.y()};
       qmesh.dequantize(pp, &rp.x);
       for (unsigned ipoly = 0; ipoly != cellSet.size(); ++ipoly) {
         if (ipoly != polygonIndex) {
-          for (k = 0; k != orphans.size(); ++k) {
+          Polygon orphan = cellSet[ipoly];
+          k = 0;
+          while (k != orphans.size()) {
             PolygonSet set1, set2, trialunion;
-            set1 += cellSet[ipoly];
+            set1 += orphan;
             set2 += orphans[k];
             bp::assign(trialunion, set1 | set2);
             if (trialunion.size() == 1) {
               // Looks like these orphans can be unioned.  Replace the exising orphan with the union.
-              orphans[k] = trialunion[0];
-              removeCollinearPoints(orphans[k]);
-              break;
+              orphan = trialunion[0];
+              removeCollinearPoints(orphan);
+              orphans.erase(orphans.begin() + k);
+              k = 0;
+            } else {
+              ++k;
             }
           }
-
-          // If we didn't find another orphan to union with, add this one to the orphanage.
-          if (k == orphans.size()) orphans += cellSet[ipoly];
+          orphans.push_back(orphan);
         }
       }
     }
-- 
2.43.0


From 87f8e13e03685517d94a3a5fb049a44daa728645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:26 +0000
Subject: [PATCH 03/31] fix: snap orphans to the nodes of their neighbors
 before merging them, and look at all of an orphan's nodes

---
 src/clipQuantizedTessellation2d.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/clipQuantizedTessellation2d.cc b/src/clipQuantizedTessellation2d.cc
index 2578a78..d59f3b3 100644
--- a/src/clipQuantizedTessellation2d.cc
+++ b/src/clipQuantizedTessellation2d.cc
@@ -202,10 +202,10 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
     // It appears Boost.Polygon gives us back the same node for the beginning and ending nodes of the
     // polygon.
     POLY_ASSERT(bp::contains(cellSet[polygonIndex], gen));
-    cellPolygons.push_back(cellSet[polygonIndex]);
     nverts = cellSet[polygonIndex].size();
     POLY_ASSERT(nverts > 3);
     POLY_ASSERT(*(cellSet[polygonIndex].begin()) == *(cellSet[polygonIndex].begin() + nverts - 1));
+    std::vector<Point> snappedPoints;
     for (unsigned j = 0; j != nverts-1; ++j) {
       const Point& v0 = *(cellSet[polygonIndex].begin() + j);
       const Point& v1 = *(cellSet[polygonIndex].begin() + j + 1);
@@ -229,6 +229,7 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
         newNodeCells.push_back(std::set<int>());
       }
       newNodeCells[j1].insert(i);
+      snappedPoints.push_back(bp::construct<Point>(newNodes[j0].x, newNodes[j0].y));
     
       // Now insert the edge if non-degenerate.
       if (j0 != j1) {
@@ -248,6 +249,7 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
         }
       }
     }
+    cellPolygons.push_back(Polygon(snappedPoints.begin(), snappedPoints.end()));
   }
   POLY_ASSERT(cellPolygons.size() == ncells);
 
@@ -255,7 +257,18 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
   for (typename Orphanage::iterator orphanItr = orphans.begin();
        orphanItr != orphans.end();
        ++orphanItr) {
-    const Polygon& orphan = *orphanItr;
+
+    // Snap this orphan to the nodes of the cells around it, so that roundoff in the clipping cannot
+    // leave gaps between them.
+    std::vector<Point> orphanPoints(orphanItr->begin(), orphanItr->end());
+    for (typename std::vector<Point>::iterator pItr = orphanPoints.begin(); pItr != orphanPoints.end(); ++pItr) {
+      const IntPoint p0(pItr->x(), pItr->y());
+      if (node2id.have(p0)) {
+        p = newNodes[node2id.index(p0)];
+        *pItr = bp::construct<Point>(p.x, p.y);
+      }
+    }
+    const Polygon orphan(orphanPoints.begin(), orphanPoints.end());
 
     // Start the local boundary with just the orphan.
     PolygonSet localBoundary;
@@ -265,7 +278,7 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
     // We use those neigbors to augment the local boundary by union.
     std::set<unsigned> neighbors;
     for (typename Polygon::iterator_type pItr = orphan.begin();
-         pItr != orphan.end() - 1;
+         pItr != orphan.end();
          ++pItr) {
 
       // Check the generators touching this node.
-- 
2.43.0


From bfd0b201d3a375d54ff1d8d00a963c09ad9e1c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:38 +0000
Subject: [PATCH 04/31] fix: adopt an orphan without losing pieces of its
 neighbors

Splitting an orphan between its neighbors can disconnect part of a neighbor
from its generator.  Only the first polygon of the result was kept; keep the
one with the generator and put the others back up for adoption.
---
 src/clipQuantizedTessellation2d.cc | 40 ++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/clipQuantizedTessellation2d.cc b/src/clipQuantizedTessellation2d.cc
index d59f3b3..c41966f 100644
--- a/src/clipQuantizedTessellation2d.cc
+++ b/src/clipQuantizedTessellation2d.cc
@@ -253,14 +253,15 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
   }
   POLY_ASSERT(cellPolygons.size() == ncells);
 
-  // Now deal with any orphans.
-  for (typename Orphanage::iterator orphanItr = orphans.begin();
-       orphanItr != orphans.end();
-       ++orphanItr) {
+  // Now deal with any orphans.  Adopting an orphan can leave part of a neighboring cell disconnected
+  // from its generator: such pieces join the end of the orphanage.  They bound the work allowed, so
+  // that orphans cannot be passed around forever.
+  const size_t maxOrphans = 10*orphans.size();
+  for (size_t iorphan = 0; iorphan != orphans.size(); ++iorphan) {
 
     // Snap this orphan to the nodes of the cells around it, so that roundoff in the clipping cannot
     // leave gaps between them.
-    std::vector<Point> orphanPoints(orphanItr->begin(), orphanItr->end());
+    std::vector<Point> orphanPoints(orphans[iorphan].begin(), orphans[iorphan].end());
     for (typename std::vector<Point>::iterator pItr = orphanPoints.begin(); pItr != orphanPoints.end(); ++pItr) {
       const IntPoint p0(pItr->x(), pItr->y());
       if (node2id.have(p0)) {
@@ -334,17 +335,34 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
       PolygonSet cellSet;
       cellSet += cell;
       cellSet &= localBoundary;
-      POLY_ASSERT2(cellSet.size() == 1, cellSet.size());  // Hopefully no more new orphans!
 
-      removeCollinearPoints(cellSet[0]); // Get rid of any collinear points the intersection operation may have left behind.
+      // Find the piece with the generator.  Any other pieces are new orphans.
+      const Point gen = bp::construct<Point>(qmesh.generators[igen].x, qmesh.generators[igen].y);
+      unsigned polygonIndex = 0;
+      if (cellSet.size() > 1) {
+        while (polygonIndex + 1 < cellSet.size() and not bp::contains(cellSet[polygonIndex], gen)) ++polygonIndex;
+        for (unsigned ipoly = 0; ipoly != cellSet.size(); ++ipoly) {
+          if (ipoly != polygonIndex and orphans.size() < maxOrphans) orphans.push_back(cellSet[ipoly]);
+        }
+      }
+      POLY_ASSERT(polygonIndex < cellSet.size());
+
+      removeCollinearPoints(cellSet[polygonIndex]); // Get rid of any collinear points the intersection operation may have left behind.
+
+      // Forget the old cell geometry.
+      for (unsigned j = 0; j != newCellEdges[igen].size(); ++j) {
+        const int iedge = internal::positiveID(newCellEdges[igen][j]);
+        newNodeCells[newEdges[iedge].first].erase(igen);
+        newNodeCells[newEdges[iedge].second].erase(igen);
+      }
 
       // Read out the new cell geometry.
-      cellPolygons[igen] = cellSet[0];
+      cellPolygons[igen] = cellSet[polygonIndex];
       newCellEdges[igen].clear();
-      nverts = cellSet[0].size();
+      nverts = cellSet[polygonIndex].size();
       for (unsigned j = 0; j != nverts; ++j) {
-        const Point& v0 = *(cellSet[0].begin() + j);
-        const Point& v1 = *(cellSet[0].begin() + ((j + 1) % nverts));
+        const Point& v0 = *(cellSet[polygonIndex].begin() + j);
+        const Point& v1 = *(cellSet[polygonIndex].begin() + ((j + 1) % nverts));
    
         // Insert vertex 0.
         p.x = v0.x();
-- 
2.43.0


From ff72ba26b9b70caf741c17c7d262791aa80c9c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:23 +0000
Subject: [PATCH 05/31] fix: collapse Voronoi edges too short to resolve

A Voronoi node shared by more than three generators comes out of Boost as a
cluster of nodes a few quanta apart.  Clipping collapsed some of them for some
of the cells, leaving cracks between cells and internal boundary nodes.
---
 src/BoostTessellator.cc | 67 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/src/BoostTessellator.cc b/src/BoostTessellator.cc
index 51012be..38d6197 100644
--- a/src/BoostTessellator.cc
+++ b/src/BoostTessellator.cc
@@ -38,6 +38,69 @@ using std::min;
 using std::max;
 using std::abs;
 
+namespace {
+//------------------------------------------------------------------------------
+// Collapse the edges too short to resolve, merging the nodes they join.
+//------------------------------------------------------------------------------
+template<typename QuantizedTessellation>
+void
+collapseShortEdges(QuantizedTessellation& qmesh) {
+  const int tol = 16;
+  const unsigned nnodes = qmesh.nodes.size(), nedges = qmesh.edges.size();
+
+  // Label each node with the lowest numbered node it merges with.
+  vector<int> label(nnodes);
+  for (unsigned i = 0; i != nnodes; ++i) label[i] = i;
+  bool done = false, short_edges = false;
+  while (not done) {
+    done = true;
+    for (unsigned i = 0; i != nedges; ++i) {
+      const int j0 = qmesh.edges[i].first, j1 = qmesh.edges[i].second;
+      if (label[j0] != label[j1] and
+          abs(qmesh.nodes[j0].x - qmesh.nodes[j1].x) <= tol and
+          abs(qmesh.nodes[j0].y - qmesh.nodes[j1].y) <= tol) {
+        label[j0] = label[j1] = min(label[j0], label[j1]);
+        short_edges = true;
+        done = false;
+      }
+    }
+  }
+  if (not short_edges) return;
+
+  // Renumber the nodes, the edges, and the edges of the cells.
+  vector<int> newNodeID(nnodes);
+  vector<typename QuantizedTessellation::IntPoint> nodes;
+  for (unsigned i = 0; i != nnodes; ++i) {
+    if (label[i] == int(i)) {
+      newNodeID[i] = nodes.size();
+      nodes.push_back(qmesh.nodes[i]);
+    } else {
+      newNodeID[i] = newNodeID[label[i]];
+    }
+  }
+  vector<pair<int, int> > edges;
+  map<pair<int, int>, int> edge2id;
+  for (unsigned i = 0; i != qmesh.cellEdges.size(); ++i) {
+    vector<int> cellEdges;
+    for (unsigned j = 0; j != qmesh.cellEdges[i].size(); ++j) {
+      const int k = qmesh.cellEdges[i][j];
+      int j0 = newNodeID[qmesh.edges[internal::positiveID(k)].first];
+      int j1 = newNodeID[qmesh.edges[internal::positiveID(k)].second];
+      if (k < 0) swap(j0, j1);
+      if (j0 != j1) {
+        const pair<int, int> edge = internal::hashEdge(j0, j1);
+        const int e1 = internal::addKeyToMap(edge, edge2id);
+        if (e1 == int(edges.size())) edges.push_back(edge);
+        cellEdges.push_back(edge.first == j0 ? e1 : ~e1);
+      }
+    }
+    qmesh.cellEdges[i] = cellEdges;
+  }
+  qmesh.nodes = nodes;
+  qmesh.edges = edges;
+}
+}
+
 //------------------------------------------------------------------------------
 // Default constructor
 //------------------------------------------------------------------------------
@@ -170,6 +233,10 @@ tessellateQuantized(QuantizedTessellation& result) const {
       } while (edge != cellItr->incident_edge());
     }
   }
+
+  // Voronoi nodes shared by more than three generators arrive here as a cluster of nodes a few
+  // quanta apart.  Collapse them.
+  collapseShortEdges(result);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From ff235570fdce1d405ac733f2b967e0a8f2065bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:47 +0000
Subject: [PATCH 06/31] fix: do not hand an orphan back to the cell it was cut
 from

---
 src/clipQuantizedTessellation2d.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/clipQuantizedTessellation2d.cc b/src/clipQuantizedTessellation2d.cc
index c41966f..b8bc01a 100644
--- a/src/clipQuantizedTessellation2d.cc
+++ b/src/clipQuantizedTessellation2d.cc
@@ -257,6 +257,7 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
   // from its generator: such pieces join the end of the orphanage.  They bound the work allowed, so
   // that orphans cannot be passed around forever.
   const size_t maxOrphans = 10*orphans.size();
+  std::vector<int> orphanParent(orphans.size(), -1);  // The cell an orphan was cut from during adoption.
   for (size_t iorphan = 0; iorphan != orphans.size(); ++iorphan) {
 
     // Snap this orphan to the nodes of the cells around it, so that roundoff in the clipping cannot
@@ -292,6 +293,9 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
     }
     POLY_ASSERT(neighbors.size() > 0);
 
+    // A cell cannot take back the piece adoption just cut from it: they meet in a point at most.
+    if (neighbors.size() > 1 and orphanParent[iorphan] >= 0) neighbors.erase(orphanParent[iorphan]);
+
     // Find the overall boundary of the orphan unioned with all the neighbors, and accumulate the
     // local generator positions.
     vector<IntPoint> localgenerators;
@@ -342,7 +346,10 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
       if (cellSet.size() > 1) {
         while (polygonIndex + 1 < cellSet.size() and not bp::contains(cellSet[polygonIndex], gen)) ++polygonIndex;
         for (unsigned ipoly = 0; ipoly != cellSet.size(); ++ipoly) {
-          if (ipoly != polygonIndex and orphans.size() < maxOrphans) orphans.push_back(cellSet[ipoly]);
+          if (ipoly != polygonIndex and orphans.size() < maxOrphans) {
+            orphans.push_back(cellSet[ipoly]);
+            orphanParent.push_back(igen);
+          }
         }
       }
       POLY_ASSERT(polygonIndex < cellSet.size());
-- 
2.43.0


From 2c6624b1a57c61b145ffd46089cc34e82495553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:19 +0000
Subject: [PATCH 07/31] fix: hash positions into 64 bits, so distinct points
 keep distinct hashes

---
 src/QuantTessellation.hh            |  2 +-
 src/polytope_geometric_utilities.hh | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/QuantTessellation.hh b/src/QuantTessellation.hh
index 53e6801..f9aa579 100644
--- a/src/QuantTessellation.hh
+++ b/src/QuantTessellation.hh
@@ -15,7 +15,7 @@ template<int Dimension, typename RealType>
 class QuantTessellation {
 public:
   typedef typename DimensionTraits<Dimension, RealType>::CoordHash CoordHash;
-  typedef typename DimensionTraits<Dimension, RealType>::CoordHash PointHash;
+  typedef typename geometry::Hasher<Dimension, RealType>::CoordHash PointHash;
   typedef typename DimensionTraits<Dimension, RealType>::IntPoint  IntPoint;
   typedef typename DimensionTraits<Dimension, RealType>::RealPoint RealPoint;
   typedef std::pair<int, int> EdgeHash;
diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 653504c..f7be2e8 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -60,8 +60,8 @@ template<int Dimension, typename RealType> struct Hasher;
 // 2D
 template<typename RealType> struct Hasher<2, RealType> {
 
-  // typedef typename DimensionTraits<Dimension, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  // The hashed coordinates are packed into (and flagged in) all 64 bits.
+  typedef uint64_t CoordHash;
 
   static unsigned  num1dbits()                { return 31U; }
   //static unsigned  num1dbits()                { return 30U; }
@@ -161,7 +161,8 @@ template<typename RealType> struct Hasher<2, RealType> {
   }
 
   // Return hashed integer as a hashed 2 position.
-  static void hashedPosition(CoordHash* pos,
+  template<typename IntType>
+  static void hashedPosition(IntType* pos,
 			     const CoordHash hashedPosition) {
     pos[0] = qxval(hashedPosition);
     pos[1] = qyval(hashedPosition);
@@ -171,8 +172,8 @@ template<typename RealType> struct Hasher<2, RealType> {
 // 3D
 template<typename RealType> struct Hasher<3, RealType> {
 
-  // typedef DimensionTraits<3, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  // The hashed coordinates are packed into (and flagged in) all 64 bits.
+  typedef uint64_t CoordHash;
 
   static unsigned  num1dbits()                { return 21U; }
   static CoordHash coordMax()                 { return (1ULL << num1dbits()) - 1ULL; }
@@ -1358,8 +1359,7 @@ uniquePoints(const std::vector<RealType>& points,
              std::vector<unsigned>& indexMap) {
   POLY_ASSERT(points.size() % Dimension == 0);
   typedef geometry::Hasher<Dimension, RealType> HasherType;
-  // typedef DimensionTraits<Dimension, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef typename HasherType::CoordHash CoordHash;
 
   // // Compute the bounding box.
   // RealType xmin[Dimension], xmax[Dimension];
@@ -1373,7 +1373,7 @@ uniquePoints(const std::vector<RealType>& points,
   RealType pos[Dimension];
   for (unsigned i = 0; i != n; ++i) {
     const CoordHash hashi = HasherType::hashPosition(&points[Dimension*i], xmin, xmax, xmin, xmax, tol);
-    std::map<CoordHash, unsigned>::const_iterator itr = uniqueHashes.find(hashi);
+    typename std::map<CoordHash, unsigned>::const_iterator itr = uniqueHashes.find(hashi);
     if (itr == uniqueHashes.end()) {
       uniqueHashes[hashi] = j;
       HasherType::unhashPosition(pos, xmin, xmax, xmin, xmax, hashi, tol);
-- 
2.43.0


From cf6d68cbe01f9ab7d3f0b99831c926d45264ae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:31 +0000
Subject: [PATCH 08/31] fix: use the y component of ac in the x component of a
 face normal

---
 src/convexIntersect.hh              | 2 +-
 src/polytope_geometric_utilities.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convexIntersect.hh b/src/convexIntersect.hh
index 095a9c1..ca7ec46 100644
--- a/src/convexIntersect.hh
+++ b/src/convexIntersect.hh
@@ -95,7 +95,7 @@ void computeNormal(const RealType& ax, const RealType& ay, const RealType& az,
                    double& nx, double& ny, double& nz) {
   const double dx_ab = bx - ax, dy_ab = by - ay, dz_ab = bz - az;
   const double dx_ac = cx - ax, dy_ac = cy - ay, dz_ac = cz - az;
-  nx = dy_ab*dz_ac - dz_ab*dz_ac;
+  nx = dy_ab*dz_ac - dz_ab*dy_ac;
   ny = dz_ab*dx_ac - dx_ab*dz_ac;
   nz = dx_ab*dy_ac - dy_ab*dx_ac;
 }
diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index f7be2e8..1b10d64 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -1577,7 +1577,7 @@ computeNormal(const RealType& ax, const RealType& ay, const RealType& az,
               double& nx, double& ny, double& nz) {
   const double dx_ab = bx - ax, dy_ab = by - ay, dz_ab = bz - az;
   const double dx_ac = cx - ax, dy_ac = cy - ay, dz_ac = cz - az;
-  nx = dy_ab*dz_ac - dz_ab*dz_ac;
+  nx = dy_ab*dz_ac - dz_ab*dy_ac;
   ny = dz_ab*dx_ac - dx_ab*dz_ac;
   nz = dx_ab*dy_ac - dy_ab*dx_ac;
 }
-- 
2.43.0


From e371e6f0219a4ee72e9968cd3aabe05fcae39007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:31 +0000
Subject: [PATCH 09/31] fix: separate polyhedra along the cross products of
 their edges

---
 src/convexIntersect.hh | 50 +++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/convexIntersect.hh b/src/convexIntersect.hh
index ca7ec46..f58cd85 100644
--- a/src/convexIntersect.hh
+++ b/src/convexIntersect.hh
@@ -100,6 +100,27 @@ void computeNormal(const RealType& ax, const RealType& ay, const RealType& az,
   nz = dx_ab*dy_ac - dy_ab*dx_ac;
 }
 
+//------------------------------------------------------------------------------
+// Compute the extent of a cloud of points along a direction, relative to the
+// origin (ox, oy, oz).
+//------------------------------------------------------------------------------
+template<typename RealType>
+void projectedExtent(const RealType& ox, const RealType& oy, const RealType& oz,
+                     const double& nx, const double& ny, const double& nz,
+                     const std::vector<RealType>& points,
+                     double& xmin, double& xmax) {
+  POLY_ASSERT(points.size() % 3 == 0);
+  POLY_ASSERT(points.size() > 1);
+  const unsigned n = points.size() / 3;
+  for (unsigned i = 0; i != n; ++i) {
+    const double x = (nx*double(points[3*i    ] - ox) +
+                      ny*double(points[3*i + 1] - oy) +
+                      nz*double(points[3*i + 2] - oz));
+    xmin = (i == 0 ? x : std::min(xmin, x));
+    xmax = (i == 0 ? x : std::max(xmax, x));
+  }
+}
+
 //------------------------------------------------------------------------------
 // Hash a pair points to represent an edge.
 //------------------------------------------------------------------------------
@@ -247,31 +268,34 @@ convexIntersect(const ReducedPLC<3, RealType>& a, const ReducedPLC<3, RealType>&
     }
   }
 
-  // Test against the cross products of the edges.
-  int sidea, sideb;
+  // Test against the cross products of the edges: a and b are disjoint if their
+  // extents along any of these directions are.
+  double amin, amax, bmin, bmax;
   for (typename EdgeSet::const_iterator aItr = aEdges.begin();
        aItr != aEdges.end();
        ++aItr) {
     i = aItr->first;
+    k = aItr->second;
     for (typename EdgeSet::const_iterator bItr = bEdges.begin();
          bItr != bEdges.end();
          ++bItr) {
       j = bItr->first;
+      n = bItr->second;
       computeNormal(RealType(0), RealType(0), RealType(0),
-                    a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
-                    b.points[3*j], b.points[3*j + 1], b.points[3*j + 2],
+                    RealType(a.points[3*k    ] - a.points[3*i    ]),
+                    RealType(a.points[3*k + 1] - a.points[3*i + 1]),
+                    RealType(a.points[3*k + 2] - a.points[3*i + 2]),
+                    RealType(b.points[3*n    ] - b.points[3*j    ]),
+                    RealType(b.points[3*n + 1] - b.points[3*j + 1]),
+                    RealType(b.points[3*n + 2] - b.points[3*j + 2]),
                     nx, ny, nz);
-
-      // Test all of a.
-      sidea = compare(a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
+      projectedExtent(a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
                       nx, ny, nz,
-                      a.points);
-      if (sidea == 0) continue;
-      sideb = compare(a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
+                      a.points, amin, amax);
+      projectedExtent(a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
                       nx, ny, nz,
-                      b.points);
-      if (sideb == 0) continue;
-      if (sidea*sideb < 0) return false;
+                      b.points, bmin, bmax);
+      if (amax < bmin or bmax < amin) return false;
     }
   }
 
-- 
2.43.0


From 24cc96ff8f9adde014238d1cc29708807f176f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:31 +0000
Subject: [PATCH 10/31] fix: start the collinearity test of a cloud at its
 third point

---
 src/polytope_geometric_utilities.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 1b10d64..3ddb69f 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -484,7 +484,7 @@ collinear(const std::vector<RealType> points, const RealType tol) {
   bool isCollinear = true;
   int i;
   if (points.size()/Dimension > 1) {
-    i = Dimension;
+    i = 2;
     while (isCollinear and i != points.size()/Dimension) {
       isCollinear *= collinear<Dimension, RealType>(&points[0],
 						    &points[Dimension],
-- 
2.43.0


From 3d0f67d6ace7cf9592b9cb5d4c9dec1c43c878f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:31 +0000
Subject: [PATCH 11/31] fix: count every distinct intersection of a segment
 with a boundary

---
 src/intersect.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/intersect.hh b/src/intersect.hh
index bcbcbe8..b98e14b 100644
--- a/src/intersect.hh
+++ b/src/intersect.hh
@@ -46,11 +46,12 @@ struct IntersectFacetsFunctor<2, RealType> {
                                                    intersectionPoint);
       addPoint = false;
       if(intersects) {
-        if (numIntersections == 0) addPoint = true;
-        else {
-          if (intersectionPoint[0] != result.back() - 1 and
-              intersectionPoint[1] != result.back() ) addPoint = true;
-          else addPoint = false;
+
+        // Make sure we're not adding the same point twice (i.e. a vertex of two facets).
+        addPoint = true;
+        for (unsigned k = 0; k != numIntersections; ++k) {
+          if (intersectionPoint[0] == result[result.size() - 2*k - 2] and
+              intersectionPoint[1] == result[result.size() - 2*k - 1]) addPoint = false;
         }
       }
       
-- 
2.43.0


From 2ac1a68256791905c1006cdec0edc6040e00400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:31 +0000
Subject: [PATCH 12/31] fix: test the plane's normal when a ray is parallel to
 a plane

---
 src/polytope_geometric_utilities.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 3ddb69f..07eb690 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -705,7 +705,7 @@ rayPlaneIntersection(const RealType* p_ray,
   const RealType delta[3] = {p_plane[0] - p_ray[0], p_plane[1] - p_ray[1], p_plane[2] - p_ray[2]};
   if (std::abs(ndots) < tol) {
     // Ray is parallel to the plane.
-    if (std::abs(dot<3, RealType>(p_ray, delta)) < tol) {
+    if (std::abs(dot<3, RealType>(n_plane, delta)) < tol) {
       // Ray is in the plane, just choose the origin point.
       result[0] = p_ray[0]; result[1] = p_ray[1]; result[2] = p_ray[2];
       return true;
-- 
2.43.0


From 66544c4a7505b852cca0d63d730ac4d8cd6d0a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:31 +0000
Subject: [PATCH 13/31] fix: return input indices from the 3D hull when points
 repeat

---
 src/convexHull_3d.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/convexHull_3d.hh b/src/convexHull_3d.hh
index 9114d7a..4ac303e 100644
--- a/src/convexHull_3d.hh
+++ b/src/convexHull_3d.hh
@@ -418,15 +418,19 @@ convexHull_3d(const std::vector<RealType>& points,
     // std::cerr << "  --> " << remainingPoints.size() << std::endl;
   }
 
+  // Find the (first) input point each of our unique points stands for.
+  std::vector<unsigned> inputIndex(nunique);
+  for (unsigned i = pointMap.size(); i-- != 0; ) inputIndex[pointMap[i]] = i;
+
   // Read out the data to the PLC and we're done.
   PLC<3, RealType> plc;
   for (typename FacetSet::iterator facetItr = workingFacets.begin();
        facetItr != workingFacets.end();
        ++facetItr) {
     plc.facets.push_back(std::vector<int>());
-    plc.facets.back().push_back(pointMap[facetItr->inode]);
-    plc.facets.back().push_back(pointMap[facetItr->jnode]);
-    plc.facets.back().push_back(pointMap[facetItr->knode]);
+    plc.facets.back().push_back(inputIndex[facetItr->inode]);
+    plc.facets.back().push_back(inputIndex[facetItr->jnode]);
+    plc.facets.back().push_back(inputIndex[facetItr->knode]);
   }
   return plc;
 }
-- 
2.43.0


From ce071c32030afbed161e31c43ec95f7c19c06996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:31 +0000
Subject: [PATCH 14/31] fix: keep the holes when reducing a PLC

---
 src/ReducedPLC.hh | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ReducedPLC.hh b/src/ReducedPLC.hh
index f2082d4..3bf7753 100644
--- a/src/ReducedPLC.hh
+++ b/src/ReducedPLC.hh
@@ -36,10 +36,15 @@ public:
     points()
   {
     std::set<int> indices;
-    int i;
+    int i, k;
     for (i = 0; i != plc.facets.size(); ++i) {
       std::copy(plc.facets[i].begin(), plc.facets[i].end(), std::inserter(indices, indices.end()));
     }
+    for (k = 0; k != plc.holes.size(); ++k) {
+      for (i = 0; i != plc.holes[k].size(); ++i) {
+        std::copy(plc.holes[k][i].begin(), plc.holes[k][i].end(), std::inserter(indices, indices.end()));
+      }
+    }
     std::map<int, int> old2new;
     int j = 0;
     for (typename std::set<int>::const_iterator itr = indices.begin();
@@ -54,6 +59,13 @@ public:
         this->facets[i][j] = old2new[this->facets[i][j]];
       }
     }
+    for (k = 0; k != this->holes.size(); ++k) {
+      for (i = 0; i != this->holes[k].size(); ++i) {
+        for (j = 0; j != this->holes[k][i].size(); ++j) {
+          this->holes[k][i][j] = old2new[this->holes[k][i][j]];
+        }
+      }
+    }
   }
 
   //! output operator.
-- 
2.43.0


From ebfd78a3c9b033c0b5ad61184dc9a093ed9e47a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:22 +0000
Subject: [PATCH 15/31] fix: give the facets of a hole both of their points

---
 src/PLC_Boost_2d.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLC_Boost_2d.hh b/src/PLC_Boost_2d.hh
index 38d35e3..4c15f66 100644
--- a/src/PLC_Boost_2d.hh
+++ b/src/PLC_Boost_2d.hh
@@ -121,7 +121,7 @@ ReducedPLCfromPolygon(const boost::geometry::model::polygon<Point2<RealType>, fa
       result.points.push_back((*itr).x);
       result.points.push_back((*itr).y);
       result.holes[ihole][ii][0] = offset + ii;
-      result.holes[ihole][ii][0] = offset + ((ii+1) % nhfacets);
+      result.holes[ihole][ii][1] = offset + ((ii+1) % nhfacets);
     }
     POLY_ASSERT(ii == nhfacets-1);
     offset += ii;
-- 
2.43.0


From 6f9736abc8c52160a03e54cef30db7b8a3db5abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:22 +0000
Subject: [PATCH 16/31] fix: look up the vertices of a boundary through its
 facets

---
 src/within.hh | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/within.hh b/src/within.hh
index ad7543e..82da74e 100644
--- a/src/within.hh
+++ b/src/within.hh
@@ -33,13 +33,19 @@ struct WithinBoundaryFunctor<2, RealType> {
 		  const RealType* vertices,
 		  const std::vector<std::vector<int> >& facets) {
     const unsigned numFacets = facets.size();
-    unsigned i = facets[0][0];
+
+    // Collect the vertices around the facets.
+    std::vector<RealType> ring;
+    for (unsigned i = 0; i != numFacets; ++i) {
+      ring.push_back(vertices[2*facets[i][0]    ]);
+      ring.push_back(vertices[2*facets[i][0] + 1]);
+    }
 
     // Check if point is on the boundary of the facet
-    bool onBoundary = geometry::pointOnPolygon(point, numFacets, &vertices[2*i]);
+    bool onBoundary = geometry::pointOnPolygon(point, numFacets, &ring[0]);
 
     // Check if point is on the interior
-    bool inBoundary = geometry::pointInPolygon(point, numFacets, &vertices[2*i]);
+    bool inBoundary = geometry::pointInPolygon(point, numFacets, &ring[0]);
 
     if (onBoundary)                        return 2;
     else if(inBoundary and not onBoundary) return 1;
-- 
2.43.0


From 8c3de7d7d6120406468889e951c304f982cb120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 17/31] fix: sum a face's triangles for its normal, so nearly
 collinear corners do not read past the list

---
 src/polytope_geometric_utilities.hh | 34 +++++++++++++----------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 07eb690..89d3ead 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -1002,38 +1002,34 @@ computeFaceCentroidAndNormal(const Tessellation<3, RealType>& mesh,
   POLY_ASSERT(fi < mesh.faces.size());
   const unsigned n = mesh.faces[fi].size();
   POLY_ASSERT(n >= 3);
-  unsigned i, ni;
-  std::vector<unsigned> verts;
-  const double degeneracy = 1.0e-10;
+  unsigned i, ni, nj;
 
-  // Compute the centroid, and look for three vertices in the face that are 
-  // not collinear.
+  // Compute the centroid, and sum the area vectors of the triangles fanning out
+  // from the first vertex.
+  RealType ab[3], ac[3], tri[3];
+  const unsigned n0 = mesh.faces[fi][0];
   fcent[0] = 0.0; fcent[1] = 0.0; fcent[2] = 0.0;
+  fhat[0] = 0.0; fhat[1] = 0.0; fhat[2] = 0.0;
   for (i = 0; i != n; ++i) {
     ni = mesh.faces[fi][i];
+    nj = mesh.faces[fi][(i + 1) % n];
     POLY_ASSERT(ni < mesh.nodes.size()/3);
     fcent[0] += mesh.nodes[3*ni];
     fcent[1] += mesh.nodes[3*ni+1];
     fcent[2] += mesh.nodes[3*ni+2];
-    if (verts.size() < 2 or
-        (verts.size() == 2 and not collinear<3, RealType>(&mesh.nodes[3*verts[0]],
-                                                          &mesh.nodes[3*verts[1]],
-                                                          &mesh.nodes[3*ni],
-                                                          degeneracy))) verts.push_back(ni);
+    ab[0] = mesh.nodes[3*ni  ] - mesh.nodes[3*n0  ];
+    ab[1] = mesh.nodes[3*ni+1] - mesh.nodes[3*n0+1];
+    ab[2] = mesh.nodes[3*ni+2] - mesh.nodes[3*n0+2];
+    ac[0] = mesh.nodes[3*nj  ] - mesh.nodes[3*n0  ];
+    ac[1] = mesh.nodes[3*nj+1] - mesh.nodes[3*n0+1];
+    ac[2] = mesh.nodes[3*nj+2] - mesh.nodes[3*n0+2];
+    cross<3, RealType>(ab, ac, tri);
+    fhat[0] += tri[0]; fhat[1] += tri[1]; fhat[2] += tri[2];
   }
   POLY_ASSERT(n > 0);
   fcent[0] /= n; fcent[1] /= n; fcent[2] /= n;
   
   // Now we can compute the unit normal.
-  POLY_ASSERT2(verts.size() == 3, verts.size());
-  RealType ab[3], ac[3];
-  ab[0] = mesh.nodes[3*verts[1]  ] - mesh.nodes[3*verts[0]  ];
-  ab[1] = mesh.nodes[3*verts[1]+1] - mesh.nodes[3*verts[0]+1];
-  ab[2] = mesh.nodes[3*verts[1]+2] - mesh.nodes[3*verts[0]+2];
-  ac[0] = mesh.nodes[3*verts[2]  ] - mesh.nodes[3*verts[0]  ];
-  ac[1] = mesh.nodes[3*verts[2]+1] - mesh.nodes[3*verts[0]+1];
-  ac[2] = mesh.nodes[3*verts[2]+2] - mesh.nodes[3*verts[0]+2];
-  cross<3, RealType>(ab, ac, fhat);
   unitVector<3, RealType>(fhat);
 }
 
-- 
2.43.0


From 916778b9610db662b2c1595651da7fc43c056cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 18/31] fix: renew the boundary lists of a mesh when deleting
 cells

---
 src/deleteCells.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/deleteCells.hh b/src/deleteCells.hh
index a15147b..c6966a1 100644
--- a/src/deleteCells.hh
+++ b/src/deleteCells.hh
@@ -17,6 +17,7 @@
 #include <map>
 
 #include "polytope.hh"
+#include "findBoundaryElements.hh"
 
 namespace polytope {
 
@@ -135,6 +136,9 @@ deleteCells(Tessellation<Dimension, RealType>& mesh,
     mesh.cells = newCells;
   }
 
+  // Find the boundary of what is left.
+  findBoundaryElements(mesh, mesh.boundaryFaces, mesh.boundaryNodes);
+
   // Update the shared nodes and faces.
   const unsigned numNeighbors = mesh.sharedNodes.size();
   POLY_ASSERT(mesh.sharedFaces.size() == numNeighbors);
-- 
2.43.0


From 62b5159c8e09bfdf6f6f5fe8aeb67d027043a20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 19/31] fix: number the kept cells consecutively when editing a
 mesh

---
 src/MeshEditor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 1a32cfb..08af827 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -6,6 +6,7 @@
 
 #include "polytope.hh"
 #include "MeshEditor.hh"
+#include "findBoundaryElements.hh"
 
 namespace polytope {
 
@@ -713,7 +714,7 @@ cleanMesh(std::vector<unsigned>& cellMap,
         //POLY_ASSERT(faceMap.find(iface) != faceMap.end());
         if (mFaceMask[iface] == 1) {
           // int newFace = (*itr >= 0 ? faceMap[iface] : ~faceMap[iface]);
-          newCells[i].push_back( *itr < 0 ? ~faceMap[iface] : faceMap[iface]);
+          newCells[cellMap[i]].push_back( *itr < 0 ? ~faceMap[iface] : faceMap[iface]);
         }
       }
     }
-- 
2.43.0


From 16d911b9a4ca50e23da7e0421e1ae62746ca8871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 20/31] fix: renew the boundary lists of a mesh after editing
 it

---
 src/MeshEditor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 08af827..b12a1c0 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -721,6 +721,9 @@ cleanMesh(std::vector<unsigned>& cellMap,
   }
   mMesh.cells = newCells;  
 
+  // Find the boundary of what is left.
+  findBoundaryElements(mMesh, mMesh.boundaryFaces, mMesh.boundaryNodes);
+
   // Update the shared nodes and faces.
   const unsigned numNeighbors = mMesh.sharedNodes.size();
   POLY_ASSERT(mMesh.sharedFaces.size() == numNeighbors);
-- 
2.43.0


From 240971979fc299efd2f20006848784c30a7bf035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 21/31] fix: do not read communication info that was not asked
 for

---
 src/DistributedTessellator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index afed0ed..0fb5df0 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -548,6 +548,9 @@ computeDistributedTessellation(const vector<RealType>& points,
   }
 
 
+  // Without communication info there is nothing to say about our neighbors.
+  if (not mBuildCommunicationInfo) mesh.neighborDomains.clear();
+
   // Remove any neighbors we don't actually share any info with.
   unsigned numNeighbors = mesh.neighborDomains.size();
   for (int i = numNeighbors - 1; i != -1; --i) {
-- 
2.43.0


From 7453e2bd686a2daeafa6813cf5e98d1fdfcfb6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 22/31] fix: give the box around a single point a size

---
 src/QuantizedTessellation2d.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/QuantizedTessellation2d.cc b/src/QuantizedTessellation2d.cc
index 4912c75..14f06ca 100644
--- a/src/QuantizedTessellation2d.cc
+++ b/src/QuantizedTessellation2d.cc
@@ -7,6 +7,7 @@
 #include <iostream>
 #include <algorithm>
 #include <map>
+#include <cmath>
 
 #include "QuantizedTessellation2d.hh"
 #include "polytope.hh"
@@ -24,6 +25,7 @@ QuantizedTessellation2d(const std::vector<RealType>& points,
                         const std::vector<RealType>& boundaryPoints) {
   geometry::computeBoundingBox<2, RealType>(&boundaryPoints[0], boundaryPoints.size(), true, xmin, xmax);
   length = std::max(xmax[0] - xmin[0], xmax[1] - xmin[1]);
+  if (length == 0.0) length = std::max(RealType(1.0), std::max(std::abs(xmin[0]), std::abs(xmin[1])));  // A single point
   xmin[0] -= 2.0*length;
   xmin[1] -= 2.0*length;
   xmax[0] += 2.0*length;
-- 
2.43.0


From 92824b541053bc2da91852cfe154b71e13906541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 23/31] fix: match the elements shared by two domains by
 position, rather than sorting them by rounded position

---
 src/DistributedTessellator.cc | 342 +++++++++++-----------------------
 1 file changed, 104 insertions(+), 238 deletions(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index 0fb5df0..6450038 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -55,6 +55,51 @@ sortByKeys(vector<Value>& values, const vector<Key>& keys) {
   for (unsigned i = 0; i != values.size(); ++i) values[i] = stuff[i].second;
 }
 
+//------------------------------------------------------------------------------
+// Keep the elements two domains share in an order both agree on.  Each domain sees
+// the shared elements at positions that may differ in the last few digits, so they
+// can not be put in the same order by sorting.  Rather the domains exchange the
+// positions, and pair up the elements that are each other's nearest.  They are kept
+// in the order of the lower ranked domain, and elements only one of the domains has
+// are dropped.
+//   positions : (input) the positions of the elements in elements.
+//    elements : the elements shared with the neighbor, reordered on output.
+//      result : the positions of the reordered elements as the neighbor has them.
+//------------------------------------------------------------------------------
+template<int Dimension, typename RealType>
+vector<RealType>
+matchSharedElements(const vector<RealType>& positions,
+                    const vector<RealType>& otherPositions,
+                    const bool weAreFirst,
+                    const RealType tolerance,
+                    vector<unsigned>& elements) {
+  POLY_ASSERT(positions.size() == Dimension*elements.size());
+  const vector<RealType>& first = weAreFirst ? positions : otherPositions;
+  const vector<RealType>& second = weAreFirst ? otherPositions : positions;
+  const unsigned n1 = first.size()/Dimension, n2 = second.size()/Dimension;
+  vector<unsigned> nearest1(n1, n2), nearest2(n2, n1);
+  vector<RealType> dist1(n1, tolerance), dist2(n2, tolerance);
+  for (unsigned i = 0; i != n1; ++i) {
+    for (unsigned j = 0; j != n2; ++j) {
+      const RealType d = geometry::distance<Dimension, RealType>(&first[Dimension*i], &second[Dimension*j]);
+      if (d < dist1[i]) { dist1[i] = d; nearest1[i] = j; }
+      if (d < dist2[j]) { dist2[j] = d; nearest2[j] = i; }
+    }
+  }
+  vector<unsigned> newElements;
+  vector<RealType> result;
+  for (unsigned i = 0; i != n1; ++i) {
+    const unsigned j = nearest1[i];
+    if (j < n2 and nearest2[j] == i) {
+      const unsigned k = weAreFirst ? j : i;
+      newElements.push_back(elements[weAreFirst ? i : j]);
+      copy(otherPositions.begin() + Dimension*k, otherPositions.begin() + Dimension*(k + 1), back_inserter(result));
+    }
+  }
+  elements = newElements;
+  return result;
+}
+
 //------------------------------------------------------------------------------
 // Output an intermediate tessellation
 //------------------------------------------------------------------------------
@@ -377,6 +422,7 @@ computeDistributedTessellation(const vector<RealType>& points,
     const vector<set<unsigned> > nodeCells = mesh.computeNodeCells();
     for (unsigned inode = 0; inode != nodeCells.size(); ++inode) {
       const set<unsigned>& cells = nodeCells[inode];
+      if (cells.empty() or *cells.begin() >= nlocal) continue;   // Not one of our nodes
       for (typename set<unsigned>::const_iterator cellItr = cells.begin();
            cellItr != cells.end();
            ++cellItr) {
@@ -443,97 +489,69 @@ computeDistributedTessellation(const vector<RealType>& points,
     // }
     // // Blago!
 
-    // Compute the bounding box for the mesh coordinates.
-    this->computeBoundingBox(mesh.nodes, rlow, rhigh);
-    const RealType dx = mSerialTessellator->degeneracy();
-    // const RealType dx = DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh)/(1LL << 34);
-    
-    // Sort the shared elements.  This should make the ordering consistent on all domains without communication.
-    unsigned numNeighbors = mesh.neighborDomains.size();
+    // Get the positions of the nodes and faces we share with each neighbor.
+    const RealType tolerance = 1.0e-6*DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh);
+    const unsigned numNeighbors = mesh.neighborDomains.size();
+    vector<vector<RealType> > nodePositions(numNeighbors), facePositions(numNeighbors);
+    list<vector<char> > localBuffers;
+    vector<unsigned> bufSizes(numNeighbors);
+    vector<MPI_Request> sendRequests(2*numNeighbors);
     for (unsigned idomain = 0; idomain != numNeighbors; ++idomain) {
-
-      // Nodes.
-      vector<Point> nodePoints;
-      nodePoints.reserve(mesh.sharedNodes[idomain].size());
-      for (vector<unsigned>::const_iterator itr = mesh.sharedNodes[idomain].begin();
-           itr != mesh.sharedNodes[idomain].end();
-           ++itr) nodePoints.push_back(DimensionTraits<Dimension, RealType>::constructPoint(&(mesh.nodes[Dimension * (*itr)]),
-                                                                                            &rlow[0],
-                                                                                            dx,
-                                                                                            *itr));
-      
-      
-      // // Blago!
-      // int rank1 = 10;
-      // int rank2 = 13;
-      // if ((rank == rank1 and mesh.neighborDomains[idomain] == rank2) or
-      //     (rank == rank2 and mesh.neighborDomains[idomain] == rank1)) {
-      //   const unsigned other = mesh.neighborDomains[idomain];
-      //   set<unsigned> nnn;
-      //   for (unsigned iface = 0; iface < mesh.faceCells.size(); ++iface) { 
-      //     if (mesh.faceCells[iface].size() == 2) {
-      //       const unsigned icell1 = (mesh.faceCells[iface][0] < 0) ? ~mesh.faceCells[iface][0] : mesh.faceCells[iface][0];
-      //       const unsigned icell2 = (mesh.faceCells[iface][1] < 0) ? ~mesh.faceCells[iface][1] : mesh.faceCells[iface][1];
-      //       const unsigned iproc1 = gen2domain[icell1];
-      //       const unsigned iproc2 = gen2domain[icell2];
-      //       if ((iproc1 == rank1 and iproc2 == rank2) or (iproc1 == rank2 and iproc2 == rank1)) {
-      //         nnn.insert(mesh.faces[iface][0]);
-      //         nnn.insert(mesh.faces[iface][1]);
-      //       }
-      //     }
-      //   }
-      //   vector<Point> n4;
-      //   for (set<unsigned>::iterator itr = nnn.begin(); itr != nnn.end(); ++itr) {
-      //     cerr << setprecision(numeric_limits<double>::digits)
-      //          << mesh.nodes[Dimension*(*itr)] << " , "
-      //          << mesh.nodes[Dimension*(*itr)+1] << "  " << *itr << endl;
-      //     POLY_ASSERT(*itr < nodePoints.size());
-      //     RealType cen[2] = {0.5, 0.5};
-      //     Point pp = DimensionTraits<Dimension, RealType>::constructPoint(&(mesh.nodes[Dimension * (*itr)]),
-      //                                                                     // &rlow[0],
-      //                                                                     &cen[0],
-      //                                                                     dx,
-      //                                                                     *itr);
-      //     n4.push_back(pp);
-      //   }
-      //   sort(n4.begin(), n4.end());
-      //   for (unsigned i = 0; i < n4.size(); ++i) {
-      //     cerr << n4[i] << endl;
-      //   }
-      // }
-      // // Blago!
-      
-      
-      sort(nodePoints.begin(), nodePoints.end());
-      for (unsigned i = 0; i != mesh.sharedNodes[idomain].size(); ++i) mesh.sharedNodes[idomain][i] = nodePoints[i].index;
-
-
-      // Faces.
-      vector<Point> facePoints;
+      nodePositions[idomain] = DimensionTraits<Dimension, RealType>::extractCoords(mesh.nodes, mesh.sharedNodes[idomain]);
       for (vector<unsigned>::const_iterator itr = mesh.sharedFaces[idomain].begin();
            itr != mesh.sharedFaces[idomain].end();
-           ++itr) facePoints.push_back(DimensionTraits<Dimension, RealType>::faceCentroid(mesh,
-                                                                                          *itr,
-                                                                                          &rlow[0],
-                                                                                          dx));
-      sort(facePoints.begin(), facePoints.end());
-      for (unsigned i = 0; i != mesh.sharedFaces[idomain].size(); ++i) mesh.sharedFaces[idomain][i] = facePoints[i].index;
+           ++itr) {
+        const vector<unsigned>& faceNodes = mesh.faces[*itr];
+        for (unsigned k = 0; k != Dimension; ++k) {
+          RealType xk = 0.0;
+          for (unsigned j = 0; j != faceNodes.size(); ++j) xk += mesh.nodes[Dimension*faceNodes[j] + k];
+          facePositions[idomain].push_back(xk/faceNodes.size());
+        }
+      }
+      localBuffers.push_back(vector<char>());
+      serialize(nodePositions[idomain], localBuffers.back());
+      serialize(facePositions[idomain], localBuffers.back());
+      bufSizes[idomain] = localBuffers.back().size();
+      MPI_Isend(&bufSizes[idomain], 1, MPI_UNSIGNED, mesh.neighborDomains[idomain], 9, MPI_COMM_WORLD, &sendRequests[2*idomain]);
+      MPI_Isend(&localBuffers.back().front(), bufSizes[idomain], MPI_CHAR, mesh.neighborDomains[idomain], 10, MPI_COMM_WORLD, &sendRequests[2*idomain + 1]);
     }
-  }
 
-  // // Blago!
-  // for (unsigned procID = 0; procID != numProcs; ++procID) {
-  //   if (procID == rank) {
-  //     for (unsigned iproc = 0; iproc != mesh.neighborDomains.size(); ++iproc) {
-  //       cerr << rank << " <-> " << mesh.neighborDomains[iproc] << " : " << mesh.nodes.size()/Dimension << endl;
-  //       cerr << "  Nodes : ";
-  //       copy(mesh.sharedNodes[iproc].begin(), mesh.sharedNodes[iproc].end(), ostream_iterator<unsigned>(cerr, " "));
-  //       cerr << endl;
-  //     }
-  //   }
-  //   MPI_Barrier(MPI_COMM_WORLD);
-  // }
-  // // Blago!
+    // Order the shared elements the same way on both domains.  We also make sure the shared nodes are
+    // bit perfect the same, by taking the positions of the lowest ranked domain sharing each node.
+    const unsigned nNodes = mesh.nodes.size()/Dimension;
+    vector<unsigned> ownNode(nNodes, rank);
+    for (unsigned idomain = 0; idomain != numNeighbors; ++idomain) {
+      const unsigned otherProc = mesh.neighborDomains[idomain];
+      unsigned bufSize;
+      MPI_Status recvStatus;
+      MPI_Recv(&bufSize, 1, MPI_UNSIGNED, otherProc, 9, MPI_COMM_WORLD, &recvStatus);
+      vector<char> buffer(bufSize, '\0');
+      MPI_Recv(&buffer.front(), bufSize, MPI_CHAR, otherProc, 10, MPI_COMM_WORLD, &recvStatus);
+      vector<char>::const_iterator itr = buffer.begin();
+      vector<RealType> otherNodePositions, otherFacePositions;
+      deserialize(otherNodePositions, itr, buffer.end());
+      deserialize(otherFacePositions, itr, buffer.end());
+      POLY_ASSERT(itr == buffer.end());
+      otherNodePositions = matchSharedElements<Dimension, RealType>(nodePositions[idomain], otherNodePositions, 
+                                                                    rank < int(otherProc), tolerance,
+                                                                    mesh.sharedNodes[idomain]);
+      matchSharedElements<Dimension, RealType>(facePositions[idomain], otherFacePositions,
+                                               rank < int(otherProc), tolerance,
+                                               mesh.sharedFaces[idomain]);
+      for (unsigned j = 0; j != mesh.sharedNodes[idomain].size(); ++j) {
+        const unsigned inode = mesh.sharedNodes[idomain][j];
+        if (otherProc < ownNode[inode]) {
+          ownNode[inode] = otherProc;
+          copy(otherNodePositions.begin() + Dimension*j, otherNodePositions.begin() + Dimension*(j + 1),
+               mesh.nodes.begin() + Dimension*inode);
+        }
+      }
+    }
+
+    // Wait until all our sends are complete.
+    vector<MPI_Status> sendStatus(sendRequests.size());
+    MPI_Waitall(sendRequests.size(), sendRequests.data(), sendStatus.data());
+  }
 
 
   // Remove the elements of the tessellation corresponding to
@@ -586,158 +604,6 @@ computeDistributedTessellation(const vector<RealType>& points,
   // }
   // // Blago!
 
-  // In parallel we need to make sure the shared nodes are bit perfect the same.
-  if (numProcs > 1) {
-
-    // Figure out which domain owns the shared nodes.
-    const unsigned nNodes = mesh.nodes.size()/Dimension;
-    vector<unsigned> ownNode(nNodes, rank);
-    for (unsigned idomain = 0; idomain != numNeighbors; ++idomain) {
-      for (vector<unsigned>::const_iterator itr = mesh.sharedNodes[idomain].begin();
-           itr != mesh.sharedNodes[idomain].end();
-           ++itr) {
-        POLY_ASSERT(*itr < nNodes);
-        ownNode[*itr] = std::min(ownNode[*itr], mesh.neighborDomains[idomain]);
-      }
-    }
-
-    // // Blago!
-    // for (unsigned p = 0; p != numProcs; ++p) {
-    //   if (p == rank) {
-    //     for (unsigned i = 0; i != mesh.nodes.size()/Dimension; ++i) {
-    //       if (abs(mesh.nodes[2*i] - 0.411765) + abs(mesh.nodes[2*i+1] - 0.235294) < 1.0e-5) {
-    //         cerr << "Domain " << rank << " thinks node owned by " << ownNode[i] << endl;
-    //       }
-    //     }
-    //   }
-    //   MPI_Barrier(MPI_COMM_WORLD);
-    // }
-    // // Blago!
-
-    // // Blago!
-    // for (unsigned idomain = 0; idomain != numNeighbors; ++idomain){
-    //    if ((rank == 0 and mesh.neighborDomains[idomain] == 7) or
-    //        (rank == 7 and mesh.neighborDomains[idomain] == 0)) {
-    //       cerr << " shares " << mesh.sharedNodes[idomain].size() 
-    //            << " nodes with " << mesh.neighborDomains[idomain] << endl;
-    //       for (unsigned i=0; i != mesh.sharedNodes[idomain].size(); ++i){
-    //          unsigned inode = mesh.sharedNodes[idomain][i];
-    //          cerr << "   Node " << inode << " @ (" << mesh.nodes[2*inode] 
-    //               << "," << mesh.nodes[2*inode+1] << ")"
-    //               << "  own? " << (ownNode[inode] == rank ? "YES" : "NO") << endl;
-    //       }
-    //    }      
-    // }
-    // MPI_Barrier(MPI_COMM_WORLD);
-    // // Blago!
-
-    // Post the sends for any nodes we own, and note which nodes we expect to receive.
-#ifdef DEBUG_MODE
-    vector<unsigned> bufSizes(numNeighbors, 0);
-#endif
-    list<vector<double> > sendCoords;
-    list<vector<unsigned> > allRecvNodes;
-    vector<MPI_Request> sendRequests;
-    sendRequests.reserve(2*numNeighbors);
-    for (unsigned idomain = 0; idomain != numNeighbors; ++idomain) {
-      vector<unsigned> sendNodes;
-      allRecvNodes.push_back(vector<unsigned>());
-      vector<unsigned>& recvNodes = allRecvNodes.back();
-      for (vector<unsigned>::const_iterator itr = mesh.sharedNodes[idomain].begin();
-           itr != mesh.sharedNodes[idomain].end();
-           ++itr) {
-        POLY_ASSERT(ownNode[*itr] <= rank);
-        if (ownNode[*itr] == rank) {
-          sendNodes.push_back(*itr);
-        } else if (ownNode[*itr] == mesh.neighborDomains[idomain]) {
-          recvNodes.push_back(*itr);
-        }
-      }
-
-
-      // // Blago!
-      // for (unsigned ii=0; ii<sendNodes.size(); ++ii){
-      //    unsigned inode = sendNodes[ii];
-      //    cerr << "sending node " << inode << " @ (" << mesh.nodes[2*inode] << "," 
-      //         << mesh.nodes[2*inode+1] << ") to processor " << mesh.neighborDomains[idomain] << endl;
-      // }
-      // for (unsigned ii=0; ii<recvNodes.size(); ++ii){
-      //    unsigned inode = recvNodes[ii];
-      //    cerr << "receiving node " << inode << " @ (" << mesh.nodes[2*inode] << "," 
-      //         << mesh.nodes[2*inode+1] << ") from processor " << mesh.neighborDomains[idomain] << endl;
-      // }
-      // // Blago!
-
-
-      // Send any nodes we have for this neighbor.
-#ifdef DEBUG_MODE
-      bufSizes[idomain] = Dimension*sendNodes.size();
-      sendRequests.push_back(MPI_Request());
-      MPI_Isend(&bufSizes[idomain], 1, MPI_UNSIGNED,
-                mesh.neighborDomains[idomain], 9, MPI_COMM_WORLD, &sendRequests.back());
-#endif
-      if (sendNodes.size() > 0) {
-        sendCoords.push_back(DimensionTraits<Dimension, RealType>::extractCoords(mesh.nodes, sendNodes));
-        vector<RealType>& coords = sendCoords.back();
-        POLY_ASSERT(coords.size() == Dimension*sendNodes.size());
-        sendRequests.push_back(MPI_Request());
-        MPI_Isend(&coords.front(), Dimension*sendNodes.size(), DataTypeTraits<RealType>::MpiDataType(),
-                  mesh.neighborDomains[idomain], 10, MPI_COMM_WORLD, &sendRequests.back());
-      }
-    }
-    POLY_ASSERT(sendRequests.size() <= 2*numNeighbors);
-
-    // Iterate over the neighbors again and look for any receive information.
-    list<vector<unsigned> >::const_iterator recvNodesItr = allRecvNodes.begin();
-    for (unsigned idomain = 0; idomain != numNeighbors; ++idomain, ++recvNodesItr) {
-      POLY_ASSERT(recvNodesItr != allRecvNodes.end());
-      const vector<unsigned>& recvNodes = *recvNodesItr;
-
-#ifdef DEBUG_MODE
-      unsigned otherSize;
-      MPI_Status recvStatus;
-      MPI_Recv(&otherSize, 1, MPI_UNSIGNED, mesh.neighborDomains[idomain], 9, MPI_COMM_WORLD, &recvStatus);
-      POLY_ASSERT2(otherSize == Dimension*recvNodes.size(),
-              "Bad message size (" << mesh.neighborDomains[idomain] << " " << otherSize << ") (" << rank << " " << Dimension*recvNodes.size() << ")");
-#endif
-
-      if (recvNodes.size() > 0) {
-        vector<RealType> recvCoords(Dimension*recvNodes.size());
-        MPI_Status recvStatus;
-        MPI_Recv(&recvCoords.front(), Dimension*recvNodes.size(), DataTypeTraits<RealType>::MpiDataType(),
-                 mesh.neighborDomains[idomain], 10, MPI_COMM_WORLD, &recvStatus);
-
-        // // Blago!
-        // if (otherSize != Dimension*recvNodes.size()) {
-        //   cout << "Bad message size from " << mesh.neighborDomains[idomain] << " being sent to " << rank << endl;
-        //   cout << "Other coordinates : ";
-        //   copy(recvCoords.begin(), recvCoords.end(), ostream_iterator<RealType>(cout, " "));
-        //   cout << endl;
-        //   cout << "My coordinates : ";
-        //   for (unsigned j = 0; j != recvNodes.size(); ++j) {
-        //     const unsigned i = recvNodes[j];
-        //     for (unsigned k = 0; k != Dimension; ++k) cout << mesh.nodes[Dimension*i + k] << " ";
-        //   }
-        //   cout << endl;
-        //   POLY_ASSERT(false);
-        // }
-        // // Blago!
-
-        // Unpack the coordinates to the receive nodes.
-        for (unsigned j = 0; j != recvNodes.size(); ++j) {
-          const unsigned i = recvNodes[j];
-          for (unsigned k = 0; k != Dimension; ++k) {
-            mesh.nodes[Dimension*i + k] = recvCoords[Dimension*j + k];
-          }
-        }
-      }
-    }
-
-    // Wait until all our send are complete.
-    vector<MPI_Status> sendStatus(sendRequests.size());
-    MPI_Waitall(sendRequests.size(), &sendRequests.front(), &sendStatus.front());
-  }
-
   // Post-conditions.
 #ifdef DEBUG_MODE
   const string msg = checkDistributedTessellation(mesh);
-- 
2.43.0


From 96912e23409d4fa19eca8e142330802dd722bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 24/31] fix: choose the spacing for the hull of a domain so its
 coordinates fit in an integer

---
 src/DistributedTessellator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index 6450038..2ef4595 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -728,7 +728,9 @@ computeDomainNeighbors(const vector<RealType>& points,
   vector<ConvexHull> domainHulls; // (numProcs);
   vector<unsigned> domainCellOffset(1, 0);
   {
-    ConvexHull localHull = DT::convexHull(points, rlow, mSerialTessellator->degeneracy());;
+    // The hull is found in integer coordinates, so the spacing has to be large enough for the box to fit in those.
+    const RealType dx = max(mSerialTessellator->degeneracy(), DT::maxLength(rlow, rhigh)/KeyTraits::maxKey1d);
+    ConvexHull localHull = DT::convexHull(points, rlow, dx);
 
     // We can skip some work here if the convex hull is of lower dimension than the 
     // problem itself. We determine the set of visible points for a full-dimension
-- 
2.43.0


From 5d26d27495d607a457a5de83692021059b65a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 25/31] fix: do not clean an edge when that would leave a cell
 without three edges or make edges coincide

---
 src/MeshEditor.cc | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index b12a1c0..ccf1984 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -116,6 +116,7 @@ flagEdgesForCleaning(const RealType edgeTol,
   map<EdgeType, int> edgeToIndex;
   map<int, EdgeType> indexToEdge;
   map<unsigned, vector<unsigned> > cellToEdges, borderNodesToBorderFaces;
+  vector<vector<unsigned> > edgeToCells;
   set<unsigned> borderNodes;
   vector<RealType> edgeLength;
   RealType length;
@@ -154,8 +155,10 @@ flagEdgesForCleaning(const RealType edgeTol,
            length = geometry::distance<Dimension, RealType>
               (&mMesh.nodes[Dimension*inode0], &mMesh.nodes[Dimension*inode1]);
            edgeLength.push_back(length);
+           edgeToCells.push_back(vector<unsigned>());
         }
         cellEdgeIDs.push_back(iedge);
+        edgeToCells[iedge].push_back(icell);
 
         // // typename EdgeMap::left_const_iterator lItr = edgeToID.left.find(edge);
 	// // if (lItr == edgeToID.left.end()) {
@@ -223,6 +226,15 @@ flagEdgesForCleaning(const RealType edgeTol,
 	 ++itr) maxCellEdgeLength[*itr] = max(maxCellEdgeLength[*itr], maxCellEdge);
   }
   
+  // The number of edges of each cell and the nodes each node has edges to, as we collapse edges.
+  vector<unsigned> numCellEdges(ncells0);
+  vector<set<unsigned> > nodeNeighbors(nnodes0);
+  for (unsigned icell = 0; icell != ncells0; ++icell) numCellEdges[icell] = cellToEdges[icell].size();
+  for (unsigned iedge = 0; iedge != nedges0; ++iedge) {
+    nodeNeighbors[indexToEdge[iedge].first].insert(indexToEdge[iedge].second);
+    nodeNeighbors[indexToEdge[iedge].second].insert(indexToEdge[iedge].first);
+  }
+
   // Flag the edges we want to remove.
   vector<unsigned> edgeMask(nedges0, 1);
   vector<unsigned> nodeCollapse(nnodes0);
@@ -246,7 +258,24 @@ flagEdgesForCleaning(const RealType edgeTol,
                             mNodeMask[inode0] == 1 and 
                             mNodeMask[inode1] == 1 and
                             not cornerEdge);
+
+    // Collapsing an edge must leave the cells around it at least three edges, must not join two
+    // border nodes through the interior, and must not make two edges coincide.
+    bool safeTest = true;
     if (cleanTest) {
+      const vector<unsigned>& edgeCells = edgeToCells[iedge];
+      for (vector<unsigned>::const_iterator itr = edgeCells.begin(); itr != edgeCells.end(); ++itr) {
+        if (numCellEdges[*itr] <= 3) safeTest = false;
+      }
+      if (edgeCells.size() > 1 and
+          borderNodes.find(inode0) != borderNodes.end() and
+          borderNodes.find(inode1) != borderNodes.end()) safeTest = false;
+      for (set<unsigned>::const_iterator itr = nodeNeighbors[inode0].begin();
+           itr != nodeNeighbors[inode0].end(); ++itr) {
+        if (nodeNeighbors[inode1].find(*itr) != nodeNeighbors[inode1].end()) safeTest = false;
+      }
+    }
+    if (cleanTest and safeTest) {
       edgesClean = false;
       edgeMask[iedge] = 0;
       const bool node1KeepTest = //isCornerNode[inode1] == 1 or 
@@ -259,6 +288,16 @@ flagEdgesForCleaning(const RealType edgeTol,
       mNodeMask[keepNode  ] = 2;
       mNodeMask[deleteNode] = 0;
       nodeCollapse[deleteNode] = keepNode;
+      for (vector<unsigned>::const_iterator itr = edgeToCells[iedge].begin();
+           itr != edgeToCells[iedge].end(); ++itr) --numCellEdges[*itr];
+      for (set<unsigned>::const_iterator itr = nodeNeighbors[deleteNode].begin();
+           itr != nodeNeighbors[deleteNode].end(); ++itr) {
+        nodeNeighbors[*itr].erase(deleteNode);
+        if (*itr != keepNode) {
+          nodeNeighbors[*itr].insert(keepNode);
+          nodeNeighbors[keepNode].insert(*itr);
+        }
+      }
     }
   }
   replace_if(mNodeMask.begin(), mNodeMask.end(), bind2nd(equal_to<unsigned>(), 2), 1);
-- 
2.43.0


From c0b0db80bc874e8648b3e4b9406a4543fea7e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 26/31] fix: judge whether the border of a mesh turns at a node
 independently of scale

---
 src/MeshEditor.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index ccf1984..d3356e3 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -180,8 +180,13 @@ flagEdgesForCleaning(const RealType edgeTol,
   POLY_ASSERT(edgeToIndex.size() == indexToEdge.size());
   const unsigned nedges0 = edgeToIndex.size();
 
+  // The size of the mesh, against which we judge roundoff in the node positions.
+  RealType xmin[Dimension], xmax[Dimension], meshSize = 0.0;
+  geometry::computeBoundingBox<Dimension, RealType>(mMesh.nodes, false, xmin, xmax);
+  for (unsigned j = 0; j != Dimension; ++j) meshSize = max(meshSize, xmax[j] - xmin[j]);
+
   // Create a simple lookup for the border nodes. Also create a lookup
-  // for corner nodes: nodes corresponding to 
+  // for corner nodes: nodes where the border of the mesh turns.
   set<unsigned> cornerNodes;
   // vector<unsigned> isBorderNode(nnodes0, 0), isCornerNode(nnodes0, 0);
   for (set<unsigned>::const_iterator nodeItr = borderNodes.begin();
@@ -205,12 +210,16 @@ flagEdgesForCleaning(const RealType edgeTol,
     }
     POLY_ASSERT(otherNodes.size() == 2);
     
-    const bool collinear = 
-       geometry::collinear<Dimension, RealType>(&mMesh.nodes[2*(*nodeItr)],
-                                                &mMesh.nodes[2*otherNodes[0]],
-                                                &mMesh.nodes[2*otherNodes[1]],
-                                                1.0e-8);
-    if (not collinear) cornerNodes.insert(*nodeItr);// isCornerNode[*nodeItr] = 1;
+    const RealType* x0 = &mMesh.nodes[Dimension*(*nodeItr)];
+    const RealType* x1 = &mMesh.nodes[Dimension*otherNodes[0]];
+    const RealType* x2 = &mMesh.nodes[Dimension*otherNodes[1]];
+    const RealType a[2] = {x1[0] - x0[0], x1[1] - x0[1]}, b[2] = {x2[0] - x0[0], x2[1] - x0[1]};
+    const RealType crossProduct = std::abs(a[0]*b[1] - a[1]*b[0]);
+    const bool straight =
+       (geometry::dot<2, RealType>(a, b) < 0.0 and
+        crossProduct <= max(RealType(1.0e-4)*sqrt(geometry::dot<2, RealType>(a, a)*geometry::dot<2, RealType>(b, b)),
+                            RealType(1.0e-8)*meshSize*geometry::distance<2, RealType>(x1, x2)));
+    if (not straight) cornerNodes.insert(*nodeItr);// isCornerNode[*nodeItr] = 1;
   }
   
   // Compute the maximum edge length for the cells around an edge
-- 
2.43.0


From 3b7b081c3868fed5751f78bade4020a649d63e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 27/31] fix: count the facets of the holes in the header of an
 OFF file

---
 src/polytope_write_OOGL.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polytope_write_OOGL.hh b/src/polytope_write_OOGL.hh
index 19387ab..7678065 100644
--- a/src/polytope_write_OOGL.hh
+++ b/src/polytope_write_OOGL.hh
@@ -31,7 +31,9 @@ void writePLCtoOFF(const PLC<2, RealType>& plc,
   outfile.open(filename.c_str(), std::ios::out);
 
   // Count the numbers of elements we have.
-  const unsigned npoints = coords.size()/2, nfacets = plc.facets.size();
+  const unsigned npoints = coords.size()/2;
+  unsigned nfacets = plc.facets.size();
+  for (unsigned ihole = 0; ihole != plc.holes.size(); ++ihole) nfacets += plc.holes[ihole].size();
   std::set<EdgeHash> edges;
   for (unsigned i = 0; i != plc.facets.size(); ++i) {
     POLY_ASSERT(plc.facets[i].size() == 2);
@@ -100,7 +102,9 @@ void writePLCtoOFF(const PLC<3, RealType>& plc,
   outfile.open(filename.c_str(), std::ios::out);
 
   // Count the numbers of elements we have.
-  const unsigned npoints = coords.size()/3, nfacets = plc.facets.size();
+  const unsigned npoints = coords.size()/3;
+  unsigned nfacets = plc.facets.size();
+  for (unsigned ihole = 0; ihole != plc.holes.size(); ++ihole) nfacets += plc.holes[ihole].size();
   std::set<EdgeHash> edges;
   // for (unsigned i = 0; i != plc.facets.size(); ++i) {
   //   const unsigned n = plc.facets[i].size();
-- 
2.43.0


From 09281bfb58e87da1982bb5f0e5d80aaf610b3e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 28/31] fix: make the tolerance of the 3D convex hull relative
 to the size of the points

---
 src/convexHull_3d.hh | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/convexHull_3d.hh b/src/convexHull_3d.hh
index 4ac303e..3e505cf 100644
--- a/src/convexHull_3d.hh
+++ b/src/convexHull_3d.hh
@@ -158,11 +158,13 @@ struct TriangleFacet {
     geometry::unitVector<3, RealType>(&normal.x);
   }
 
+  // Points closer to the plane of the facet than tol are considered to be in it.
   int compare(const PointType& point, 
-              const std::vector<PointType>& points) const { 
+              const std::vector<PointType>& points,
+              const RealType tol) const { 
     const PointType ip = point - points[inode];
     const RealType test = geometry::dot<3, RealType>(&ip.x, &normal.x);
-    return (std::abs(test) < 1.0e-8 ? 0 :
+    return (std::abs(test) < tol ? 0 :
             test < 0 ? -1 :
             1);
   }
@@ -186,7 +188,8 @@ template<typename RealType>
 void 
 exteriorPoints(std::vector<unsigned>& indices,
                const std::vector<TriangleFacet<RealType> >& facets, 
-               const std::vector<Point3<RealType> >& points) {
+               const std::vector<Point3<RealType> >& points,
+               const RealType tol) {
   typedef std::vector<TriangleFacet<RealType> > FacetSet;
 
   std::vector<unsigned> remainingPoints;
@@ -194,7 +197,7 @@ exteriorPoints(std::vector<unsigned>& indices,
        iitr != indices.end();
        ++iitr) {
     typename FacetSet::const_iterator fitr = facets.begin();
-    while (fitr != facets.end() and fitr->compare(points[*iitr], points) != 1) ++fitr;
+    while (fitr != facets.end() and fitr->compare(points[*iitr], points, tol) != 1) ++fitr;
     if (fitr != facets.end()) remainingPoints.push_back(*iitr);
   }
   indices = remainingPoints;
@@ -235,7 +238,8 @@ template<typename RealType>
 void cullVisibleFacets(std::vector<std::pair<int, int> >& horizonEdges,
                        std::vector<TriangleFacet<RealType> >& facets, 
                        const std::vector<Point3<RealType> >& points,
-                       const unsigned apex) {
+                       const unsigned apex,
+                       const RealType tol) {
 
   typedef std::pair<int, int> EdgeHash;
   typedef std::vector<TriangleFacet<RealType> > FacetSet;
@@ -249,7 +253,7 @@ void cullVisibleFacets(std::vector<std::pair<int, int> >& horizonEdges,
        ++fitr) {
 
     // Is this facet visible from the apex point?
-    if (fitr->compare(points[apex], points) == 1) {
+    if (fitr->compare(points[apex], points, tol) == 1) {
 
       // Yep, it needs to be removed.  Increment the use count for each
       // of it's edges.
@@ -330,6 +334,10 @@ convexHull_3d(const std::vector<RealType>& points,
                  boxy2 = geometry::dot<3, RealType>(&boxy.x, &boxy.x),
                  boxz2 = geometry::dot<3, RealType>(&boxz.x, &boxz.x);
   POLY_ASSERT(boxx2 > 0.0 and boxy2 > 0.0 and boxz2 > 0.0);
+
+  // How close to a plane counts as being in it, in proportion to the points.
+  const RealType tol = 1.0e-10*sqrt(std::max(boxx2, std::max(boxy2, boxz2)));
+
   TriangleFacet<RealType> startingFacet;
   if (boxx2 >= std::max(boxy2, boxz2)) {
     startingFacet.inode = ixmin;
@@ -355,7 +363,7 @@ convexHull_3d(const std::vector<RealType>& points,
   const unsigned apex = std::max_element(ps.begin(), ps.end(), CompareAbsPlaneDistance<RealType>(ps[startingFacet.inode], startingFacet.normal))->index;
 
   // If the apex point is below our starting facet, flip the facet.
-  if (startingFacet.compare(ps[apex], ps) == 1) startingFacet.flip();
+  if (startingFacet.compare(ps[apex], ps, tol) == 1) startingFacet.flip();
 
   // Intialize our starting tetrahedron.
   FacetSet workingFacets;
@@ -372,7 +380,7 @@ convexHull_3d(const std::vector<RealType>& points,
   // Find the set of points exterior to our starting tetrahedron.
   std::vector<unsigned> remainingPoints(ps.size());
   for (unsigned i = 0; i != ps.size(); ++i) remainingPoints[i] = i;
-  exteriorPoints(remainingPoints, workingFacets, ps);
+  exteriorPoints(remainingPoints, workingFacets, ps, tol);
 
   // Iterate until all points are interior to the facets.
   while (!remainingPoints.empty()) {
@@ -382,7 +390,7 @@ convexHull_3d(const std::vector<RealType>& points,
 
     // Remove the visible facets from apex, and compute the horizon edges.
     std::vector<EdgeHash> horizonEdges;
-    cullVisibleFacets(horizonEdges, workingFacets, ps, apex);
+    cullVisibleFacets(horizonEdges, workingFacets, ps, apex, tol);
     POLY_ASSERT(horizonEdges.size() >= 3);
 
     // Build the new facets from the apex point and horizon edges.
@@ -399,13 +407,13 @@ convexHull_3d(const std::vector<RealType>& points,
          eitr != horizonEdges.end();
          ++eitr) {
       workingFacets.push_back(TriangleFacet<RealType>(eitr->first, eitr->second, apex, ps));
-      if (workingFacets.back().compare(testPoint, ps) == 1) workingFacets.back().flip();
+      if (workingFacets.back().compare(testPoint, ps, tol) == 1) workingFacets.back().flip();
     }
 
     // Reduce to the new set of exterior points.
     const unsigned oldsize = remainingPoints.size();
     POLY_CONTRACT_VAR(oldsize);
-    exteriorPoints(remainingPoints, workingFacets, ps);
+    exteriorPoints(remainingPoints, workingFacets, ps, tol);
     POLY_ASSERT(remainingPoints.size() < oldsize);
 
     // std::cerr << "New pass at facets: " << std::endl;
-- 
2.43.0


From c6595c59618c96b86d6354c0d065a1ebaea491a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 29/31] fix: leave no dangling or uninitialized pointers in a C
 tessellation

---
 polytope_c/polytope_tessellation.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/polytope_c/polytope_tessellation.cc b/polytope_c/polytope_tessellation.cc
index 2414762..8960553 100644
--- a/polytope_c/polytope_tessellation.cc
+++ b/polytope_c/polytope_tessellation.cc
@@ -37,6 +37,7 @@ polytope_tessellation_t* polytope_tessellation_new(int dimension)
   tess->num_boundary_faces = 0;
   tess->boundary_nodes = NULL;
   tess->num_boundary_nodes = 0;
+  tess->face_cells = NULL;
 
   return tess;
 }
@@ -78,14 +79,19 @@ void polytope_tessellation_clear(polytope_tessellation_t* tessellation)
   if (tessellation->boundary_nodes != NULL)
   {
     free(tessellation->boundary_nodes);
+    tessellation->num_boundary_nodes = 0;
+    tessellation->boundary_nodes = NULL;
   }
   if (tessellation->boundary_faces != NULL)
   {
     free(tessellation->boundary_faces);
+    tessellation->num_boundary_faces = 0;
+    tessellation->boundary_faces = NULL;
   }
   if (tessellation->face_cells != NULL)
   {
     free(tessellation->face_cells);
+    tessellation->face_cells = NULL;
   }
   if (tessellation->neighbor_domains != NULL)
   {
-- 
2.43.0


From 2c3aaedb4f5740f78e13b765c32bed3942246223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 30/31] fix: keep the name of a tessellator for as long as the
 C interface hands it out

---
 polytope_c/polytope_tessellator.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/polytope_c/polytope_tessellator.cc b/polytope_c/polytope_tessellator.cc
index df67df5..d0a9fb1 100644
--- a/polytope_c/polytope_tessellator.cc
+++ b/polytope_c/polytope_tessellator.cc
@@ -1,3 +1,6 @@
+#include <stdlib.h>
+#include <string.h>
+
 #include "polytope_c.h"
 #include "polytope.hh"
 #include "BoostTessellator.hh"
@@ -217,6 +220,7 @@ struct polytope_tessellator_t
 {
   Tessellator<2, polytope_real_t>* tess2;
   Tessellator<3, polytope_real_t>* tess3;
+  char* name;
 };
 //------------------------------------------------------------------------
 
@@ -227,6 +231,7 @@ void polytope_tessellator_free(polytope_tessellator_t* tessellator)
     delete tessellator->tess2;
   else
     delete tessellator->tess3;
+  free(tessellator->name);
   free(tessellator);
 }
 //------------------------------------------------------------------------
@@ -323,10 +328,13 @@ bool polytope_tessellator_handles_plcs(polytope_tessellator_t* tessellator)
 //------------------------------------------------------------------------
 const char* polytope_tessellator_name(polytope_tessellator_t* tessellator)
 {
-  if (tessellator->tess2 != NULL)
-    return tessellator->tess2->name().c_str();
-  else
-    return tessellator->tess3->name().c_str();
+  if (tessellator->name == NULL)
+  {
+    const string name = (tessellator->tess2 != NULL) ? tessellator->tess2->name()
+                                                     : tessellator->tess3->name();
+    tessellator->name = strdup(name.c_str());
+  }
+  return tessellator->name;
 }
 //------------------------------------------------------------------------
 
@@ -355,6 +363,7 @@ int polytope_tessellator_dimension(polytope_tessellator_t* tessellator)
 polytope_tessellator_t* boost_tessellator_new()
 {
   polytope_tessellator_t* t = (polytope_tessellator_t*)malloc(sizeof(polytope_tessellator_t));
+  t->name = NULL;
   t->tess2 = new BoostTessellator<polytope_real_t>();
   t->tess3 = NULL;
   return t;
@@ -367,6 +376,7 @@ polytope_tessellator_t* boost_tessellator_new()
 polytope_tessellator_t* triangle_tessellator_new()
 {
   polytope_tessellator_t* t = (polytope_tessellator_t*)malloc(sizeof(polytope_tessellator_t));
+  t->name = NULL;
   t->tess2 = new TriangleTessellator<polytope_real_t>();
   t->tess3 = NULL;
   return t;
@@ -379,6 +389,7 @@ polytope_tessellator_t* triangle_tessellator_new()
 polytope_tessellator_t* tetgen_tessellator_new()
 {
   polytope_tessellator_t* t = (polytope_tessellator_t*)malloc(sizeof(polytope_tessellator_t));
+  t->name = NULL;
   t->tess2 = NULL;
   t->tess3 = new TetgenTessellator();
   return t;
-- 
2.43.0


From f431c54f75bd05955f02d43aaf0f8f180e932955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 31/31] fix: print C tessellations and PLCs to the string or
 file they are to be printed to

---
 polytope_c/polytope_plc.cc          | 26 +++++++++------
 polytope_c/polytope_tessellation.cc | 49 ++++++++++++++++++++++-------
 2 files changed, 55 insertions(+), 20 deletions(-)

diff --git a/polytope_c/polytope_plc.cc b/polytope_c/polytope_plc.cc
index 75d363a..660c3c1 100644
--- a/polytope_c/polytope_plc.cc
+++ b/polytope_c/polytope_plc.cc
@@ -1,3 +1,6 @@
+#include <stdio.h>
+#include <sstream>
+
 #include "polytope_c.h"
 #include "polytope.hh"
 
@@ -13,6 +16,17 @@ struct polytope_plc_t
   PLC<3, polytope_real_t>* plc3;
 };
 
+// Creates a human-readable representation of the given PLC.
+static string representation(polytope_plc_t* plc)
+{
+  ostringstream s;
+  if (plc->plc2 != NULL)
+    s << *plc->plc2;
+  else
+    s << *plc->plc3;
+  return s.str();
+}
+
 //------------------------------------------------------------------------
 polytope_plc_t* polytope_plc_new(int dimension)
 {
@@ -191,7 +205,8 @@ bool polytope_plc_valid(polytope_plc_t* plc)
 //------------------------------------------------------------------------
 void polytope_plc_snprintf(polytope_plc_t* plc, char* str, int n)
 {
-  // FIXME
+  POLY_ASSERT(plc != NULL);
+  snprintf(str, n, "%s", representation(plc).c_str());
 }
 //------------------------------------------------------------------------
 
@@ -199,14 +214,7 @@ void polytope_plc_snprintf(polytope_plc_t* plc, char* str, int n)
 void polytope_plc_fprintf(polytope_plc_t* plc, FILE* stream)
 {
   POLY_ASSERT(plc != NULL);
-  // Let's assume, for the moment, that the output of our PLC scales with the 
-  // number of facets.
-  int n = (plc->plc2 != NULL) ? 128 * plc->plc2->facets.size()
-                               : 128 * plc->plc3->facets.size();
-  char* str = (char*)malloc(n * sizeof(char));
-  polytope_plc_snprintf(plc, str, n);
-  fprintf(stream, "%s", str);
-  free(str);
+  fprintf(stream, "%s", representation(plc).c_str());
 }
 //------------------------------------------------------------------------
 
diff --git a/polytope_c/polytope_tessellation.cc b/polytope_c/polytope_tessellation.cc
index 8960553..45d7ab5 100644
--- a/polytope_c/polytope_tessellation.cc
+++ b/polytope_c/polytope_tessellation.cc
@@ -1,12 +1,47 @@
+#include <stdio.h>
 #include <stdlib.h>
-#include <string.h>
+#include <sstream>
 
 #include "polytope_c.h"
 #include "Tessellation.hh"
 
+namespace polytope
+{
+
+// Creates a C++ tessellation from a C one. This template is defined in 
+// polytope_tessellator.cc.
+template <int Dimension>
+void fill_tessellation(polytope_tessellation_t* tess, Tessellation<Dimension, polytope_real_t>& t);
+
+}
+
 using namespace std;
 using namespace polytope;
 
+namespace 
+{
+
+// Creates a human-readable representation of the given tessellation.
+string representation(polytope_tessellation_t* tessellation)
+{
+  ostringstream s;
+  if (tessellation->dimension == 2)
+  {
+    Tessellation<2, polytope_real_t> t;
+    fill_tessellation(tessellation, t);
+    s << t;
+  }
+  else
+  {
+    Tessellation<3, polytope_real_t> t;
+    fill_tessellation(tessellation, t);
+    s << t;
+  }
+  return s.str();
+}
+
+}
+
 extern "C"
 {
 
@@ -135,9 +170,7 @@ void polytope_tessellation_snprintf(polytope_tessellation_t* tessellation, char*
 {
   POLY_ASSERT(tessellation != NULL);
 
-  char fmt[128];
-  snprintf(fmt, 128, "Tessellation (%d)", static_cast<int>(sizeof(str) - strlen(str) - 1));
-  strncat(str, fmt, sizeof(str) - strlen(str));
+  snprintf(str, n, "%s", representation(tessellation).c_str());
 }
 //------------------------------------------------------------------------
 
@@ -145,13 +178,7 @@ void polytope_tessellation_snprintf(polytope_tessellation_t* tessellation, char*
 void polytope_tessellation_fprintf(polytope_tessellation_t* tessellation, FILE* stream)
 {
   POLY_ASSERT(tessellation != NULL);
-  // Let's assume, for the moment, that the output of our tessellation scales with the
-  // number of cells.
-  int n = 512 * tessellation->num_cells;
-  char* str = (char*)malloc(n * sizeof(char));
-  polytope_tessellation_snprintf(tessellation, str, n);
-  fprintf(stream, "%s", str);
-  free(str);
+  fprintf(stream, "%s", representation(tessellation).c_str());
 }
 //------------------------------------------------------------------------
 
-- 
2.43.0

