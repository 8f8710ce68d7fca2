From 8c2d96d774bc19974ab5e88b76af49f0e6a0e70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:02 +0000
Subject: [PATCH 01/30] fix: scaling a vector in place by one of its own
 components

---
 include/geometrycentral/utilities/vector2.ipp | 10 ++++++----
 include/geometrycentral/utilities/vector3.ipp | 14 ++++++++------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/geometrycentral/utilities/vector2.ipp b/include/geometrycentral/utilities/vector2.ipp
index 532a628..35c0b07 100644
--- a/include/geometrycentral/utilities/vector2.ipp
+++ b/include/geometrycentral/utilities/vector2.ipp
@@ -51,14 +51,16 @@ inline Vector2& Vector2::operator/=(const Vector2& other) {
 }
 
 inline Vector2& Vector2::operator*=(const double& s) {
-  x *= s;
-  y *= s;
+  const double r = s; // s may be one of our own components
+  x *= r;
+  y *= r;
   return *this;
 }
 
 inline Vector2& Vector2::operator/=(const double& s) {
-  x /= s;
-  y /= s;
+  const double r = s; // s may be one of our own components
+  x /= r;
+  y /= r;
   return *this;
 }
 
diff --git a/include/geometrycentral/utilities/vector3.ipp b/include/geometrycentral/utilities/vector3.ipp
index ea35172..c4e6220 100644
--- a/include/geometrycentral/utilities/vector3.ipp
+++ b/include/geometrycentral/utilities/vector3.ipp
@@ -33,16 +33,18 @@ inline Vector3& Vector3::operator-=(const Vector3& other) {
 }
 
 inline Vector3& Vector3::operator*=(const double& s) {
-  x *= s;
-  y *= s;
-  z *= s;
+  const double r = s; // s may be one of our own components
+  x *= r;
+  y *= r;
+  z *= r;
   return *this;
 }
 
 inline Vector3& Vector3::operator/=(const double& s) {
-  x /= s;
-  y /= s;
-  z /= s;
+  const double r = s; // s may be one of our own components
+  x /= r;
+  y /= r;
+  z /= r;
   return *this;
 }
 
-- 
2.43.0


From 6432dc61d3ecd4ce948d77f7fe968cc63bd3904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:54 +0000
Subject: [PATCH 02/30] fix: insertVertexAlongEdge on an edge whose tail vertex
 has degree one

---
 src/surface/manifold_surface_mesh.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index a9cd376..b52660b 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -581,7 +581,11 @@ Halfedge ManifoldSurfaceMesh::insertVertexAlongEdge(Edge e) {
 
   // Fix pointers for old halfedges
   heNextArr[heBCenter.getIndex()] = heBNew.getIndex();
-  heNextArr[heAPrev.getIndex()] = heANew.getIndex();
+  if (heAPrev == heBCenter) { // degree-1 tail vertex
+    heNextArr[heBNew.getIndex()] = heANew.getIndex();
+  } else {
+    heNextArr[heAPrev.getIndex()] = heANew.getIndex();
+  }
   heVertexArr[heACenter.getIndex()] = newV.getIndex();
 
   // Only set this if we broke it, to preseve boundary convention
-- 
2.43.0


From 8529c18815ffa2eee2818b3fe599e7f90dabef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:54 +0000
Subject: [PATCH 03/30] fix: flip() with preventSelfEdges must not create a
 self-edge

---
 src/surface/surface_mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 4d0bdeb..c5491ee 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -878,7 +878,8 @@ bool SurfaceMesh::flip(Edge eFlip, bool preventSelfEdges) {
   Vertex vd = hb3.vertex();
 
   if (preventSelfEdges) {
-    // If enabled, make sure it is not a duplicate
+    // If enabled, make sure it is not a self-edge or a duplicate
+    if (vc == vd) return false;
     for (Vertex v : vc.adjacentVertices()) {
       if (v == vd) return false;
     }
-- 
2.43.0


From 2e95fcd252c88d6701e42af1a072a800f3ab08d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:54 +0000
Subject: [PATCH 04/30] fix: separateEdge and removeFaceAlongBoundary keep the
 interior halfedge count

---
 src/surface/manifold_surface_mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index b52660b..7a7879d 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -747,6 +747,8 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     vHalfedgeArr[vA.getIndex()] = he.getIndex();
     vHalfedgeArr[vB.getIndex()] = heN1.getIndex();
 
+    nInteriorHalfedgesCount--; // heT is no longer interior
+
     modificationTick++;
     return std::tuple<Halfedge, Halfedge>{he, heN1};
   }
@@ -793,6 +795,8 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     vHalfedgeArr[vB.getIndex()] = heN1.getIndex();
     vHalfedgeArr[vN.getIndex()] = he.getIndex();
 
+    nInteriorHalfedgesCount--; // heT is no longer interior
+
     ensureEdgeHasInteriorHalfedge(he.edge());
 
     std::tuple<Halfedge, Halfedge> result{he.edge().halfedge(), heN1};
@@ -1368,6 +1372,7 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
     // Update refs
     for (Halfedge he : f.adjacentHalfedges()) {
       heFaceArr[he.getIndex()] = bLoop.getIndex();
+      nInteriorHalfedgesCount--;
     }
 
     // Next refs
-- 
2.43.0


From 13100c4464f104b43d68f427c5ac4f986f54961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:15 +0000
Subject: [PATCH 05/30] fix: removeFaceAlongBoundary on faces that are not
 plain triangles

---
 src/surface/manifold_surface_mesh.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 7a7879d..fbbc2c1 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1364,9 +1364,13 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
     Face bLoop = heT.face();
 
 
-    // Opposite vertex must not be a bounary vertex or this creates a nonmanifold mesh (imagine hourglass)
-    if (heBPrev.vertex().isBoundary()) {
-      return false;
+    // Opposite vertices must not be bounary vertices or this creates a nonmanifold mesh (imagine hourglass)
+    for (Halfedge he = heBNext; he != heB; he = he.next()) {
+      if (he != heBNext && he.vertex().isBoundary()) return false;
+      if (he.twin().face() == f) return false; // glued to itself
+      for (Halfedge heO = heBNext; heO != he; heO = heO.next()) {
+        if (heO.vertex() == he.vertex()) return false; // meets itself at a vertex
+      }
     }
 
     // Update refs
@@ -1381,7 +1385,9 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
 
     // Vertex halfedges
     vHalfedgeArr[heTNext.vertex().getIndex()] = heBPrev.twin().getIndex();
-    ensureVertexHasBoundaryHalfedge(heBPrev.vertex());
+    for (Halfedge he = heBNext.next(); he != heTNext; he = he.next()) {
+      ensureVertexHasBoundaryHalfedge(he.vertex());
+    }
 
     fHalfedgeArr[bLoop.getIndex()] = heTNext.getIndex();
 
-- 
2.43.0


From 176cf428935927066486b7e4b6f3cf89658b2050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:15 +0000
Subject: [PATCH 06/30] fix: switchHalfedgeSides on an edge at a degree-one
 vertex

---
 src/surface/manifold_surface_mesh.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index fbbc2c1..a94f443 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -852,10 +852,11 @@ Halfedge ManifoldSurfaceMesh::switchHalfedgeSides(Edge e) {
   Vertex vB = heT.vertex();
 
   // Set references
-  heNextArr[he.getIndex()] = heTN.getIndex();
-  heNextArr[heTP.getIndex()] = he.getIndex();
-  heNextArr[heT.getIndex()] = heN.getIndex();
-  heNextArr[heP.getIndex()] = heT.getIndex();
+  // (he and heT follow each other at a degree-1 vertex, and still do afterwards)
+  heNextArr[he.getIndex()] = (heTN == he ? heT : heTN).getIndex();
+  heNextArr[heT.getIndex()] = (heN == heT ? he : heN).getIndex();
+  if (heTP != he) heNextArr[heTP.getIndex()] = he.getIndex();
+  if (heP != heT) heNextArr[heP.getIndex()] = heT.getIndex();
 
   heFaceArr[he.getIndex()] = fB.getIndex();
   heFaceArr[heT.getIndex()] = fA.getIndex();
-- 
2.43.0


From 3fb7c53a8b6fef11eb7389a41ccf8bae2e98c97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:39 +0000
Subject: [PATCH 07/30] fix: duplicateFace counts the new halfedges as interior

The halfedges of the duplicated face are interior halfedges, but were not
counted by nInteriorHalfedges().
---
 src/surface/surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index c5491ee..3e056bc 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -812,7 +812,7 @@ Face SurfaceMesh::duplicateFace(Face f) {
   bool first = true;
   Halfedge prevNewHe, firstNewHe;
   for (Halfedge oldHe : f.adjacentHalfedges()) {
-    Halfedge newHe = getNewHalfedge(false);
+    Halfedge newHe = getNewHalfedge(true);
 
     if (first) {
       fHalfedgeArr[newFace.getIndex()] = newHe.getIndex();
-- 
2.43.0


From 8cc5c004ce6f74cb6c1132eb1d12daa8a5f82413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:39 +0000
Subject: [PATCH 08/30] fix: deleting a halfedge keeps the interior halfedge
 count

heIsInterior() was consulted after the halfedge's face had been cleared, so
the count was never decremented.
---
 src/surface/surface_mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 3e056bc..0858a56 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1685,6 +1685,7 @@ void SurfaceMesh::deleteElement(Halfedge he) {
 
   // delete all of the incident halfedges
   size_t i = he.getIndex();
+  bool isInterior = heIsInterior(i); // must check before clearing the face
   heNextArr[i] = INVALID_IND;
   heVertexArr[i] = INVALID_IND;
   heFaceArr[i] = INVALID_IND;
@@ -1697,7 +1698,7 @@ void SurfaceMesh::deleteElement(Halfedge he) {
   heVertOutPrevArr[i] = INVALID_IND;
 
   nHalfedgesCount--;
-  if (heIsInterior(i)) {
+  if (isInterior) {
     nInteriorHalfedgesCount--;
   }
 
-- 
2.43.0


From f98f10c3aaf5f3ddcd1c48aede91f8e82f47bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:39 +0000
Subject: [PATCH 09/30] fix: new faces and boundary loops must not overlap
 deleted boundary loops

Faces and boundary loops share storage from both ends; deleted boundary loops
still occupy their slots, so the capacity test has to use the fill count.
---
 src/surface/surface_mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 0858a56..eac95aa 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1568,7 +1568,7 @@ Halfedge SurfaceMesh::getNewEdgeTriple(bool onBoundary) {
 Face SurfaceMesh::getNewFace() {
 
   // The boring case, when no resize is needed
-  if (nFacesFillCount + nBoundaryLoopsCount < nFacesCapacityCount) {
+  if (nFacesFillCount + nBoundaryLoopsFillCount < nFacesCapacityCount) {
     // No work needed
   }
   // The intesting case, where vectors resize
@@ -1587,7 +1587,7 @@ Face SurfaceMesh::getNewFace() {
 BoundaryLoop SurfaceMesh::getNewBoundaryLoop() {
 
   // The boring case, when no resize is needed
-  if (nFacesFillCount + nBoundaryLoopsCount < nFacesCapacityCount) {
+  if (nFacesFillCount + nBoundaryLoopsFillCount < nFacesCapacityCount) {
     // No work needed
   }
   // The intesting case, where vectors resize
-- 
2.43.0


From ab5d081bef91302cd5f6ff559af162191817a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:39 +0000
Subject: [PATCH 10/30] fix: growing empty vertex, face and point storage

Doubling a capacity of zero allocated nothing, and the new element was written
out of bounds (as already handled for halfedges and edges).
---
 src/pointcloud/point_cloud.cpp | 2 +-
 src/surface/surface_mesh.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pointcloud/point_cloud.cpp b/src/pointcloud/point_cloud.cpp
index f2dc02e..d7f4bf0 100644
--- a/src/pointcloud/point_cloud.cpp
+++ b/src/pointcloud/point_cloud.cpp
@@ -99,7 +99,7 @@ Point PointCloud::getNewPoint() {
   }
   // The intesting case, where vectors resize
   else {
-    size_t newCapacity = nPointsCapacityCount * 2;
+    size_t newCapacity = std::max(nPointsCapacityCount * 2, (size_t)1);
 
     // Resize internal arrays
     pointValid.resize(newCapacity);
diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index eac95aa..56afd44 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1377,7 +1377,7 @@ Vertex SurfaceMesh::getNewVertex() {
   }
   // The intesting case, where vectors resize
   else {
-    size_t newCapacity = nVerticesCapacityCount * 2;
+    size_t newCapacity = std::max(nVerticesCapacityCount * 2, (size_t)1);
 
     // Resize internal arrays
     vHalfedgeArr.resize(newCapacity);
@@ -1604,7 +1604,7 @@ BoundaryLoop SurfaceMesh::getNewBoundaryLoop() {
 }
 
 void SurfaceMesh::expandFaceStorage() {
-  size_t newCapacity = nFacesCapacityCount * 2;
+  size_t newCapacity = std::max(nFacesCapacityCount * 2, (size_t)1);
 
   // Resize internal arrays
   fHalfedgeArr.resize(newCapacity);
-- 
2.43.0


From 7aeb84d9268f22350aabdb89b4ea61f38e5e2a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:39 +0000
Subject: [PATCH 11/30] fix: getNewEdgeTriple grows the vertex incidence lists

With explicit connectivity all per-halfedge arrays have to grow together.
---
 src/surface/surface_mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 56afd44..15f2da6 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1511,6 +1511,10 @@ Halfedge SurfaceMesh::getNewEdgeTriple(bool onBoundary) {
         heSiblingArr.resize(newHalfedgeCapacity);
         heEdgeArr.resize(newHalfedgeCapacity);
         heOrientArr.resize(newHalfedgeCapacity);
+        heVertInNextArr.resize(newHalfedgeCapacity);
+        heVertInPrevArr.resize(newHalfedgeCapacity);
+        heVertOutNextArr.resize(newHalfedgeCapacity);
+        heVertOutPrevArr.resize(newHalfedgeCapacity);
       }
 
       nHalfedgesCapacityCount = newHalfedgeCapacity;
-- 
2.43.0


From b2576107b6b3b18f9798de0fffc1aaa6881664de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 12/30] fix: Vertex::isManifoldAndOriented() on boundary
 vertices of a general mesh

Walking twin().next() leaves the vertex at a boundary edge of a mesh with
explicit siblings (the sibling is the halfedge itself), so every boundary
vertex was reported as not manifold. Test the incident edges instead.
---
 .../surface/halfedge_element_types.ipp         | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/include/geometrycentral/surface/halfedge_element_types.ipp b/include/geometrycentral/surface/halfedge_element_types.ipp
index cea15c1..4d2f700 100644
--- a/include/geometrycentral/surface/halfedge_element_types.ipp
+++ b/include/geometrycentral/surface/halfedge_element_types.ipp
@@ -46,21 +46,11 @@ inline bool Vertex::isBoundary() const {
   }
 }
 inline bool Vertex::isManifoldAndOriented() const {
-  // TODO this routine is actually pretty nontrivial, it probably deserves some more thought
-  // strategy: bootstrap off of the adjacency iterator, which already has functionality for nonmanifold vertices
   if(mesh->usesImplicitTwin()) return true;
-  size_t d = degree(); 
-  size_t kManif = 0; 
-  Halfedge firstHe = halfedge();
-  Halfedge currHe = firstHe;
-  do {
-    kManif++;
-    currHe = currHe.twin().next();
-    if(currHe.vertex() != *this) return false;
-    if(kManif > d) return false;
-  } while(currHe != firstHe);
-
-  return kManif == d;
+  for (Edge e : adjacentEdges()) {
+    if (!e.isOriented()) return false;
+  }
+  return isManifold();
 }
 inline bool Vertex::isManifold() const { 
   if(mesh->usesImplicitTwin()) return true;
-- 
2.43.0


From 0caa1b54a9dc421b5a1c36df0e31ddbffb0dca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 13/30] fix: nConnectedComponents() ignored boundary and
 inconsistently oriented edges of a general mesh

---
 src/surface/surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 15f2da6..6c2fdea 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -443,7 +443,7 @@ size_t SurfaceMesh::nConnectedComponents() {
   VertexData<size_t> vertInd = getVertexIndices();
   DisjointSets dj(nVertices());
   for (Edge e : edges()) {
-    dj.merge(vertInd[e.halfedge().vertex()], vertInd[e.halfedge().twin().vertex()]);
+    dj.merge(vertInd[e.firstVertex()], vertInd[e.secondVertex()]);
   }
   std::unordered_set<size_t> distinctComponents;
   for (size_t i = 0; i < nVertices(); i++) {
-- 
2.43.0


From 19c232e258a54d801bddbfd551a96ad93d5873cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 14/30] fix: SurfacePoint::inEdge() placed vertices at the
 wrong end of the edge

---
 include/geometrycentral/surface/barycentric_vector.ipp | 2 +-
 include/geometrycentral/surface/surface_point.ipp      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 04f74d8..d6f5c77 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -31,7 +31,7 @@ inline BarycentricVector::BarycentricVector(SurfacePoint pA, SurfacePoint pB) {
     double a = pA_in_edge.tEdge;
     double b = pB_in_edge.tEdge;
     edge = e;
-    edgeCoords = Vector2{b - a, a - b};
+    edgeCoords = Vector2{a - b, b - a}; // (change at the tail, change at the tip)
     return;
   }
 
diff --git a/include/geometrycentral/surface/surface_point.ipp b/include/geometrycentral/surface/surface_point.ipp
index 3c4f0b0..c82a2aa 100644
--- a/include/geometrycentral/surface/surface_point.ipp
+++ b/include/geometrycentral/surface/surface_point.ipp
@@ -151,9 +151,9 @@ inline SurfacePoint SurfacePoint::inEdge(Edge targetEdge) const {
   switch (type) {
   case SurfacePointType::Vertex:
     if (vertex == targetEdge.halfedge().tailVertex()) {
-      return SurfacePoint(targetEdge, 1);
+      return SurfacePoint(targetEdge, 0.);
     } else if (vertex == targetEdge.halfedge().tipVertex()) {
-      return SurfacePoint(targetEdge, 0);
+      return SurfacePoint(targetEdge, 1.);
     }
     break;
   case SurfacePointType::Edge:
-- 
2.43.0


From 0be577cb5d446054abcbe20471c43b2a0343654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 15/30] fix: surface points are not adjacent across a boundary
 loop

---
 src/surface/surface_point.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/surface/surface_point.cpp b/src/surface/surface_point.cpp
index 1c98c4c..8272b59 100644
--- a/src/surface/surface_point.cpp
+++ b/src/surface/surface_point.cpp
@@ -19,9 +19,10 @@ bool checkAdjacent(Vertex vA, Vertex vB) {
 
 bool checkAdjacent(Vertex vA, Edge eB) {
   bool adjacent = false;
-  for (Halfedge he : vA.outgoingHalfedges()) {
-    if (eB == he.next().edge()) adjacent = true;
-    if (eB == he.edge()) adjacent = true;
+  for (Face fN : vA.adjacentFaces()) {
+    for (Edge eN : fN.adjacentEdges()) {
+      if (eN == eB) adjacent = true;
+    }
   }
   return adjacent;
 }
@@ -40,10 +41,11 @@ bool checkAdjacent(Edge eA, Edge eB) {
   bool adjacent = false;
 
   // Must have a shared face
-  adjacent |= (eA.halfedge().face() == eB.halfedge().face());
-  adjacent |= (eA.halfedge().twin().face() == eB.halfedge().face());
-  adjacent |= (eA.halfedge().face() == eB.halfedge().twin().face());
-  adjacent |= (eA.halfedge().twin().face() == eB.halfedge().twin().face());
+  for (Face fA : eA.adjacentFaces()) {
+    for (Face fB : eB.adjacentFaces()) {
+      if (fA == fB) adjacent = true;
+    }
+  }
 
   return adjacent;
 }
-- 
2.43.0


From 11f69e995b96f95266506dcd69efe09f4129a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 16/30] fix: surface points on the edges of a general mesh

---
 .../surface/barycentric_vector.ipp              |  4 ++--
 .../geometrycentral/surface/surface_point.ipp   | 17 ++++++++---------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index d6f5c77..744d496 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -626,8 +626,8 @@ inline Edge sharedEdge(const BarycentricVector& u, const BarycentricVector& w) {
         if (u.vertex == v) return e;
       }
     } else {
-      for (Halfedge he : u.vertex.outgoingHalfedges()) {
-        if (he.tipVertex() == w.vertex) return he.edge();
+      for (Edge e : u.vertex.adjacentEdges()) {
+        if (e.otherVertex(u.vertex) == w.vertex) return e;
       }
     }
   }
diff --git a/include/geometrycentral/surface/surface_point.ipp b/include/geometrycentral/surface/surface_point.ipp
index c82a2aa..9a1bd3d 100644
--- a/include/geometrycentral/surface/surface_point.ipp
+++ b/include/geometrycentral/surface/surface_point.ipp
@@ -9,7 +9,7 @@ inline SurfacePoint::SurfacePoint() : type(SurfacePointType::Vertex) {}
 inline SurfacePoint::SurfacePoint(Vertex v) : type(SurfacePointType::Vertex), vertex(v) {}
 inline SurfacePoint::SurfacePoint(Edge e, double tEdge_) : type(SurfacePointType::Edge), edge(e), tEdge(tEdge_) {}
 inline SurfacePoint::SurfacePoint(Halfedge he, double tHalfedge)
-    : type(SurfacePointType::Edge), edge(he.edge()), tEdge(he == he.edge().halfedge() ? tHalfedge : (1. - tHalfedge)) {}
+    : type(SurfacePointType::Edge), edge(he.edge()), tEdge(he.orientation() ? tHalfedge : (1. - tHalfedge)) {}
 inline SurfacePoint::SurfacePoint(Face f, Vector3 faceCoords_)
     : type(SurfacePointType::Face), face(f), faceCoords(faceCoords_) {}
 
@@ -110,9 +110,11 @@ inline SurfacePoint SurfacePoint::inFace(Face targetFace) const {
 
   case SurfacePointType::Edge: {
 
-    double thisT = tEdge;
     for (Halfedge targetHe : edge.adjacentHalfedges()) {
 
+      // The point, measured along this halfedge
+      double thisT = targetHe.orientation() ? tEdge : 1. - tEdge;
+
       int i = 0;
       for (Halfedge he : targetFace.adjacentHalfedges()) {
         if (he == targetHe) {
@@ -126,9 +128,6 @@ inline SurfacePoint SurfacePoint::inFace(Face targetFace) const {
         }
         i++;
       }
-
-      // Flip the point to be along the other halfedge
-      thisT = 1. - thisT;
     }
 
     break;
@@ -178,7 +177,7 @@ inline Vertex SurfacePoint::nearestVertex() const {
   }
   case SurfacePointType::Edge: {
     if (tEdge < .5) return edge.halfedge().vertex();
-    return edge.halfedge().twin().vertex();
+    return edge.halfedge().tipVertex();
     break;
   }
   case SurfacePointType::Face: {
@@ -207,7 +206,7 @@ inline T SurfacePoint::interpolate(const VertexData<T>& data) const {
   }
   case SurfacePointType::Edge: {
     T valTail = data[edge.halfedge().vertex()];
-    T valTip = data[edge.halfedge().twin().vertex()];
+    T valTip = data[edge.halfedge().tipVertex()];
     return (1. - tEdge) * valTail + tEdge * valTip;
     break;
   }
@@ -309,8 +308,8 @@ inline Edge sharedEdge(const SurfacePoint& pA, const SurfacePoint& pB) {
   case SurfacePointType::Vertex: {
     switch (pB.type) {
     case SurfacePointType::Vertex:
-      for (Halfedge he : pA.vertex.outgoingHalfedges()) {
-        if (he.tipVertex() == pB.vertex) return he.edge();
+      for (Edge e : pA.vertex.adjacentEdges()) {
+        if (e.otherVertex(pA.vertex) == pB.vertex) return e;
       }
       break;
     case SurfacePointType::Edge:
-- 
2.43.0


From bc728f243471ccbe2e7846eb9e0deb7654bd246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 17/30] fix: BarycentricVector::inFace() rejects a face that is
 not adjacent to the edge

---
 include/geometrycentral/surface/barycentric_vector.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 744d496..993c94a 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -117,9 +117,11 @@ inline BarycentricVector BarycentricVector::inFace(Face targetFace) const {
       return BarycentricVector(targetFace, faceCoords);
     }
     he = he.next();
-    Vector3 faceCoords =
-        he.orientation() ? Vector3{edgeCoords[1], 0., edgeCoords[0]} : Vector3{edgeCoords[0], 0., edgeCoords[1]};
-    return BarycentricVector(targetFace, faceCoords);
+    if (edge == he.edge()) {
+      Vector3 faceCoords =
+          he.orientation() ? Vector3{edgeCoords[1], 0., edgeCoords[0]} : Vector3{edgeCoords[0], 0., edgeCoords[1]};
+      return BarycentricVector(targetFace, faceCoords);
+    }
     break;
   }
   case BarycentricVectorType::Vertex:
-- 
2.43.0


From 8a74bde7e627aa696211d662fd6f8aa99c8fa551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 18/30] fix: reject a halfedge outside the face in
 BarycentricVector(Halfedge, Face)

The loop over the face left the index at 3, so the coordinates were written past the end.
---
 include/geometrycentral/surface/barycentric_vector.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 993c94a..2199267 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -55,6 +55,10 @@ inline BarycentricVector::BarycentricVector(Halfedge he_, Face f) : type(Barycen
     }
     eIdx++;
   }
+  if (sign == 0.) {
+    throw std::logic_error("BarycentricVector: halfedge " + std::to_string(he_) + " is not in face " +
+                           std::to_string(f));
+  }
   faceCoords = {0, 0, 0};
   faceCoords[(eIdx + 1) % 3] = 1;
   faceCoords[eIdx] = -1;
-- 
2.43.0


From 3454894d27b0002ac458c9840311acc780ec50dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 19/30] fix: keep the require count at zero after a rejected
 unrequire()

The reset was placed after the throw, so the count stayed at -1 and the next require() left it at 0: the quantity could be purged while required.
---
 include/geometrycentral/utilities/dependent_quantity.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/dependent_quantity.ipp b/include/geometrycentral/utilities/dependent_quantity.ipp
index eca0e20..11b3713 100644
--- a/include/geometrycentral/utilities/dependent_quantity.ipp
+++ b/include/geometrycentral/utilities/dependent_quantity.ipp
@@ -28,8 +28,8 @@ inline void DependentQuantity::unrequire() {
   requireCount--;
 
   if (requireCount < 0) {
-    throw std::logic_error("Quantity was unrequire()'d more than than it was require()'d");
     requireCount = 0;
+    throw std::logic_error("Quantity was unrequire()'d more than than it was require()'d");
   }
 }
 
-- 
2.43.0


From 795296892c72e81907b0c2c21e27dccbb322056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 20/30] fix: renumber boundary loop containers in boundary loop
 order on compress()

---
 src/surface/surface_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 6c2fdea..b0fa243 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1879,6 +1879,8 @@ void SurfaceMesh::compressFaces() {
       }
     }
   }
+  // boundary loops are stored from the back, so we encountered them in decreasing order of index
+  std::reverse(newBLIndMap.begin(), newBLIndMap.end());
 
 
   // Permute & resize all per-face arrays
-- 
2.43.0


From 01e3e77a85b3064afddd1efd884ad0c61b62b89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 21/30] fix: a moved-from MeshData no longer receives updates
 of its mesh

---
 include/geometrycentral/utilities/mesh_data.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 8b60ebd..3b2ff84 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -48,6 +48,7 @@ template <typename E, typename T>
 MeshData<E, T>::MeshData(MeshData<E, T>&& other) noexcept
     : mesh(other.mesh), defaultValue(other.defaultValue), data(std::move(other.data)) {
   registerWithMesh();
+  other.clear(); // the moved-from container must not receive updates for data it no longer holds
 }
 
 
@@ -64,11 +65,13 @@ MeshData<E, T>& MeshData<E, T>::operator=(const MeshData<E, T>& other) {
 
 template <typename E, typename T>
 MeshData<E, T>& MeshData<E, T>::operator=(MeshData<E, T>&& other) noexcept {
+  if (this == &other) return *this;
   deregisterWithMesh();
   mesh = other.mesh;
   defaultValue = other.defaultValue;
   data = std::move(other.data);
   registerWithMesh();
+  other.clear(); // the moved-from container must not receive updates for data it no longer holds
 
   return *this;
 }
-- 
2.43.0


From f0e201d927ccfa61601c037bac94f0e4c3b917e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 22/30] fix: PointCloud tells its containers when it is
 destroyed

---
 src/pointcloud/point_cloud.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pointcloud/point_cloud.cpp b/src/pointcloud/point_cloud.cpp
index d7f4bf0..e3d5720 100644
--- a/src/pointcloud/point_cloud.cpp
+++ b/src/pointcloud/point_cloud.cpp
@@ -23,7 +23,11 @@ PointCloud::PointCloud(size_t nPts) {
   isCompressedFlag = true;
 }
 
-PointCloud::~PointCloud() {}
+PointCloud::~PointCloud() {
+  for (auto& f : meshDeleteCallbackList) {
+    f();
+  }
+}
 
 
 // ==========================================================
-- 
2.43.0


From 9056fdccd3264cbc1dc9b4707bbfee47e820c668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 23/30] fix: setDefault() also reaches the first slot when
 there are no elements yet

---
 include/geometrycentral/utilities/mesh_data.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 3b2ff84..bce938a 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -274,11 +274,11 @@ inline void MeshData<E, T>::setDefault(T newDefault) {
   // TODO this is pretty sloppy, and probably indicates a flaw in the design of this class... The default should
   // probably just be const instead.
   // TODO could avoid this (and some things in fill()) with an element_fill<E>() template
-  size_t maxInd = 0;
+  size_t firstUnused = 0;
   for (E e : iterateElements<E>(mesh)) {
-    maxInd = std::max(maxInd, e.getIndex());
+    firstUnused = std::max(firstUnused, e.getIndex() + 1);
   }
-  for (size_t i = maxInd + 1; i < (size_t)data.size(); i++) {
+  for (size_t i = firstUnused; i < (size_t)data.size(); i++) {
     data[i] = defaultValue;
   }
 }
-- 
2.43.0


From 610046672f4391f5d512d0a4a88abeb894c9857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 24/30] fix: count no curves around a corner that run along its
 opposite side

cornerCoord used the negative coordinate of an edge with n curves along it as if
it were a number of crossings, so two or more such curves were counted as
additional arcs around the opposite corner.
---
 src/surface/normal_coordinates.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index adc4ffa..12485f1 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -826,6 +826,10 @@ size_t strictDegree(int nij, int njk, int nki) {
 // Counts the number of arcs clipping off corner k. If arcs leave corner k, then
 // they get counted as -1/2 each
 int cornerCoord(int nij, int njk, int nki) {
+  // Arcs parallel to an edge do not cross it, so they do not clip off a corner
+  nij = positivePart(nij);
+  njk = positivePart(njk);
+  nki = positivePart(nki);
   return (njk + nki - nij - strictDegree(njk, nki, nij) - strictDegree(nki, nij, njk)) / 2;
 }
 
-- 
2.43.0


From 733938cf80ceaa65dece1a9d35a82340130a55d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:37 +0000
Subject: [PATCH 25/30] fix: subtract curve counts as signed integers when
 splitting an edge

strictCornerCoord returns size_t, so the differences wrapped around and
positivePart converted a double of 2^64 back to size_t, which is undefined (and
adds -1 to the count where the conversion saturates).
---
 src/surface/normal_coordinates.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index 12485f1..ca3c27c 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -205,15 +205,15 @@ std::array<int, 4> NormalCoordinates::computeInteriorEdgeSplitDataGeodesic(Intri
     Corner cl = e.halfedge().twin().next().next().corner();
 
     int n1 = 0;
-    n1 += positivePart(strictCornerCoord(e.halfedge().twin().corner()) - positivePart(n2));
-    n1 += positivePart(strictCornerCoord(e.halfedge().twin().next().corner()) - positivePart(n4));
+    n1 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().twin().corner())) - positivePart(n2));
+    n1 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().twin().next().corner())) - positivePart(n4));
     n1 += strictCornerCoord(cl);
     n1 += strictDegree(e.halfedge().twin().corner());
     n1 += strictDegree(e.halfedge().twin().next().corner());
 
     int n3 = 0;
-    n3 += positivePart(strictCornerCoord(e.halfedge().next().corner()) - positivePart(n2));
-    n3 += positivePart(strictCornerCoord(e.halfedge().corner()) - positivePart(n4));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().next().corner())) - positivePart(n2));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().corner())) - positivePart(n4));
     n3 += strictCornerCoord(ck);
     n3 += strictDegree(e.halfedge().corner());
     n3 += strictDegree(e.halfedge().next().corner());
@@ -243,15 +243,15 @@ std::array<int, 4> NormalCoordinates::computeInteriorEdgeSplitDataCombinatorial(
     Corner cl = e.halfedge().twin().next().next().corner();
 
     int n1 = 0;
-    n1 += positivePart(strictCornerCoord(e.halfedge().twin().corner()) - positivePart(n2));
-    n1 += positivePart(strictCornerCoord(e.halfedge().twin().next().corner()) - positivePart(n4));
+    n1 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().twin().corner())) - positivePart(n2));
+    n1 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().twin().next().corner())) - positivePart(n4));
     n1 += strictCornerCoord(cl);
     n1 += strictDegree(e.halfedge().twin().corner());
     n1 += strictDegree(e.halfedge().twin().next().corner());
 
     int n3 = 0;
-    n3 += positivePart(strictCornerCoord(e.halfedge().next().corner()) - positivePart(n2));
-    n3 += positivePart(strictCornerCoord(e.halfedge().corner()) - positivePart(n4));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().next().corner())) - positivePart(n2));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().corner())) - positivePart(n4));
     n3 += strictCornerCoord(ck);
     n3 += strictDegree(e.halfedge().corner());
     n3 += strictDegree(e.halfedge().next().corner());
@@ -310,8 +310,8 @@ std::array<int, 3> NormalCoordinates::computeBoundaryEdgeSplitDataGeodesic(Intri
     Corner ck = heI.next().next().corner();
 
     int n3 = 0;
-    n3 += positivePart(strictCornerCoord(heI.next().corner()) - positivePart(n2));
-    n3 += positivePart(strictCornerCoord(heI.corner()) - positivePart(n4));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(heI.next().corner())) - positivePart(n2));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(heI.corner())) - positivePart(n4));
     n3 += strictCornerCoord(ck);
     n3 += strictDegree(heI.corner());
     n3 += strictDegree(heI.next().corner());
-- 
2.43.0


From 16bdbc637dad2bde75b2d5bc9ce3821667f049cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 26/30] fix: compare whole crossings when looking for a closed
 curve

topologicalTraceBidirectional took every curve whose first and last crossing lie
on the same halfedge for a closed one, even at different positions along it, and
threw.
---
 src/surface/normal_coordinates.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index ca3c27c..158666e 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -390,8 +390,7 @@ std::tuple<NormalCoordinatesCurve, int> NormalCoordinates::topologicalTraceBidir
 
   // Case where the curve is a cycle
   // TODO this may be wrong
-  if (forwardTrace.crossings.size() > 1 &&
-      forwardTrace.crossings.front().second == forwardTrace.crossings.back().second) {
+  if (forwardTrace.crossings.size() > 1 && forwardTrace.crossings.front() == forwardTrace.crossings.back()) {
     throw std::runtime_error("encountered a loop while tracing normal coordinates");
   }
 
-- 
2.43.0


From a6a070856c172d02ccaa778e5e08520329c6512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 27/30] fix: do not take a curve that ends at a vertex for a
 closed curve

After the last step topologicalTrace compared the halfedge and index left behind
by stepTopologicalCurve with the start, although they mean nothing once the
curve has ended, and appended a crossing the curve does not have.
---
 src/surface/normal_coordinates.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index 158666e..73a5608 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -336,6 +336,7 @@ NormalCoordinatesCurve NormalCoordinates::topologicalTrace(Halfedge he, int inde
 
   NormalCoordinatesCurve path;
 
+  bool atVertex; // stepTopologicalCurve leaves (he, index) meaningless when the curve ends at a vertex
   do {
     int n = edgeCoords[he.edge()];
 
@@ -347,11 +348,12 @@ NormalCoordinatesCurve NormalCoordinates::topologicalTrace(Halfedge he, int inde
 
     path.crossings.push_back(std::make_pair(index, he));
 
-  } while (!stepTopologicalCurve(he, index) && !(he == startHe && index == startIndex) && !he.edge().isBoundary());
+    atVertex = stepTopologicalCurve(he, index);
+  } while (!atVertex && !(he == startHe && index == startIndex) && !he.edge().isBoundary());
 
   // If we made a complete loop, record the starting point (also the ending
   // point) again
-  if ((he == startHe && index == startIndex) || he.edge().isBoundary())
+  if (!atVertex && ((he == startHe && index == startIndex) || he.edge().isBoundary()))
     path.crossings.push_back(std::make_pair(index, he));
 
   return path;
-- 
2.43.0


From 970a35b0fa26fa651e1c17fdb6ad0f9a1491b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 28/30] fix: Vertex::isManifold looks at the corners of the
 vertex, not only at its faces

A face with several corners at a vertex was counted as one connected neighborhood, so a vertex whose fans are only connected
through the interior of a face was reported manifold and toManifoldMesh() built an invalid manifold mesh from it.
---
 .../surface/halfedge_element_types.ipp        | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/geometrycentral/surface/halfedge_element_types.ipp b/include/geometrycentral/surface/halfedge_element_types.ipp
index 4d2f700..96244ca 100644
--- a/include/geometrycentral/surface/halfedge_element_types.ipp
+++ b/include/geometrycentral/surface/halfedge_element_types.ipp
@@ -60,24 +60,25 @@ inline bool Vertex::isManifold() const {
     if(!e.isManifold()) return false;
   }
   
-  // test if there is a single edge-connected component
-  std::vector<Face> toProc{halfedge().face()};
-  std::unordered_set<Face> seen;
+  // test if there is a single edge-connected component of corners (a face may have several corners at this vertex, so it
+  // is not enough to look at the faces)
+  std::vector<Halfedge> toProc{halfedge()}; // a corner is represented by its outgoing halfedge
+  std::unordered_set<Halfedge> seen;
   while(!toProc.empty()) {
-    Face f = toProc.back();
+    Halfedge he = toProc.back();
     toProc.pop_back();
-    if(seen.find(f) != seen.end()) continue;
-    seen.insert(f);
-    for(Halfedge he : f.adjacentHalfedges()) {
-      if(he.vertex()  == *this || he.next().vertex() ==*this) {
-        for(Face fn : he.edge().adjacentFaces()) {
-          if(seen.find(fn) == seen.end()) toProc.push_back(fn);
-        }
-      }
+    if(!seen.insert(he).second) continue;
+    // this vertex is the tail of he and the tip of the previous halfedge
+    for(Halfedge hn : he.edge().adjacentHalfedges()) {
+      toProc.push_back(hn.orientation() == he.orientation() ? hn : hn.next());
+    }
+    Halfedge hePrev = he.prevOrbitFace();
+    for(Halfedge hn : hePrev.edge().adjacentHalfedges()) {
+      toProc.push_back(hn.orientation() == hePrev.orientation() ? hn.next() : hn);
     }
   }
-  for (Face f : adjacentFaces()) { 
-    if(seen.find(f) == seen.end()) return false;
+  for (Halfedge he : outgoingHalfedges()) { 
+    if(seen.find(he) == seen.end()) return false;
   }
 
   return true;
-- 
2.43.0


From a799e434dd1822b4d18abb452104d9b9a426ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 29/30] fix: checkFinite reads the only row of a row vector

---
 include/geometrycentral/numerical/linear_algebra_utilities.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 984178a..5dc80a9 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -143,7 +143,7 @@ inline void checkFinite(const Eigen::Matrix<T, R, C>& m) {
 template <typename T, int C>
 inline void checkFinite(const Eigen::Matrix<T, 1, C>& m) {
   for (unsigned int j = 0; j < m.cols(); j++) {
-    if (!std::isfinite(m(1, j))) {
+    if (!std::isfinite(m(0, j))) {
       std::ostringstream msg;
       msg << "checkFinite() failure. Non-finite row vector entry [" << j << "] = " << m(j);
       // std::cerr << msg.str() << std::endl;
-- 
2.43.0


From 1d9d401abd92f1525e15ea620d295cdda3694e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 30/30] fix: unpackMatrixToStdVector keeps the scalar type of
 the matrix

---
 include/geometrycentral/numerical/linear_algebra_utilities.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 5dc80a9..0809abc 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -96,7 +96,7 @@ std::vector<std::vector<T>> unpackMatrixToStdVector(const DenseMatrix<T>& mat) {
   size_t M = static_cast<size_t>(mat.cols());
 
   // Copy to vector representation
-  std::vector<std::vector<size_t>> vectors(N);
+  std::vector<std::vector<T>> vectors(N);
   for (size_t i = 0; i < N; i++) {
     vectors[i].resize(M);
     for (size_t j = 0; j < M; j++) {
-- 
2.43.0

