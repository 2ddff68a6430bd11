From 5a813da5ca7c275962f6c3126a096bdc062ac262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 001/123] fix: genus() subtracted boundary loops which
 eulerCharacteristic() already counts as faces

---
 src/surface/manifold_surface_mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index a9cd376..a7e7a20 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -519,9 +519,9 @@ int ManifoldSurfaceMesh::eulerCharacteristic() const {
 }
 
 int ManifoldSurfaceMesh::genus() const {
+  // note: eulerCharacteristic() already counts each boundary loop as a face
   int chi = eulerCharacteristic();
-  int boundaryLoops = nBoundaryLoops();
-  return (2 - boundaryLoops - chi) / 2;
+  return (2 - chi) / 2;
 }
 
 
-- 
2.43.0


From ab72185059d351dc3cbe6e161142576a45fe20c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 002/123] fix: nConnectedComponents() relied on
 twin().vertex(), which is not the other endpoint on general meshes

---
 src/surface/surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 4d0bdeb..8870cd7 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -443,7 +443,7 @@ size_t SurfaceMesh::nConnectedComponents() {
   VertexData<size_t> vertInd = getVertexIndices();
   DisjointSets dj(nVertices());
   for (Edge e : edges()) {
-    dj.merge(vertInd[e.halfedge().vertex()], vertInd[e.halfedge().twin().vertex()]);
+    dj.merge(vertInd[e.firstVertex()], vertInd[e.secondVertex()]);
   }
   std::unordered_set<size_t> distinctComponents;
   for (size_t i = 0; i < nVertices(); i++) {
-- 
2.43.0


From 51a8a16dc021099a00617342ac2c688ad47755bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 003/123] fix: separateEdge() miscounted interior halfedges and
 assumed triangular faces

---
 src/surface/manifold_surface_mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index a7e7a20..db42f48 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -723,6 +723,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     Halfedge heN2 = heN1.twin();
     Edge eN = heN1.edge();
     BoundaryLoop blN = getNewBoundaryLoop();
+    nInteriorHalfedgesCount--; // heT becomes exterior
 
     // Hook up references
     heNextArr[heT.getIndex()] = heN2.getIndex();
@@ -762,6 +763,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     Halfedge heN2 = heN1.twin();
     Edge eN = heN1.edge();
     Vertex vN = getNewVertex();
+    nInteriorHalfedgesCount--; // heT becomes exterior
 
     // Hook up references
     heNextArr[heT.getIndex()] = heBN.getIndex();
@@ -775,7 +777,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     Halfedge heCurr = he;
     do { // set new outgoing halfedge from vN
       heVertexArr[heCurr.getIndex()] = vN.getIndex();
-      heCurr = heCurr.next().next().twin();
+      heCurr = heCurr.prevOrbitFace().twin();
     } while (heCurr != heBN);
     heVertexArr[heCurr.getIndex()] = vN.getIndex();
 
-- 
2.43.0


From a6e3b20cefa38622770b6d872d8675dd94af93d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 004/123] fix: removeFaceAlongBoundary() miscounted interior
 halfedges and broke faces with more than three sides

---
 src/surface/manifold_surface_mesh.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index db42f48..25f5986 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1358,14 +1358,19 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
     Face bLoop = heT.face();
 
 
-    // Opposite vertex must not be a bounary vertex or this creates a nonmanifold mesh (imagine hourglass)
-    if (heBPrev.vertex().isBoundary()) {
-      return false;
+    // Opposite vertices must not be bounary vertices or this creates a nonmanifold mesh (imagine hourglass)
+    std::vector<Vertex> oppVerts;
+    for (Halfedge he = heBNext.next(); he != heB; he = he.next()) {
+      if (he.vertex().isBoundary()) {
+        return false;
+      }
+      oppVerts.push_back(he.vertex());
     }
 
     // Update refs
     for (Halfedge he : f.adjacentHalfedges()) {
       heFaceArr[he.getIndex()] = bLoop.getIndex();
+      nInteriorHalfedgesCount--;
     }
 
     // Next refs
@@ -1374,7 +1379,9 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
 
     // Vertex halfedges
     vHalfedgeArr[heTNext.vertex().getIndex()] = heBPrev.twin().getIndex();
-    ensureVertexHasBoundaryHalfedge(heBPrev.vertex());
+    for (Vertex v : oppVerts) {
+      ensureVertexHasBoundaryHalfedge(v);
+    }
 
     fHalfedgeArr[bLoop.getIndex()] = heTNext.getIndex();
 
-- 
2.43.0


From 31043e2938a6b336c111786fc439c7c0d4713ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 005/123] fix: flip() with preventSelfEdges created a self edge
 when both opposite vertices are the same

---
 src/surface/surface_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 8870cd7..72e9a17 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -878,6 +878,8 @@ bool SurfaceMesh::flip(Edge eFlip, bool preventSelfEdges) {
   Vertex vd = hb3.vertex();
 
   if (preventSelfEdges) {
+    if (vc == vd) return false; // would be a self edge
+
     // If enabled, make sure it is not a duplicate
     for (Vertex v : vc.adjacentVertices()) {
       if (v == vd) return false;
-- 
2.43.0


From 11bb931bea8ede7c4ccaa283eb7aab496756bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 006/123] fix: insertVertexAlongEdge() corrupted the face when
 the edge starts at a degree-1 vertex

---
 src/surface/manifold_surface_mesh.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 25f5986..37dabc5 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -581,7 +581,11 @@ Halfedge ManifoldSurfaceMesh::insertVertexAlongEdge(Edge e) {
 
   // Fix pointers for old halfedges
   heNextArr[heBCenter.getIndex()] = heBNew.getIndex();
-  heNextArr[heAPrev.getIndex()] = heANew.getIndex();
+  if (heAPrev == heBCenter) {
+    heNextArr[heBNew.getIndex()] = heANew.getIndex(); // e dangles from the degree-1 vertex oldVBottom
+  } else {
+    heNextArr[heAPrev.getIndex()] = heANew.getIndex();
+  }
   heVertexArr[heACenter.getIndex()] = newV.getIndex();
 
   // Only set this if we broke it, to preseve boundary convention
-- 
2.43.0


From 16d33a329e2de401bfbe60afa4efc16b7eaaeb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 007/123] fix: collapseEdgeTriangular() on an ear deleted a
 vertex which is not on the given edge

---
 src/surface/manifold_surface_mesh.cpp | 31 +++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 37dabc5..fb38772 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1061,8 +1061,35 @@ Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
     // Gather some values
     Halfedge heA0 = e.halfedge();
     if (heA0.vertex().degree() == 2) {
-      heA0 = heA0.next().next();
-      e = heA0.edge();
+      // The tail vertex is the tip of an ear: the collapse removes the ear, and its last edge becomes the boundary
+      Halfedge heA1 = heA0.next();
+      Halfedge heA2 = heA1.next();
+      Halfedge heB0 = heA0.twin();
+      Halfedge heC2 = heA2.twin();
+      if (!heA1.twin().isInterior()) return Vertex(); // isolated triangle
+
+      Vertex vA = heA0.vertex();
+      Vertex vB = heA1.vertex();
+      Vertex vC = heA2.vertex();
+      Face fA = heA0.face();
+      Face fB = heB0.face(); // boundary loop
+      Halfedge heB0prev = heB0.prevOrbitVertex();
+      Halfedge heC2next = heC2.next();
+
+      heNextArr[heB0prev.getIndex()] = heA1.getIndex();
+      heNextArr[heA1.getIndex()] = heC2next.getIndex();
+      heFaceArr[heA1.getIndex()] = fB.getIndex();
+      nInteriorHalfedgesCount--; // heA1 becomes exterior
+      fHalfedgeArr[fB.getIndex()] = heA1.getIndex();
+      vHalfedgeArr[vC.getIndex()] = heA1.twin().getIndex();
+
+      deleteEdgeBundle(e);
+      deleteEdgeBundle(heA2.edge());
+      deleteElement(vA);
+      deleteElement(fA);
+
+      ensureEdgeHasInteriorHalfedge(heA1.edge());
+      return vB;
     }
 
     // check if edge is part of a 'pinch' triangle
-- 
2.43.0


From b6e8747158ef59f186daec6e011cb3cd71aa4011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 008/123] fix: removeVertex() could leave a face with a single
 side

---
 src/surface/manifold_surface_mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index fb38772..a7e4c07 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1624,6 +1624,9 @@ Face ManifoldSurfaceMesh::removeVertex(Vertex v) {
     std::reverse(ringHalfedges.begin() + iStart, ringHalfedges.begin() + iEnd);
   }
 
+  // The remaining face must have at least two sides
+  if (ringHalfedges.size() < 2) return Face();
+
   Face keepFace = toRemove[0].face();
 
   { // Hook up next for the halfedges along the ring
-- 
2.43.0


From 7664385520575c1f45422afa506a97f219ee23b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 009/123] fix: isManifoldAndOriented() for boundary vertices of
 a general mesh

The orbit was walked with twin().next(), which does not work at a boundary
edge of a general mesh (its halfedge is its own sibling).
---
 .../surface/halfedge_element_types.ipp        | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/include/geometrycentral/surface/halfedge_element_types.ipp b/include/geometrycentral/surface/halfedge_element_types.ipp
index cea15c1..9427483 100644
--- a/include/geometrycentral/surface/halfedge_element_types.ipp
+++ b/include/geometrycentral/surface/halfedge_element_types.ipp
@@ -46,21 +46,12 @@ inline bool Vertex::isBoundary() const {
   }
 }
 inline bool Vertex::isManifoldAndOriented() const {
-  // TODO this routine is actually pretty nontrivial, it probably deserves some more thought
-  // strategy: bootstrap off of the adjacency iterator, which already has functionality for nonmanifold vertices
   if(mesh->usesImplicitTwin()) return true;
-  size_t d = degree(); 
-  size_t kManif = 0; 
-  Halfedge firstHe = halfedge();
-  Halfedge currHe = firstHe;
-  do {
-    kManif++;
-    currHe = currHe.twin().next();
-    if(currHe.vertex() != *this) return false;
-    if(kManif > d) return false;
-  } while(currHe != firstHe);
-
-  return kManif == d;
+  if(!isManifold()) return false;
+  for(Edge e : adjacentEdges()) {
+    if(!e.isOriented()) return false;
+  }
+  return true;
 }
 inline bool Vertex::isManifold() const { 
   if(mesh->usesImplicitTwin()) return true;
-- 
2.43.0


From 95502616e03dcbae2aa6efb53e5d1d8d801c3716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:41 +0000
Subject: [PATCH 010/123] fix: duplicateFace() counts its halfedges as interior

---
 src/surface/surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 72e9a17..02f0f1c 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -812,7 +812,7 @@ Face SurfaceMesh::duplicateFace(Face f) {
   bool first = true;
   Halfedge prevNewHe, firstNewHe;
   for (Halfedge oldHe : f.adjacentHalfedges()) {
-    Halfedge newHe = getNewHalfedge(false);
+    Halfedge newHe = getNewHalfedge(true);
 
     if (first) {
       fHalfedgeArr[newFace.getIndex()] = newHe.getIndex();
-- 
2.43.0


From 3cc21ace3846b4ce7990961b901b156d9d7d2af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 011/123] fix: a moved-from MeshData no longer receives mesh
 callbacks

Compressing the mesh while a moved-from container was still alive read
outside of its (empty or foreign) buffer.
---
 include/geometrycentral/utilities/mesh_data.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 8b60ebd..0745756 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -48,6 +48,7 @@ template <typename E, typename T>
 MeshData<E, T>::MeshData(MeshData<E, T>&& other) noexcept
     : mesh(other.mesh), defaultValue(other.defaultValue), data(std::move(other.data)) {
   registerWithMesh();
+  other.clear(); // the moved-from container no longer holds data, so it must not receive callbacks
 }
 
 
@@ -64,11 +65,13 @@ MeshData<E, T>& MeshData<E, T>::operator=(const MeshData<E, T>& other) {
 
 template <typename E, typename T>
 MeshData<E, T>& MeshData<E, T>::operator=(MeshData<E, T>&& other) noexcept {
+  if (this == &other) return *this;
   deregisterWithMesh();
   mesh = other.mesh;
   defaultValue = other.defaultValue;
   data = std::move(other.data);
   registerWithMesh();
+  other.clear(); // the moved-from container no longer holds data, so it must not receive callbacks
 
   return *this;
 }
-- 
2.43.0


From a543eb11ea921d4f102287c7d4101690706443fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 012/123] fix: MeshData arithmetic operates on the elements,
 not on the raw buffers

The raw buffers of two containers may differ in size, and hold unused slots:
arithmetic read or wrote out of bounds, divided by unused entries, and changed
the value which elements created later receive.
---
 include/geometrycentral/utilities/mesh_data.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/geometrycentral/utilities/mesh_data.h b/include/geometrycentral/utilities/mesh_data.h
index 70a7555..b2aa53f 100644
--- a/include/geometrycentral/utilities/mesh_data.h
+++ b/include/geometrycentral/utilities/mesh_data.h
@@ -134,7 +134,7 @@ void checkMeshValid(const MeshData<E, T>& val);
   MeshData<E, decltype(OP std::declval<T>())> operator OP(const MeshData<E, T>& lhs) {                                 \
     checkMeshValid(lhs);                                                                                               \
     MeshData<E, decltype(OP std::declval<T>())> result(*lhs.getMesh());                                                \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) result.raw()[i] = OP lhs.raw()[i];                             \
+    for (E e : iterateElements<E>(lhs.getMesh())) result[e] = OP lhs[e];                                               \
     return result;                                                                                                     \
   }
 
@@ -145,21 +145,21 @@ void checkMeshValid(const MeshData<E, T>& val);
                                                                             const MeshData<E, U>& rhs) {               \
     checkMeshCompatible(lhs, rhs);                                                                                     \
     MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> result(*lhs.getMesh());                              \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) result.raw()[i] = lhs.raw()[i] OP rhs.raw()[i];                \
+    for (E e : iterateElements<E>(lhs.getMesh())) result[e] = lhs[e] OP rhs[e];                                        \
     return result;                                                                                                     \
   }                                                                                                                    \
   template <typename E, typename T, typename U>                                                                        \
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> operator OP(const MeshData<E, T>& lhs, const U& rhs) { \
     checkMeshValid(lhs);                                                                                               \
     MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> result(*lhs.getMesh());                              \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) result.raw()[i] = lhs.raw()[i] OP rhs;                         \
+    for (E e : iterateElements<E>(lhs.getMesh())) result[e] = lhs[e] OP rhs;                                           \
     return result;                                                                                                     \
   }                                                                                                                    \
   template <typename E, typename T, typename U>                                                                        \
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> operator OP(const T& lhs, const MeshData<E, U>& rhs) { \
     checkMeshValid(rhs);                                                                                               \
     MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> result(*rhs.getMesh());                              \
-    for (Eigen::Index i = 0; i < rhs.raw().rows(); i++) result.raw()[i] = lhs OP rhs.raw()[i];                         \
+    for (E e : iterateElements<E>(rhs.getMesh())) result[e] = lhs OP rhs[e];                                           \
     return result;                                                                                                     \
   }
 
@@ -170,13 +170,13 @@ void checkMeshValid(const MeshData<E, T>& val);
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())>& operator OP##=(MeshData<E, T>& lhs,                   \
                                                                                 const MeshData<E, U>& rhs) {           \
     checkMeshCompatible(lhs, rhs);                                                                                     \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) lhs.raw()[i] OP## = rhs.raw()[i];                              \
+    for (E e : iterateElements<E>(lhs.getMesh())) lhs[e] OP## = rhs[e];                                                \
     return lhs;                                                                                                        \
   }                                                                                                                    \
   template <typename E, typename T, typename U>                                                                        \
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())>& operator OP##=(MeshData<E, T>& lhs, const U& rhs) {   \
     checkMeshValid(lhs);                                                                                               \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) lhs.raw()[i] OP## = rhs;                                       \
+    for (E e : iterateElements<E>(lhs.getMesh())) lhs[e] OP## = rhs;                                                   \
     return lhs;                                                                                                        \
   }
 
-- 
2.43.0


From 0cb563cbb3880d80eb6052df2c524caf32ac838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 013/123] fix: MeshData::setDefault() when there are no
 elements yet

---
 include/geometrycentral/utilities/mesh_data.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 0745756..a435530 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -274,11 +274,11 @@ inline void MeshData<E, T>::setDefault(T newDefault) {
   // TODO this is pretty sloppy, and probably indicates a flaw in the design of this class... The default should
   // probably just be const instead.
   // TODO could avoid this (and some things in fill()) with an element_fill<E>() template
-  size_t maxInd = 0;
+  size_t nUsed = 0;
   for (E e : iterateElements<E>(mesh)) {
-    maxInd = std::max(maxInd, e.getIndex());
+    nUsed = std::max(nUsed, e.getIndex() + 1);
   }
-  for (size_t i = maxInd + 1; i < (size_t)data.size(); i++) {
+  for (size_t i = nUsed; i < (size_t)data.size(); i++) {
     data[i] = defaultValue;
   }
 }
-- 
2.43.0


From 3174ecc0ad53d024fe12b428ee9df364dfc35b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 014/123] fix: boundary loop data was reversed by compress()

---
 src/surface/surface_mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 02f0f1c..d0b4333 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1877,6 +1877,9 @@ void SurfaceMesh::compressFaces() {
   }
 
 
+  // Boundary loops are indexed from the end of the face array, so they were visited in reverse order
+  std::reverse(newBLIndMap.begin(), newBLIndMap.end());
+
   // Permute & resize all per-face arrays
   fHalfedgeArr = applyPermutation(fHalfedgeArr, newIndMap);
 
-- 
2.43.0


From 2f746fba7b95fb1d6ee44536a762751858198dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:53 +0000
Subject: [PATCH 015/123] fix: polygon gradient points downhill (sign of the
 per-face gradient)

---
 src/surface/embedded_geometry_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index a32035b..e94c56a 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -882,7 +882,7 @@ Eigen::MatrixXd EmbeddedGeometryInterface::polygonPerFaceGradientMatrix(const Fa
   double A = faceAreas[f];
   Vector3 n = faceNormals[f];
   Eigen::Vector3d N = {n[0], n[1], n[2]};
-  return 1. / A * bracket(N) * polygonCoGradientMatrix(f);
+  return -1. / A * bracket(N) * polygonCoGradientMatrix(f);
 }
 
 Eigen::MatrixXd EmbeddedGeometryInterface::polygonCoGradientMatrix(const Face& f) {
-- 
2.43.0


From d7d748a8a508438f0fa01b54e77c966c73ce00cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:53 +0000
Subject: [PATCH 016/123] fix: DEC d1 has wrong signs at nonmanifold or
 inconsistently oriented edges

---
 src/surface/intrinsic_geometry_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/intrinsic_geometry_interface.cpp b/src/surface/intrinsic_geometry_interface.cpp
index a4bc788..48c8548 100644
--- a/src/surface/intrinsic_geometry_interface.cpp
+++ b/src/surface/intrinsic_geometry_interface.cpp
@@ -762,7 +762,7 @@ void IntrinsicGeometryInterface::computeDECOperators() {
 
       for (Halfedge he : f.adjacentHalfedges()) {
         size_t iEdge = edgeIndices[he.edge()];
-        double sign = (he == he.edge().halfedge()) ? (1.0) : (-1.0);
+        double sign = (he.orientation() == he.edge().halfedge().orientation()) ? (1.0) : (-1.0);
         tripletList.emplace_back(iFace, iEdge, sign);
       }
     }
-- 
2.43.0


From d458b06ac9026ed070009bed021b465e292b707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:13 +0000
Subject: [PATCH 017/123] fix: face normals of polygons with five or more sides
 are the vector area

---
 .../surface/vertex_position_geometry.ipp      | 20 +++++--------------
 src/surface/embedded_geometry_interface.cpp   | 20 +++++--------------
 2 files changed, 10 insertions(+), 30 deletions(-)

diff --git a/include/geometrycentral/surface/vertex_position_geometry.ipp b/include/geometrycentral/surface/vertex_position_geometry.ipp
index 6e8d94a..e200b5f 100644
--- a/include/geometrycentral/surface/vertex_position_geometry.ipp
+++ b/include/geometrycentral/surface/vertex_position_geometry.ipp
@@ -103,23 +103,13 @@ inline double VertexPositionGeometry::edgeCotanWeight(Edge e) const {
 
 // Face normal
 inline Vector3 VertexPositionGeometry::faceNormal(Face f) const {
-  // For general polygons, take the sum of the cross products at each corner
+  // For general polygons, take the vector area (computed relative to a vertex of the face for accuracy)
   Vector3 normalSum = Vector3::zero();
-  for (Halfedge heF : f.adjacentHalfedges()) {
-
-    // Gather vertex positions for next three vertices
-    Halfedge he = heF;
+  Vector3 pRoot = vertexPositions[f.halfedge().vertex()];
+  for (Halfedge he : f.adjacentHalfedges()) {
     Vector3 pA = vertexPositions[he.vertex()];
-    he = he.next();
-    Vector3 pB = vertexPositions[he.vertex()];
-    he = he.next();
-    Vector3 pC = vertexPositions[he.vertex()];
-
-    normalSum += cross(pB - pA, pC - pA);
-
-    // In the special case of a triangle, there is no need to to repeat at all three corners; the result will be the
-    // same
-    if (he.next() == heF) break;
+    Vector3 pB = vertexPositions[he.next().vertex()];
+    normalSum += cross(pA - pRoot, pB - pRoot);
   }
 
   Vector3 normal = unit(normalSum);
diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index e94c56a..a44d80c 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -84,23 +84,13 @@ void EmbeddedGeometryInterface::computeFaceNormals() {
 
   for (Face f : mesh.faces()) {
 
-    // For general polygons, take the sum of the cross products at each corner
+    // For general polygons, take the vector area (computed relative to a vertex of the face for accuracy)
     Vector3 normalSum = Vector3::zero();
-    for (Halfedge heF : f.adjacentHalfedges()) {
-
-      // Gather vertex positions for next three vertices
-      Halfedge he = heF;
+    Vector3 pRoot = vertexPositions[f.halfedge().vertex()];
+    for (Halfedge he : f.adjacentHalfedges()) {
       Vector3 pA = vertexPositions[he.vertex()];
-      he = he.next();
-      Vector3 pB = vertexPositions[he.vertex()];
-      he = he.next();
-      Vector3 pC = vertexPositions[he.vertex()];
-
-      normalSum += cross(pB - pA, pC - pA);
-
-      // In the special case of a triangle, there is no need to to repeat at all three corners; the result will be the
-      // same
-      if (he.next() == heF) break;
+      Vector3 pB = vertexPositions[he.next().vertex()];
+      normalSum += cross(pA - pRoot, pB - pRoot);
     }
 
     Vector3 normal = unit(normalSum);
-- 
2.43.0


From a83549e79faf23b67cae7ccd718e1c96c6b29846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:13 +0000
Subject: [PATCH 018/123] fix: immediate mean curvature normal misses boundary
 edges of general meshes

---
 .../geometrycentral/surface/vertex_position_geometry.ipp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/vertex_position_geometry.ipp b/include/geometrycentral/surface/vertex_position_geometry.ipp
index e200b5f..8027bea 100644
--- a/include/geometrycentral/surface/vertex_position_geometry.ipp
+++ b/include/geometrycentral/surface/vertex_position_geometry.ipp
@@ -193,9 +193,9 @@ inline double VertexPositionGeometry::vertexPrincipalCurvature(int whichCurvatur
 inline Vector3 VertexPositionGeometry::vertexDualMeanCurvatureNormal(Vertex v) const {
   // WARNING: Logic duplicated between cached and immediate version
   Vector3 hN = Vector3::zero();
-  for (Halfedge he : v.outgoingHalfedges()) {
-    double w = edgeCotanWeight(he.edge());
-    hN += w * (vertexPositions[v] - vertexPositions[he.tipVertex()]) / 2.;
+  for (Edge e : v.adjacentEdges()) {
+    double w = edgeCotanWeight(e);
+    hN += w * (vertexPositions[v] - vertexPositions[e.otherVertex(v)]) / 2.;
   }
   return hN;
 }
-- 
2.43.0


From 79ba7151a249e7d22818f1bc9241cea5050c6b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:13 +0000
Subject: [PATCH 019/123] fix: simple polygon Laplacian drops triangles of
 small meshes

---
 src/surface/embedded_geometry_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index a44d80c..8e93cee 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -506,7 +506,7 @@ Eigen::MatrixXd EmbeddedGeometryInterface::simplePolygonStiffnessMatrix(const Fa
     const double arg =
         (l[0] + (l[1] + l[2])) * (l[2] - (l[0] - l[1])) * (l[2] + (l[0] - l[1])) * (l[0] + (l[1] - l[2]));
     const double area = 0.5 * std::sqrt(arg);
-    if (area > 1e-7) {
+    if (area > 1e-7 * (l2[0] + l2[1] + l2[2])) { // relative test: the stiffness matrix does not depend on scale
       l[0] = 0.25 * (l2[1] + l2[2] - l2[0]) / area;
       l[1] = 0.25 * (l2[2] + l2[0] - l2[1]) / area;
       l[2] = 0.25 * (l2[0] + l2[1] - l2[2]) / area;
-- 
2.43.0


From 6ca38b6d828ce4ad1f0cf1443150150fd062d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:57 +0000
Subject: [PATCH 020/123] fix: virtual vertex weights of polygons depend on
 position and scale of the mesh

---
 src/surface/polygon_mesh_helpers.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/surface/polygon_mesh_helpers.cpp b/src/surface/polygon_mesh_helpers.cpp
index 682ffb8..816af51 100644
--- a/src/surface/polygon_mesh_helpers.cpp
+++ b/src/surface/polygon_mesh_helpers.cpp
@@ -8,13 +8,18 @@ namespace surface {
 // (Modified to work in geometry-central. Original code can be found here:
 // https://github.com/mbotsch/polygon-laplacian)
 
-Eigen::VectorXd simplePolygonVirtualVertex(const Eigen::MatrixXd& poly) {
+Eigen::VectorXd simplePolygonVirtualVertex(const Eigen::MatrixXd& polyPositions) {
 
   // Given a polygon face, computes the affine weights that determine the position of the virtual vertex that minimizes
   // the sum of the squared areas of the triangles in the induced triangle fan. While the location of this vertex (the
   // minimizer) is unique, its expression as an affine combination of the polygon verties may not be -- regularize by
   // picking the weights with minimum L_2 norm, which encourages the weights to be as uniform as possible.
 
+  // The weights do not depend on position and scale, but the conditioning of the system below does.
+  Eigen::MatrixXd poly = polyPositions.rowwise() - polyPositions.colwise().mean();
+  double scale = poly.rowwise().norm().maxCoeff();
+  if (scale > 0.) poly /= scale;
+
   int n = poly.rows();
   Eigen::VectorXd weights(n);
   Eigen::MatrixXd J(n, n);
-- 
2.43.0


From d04f8832332db697540c5172ac66f6e0f62395d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:57 +0000
Subject: [PATCH 021/123] fix: tangent bases and polygon connection Laplacian
 fail on manifold polygon meshes

---
 src/surface/embedded_geometry_interface.cpp  | 12 ++++++++++++
 src/surface/intrinsic_geometry_interface.cpp |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index 8e93cee..1ca19e2 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -139,6 +139,18 @@ void EmbeddedGeometryInterface::computeFaceTangentBasis() {
     return;
   }
 
+  if (!mesh.isTriangular()) {
+    // The intrinsic face tangent space is only available for triangles, align with f.halfedge()
+    for (Face f : mesh.faces()) {
+      Vector3 N = faceNormals[f];
+      Vector3 eVec = vertexPositions[f.halfedge().next().vertex()] - vertexPositions[f.halfedge().vertex()];
+      Vector3 basisX = unit(eVec.removeComponent(N));
+      Vector3 basisY = cross(N, basisX);
+      faceTangentBasis[f] = {{basisX, basisY}};
+    }
+    return;
+  }
+
   halfedgeVectorsInFaceQ.ensureHave();
 
   for (Face f : mesh.faces()) {
diff --git a/src/surface/intrinsic_geometry_interface.cpp b/src/surface/intrinsic_geometry_interface.cpp
index 48c8548..7f93980 100644
--- a/src/surface/intrinsic_geometry_interface.cpp
+++ b/src/surface/intrinsic_geometry_interface.cpp
@@ -385,7 +385,7 @@ void IntrinsicGeometryInterface::computeHalfedgeVectorsInVertex() {
       halfedgeVectorsInVertex[currHe] = Vector2::fromAngle(coordSum) * edgeLengths[currHe.edge()];
       coordSum += cornerScaledAngles[currHe.corner()];
       if (!currHe.isInterior()) break;
-      currHe = currHe.next().next().twin();
+      currHe = currHe.prevOrbitFace().twin();
     } while (currHe != firstHe);
   }
 }
-- 
2.43.0


From 7d8d9f50f501609a558ee9bff513301331a5349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:24 +0000
Subject: [PATCH 022/123] fix: surplus unrequire() leaves a negative
 requirement count behind

---
 include/geometrycentral/utilities/dependent_quantity.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/dependent_quantity.ipp b/include/geometrycentral/utilities/dependent_quantity.ipp
index eca0e20..11b3713 100644
--- a/include/geometrycentral/utilities/dependent_quantity.ipp
+++ b/include/geometrycentral/utilities/dependent_quantity.ipp
@@ -28,8 +28,8 @@ inline void DependentQuantity::unrequire() {
   requireCount--;
 
   if (requireCount < 0) {
-    throw std::logic_error("Quantity was unrequire()'d more than than it was require()'d");
     requireCount = 0;
+    throw std::logic_error("Quantity was unrequire()'d more than than it was require()'d");
   }
 }
 
-- 
2.43.0


From 3d2861384fe58329f930772611fe35a4849b5c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:50 +0000
Subject: [PATCH 023/123] fix: checkFinite(row vector) reads outside of the
 vector

---
 include/geometrycentral/numerical/linear_algebra_utilities.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 984178a..4cec3f9 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -143,7 +143,7 @@ inline void checkFinite(const Eigen::Matrix<T, R, C>& m) {
 template <typename T, int C>
 inline void checkFinite(const Eigen::Matrix<T, 1, C>& m) {
   for (unsigned int j = 0; j < m.cols(); j++) {
-    if (!std::isfinite(m(1, j))) {
+    if (!isfinite(m(j))) {
       std::ostringstream msg;
       msg << "checkFinite() failure. Non-finite row vector entry [" << j << "] = " << m(j);
       // std::cerr << msg.str() << std::endl;
-- 
2.43.0


From b8ced2763e2b069d6cae53cdd4c24c92d7c050d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:50 +0000
Subject: [PATCH 024/123] fix: unpackMatrixToStdVector only compiles for size_t

---
 include/geometrycentral/numerical/linear_algebra_utilities.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 4cec3f9..b59da30 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -96,7 +96,7 @@ std::vector<std::vector<T>> unpackMatrixToStdVector(const DenseMatrix<T>& mat) {
   size_t M = static_cast<size_t>(mat.cols());
 
   // Copy to vector representation
-  std::vector<std::vector<size_t>> vectors(N);
+  std::vector<std::vector<T>> vectors(N);
   for (size_t i = 0; i < N; i++) {
     vectors[i].resize(M);
     for (size_t j = 0; j < M; j++) {
-- 
2.43.0


From 687bf134ba96bb052079f2b94818badb887464e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:50 +0000
Subject: [PATCH 025/123] fix: malformed matrix files are read out of bounds or
 leave entries uninitialized

---
 .../numerical/linear_algebra_utilities.ipp     | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index b59da30..f124674 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -466,13 +466,13 @@ SparseMatrix<T> loadSparseMatrix(std::istream& in) {
     ss >> token;
     if (token == "#") {
       // Parse comment of the form (# sparse rows cols)
-      ss >> token >> rows >> cols;
+      if (!(ss >> token >> rows >> cols) || rows < 0 || cols < 0) throw std::runtime_error("failed to parse matrix");
     } else {
       // Read triplet
-      int iRow = std::stoi(token);
-      int iCol;
+      std::stringstream entry(line);
+      int iRow, iCol;
       T val;
-      ss >> iCol >> val;
+      if (!(entry >> iRow >> iCol >> val) || iRow < 1 || iCol < 1) throw std::runtime_error("failed to parse matrix");
       // Shift from 1-indexed to 0-indexed
       iRow -= 1;
       iCol -= 1;
@@ -482,7 +482,7 @@ SparseMatrix<T> loadSparseMatrix(std::istream& in) {
     }
   }
 
-  if (cols > 0 && (maxCol >= cols || maxRow >= rows)) {
+  if (cols >= 0 && (maxCol >= cols || maxRow >= rows)) {
     std::cout << "Error: stated cols (" << cols << ") and rows (" << rows << ") are insufficient to fit all entries."
               << std::endl;
     std::cout << "       triplets are present with iRow=" << maxRow << " or iCol=" << maxCol << std::endl;
@@ -522,9 +522,9 @@ DenseMatrix<T> loadDenseMatrix(std::istream& in) {
   getline(in, line);
   std::stringstream ss(line);
   std::string token, matrixType;
-  int rows, cols;
+  int rows = -1, cols = -1;
   ss >> token >> matrixType >> rows >> cols;
-  if (token != "#" || matrixType != "dense" || rows < 0 || cols < 0) {
+  if (!ss || token != "#" || matrixType != "dense" || rows < 0 || cols < 0) {
     std::cout << "Error: first line of file must be of the form # dense cols rows." << std::endl;
     std::cout << "       instead, it was " << line << std::endl;
     throw std::runtime_error("failed to parse matrix");
@@ -538,12 +538,14 @@ DenseMatrix<T> loadDenseMatrix(std::istream& in) {
     std::stringstream ss(line);
     // Read entries
     T val;
+    if (iRow >= rows) throw std::runtime_error("failed to parse matrix");
     for (int iCol = 0; iCol < cols; iCol++) {
-      ss >> val;
+      if (!(ss >> val)) throw std::runtime_error("failed to parse matrix");
       M(iRow, iCol) = val;
     }
     iRow++;
   }
+  if (iRow != rows) throw std::runtime_error("failed to parse matrix");
 
   return M;
 }
-- 
2.43.0


From aa86e9f114871cb2867257dbcd5feaf8113bd409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 026/123] fix: SquareSolver gives a wrong solution when solving
 in place

---
 src/numerical/square_solvers.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/numerical/square_solvers.cpp b/src/numerical/square_solvers.cpp
index 6ecde6c..8578bb7 100644
--- a/src/numerical/square_solvers.cpp
+++ b/src/numerical/square_solvers.cpp
@@ -90,22 +90,24 @@ void umfSolve<float>(size_t N, cholmod_sparse* mat, void* numericFac, Vector<flo
 }
 template <>
 void umfSolve<double>(size_t N, cholmod_sparse* mat, void* numericFac, Vector<double>& x, const Vector<double>& rhs) {
-  x = Vector<double>(N);
+  Vector<double> sol(N); // x might be the same object as rhs
   SuiteSparse_long* cMat_p = (SuiteSparse_long*)mat->p;
   SuiteSparse_long* cMat_i = (SuiteSparse_long*)mat->i;
   double* cMat_x = (double*)mat->x;
-  umfpack_dl_solve(UMFPACK_A, cMat_p, cMat_i, cMat_x, &(x[0]), &(rhs[0]), numericFac, NULL, NULL);
+  umfpack_dl_solve(UMFPACK_A, cMat_p, cMat_i, cMat_x, &(sol[0]), &(rhs[0]), numericFac, NULL, NULL);
+  x = sol;
 }
 template <>
 void umfSolve<std::complex<double>>(size_t N, cholmod_sparse* mat, void* numericFac, Vector<std::complex<double>>& x,
                                     const Vector<std::complex<double>>& rhs) {
   // Note: the ordering of std::complex is specified by the standard, so this certainly works
-  x = Vector<std::complex<double>>(N);
+  Vector<std::complex<double>> sol(N); // x might be the same object as rhs
   SuiteSparse_long* cMat_p = (SuiteSparse_long*)mat->p;
   SuiteSparse_long* cMat_i = (SuiteSparse_long*)mat->i;
   double* cMat_x = (double*)mat->x;
-  umfpack_zl_solve(UMFPACK_A, cMat_p, cMat_i, cMat_x, NULL, (double*)&(x[0]), NULL, (double*)&(rhs[0]), NULL,
+  umfpack_zl_solve(UMFPACK_A, cMat_p, cMat_i, cMat_x, NULL, (double*)&(sol[0]), NULL, (double*)&(rhs[0]), NULL,
                    numericFac, NULL, NULL);
+  x = sol;
 }
 
 #endif
-- 
2.43.0


From b0aabc4ad9f5d01031acb2ad075f1762f0775be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 027/123] fix: smallestKEigenvectorsPositiveDefiniteTol may
 never terminate

---
 src/numerical/eigenproblem_solvers.cpp | 41 +++++++++++++-------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/numerical/eigenproblem_solvers.cpp b/src/numerical/eigenproblem_solvers.cpp
index 567a56e..6a0b33a 100644
--- a/src/numerical/eigenproblem_solvers.cpp
+++ b/src/numerical/eigenproblem_solvers.cpp
@@ -96,36 +96,35 @@ std::vector<Vector<T>> smallestKEigenvectorsPositiveDefiniteTol(SparseMatrix<T>&
                                                                 SparseMatrix<T>& massMatrix, size_t kEigenvalues,
                                                                 double tol) {
 
-  std::vector<Vector<T>> res;
-
   size_t N = energyMatrix.rows();
   PositiveDefiniteSolver<T> solver(energyMatrix);
 
-  auto projectOutPreviousVectors = [&](Vector<T>& x) {
-    for (Vector<T>& v : res) {
-      T proj = ((v.dot(massMatrix * x)));
-      x -= proj * v;
-    }
-  };
-
+  std::vector<Vector<T>> res;
   for (size_t kEig = 0; kEig < kEigenvalues; kEig++) {
-    Vector<T> u = Vector<T>::Random(N);
-    projectOutPreviousVectors(u);
-    Vector<T> x = u;
-    double residual = eigenvectorResidual(energyMatrix, massMatrix, x);
-    while (residual > tol) {
-      // Solve
-      solver.solve(x, massMatrix * u);
+    res.push_back(Vector<T>::Random(N));
+  }
 
-      projectOutPreviousVectors(x);
+  // Iterate all vectors together. (If each one was only iterated until its own residual is below the tolerance, the
+  // remaining error would bound the residual of all later ones from below, and they might never get there.)
+  bool converged = false;
+  while (!converged) {
+    converged = true;
+    for (size_t kEig = 0; kEig < kEigenvalues; kEig++) {
+      // Solve
+      Vector<T> x;
+      solver.solve(x, massMatrix * res[kEig]);
+
+      // Project out previous vectors
+      for (size_t j = 0; j < kEig; j++) {
+        T proj = res[j].dot(massMatrix * x);
+        x -= proj * res[j];
+      }
       normalize(x, massMatrix);
 
       // Update
-      u = x;
-      residual = eigenvectorResidual(energyMatrix, massMatrix, x);
+      res[kEig] = x;
+      if (eigenvectorResidual(energyMatrix, massMatrix, x) > tol) converged = false;
     }
-
-    res.push_back(x);
   }
 
   return res;
-- 
2.43.0


From f7247c0d93ef8379bfa3b6a77c009fe72fb4a98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 028/123] fix: SurfacePoint::inEdge swaps the two end points of
 the edge

---
 include/geometrycentral/surface/surface_point.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/geometrycentral/surface/surface_point.ipp b/include/geometrycentral/surface/surface_point.ipp
index 3c4f0b0..63a55c9 100644
--- a/include/geometrycentral/surface/surface_point.ipp
+++ b/include/geometrycentral/surface/surface_point.ipp
@@ -151,9 +151,9 @@ inline SurfacePoint SurfacePoint::inEdge(Edge targetEdge) const {
   switch (type) {
   case SurfacePointType::Vertex:
     if (vertex == targetEdge.halfedge().tailVertex()) {
-      return SurfacePoint(targetEdge, 1);
-    } else if (vertex == targetEdge.halfedge().tipVertex()) {
       return SurfacePoint(targetEdge, 0);
+    } else if (vertex == targetEdge.halfedge().tipVertex()) {
+      return SurfacePoint(targetEdge, 1);
     }
     break;
   case SurfacePointType::Edge:
-- 
2.43.0


From 670464eefb59e5e4050c931a523c55e6be549795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 029/123] fix: unsigned underflow when splitting an interior
 edge with normal coordinates

---
 src/surface/normal_coordinates.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index adc4ffa..1f304ae 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -205,15 +205,15 @@ std::array<int, 4> NormalCoordinates::computeInteriorEdgeSplitDataGeodesic(Intri
     Corner cl = e.halfedge().twin().next().next().corner();
 
     int n1 = 0;
-    n1 += positivePart(strictCornerCoord(e.halfedge().twin().corner()) - positivePart(n2));
-    n1 += positivePart(strictCornerCoord(e.halfedge().twin().next().corner()) - positivePart(n4));
+    n1 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().twin().corner())) - positivePart(n2));
+    n1 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().twin().next().corner())) - positivePart(n4));
     n1 += strictCornerCoord(cl);
     n1 += strictDegree(e.halfedge().twin().corner());
     n1 += strictDegree(e.halfedge().twin().next().corner());
 
     int n3 = 0;
-    n3 += positivePart(strictCornerCoord(e.halfedge().next().corner()) - positivePart(n2));
-    n3 += positivePart(strictCornerCoord(e.halfedge().corner()) - positivePart(n4));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().next().corner())) - positivePart(n2));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().corner())) - positivePart(n4));
     n3 += strictCornerCoord(ck);
     n3 += strictDegree(e.halfedge().corner());
     n3 += strictDegree(e.halfedge().next().corner());
@@ -243,15 +243,15 @@ std::array<int, 4> NormalCoordinates::computeInteriorEdgeSplitDataCombinatorial(
     Corner cl = e.halfedge().twin().next().next().corner();
 
     int n1 = 0;
-    n1 += positivePart(strictCornerCoord(e.halfedge().twin().corner()) - positivePart(n2));
-    n1 += positivePart(strictCornerCoord(e.halfedge().twin().next().corner()) - positivePart(n4));
+    n1 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().twin().corner())) - positivePart(n2));
+    n1 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().twin().next().corner())) - positivePart(n4));
     n1 += strictCornerCoord(cl);
     n1 += strictDegree(e.halfedge().twin().corner());
     n1 += strictDegree(e.halfedge().twin().next().corner());
 
     int n3 = 0;
-    n3 += positivePart(strictCornerCoord(e.halfedge().next().corner()) - positivePart(n2));
-    n3 += positivePart(strictCornerCoord(e.halfedge().corner()) - positivePart(n4));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().next().corner())) - positivePart(n2));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(e.halfedge().corner())) - positivePart(n4));
     n3 += strictCornerCoord(ck);
     n3 += strictDegree(e.halfedge().corner());
     n3 += strictDegree(e.halfedge().next().corner());
@@ -310,8 +310,8 @@ std::array<int, 3> NormalCoordinates::computeBoundaryEdgeSplitDataGeodesic(Intri
     Corner ck = heI.next().next().corner();
 
     int n3 = 0;
-    n3 += positivePart(strictCornerCoord(heI.next().corner()) - positivePart(n2));
-    n3 += positivePart(strictCornerCoord(heI.corner()) - positivePart(n4));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(heI.next().corner())) - positivePart(n2));
+    n3 += positivePart(static_cast<int>(strictCornerCoord(heI.corner())) - positivePart(n4));
     n3 += strictCornerCoord(ck);
     n3 += strictDegree(heI.corner());
     n3 += strictDegree(heI.next().corner());
-- 
2.43.0


From 3ab7bdb663b049f6c93148591f72e74987aec569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 030/123] fix: removeInsertedVertex uses a null face when the
 mesh refuses to remove the vertex

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 1 +
 src/surface/signpost_intrinsic_triangulation.cpp            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 6902916..a664524 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1670,6 +1670,7 @@ Face IntegerCoordinatesIntrinsicTriangulation::removeInsertedVertex(Vertex v) {
 
   // ==== Remove the vertex
   Face newF = intrinsicMesh->removeVertex(v);
+  if (newF == Face()) return Face(); // the mesh refuses if the neighborhood is not three distinct triangles
 
   // ==== Update cached data
   // Edge lengths, normal coordinates, and roundabouts should be okay
diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 9ab4aee..9610b0e 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -572,6 +572,7 @@ Face SignpostIntrinsicTriangulation::removeInsertedVertex(Vertex v) {
 
   // Remove the vertex
   Face newF = intrinsicMesh->removeVertex(v);
+  if (newF == Face()) return Face(); // the mesh refuses if the neighborhood is not three distinct triangles
   updateFaceBasis(newF);
   triangulationChanged();
   return newF;
-- 
2.43.0


From 0effc64c09d749c0eee8717c5174146c7ed90ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 031/123] fix: integer triangulation mislocates crossings of
 input edges carrying inserted vertices

A curve which starts at a vertex inserted on an input edge could not be identified, and curve parameters were
used as edge parameters although the curve covers only part of the edge. Tracing along such an edge threw
on the first non-matching corner, and the common subdivision joined the wrong end of reversed shared edges.
---
 ...eger_coordinates_intrinsic_triangulation.h |  4 ++
 ...er_coordinates_intrinsic_triangulation.cpp | 67 +++++++++++++------
 2 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h b/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
index de85c49..b018ca7 100644
--- a/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
+++ b/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
@@ -123,6 +123,10 @@ public:
   // Inverse to traceInputEdge
   Halfedge identifyInputEdge(const NormalCoordinatesCurve& path, bool verbose = false) const;
 
+  // The point at fraction t of the given curve, as a point along the input edge which contains the curve. The curve may
+  // cover only a part of the input edge, if vertices have been inserted along the edge.
+  SurfacePoint pointAlongInputEdge(const NormalCoordinatesCurve& path, double t) const;
+
   // Identify shared halfedge, throw exception if halfedge is not shared
   // (i.e. edgeCoords[he.edge()] must be negative)
   Halfedge identifyInputEdge(Halfedge he) const;
diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index a664524..af49b95 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -27,6 +27,14 @@ std::array<T, 3> rotate(const std::array<T, 3>& data) {
 
 inline Vector3 rotate(const Vector3& v) { return {v.y, v.z, v.x}; }
 
+// The halfedge of the edge containing src which points from src to dst, another point on the same edge
+inline Halfedge orientInputEdge(const SurfacePoint& src, const SurfacePoint& dst) {
+  Halfedge he = src.edge.halfedge();
+  bool forward =
+      (dst.type == SurfacePointType::Edge) ? (dst.tEdge > src.tEdge) : (dst.vertex == he.tipVertex());
+  return forward ? he : he.twin();
+}
+
 } // namespace
 
 IntegerCoordinatesIntrinsicTriangulation::IntegerCoordinatesIntrinsicTriangulation(
@@ -267,7 +275,7 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
 
         if (first) cs.pointsAlongA[eA].push_back(aVtx[src(eA)]);
         cs.pointsAlongA[eA].push_back(crPt);
-        cs.pointsAlongA[eA].push_back(bVtx[dst(eB)]);
+        cs.pointsAlongA[eA].push_back(bVtx[heB.tipVertex()]);
 
         cs.pointsAlongB[eB][1] = crPt;
       } else {
@@ -290,13 +298,13 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
           // geodesicPath stores the start and end point, which
           // path doesn't do, so we offset by 1 here
           SurfacePoint ptB = std::get<0>(geodesicPath[iC + 1]);
-          double tA = std::get<1>(geodesicPath[iC + 1]);
+          SurfacePoint ptA = pointAlongInputEdge(curve, std::get<1>(geodesicPath[iC + 1])).inEdge(eA);
 
           int iB = std::get<0>(path[iC]);
           if (!positiveOrientation) iB = positivePart(normalCoordinates[eB]) - iB - 1;
 
-          cs.subdivisionPoints.push_back(CommonSubdivisionPoint{CSIntersectionType::EDGE_TRANSVERSE,
-                                                                SurfacePoint(eA, tA), ptB, positiveOrientation});
+          cs.subdivisionPoints.push_back(
+              CommonSubdivisionPoint{CSIntersectionType::EDGE_TRANSVERSE, ptA, ptB, positiveOrientation});
 
           CommonSubdivisionPoint* crPt = &cs.subdivisionPoints[cs.subdivisionPoints.size() - 1];
 
@@ -767,9 +775,8 @@ IntegerCoordinatesIntrinsicTriangulation::computeFaceSplitData(Face f, Vector3 b
       } else {
         // intermediate crossing
         double tInput = transverseCrossingTimes[heIndex(he)][pos - 1];
-        Halfedge heInput = identifyInputEdge(curves[heIndex(he)][pos - 1]);
         double tIntrinsic = boundaryCrossings[heIndex(he)][pos - 1];
-        return {heBary(he, tIntrinsic), SurfacePoint(heInput, tInput)};
+        return {heBary(he, tIntrinsic), pointAlongInputEdge(curves[heIndex(he)][pos - 1], tInput)};
       }
     };
 
@@ -1090,8 +1097,7 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
       segmentTail = vertexLocations[he.tailVertex()];
       tSegmentTail = 0;
     } else {
-      Halfedge tailHedge = identifyInputEdge(curves[crossingSegment - 1]);
-      segmentTail = SurfacePoint(tailHedge, transverseCrossingTimes[crossingSegment - 1]);
+      segmentTail = pointAlongInputEdge(curves[crossingSegment - 1], transverseCrossingTimes[crossingSegment - 1]);
       tSegmentTail = heCrossingTimes[crossingSegment - 1];
     }
 
@@ -1099,8 +1105,7 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
       segmentTip = vertexLocations[he.tipVertex()];
       tSegmentTip = 1;
     } else {
-      Halfedge tipHedge = identifyInputEdge(curves[crossingSegment]);
-      segmentTip = SurfacePoint(tipHedge, transverseCrossingTimes[crossingSegment]);
+      segmentTip = pointAlongInputEdge(curves[crossingSegment], transverseCrossingTimes[crossingSegment]);
       tSegmentTip = heCrossingTimes[crossingSegment];
     }
 
@@ -1903,10 +1908,6 @@ IntegerCoordinatesIntrinsicTriangulation::traceNextCurve(const NormalCoordinates
           GC_SAFETY_ASSERT(c == incomingCorner, "there can only be one");
 
           return {true, normalCoordinates.topologicalTrace(c.halfedge().next(), finalPos)};
-
-        } else {
-          throw std::runtime_error("this shouldn't be possible");
-          return {false, NormalCoordinatesCurve{}};
         }
       }
     } else {
@@ -1934,9 +1935,7 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(const Norma
   if (path.crossings[0].first < 0) {
     // If edge is shared, use roundabouts to identify shared edge
 
-    Halfedge he = path.crossings[0].second;
-    Vertex inputSrc = vertexLocations[he.vertex()].vertex;
-    return vertexHalfedge(inputSrc, normalCoordinates.roundabouts[he]);
+    return identifyInputEdge(path.crossings[0].second);
   } else {
     Halfedge he = path.crossings[0].second;
     int p = path.crossings[0].first - normalCoordinates.strictCornerCoord(he.corner());
@@ -1948,6 +1947,11 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(const Norma
     GC_SAFETY_ASSERT(p >= 0, "crossing must have nonnegative index");
 
     SurfacePoint src = vertexLocations[he.next().next().vertex()];
+    if (src.type == SurfacePointType::Edge) {
+      // The curve starts at a vertex inserted along the input edge
+      Halfedge heLast = path.crossings.back().second;
+      return orientInputEdge(src, vertexLocations[heLast.twin().next().next().vertex()]);
+    }
     GC_SAFETY_ASSERT(src.type == SurfacePointType::Vertex, "edge must start at vertex");
     Vertex inputSrc = src.vertex;
 
@@ -1973,8 +1977,33 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(Halfedge he
     return he;
   };
 
-  Vertex src = vertexLocations[he.vertex()].vertex;
-  return vertexHalfedge(src, normalCoordinates.roundabouts[he]);
+  SurfacePoint src = vertexLocations[he.vertex()];
+  if (src.type == SurfacePointType::Edge) {
+    // The halfedge starts at a vertex inserted along the input edge
+    return orientInputEdge(src, vertexLocations[he.tipVertex()]);
+  }
+  return vertexHalfedge(src.vertex, normalCoordinates.roundabouts[he]);
+}
+
+SurfacePoint IntegerCoordinatesIntrinsicTriangulation::pointAlongInputEdge(const NormalCoordinatesCurve& path,
+                                                                           double t) const {
+  Halfedge heInput = identifyInputEdge(path);
+
+  Halfedge heFirst = path.crossings.front().second;
+  Halfedge heLast = path.crossings.back().second;
+  bool shared = path.crossings.front().first < 0;
+  SurfacePoint src = vertexLocations[shared ? heFirst.vertex() : heFirst.next().next().vertex()];
+  SurfacePoint dst = vertexLocations[shared ? heLast.tipVertex() : heLast.twin().next().next().vertex()];
+
+  // Position of the two ends of the curve along heInput
+  auto tAlong = [&](const SurfacePoint& p, double tVertex) {
+    if (p.type != SurfacePointType::Edge) return tVertex;
+    return heInput == heInput.edge().halfedge() ? p.tEdge : 1. - p.tEdge;
+  };
+  double tSrc = tAlong(src, 0.);
+  double tDst = tAlong(dst, 1.);
+
+  return SurfacePoint(heInput, (1. - t) * tSrc + t * tDst);
 }
 
 std::array<Vector2, 3> IntegerCoordinatesIntrinsicTriangulation::vertexCoordinatesInFace(Face face) const {
-- 
2.43.0


From 76315eb42f9e034636266815e83e923f39c7251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 032/123] fix: normal coordinate tracing takes curves which
 revisit an edge for closed loops

---
 src/surface/normal_coordinates.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index 1f304ae..d590639 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -335,6 +335,7 @@ NormalCoordinatesCurve NormalCoordinates::topologicalTrace(Halfedge he, int inde
   int startIndex = index;
 
   NormalCoordinatesCurve path;
+  bool reachedVertex = false;
 
   do {
     int n = edgeCoords[he.edge()];
@@ -347,11 +348,12 @@ NormalCoordinatesCurve NormalCoordinates::topologicalTrace(Halfedge he, int inde
 
     path.crossings.push_back(std::make_pair(index, he));
 
-  } while (!stepTopologicalCurve(he, index) && !(he == startHe && index == startIndex) && !he.edge().isBoundary());
+    reachedVertex = stepTopologicalCurve(he, index);
+  } while (!reachedVertex && !(he == startHe && index == startIndex) && !he.edge().isBoundary());
 
   // If we made a complete loop, record the starting point (also the ending
   // point) again
-  if ((he == startHe && index == startIndex) || he.edge().isBoundary())
+  if (!reachedVertex && ((he == startHe && index == startIndex) || he.edge().isBoundary()))
     path.crossings.push_back(std::make_pair(index, he));
 
   return path;
@@ -391,7 +393,7 @@ std::tuple<NormalCoordinatesCurve, int> NormalCoordinates::topologicalTraceBidir
   // Case where the curve is a cycle
   // TODO this may be wrong
   if (forwardTrace.crossings.size() > 1 &&
-      forwardTrace.crossings.front().second == forwardTrace.crossings.back().second) {
+      forwardTrace.crossings.front() == forwardTrace.crossings.back()) {
     throw std::runtime_error("encountered a loop while tracing normal coordinates");
   }
 
-- 
2.43.0


From 55c09e826a5b33a8b2e4f57b2010357bf5ad5468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 033/123] fix: checkFlip gives edges which cannot be flipped
 the best score

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index af49b95..0a9a744 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -517,7 +517,7 @@ bool IntegerCoordinatesIntrinsicTriangulation::flipEdgeIfPossible(Edge e) {
 
 double IntegerCoordinatesIntrinsicTriangulation::checkFlip(Edge e) {
   // Can't flip
-  if (isFixed(e)) return std::numeric_limits<double>::infinity();
+  if (isFixed(e)) return -std::numeric_limits<double>::infinity();
 
   // Check topologically flippable
   {
@@ -530,7 +530,7 @@ double IntegerCoordinatesIntrinsicTriangulation::checkFlip(Edge e) {
 
     // incident on degree 1 vertex
     if (ha2 == hb1 || hb2 == ha1) {
-      return std::numeric_limits<double>::infinity();
+      return -std::numeric_limits<double>::infinity();
     }
   }
 
-- 
2.43.0


From 46e2fb32347780bbac64481d0fa7665c707a0296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 034/123] fix: common subdivision is stale after inserting a
 vertex in a face

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 0a9a744..7c789e0 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1235,6 +1235,7 @@ Vertex IntegerCoordinatesIntrinsicTriangulation::splitFace(Face f, Vector3 bary,
   vertexAngleSums[newVertex] = 2 * M_PI;
   updateHalfedgeVectorsInVertex(newVertex);
 
+  triangulationChanged();
   invokeFaceInsertionCallbacks(f, newVertex);
 
   return newVertex;
-- 
2.43.0


From c770d241ff9f2f3935167108a2e5400afbe59c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 035/123] fix: angle sum of a vertex which splits a boundary
 edge is pi

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 7c789e0..2c51105 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1407,7 +1407,7 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitBoundaryEdge(Halfedge he
       updateHalfedgeVectorsInVertex(v);
     }
 
-    vertexAngleSums[newVertex] = 2 * M_PI;
+    vertexAngleSums[newVertex] = M_PI;
     updateHalfedgeVectorsInVertex(newVertex);
 
     triangulationChanged();
-- 
2.43.0


From 039623d2d9db0cacf36ad7bfee2b631a17772b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 036/123] fix: flipToDelaunay(mesh, lengths) throws on meshes
 with boundary or non-manifold edges

---
 src/surface/simple_idt.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/surface/simple_idt.cpp b/src/surface/simple_idt.cpp
index 8580d28..9c22bf7 100644
--- a/src/surface/simple_idt.cpp
+++ b/src/surface/simple_idt.cpp
@@ -118,9 +118,7 @@ size_t flipToDelaunay(SurfaceMesh& mesh, EdgeData<double>& edgeLengths, FlipType
 
   auto flipEdgeIfNotDelaunay = [&](Edge e) {
     // Can't flip
-    //if (e.isBoundary()) return false;
-    if (e.isBoundary()) throw std::runtime_error("boundary");
-    if (!e.isManifold()) throw std::runtime_error("nonmanifold");
+    if (e.isBoundary() || !e.isManifold()) return false;
 
     // Don't want to flip
     if (!shouldFlipEdge(e)) return false;
-- 
2.43.0


From 48af0885ae36d675d6e4714952e8f7be4dcac8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 037/123] fix: tracing an intrinsic halfedge uses a stale
 handle when the intrinsic mesh gets compressed

---
 .../integer_coordinates_intrinsic_triangulation.cpp   | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 2c51105..f3ab0e2 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -76,7 +76,18 @@ EdgeData<std::vector<SurfacePoint>> IntegerCoordinatesIntrinsicTriangulation::tr
 
 std::vector<SurfacePoint>
 IntegerCoordinatesIntrinsicTriangulation::traceIntrinsicHalfedgeAlongInput(Halfedge intrinsicHe) {
+  // Building the common subdivision compresses the intrinsic mesh, so keep track of the halfedge while it happens
+  HalfedgeData<size_t> heOrigin;
+  if (!commonSubdivision && !intrinsicMesh->isCompressed()) {
+    heOrigin = HalfedgeData<size_t>(*intrinsicMesh, INVALID_IND);
+    heOrigin[intrinsicHe] = 0;
+  }
   CommonSubdivision& cs = getCommonSubdivision();
+  if (heOrigin.size() > 0) {
+    for (Halfedge he : intrinsicMesh->halfedges()) {
+      if (heOrigin[he] == 0) intrinsicHe = he;
+    }
+  }
 
   std::vector<SurfacePoint> trajectory;
   if (intrinsicHe == intrinsicHe.edge().halfedge()) {
-- 
2.43.0


From c193a155a266342191e478f86da3709774728084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 038/123] fix: signpost tracing of input edges returns input
 vertices and looks up the wrong edge after edits

---
 .../signpost_intrinsic_triangulation.cpp      | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 9610b0e..e46bbc7 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -102,26 +102,27 @@ std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceInputHalfedgeAlon
 std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceInputHalfedgeAlongIntrinsic(Halfedge inputHe,
                                                                                            bool trimEnd) {
 
-  // Optimization: don't bother tracing original edges, just report them directly
-  // Here we need to check if the corresponding intrinsic edge is original
-  Halfedge origHe = intrinsicMesh->halfedge(inputHe.getIndex()); // as usual, safe by dense construction
-  if (edgeIsOriginal[origHe.edge()]) {
-    Vertex vA = inputHe.tailVertex();
-    Vertex vB = inputHe.tipVertex();
-    std::vector<SurfacePoint> result{SurfacePoint(vA), SurfacePoint(vB)};
-    return result;
-  }
-
-
   Vertex vTail = inputHe.tailVertex();
   Vertex vTip = inputHe.tipVertex();
 
-  // Get the corresponding tail vertex on the intrinsic triangulation
+  // Get the corresponding end vertices on the intrinsic triangulation
   Vertex vTailIntrinsic = intrinsicMesh->vertex(vTail.getIndex()); // as usual, safe by dense construction
+  Vertex vTipIntrinsic = intrinsicMesh->vertex(vTip.getIndex());   // as usual, safe by dense construction
+
+  // Optimization: don't bother tracing original edges, just report them directly
+  // Here we need to find the corresponding intrinsic edge. Edge indices may change, so match it by direction and length.
+  Vector2 inputVec = inputGeom.halfedgeVectorsInVertex[inputHe];
+  for (Halfedge he : vTailIntrinsic.outgoingHalfedges()) {
+    if (edgeIsOriginal[he.edge()] && he.tipVertex() == vTipIntrinsic &&
+        norm(halfedgeVector(he) - inputVec) < 1e-6 * norm(inputVec)) {
+      std::vector<SurfacePoint> result{SurfacePoint(vTailIntrinsic), SurfacePoint(vTipIntrinsic)};
+      return result;
+    }
+  }
 
   // Gather values to trace
   SurfacePoint startP = SurfacePoint(vTailIntrinsic);
-  Vector2 traceVec = inputGeom.halfedgeVectorsInVertex[inputHe];
+  Vector2 traceVec = inputVec;
 
   // Do the actual tracing
   TraceOptions options;
@@ -130,7 +131,6 @@ std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceInputHalfedgeAlon
   TraceGeodesicResult result = traceGeodesic(*this, startP, traceVec, options);
 
   // Trim off end crumbs if applicable
-  Vertex vTipIntrinsic = intrinsicMesh->vertex(vTip.getIndex()); // as usual, safe by dense construction
   if (trimEnd) {
     bool success = trimTraceResult(result, vTipIntrinsic);
     if (success) {
-- 
2.43.0


From 5dcfbe852cce8d1f0f35f659d878440a2fe88045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 039/123] fix: geodesics from a vertex leave along the wrong
 edge in wide wedges and at boundaries

---
 src/surface/trace_geodesic.cpp | 55 +++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 7a9f55a..22a2df6 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -526,14 +526,14 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
 
   // Find the halfedge opening the wedge where tracing will start
   Halfedge wedgeHe;
-  Vector2 traceDirRelativeToStart;
+  double traceAngleRelativeToStart = 0.;
 
   // Normally, one of the interval tests below will return positive and we'll simply launch the trace in to that
   // interval. However, due to numerical misfortune, it is possible that none of the intervals will test positive. In
   // that case, we'll simply launch along whichever halfedge was closest.
-  double minCross = std::numeric_limits<double>::infinity();
-  Halfedge minCrossHalfedge;
-  Vector2 minCrossHalfedgeDir; // the trace vector in this closest halfedge
+  double minAngle = std::numeric_limits<double>::infinity();
+  Halfedge minAngleHalfedge;
+  Vector2 minAngleHalfedgeDir; // the trace vector in this closest halfedge
 
   Halfedge currHe = currVert.halfedge();
   do {
@@ -561,27 +561,34 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
     }
 
 
-    // Check if our trace vector lies within the interval
-    double crossStart = cross(intervalStart, currVecDir);
-    double crossEnd = cross(intervalEnd, currVecDir);
-    if (crossStart > 0. && crossEnd <= 0.) {
+    // Check if our trace vector lies within the interval. Work with angles, because the (rescaled) interval might be
+    // wider than 180 degrees.
+    double intervalWidth = (intervalEnd / intervalStart).arg();
+    if (nextHe == currHe) {
+      intervalWidth = 2. * M_PI;
+    } else if (intervalWidth < -TRACE_EPS_LOOSE) {
+      intervalWidth += 2. * M_PI;
+    }
+    double angleStart = (currVecDir / intervalStart).arg();
+    double angleEnd = (currVecDir / intervalEnd).arg();
+    double angleInInterval = angleStart < 0. ? angleStart + 2. * M_PI : angleStart;
+    if (angleInInterval > 0. && angleInInterval <= intervalWidth) {
       wedgeHe = currHe;
-      traceDirRelativeToStart = currVecDir / intervalStart;
-      if (TRACE_PRINT) cout << "    wedge match! relative angle " << traceDirRelativeToStart << endl;
-      if (TRACE_PRINT) cout << "    cross start = " << crossStart << " cross end = " << crossEnd << endl;
+      traceAngleRelativeToStart = angleInInterval;
+      if (TRACE_PRINT) cout << "    wedge match! relative angle " << traceAngleRelativeToStart << endl;
       break;
     }
 
     // Keep track of the closest halfedge, as described above
-    if (std::fabs(crossStart) < minCross) {
-      minCross = std::fabs(crossStart);
-      minCrossHalfedge = currHe;
-      minCrossHalfedgeDir = Vector2{1, TRACE_EPS_TIGHT};
+    if (std::fabs(angleStart) < minAngle) {
+      minAngle = std::fabs(angleStart);
+      minAngleHalfedge = currHe;
+      minAngleHalfedgeDir = Vector2{1, TRACE_EPS_TIGHT};
     }
-    if (std::fabs(crossEnd) < minCross) {
-      minCross = std::fabs(crossEnd);
-      minCrossHalfedge = nextHe;
-      minCrossHalfedgeDir = Vector2{1, -TRACE_EPS_TIGHT};
+    if (std::fabs(angleEnd) < minAngle) {
+      minAngle = std::fabs(angleEnd);
+      minAngleHalfedge = nextHe;
+      minAngleHalfedgeDir = Vector2{1, -TRACE_EPS_TIGHT};
     }
 
     currHe = nextHe;
@@ -590,10 +597,10 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
   // None of the interval tests passed (probably due to unfortunate numerics), so just trace along the closest
   // halfedge
   if (wedgeHe == Halfedge()) {
-    if (TRACE_PRINT) cout << "  no wedge worked. following closest edge with dir " << minCrossHalfedgeDir << endl;
+    if (TRACE_PRINT) cout << "  no wedge worked. following closest edge with dir " << minAngleHalfedgeDir << endl;
     // Convert to edge coordinates
-    currVecDir = convertVecToEdge(minCrossHalfedge, minCrossHalfedgeDir);
-    return traceGeodesic_fromEdge(geom, minCrossHalfedge.edge(), convertTToEdge(minCrossHalfedge, 0.), currVecDir,
+    currVecDir = convertVecToEdge(minAngleHalfedge, minAngleHalfedgeDir);
+    return traceGeodesic_fromEdge(geom, minAngleHalfedge.edge(), convertTToEdge(minAngleHalfedge, 0.), currVecDir,
                                   currVecLen, traceOptions);
   }
 
@@ -603,8 +610,8 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
 
   // Need to convert from "powered" representation to flat vector in face
   double sum = currVert.isBoundary() ? M_PI : 2. * M_PI;
-  traceDirRelativeToStart = traceDirRelativeToStart.pow(geom.vertexAngleSums[currVert] / sum);
-  traceDirRelativeToStart = traceDirRelativeToStart.normalize();
+  Vector2 traceDirRelativeToStart =
+      Vector2::fromAngle(traceAngleRelativeToStart * geom.vertexAngleSums[currVert] / sum);
 
   // Compute the starting vector
   Vector2 startDirInFace = geom.halfedgeVectorsInFace[wedgeHe].normalize();
-- 
2.43.0


From 49b7b9d3591b76a61b85a9188a57afba36486398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 040/123] fix: geodesics tangent to the boundary stop at once,
 and the length of a stopped geodesic is uninitialized

---
 src/surface/trace_geodesic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 22a2df6..d8fa78d 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -483,7 +483,8 @@ inline TraceSubResult traceGeodesic_fromEdge(IntrinsicGeometryInterface& geom, E
   // Check which side of the face we're exiting
   Halfedge traceHe;
   Vector2 halfedgeTraceDir;
-  if (currVecDir.y >= 0.) {
+  // (on the boundary, a vector which is tangent to the edge up to roundoff is not outward pointing)
+  if (currVecDir.y >= 0. || (currEdge.isBoundary() && currVecDir.y > -TRACE_EPS_LOOSE)) {
     traceHe = currEdge.halfedge().twin();
     halfedgeTraceDir = -currVecDir;
     tEdge = 1.0 - tEdge;
@@ -496,6 +497,7 @@ inline TraceSubResult traceGeodesic_fromEdge(IntrinsicGeometryInterface& geom, E
       result.terminated = true;
       result.endPoint = SurfacePoint(currEdge, tEdge);
       result.incomingDirToPoint = currVecDir;
+      result.traceVectorInHalfedgeLen = currVecLen;
 
       return result;
     }
-- 
2.43.0


From 28c4312d2a8fbd4ecb359e61a7738496352e9e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:42 +0000
Subject: [PATCH 041/123] fix: ending direction of geodesics stopped on an edge
 is not in the tangent space of the edge

---
 src/surface/trace_geodesic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index d8fa78d..082e109 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -306,7 +306,7 @@ inline TraceSubResult traceInFaceBarycentric(IntrinsicGeometryInterface& geom, F
     TraceSubResult result;
     result.terminated = true;
     result.endPoint = SurfacePoint(crossHe.edge(), convertTToEdge(crossHe, tCross));
-    result.incomingDirToPoint = remainingDirInHalfedge;
+    result.incomingDirToPoint = convertVecToEdge(crossHe, remainingDirInHalfedge);
     result.traceVectorInHalfedgeLen = lenRemaining;
 
     return result;
@@ -644,7 +644,7 @@ void traceGeodesic_iterative(IntrinsicGeometryInterface& geom, TraceGeodesicResu
 
       // Use the last trace as ending data
       result.endPoint = SurfacePoint(prevTraceEnd.crossHe, prevTraceEnd.tCross);
-      result.endingDir = prevTraceEnd.traceVectorInHalfedgeDir;
+      result.endingDir = convertVecToEdge(prevTraceEnd.crossHe, prevTraceEnd.traceVectorInHalfedgeDir);
       result.length -= prevTraceEnd.traceVectorInHalfedgeLen;
 
       if (traceOptions.includePath) {
-- 
2.43.0


From ad745386577575c4fe87978caa021e421ef8d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:42 +0000
Subject: [PATCH 042/123] fix: tracing a zero vector returns an invalid end
 point

---
 src/surface/trace_geodesic.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 082e109..599d654 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -714,6 +714,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, SurfacePoint
     geom.unrequireHalfedgeVectorsInVertex();
     geom.unrequireHalfedgeVectorsInFace();
 
+    result.endPoint = startP;
     result.endingDir = Vector2::zero();
     result.length = 0;
 
@@ -788,6 +789,7 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, Face startFa
       throw std::runtime_error("zero vec passed to trace, do something good here");
     }
 
+    result.endPoint = SurfacePoint(startFace, startBary);
     result.endingDir = Vector2::zero();
     result.length = 0;
     return result;
-- 
2.43.0


From 93ec26272f66ac908611cd7408397b92d9a96a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 043/123] fix: the difference of two points on an edge points
 in the wrong direction

---
 include/geometrycentral/surface/barycentric_vector.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 04f74d8..cdbe8ad 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -31,7 +31,7 @@ inline BarycentricVector::BarycentricVector(SurfacePoint pA, SurfacePoint pB) {
     double a = pA_in_edge.tEdge;
     double b = pB_in_edge.tEdge;
     edge = e;
-    edgeCoords = Vector2{b - a, a - b};
+    edgeCoords = Vector2{a - b, b - a};
     return;
   }
 
-- 
2.43.0


From cd85546e29da1d598b6554226c058362979e5dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 044/123] fix: BarycentricVector::inFace() does not throw for
 edges which are not in the face

---
 include/geometrycentral/surface/barycentric_vector.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index cdbe8ad..7f19c82 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -117,9 +117,11 @@ inline BarycentricVector BarycentricVector::inFace(Face targetFace) const {
       return BarycentricVector(targetFace, faceCoords);
     }
     he = he.next();
-    Vector3 faceCoords =
-        he.orientation() ? Vector3{edgeCoords[1], 0., edgeCoords[0]} : Vector3{edgeCoords[0], 0., edgeCoords[1]};
-    return BarycentricVector(targetFace, faceCoords);
+    if (edge == he.edge()) {
+      Vector3 faceCoords =
+          he.orientation() ? Vector3{edgeCoords[1], 0., edgeCoords[0]} : Vector3{edgeCoords[0], 0., edgeCoords[1]};
+      return BarycentricVector(targetFace, faceCoords);
+    }
     break;
   }
   case BarycentricVectorType::Vertex:
-- 
2.43.0


From 3f8ca64d6100b8394b87016ddea3b084f1f1df55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 045/123] fix: surface points on edges of a common boundary
 loop are reported as adjacent

---
 src/surface/surface_point.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/surface/surface_point.cpp b/src/surface/surface_point.cpp
index 1c98c4c..9535adf 100644
--- a/src/surface/surface_point.cpp
+++ b/src/surface/surface_point.cpp
@@ -19,9 +19,10 @@ bool checkAdjacent(Vertex vA, Vertex vB) {
 
 bool checkAdjacent(Vertex vA, Edge eB) {
   bool adjacent = false;
-  for (Halfedge he : vA.outgoingHalfedges()) {
-    if (eB == he.next().edge()) adjacent = true;
-    if (eB == he.edge()) adjacent = true;
+  for (Face f : vA.adjacentFaces()) {
+    for (Edge e : f.adjacentEdges()) {
+      if (e == eB) adjacent = true;
+    }
   }
   return adjacent;
 }
@@ -40,10 +41,11 @@ bool checkAdjacent(Edge eA, Edge eB) {
   bool adjacent = false;
 
   // Must have a shared face
-  adjacent |= (eA.halfedge().face() == eB.halfedge().face());
-  adjacent |= (eA.halfedge().twin().face() == eB.halfedge().face());
-  adjacent |= (eA.halfedge().face() == eB.halfedge().twin().face());
-  adjacent |= (eA.halfedge().twin().face() == eB.halfedge().twin().face());
+  for (Face f : eA.adjacentFaces()) {
+    for (Edge e : f.adjacentEdges()) {
+      if (e == eB) adjacent = true;
+    }
+  }
 
   return adjacent;
 }
-- 
2.43.0


From 211adec1ae0cde18192caad6adb7432579cc387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:58 +0000
Subject: [PATCH 046/123] fix: surface points on edges of nonmanifold or
 unoriented meshes use the wrong halfedge or vertex

---
 .../geometrycentral/surface/surface_point.ipp  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/geometrycentral/surface/surface_point.ipp b/include/geometrycentral/surface/surface_point.ipp
index 63a55c9..40913f1 100644
--- a/include/geometrycentral/surface/surface_point.ipp
+++ b/include/geometrycentral/surface/surface_point.ipp
@@ -9,7 +9,8 @@ inline SurfacePoint::SurfacePoint() : type(SurfacePointType::Vertex) {}
 inline SurfacePoint::SurfacePoint(Vertex v) : type(SurfacePointType::Vertex), vertex(v) {}
 inline SurfacePoint::SurfacePoint(Edge e, double tEdge_) : type(SurfacePointType::Edge), edge(e), tEdge(tEdge_) {}
 inline SurfacePoint::SurfacePoint(Halfedge he, double tHalfedge)
-    : type(SurfacePointType::Edge), edge(he.edge()), tEdge(he == he.edge().halfedge() ? tHalfedge : (1. - tHalfedge)) {}
+    : type(SurfacePointType::Edge), edge(he.edge()),
+      tEdge(he.orientation() == he.edge().halfedge().orientation() ? tHalfedge : (1. - tHalfedge)) {}
 inline SurfacePoint::SurfacePoint(Face f, Vector3 faceCoords_)
     : type(SurfacePointType::Face), face(f), faceCoords(faceCoords_) {}
 
@@ -110,9 +111,11 @@ inline SurfacePoint SurfacePoint::inFace(Face targetFace) const {
 
   case SurfacePointType::Edge: {
 
-    double thisT = tEdge;
     for (Halfedge targetHe : edge.adjacentHalfedges()) {
 
+      // Flip the point to be along this halfedge
+      double thisT = (targetHe.orientation() == edge.halfedge().orientation()) ? tEdge : 1. - tEdge;
+
       int i = 0;
       for (Halfedge he : targetFace.adjacentHalfedges()) {
         if (he == targetHe) {
@@ -126,9 +129,6 @@ inline SurfacePoint SurfacePoint::inFace(Face targetFace) const {
         }
         i++;
       }
-
-      // Flip the point to be along the other halfedge
-      thisT = 1. - thisT;
     }
 
     break;
@@ -178,7 +178,7 @@ inline Vertex SurfacePoint::nearestVertex() const {
   }
   case SurfacePointType::Edge: {
     if (tEdge < .5) return edge.halfedge().vertex();
-    return edge.halfedge().twin().vertex();
+    return edge.halfedge().tipVertex();
     break;
   }
   case SurfacePointType::Face: {
@@ -207,7 +207,7 @@ inline T SurfacePoint::interpolate(const VertexData<T>& data) const {
   }
   case SurfacePointType::Edge: {
     T valTail = data[edge.halfedge().vertex()];
-    T valTip = data[edge.halfedge().twin().vertex()];
+    T valTip = data[edge.halfedge().tipVertex()];
     return (1. - tEdge) * valTail + tEdge * valTip;
     break;
   }
@@ -309,8 +309,8 @@ inline Edge sharedEdge(const SurfacePoint& pA, const SurfacePoint& pB) {
   case SurfacePointType::Vertex: {
     switch (pB.type) {
     case SurfacePointType::Vertex:
-      for (Halfedge he : pA.vertex.outgoingHalfedges()) {
-        if (he.tipVertex() == pB.vertex) return he.edge();
+      for (Edge e : pA.vertex.adjacentEdges()) {
+        if (e.otherVertex(pA.vertex) == pB.vertex) return e;
       }
       break;
     case SurfacePointType::Edge:
-- 
2.43.0


From 816e34294ba80609b85b1671920d014da9dde4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 047/123] fix: vector of a halfedge whose end points coincide
 has the wrong sign

---
 include/geometrycentral/surface/barycentric_vector.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 7f19c82..569da87 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -50,7 +50,7 @@ inline BarycentricVector::BarycentricVector(Halfedge he_, Face f) : type(Barycen
   double sign = 0.;
   for (Halfedge he : f.adjacentHalfedges()) {
     if (he.edge() == he_.edge()) {
-      sign = (he.tailVertex() == he_.tailVertex() && he.tipVertex() == he_.tipVertex()) ? 1. : -1.;
+      sign = (he.orientation() == he_.orientation()) ? 1. : -1.;
       break;
     }
     eIdx++;
-- 
2.43.0


From 49fbf82a225740b562635180725f17768db8c1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 048/123] fix: regularizeAngle returns values in [0,2pi) also
 for angles which round to the end of the range

---
 include/geometrycentral/utilities/utilities.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/utilities.h b/include/geometrycentral/utilities/utilities.h
index ffa9f9f..1dbece7 100644
--- a/include/geometrycentral/utilities/utilities.h
+++ b/include/geometrycentral/utilities/utilities.h
@@ -87,7 +87,13 @@ inline T clamp(T val, T low, T high) {
   return val;
 }
 
-inline double regularizeAngle(double theta) { return theta - 2 * PI * ::std::floor(theta / (2 * PI)); }
+inline double regularizeAngle(double theta) {
+  double r = theta - 2 * PI * ::std::floor(theta / (2 * PI));
+  // rounding can leave r just outside of the half-open range
+  if (r < 0.) r += 2 * PI;
+  if (r >= 2 * PI) r = 0.;
+  return r;
+}
 
 // Applies a permutation such that d_new[i] = d_old[p[i]].
 // Permutation should be injection to [0,sourceData.size()). Return vector has length permNewToOld.size().
-- 
2.43.0


From e4a69b8604653e07e438aceb68929de33e30e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 049/123] fix: pretty_time prints the seconds of durations
 longer than a minute

---
 include/geometrycentral/utilities/timing.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/timing.h b/include/geometrycentral/utilities/timing.h
index 7a48a37..2584a35 100644
--- a/include/geometrycentral/utilities/timing.h
+++ b/include/geometrycentral/utilities/timing.h
@@ -45,7 +45,7 @@ inline std::string pretty_time(long long microsec) {
   else if (microsec > MINUTE) {
     long long minutes = microsec / MINUTE;
     microsec -= minutes * MINUTE;
-    long long seconds = minutes / SECOND;
+    long long seconds = microsec / SECOND;
 
     snprintf(buffer, sizeof(buffer), "%lld min, %lld sec", minutes, seconds);
 
-- 
2.43.0


From 4f2c02b8b21e9d7e887d66056a0d38bc85bd9d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 050/123] fix: kNearest with k=0 returns no points instead of
 reading out of bounds

---
 src/utilities/knn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utilities/knn.cpp b/src/utilities/knn.cpp
index 2bcf57a..973fbd3 100644
--- a/src/utilities/knn.cpp
+++ b/src/utilities/knn.cpp
@@ -43,6 +43,7 @@ public:
 
   std::vector<size_t> kNearest(Vector3 query, size_t k) {
     if (k > data.rawPoints.size()) throw std::runtime_error("k is greater than number of points");
+    if (k == 0) return {};
     std::vector<size_t> outInds(k);
     std::vector<double> outDistSq(k);
     tree.knnSearch(&query[0], k, &outInds[0], &outDistSq[0]);
-- 
2.43.0


From 9730eadc948e8ba20cee6c2d235d47a6c872b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 051/123] fix: triTriIntersection does not return uninitialised
 values

---
 src/utilities/tri_tri_intersect.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utilities/tri_tri_intersect.cpp b/src/utilities/tri_tri_intersect.cpp
index 231c9c9..a23f916 100644
--- a/src/utilities/tri_tri_intersect.cpp
+++ b/src/utilities/tri_tri_intersect.cpp
@@ -716,8 +716,10 @@ namespace geometrycentral {
 TriTriIntersectionResult3D triTriIntersection(Vector3 pA, Vector3 pB, Vector3 pC, Vector3 qA, Vector3 qB, Vector3 qC) {
   double V0[3], V1[3], V2[3];
   double U0[3], U1[3], U2[3];
-  int coplanar;
-  double isectpt1[3], isectpt2[3];
+  int coplanar = 0;
+  // stays undefined if there is no segment of intersection
+  Vector3 isectpt1 = Vector3::undefined();
+  Vector3 isectpt2 = Vector3::undefined();
 
   for (int i = 0; i < 3; i++) {
     V0[i] = pA[i];
@@ -730,7 +732,7 @@ TriTriIntersectionResult3D triTriIntersection(Vector3 pA, Vector3 pB, Vector3 pC
   }
 
   TriTriIntersectionResult3D result;
-  result.intersect = tri_tri_intersect_with_isectline(V0, V1, V2, U0, U1, U2, &coplanar, isectpt1, isectpt2);
+  result.intersect = tri_tri_intersect_with_isectline(V0, V1, V2, U0, U1, U2, &coplanar, &isectpt1[0], &isectpt2[0]);
   result.coplanar = coplanar;
 
   for (int i = 0; i < 3; i++) {
-- 
2.43.0


From dfeb40f0edfa3a2bc2237194fc82b4e2823dbc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 052/123] fix: intersections() does not output uninitialised
 segments for overlapping coplanar triangles

---
 src/surface/intersection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/intersection.cpp b/src/surface/intersection.cpp
index 90100ac..219302d 100644
--- a/src/surface/intersection.cpp
+++ b/src/surface/intersection.cpp
@@ -68,6 +68,7 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
         // add to list of all intersections
         if (r.intersect) {
           intersections.hasIntersections = true;
+          if (r.coplanar) continue; // overlap, there is no segment of intersection
           intersections.points.push_back(r.xA);
           intersections.points.push_back(r.xB);
           intersections.edges.push_back({n, n + 1});
-- 
2.43.0


From 17766d9bde0094d676885b4d6f943bd011ae9014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 053/123] fix: curve.h can be included from the geometrycentral
 include path

---
 include/geometrycentral/utilities/curve.h   | 2 +-
 include/geometrycentral/utilities/curve.ipp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/geometrycentral/utilities/curve.h b/include/geometrycentral/utilities/curve.h
index 1e6910f..bc9141f 100644
--- a/include/geometrycentral/utilities/curve.h
+++ b/include/geometrycentral/utilities/curve.h
@@ -115,4 +115,4 @@ public:
 } // namespace geometrycentral
 
 // Implementation
-#include <curve.ipp>
+#include "geometrycentral/utilities/curve.ipp"
diff --git a/include/geometrycentral/utilities/curve.ipp b/include/geometrycentral/utilities/curve.ipp
index 909435d..433b8e8 100644
--- a/include/geometrycentral/utilities/curve.ipp
+++ b/include/geometrycentral/utilities/curve.ipp
@@ -1,8 +1,10 @@
 #pragma once
 
 #include <cmath>
-#include <curve.h>
 #include <iostream>
+#include <stdexcept>
+
+#include "geometrycentral/utilities/curve.h"
 
 namespace geometrycentral {
 
-- 
2.43.0


From ad2fdce4d1b927db6892e5d44b7838b18a97f687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 054/123] fix: Hermite curve with N nodes has length N-1,
 evaluation stays within the nodes

---
 include/geometrycentral/utilities/curve.ipp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/geometrycentral/utilities/curve.ipp b/include/geometrycentral/utilities/curve.ipp
index 433b8e8..1cf6ddd 100644
--- a/include/geometrycentral/utilities/curve.ipp
+++ b/include/geometrycentral/utilities/curve.ipp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <stdexcept>
@@ -39,8 +40,8 @@ T HermiteCurve<T>::value(double t) const {
   if (t < 0.) return nodes[0].value + t * nodes[0].derivative;
   if (t > L) return nodes[n - 1].value + (t - static_cast<double>(n - 1)) * nodes[n - 1].derivative;
 
-  double t0 = floor(t);
-  size_t i = static_cast<size_t>(t0);
+  size_t i = std::min(static_cast<size_t>(std::floor(t)), n - 2); // the last segment includes its endpoint
+  double t0 = static_cast<double>(i);
 
   const T& p0 = nodes[i + 0].value;
   const T& p1 = nodes[i + 1].value;
@@ -83,8 +84,8 @@ T HermiteCurve<T>::derivative(double t, unsigned int k) const {
       return T::zero();
   }
 
-  double t0 = floor(t);
-  size_t i = static_cast<size_t>(t0);
+  size_t i = std::min(static_cast<size_t>(std::floor(t)), n - 2); // the last segment includes its endpoint
+  double t0 = static_cast<double>(i);
 
   const T& p0 = nodes[i + 0].value;
   const T& p1 = nodes[i + 1].value;
@@ -118,7 +119,7 @@ T HermiteCurve<T>::derivative(double t, unsigned int k) const {
 
 template <typename T>
 double HermiteCurve<T>::length() const {
-  return static_cast<double>(nodes.size());
+  return nodes.empty() ? 0. : static_cast<double>(nodes.size() - 1);
 }
 
 template <typename T>
-- 
2.43.0


From 4485c37551aa337c154c20e0de612505c3b8ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 055/123] fix: exact geodesics took straight lines outside of
 the window, and missed faces, at nonmanifold vertices

---
 src/surface/exact_geodesics.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index e34237e..007f229 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -485,30 +485,31 @@ void GeodesicAlgorithmExact::propagate(const std::vector<SurfacePoint>& sources,
       double dy = min_interval->pseudo_y();
       double source_d = min_interval->d() + sqrt(dx * dx + dy * dy);
 
-      for (Halfedge heSpoke : v.outgoingHalfedges()) {
-        double L = geom.edgeLengths[heSpoke.edge()];
+      // like a source at v, visible along all of its edges (on nonmanifold meshes, not every edge has an outgoing halfedge)
+      for (Edge spoke : v.adjacentEdges()) {
+        double L = geom.edgeLengths[spoke];
         candidate.start() = 0;
         candidate.stop() = L;
         candidate.d() = source_d;
-        candidate.pseudo_x() = heSpoke.orientation() ? 0 : L;
+        candidate.pseudo_x() = (spoke.halfedge().tailVertex() == v) ? 0 : L;
         candidate.pseudo_y() = 0;
 
         candidate.next() = nullptr;
-        candidate.edge() = heSpoke.edge();
-        candidate.halfedge() = heSpoke;
+        candidate.edge() = spoke;
+        candidate.halfedge() = Halfedge(); // propagates to all faces of the edge
         candidate.edge_length() = L;
         candidate.source_index() = min_interval->source_index();
         candidate.direction() = Interval::DirectionType::FROM_HALFEDGE;
         candidate.min() = candidate.d();
 
-        update_list_and_queue(interval_list(heSpoke.edge()), &candidate, 1);
+        update_list_and_queue(interval_list(spoke), &candidate, 1);
       }
     };
 
-    if (!vertexIsManifold[he.tailVertex()]) {
+    if (!vertexIsManifold[he.tailVertex()] && first_interval) {
       propagateNonmanifoldVertex(he.tailVertex(), true);
     }
-    if (!vertexIsManifold[he.tipVertex()]) {
+    if (!vertexIsManifold[he.tipVertex()] && last_interval) {
       propagateNonmanifoldVertex(he.tipVertex(), false);
     }
 
-- 
2.43.0


From d5c71082f839d80d20e45e49efaaed82578de019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 056/123] fix: exact geodesic paths at a vertex ignored edges
 without an outgoing halfedge

---
 src/surface/exact_geodesics.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index 007f229..1da50d7 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -151,12 +151,11 @@ long GeodesicAlgorithmExact::visible_from_source(const SurfacePoint& point) cons
   switch (point.type) {
   case SurfacePointType::Vertex: {
     Vertex v = point.vertex;
-    for (Halfedge he : v.outgoingHalfedges()) {
-      Edge e = he.edge();
+    for (Edge e : v.adjacentEdges()) {
       const_list_pointer list = interval_list(e);
 
       double edgeLength = geom.edgeLengths[e];
-      double position = he.orientation() ? 0.0 : edgeLength;
+      double position = (e.halfedge().tailVertex() == v) ? 0.0 : edgeLength;
 
       const_interval_pointer interval = list->covering_interval(position);
       if (interval && interval->visible_from_source()) {
@@ -1181,12 +1180,11 @@ const_interval_pointer GeodesicAlgorithmExact::best_first_interval(const Surface
   switch (point.type) {
   case SurfacePointType::Vertex: {
     Vertex v = point.vertex;
-    for (Halfedge he : v.outgoingHalfedges()) {
-      Edge e = he.edge();
+    for (Edge e : v.adjacentEdges()) {
       const_list_pointer list = interval_list(e);
 
       // double position = e->v0()->id() == v->id() ? 0.0 : e->length();
-      double position = he.orientation() ? 0.0 : geom.edgeLengths[e];
+      double position = (e.halfedge().tailVertex() == v) ? 0.0 : geom.edgeLengths[e];
 
       const_interval_pointer interval = list->covering_interval(position);
       if (interval) {
-- 
2.43.0


From c0933501d069bb9eba375001840aa9ac019ba80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 057/123] fix: log map and gradient of exact geodesics at
 vertices ignored the rescaling of the tangent space

---
 src/surface/exact_geodesic_helpers.cpp | 9 +++++++++
 src/surface/exact_geodesics.cpp        | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/surface/exact_geodesic_helpers.cpp b/src/surface/exact_geodesic_helpers.cpp
index 773fc56..7b21d7c 100644
--- a/src/surface/exact_geodesic_helpers.cpp
+++ b/src/surface/exact_geodesic_helpers.cpp
@@ -414,6 +414,15 @@ Vector2 transformToCoordinateSystem(IntrinsicGeometryInterface& geom, Vector2 v,
     // Transform from face to halfedge
     vTransformed /= geom.halfedgeVectorsInFace[heShared];
 
+    // Angles around a vertex are rescaled in its tangent space
+    Corner c = heShared.corner();
+    geom.requireCornerAngles();
+    geom.requireCornerScaledAngles();
+    double angle = vTransformed.arg() * geom.cornerScaledAngles[c] / geom.cornerAngles[c];
+    vTransformed = Vector2::fromAngle(angle) * vTransformed.norm();
+    geom.unrequireCornerScaledAngles();
+    geom.unrequireCornerAngles();
+
     // Transform from halfedge to vertex
     vTransformed *= geom.halfedgeVectorsInVertex[heShared];
     break;
diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index 1da50d7..d781f95 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -1133,7 +1133,8 @@ Vector2 GeodesicAlgorithmExact::getDistanceGradient(const SurfacePoint& point) c
   Vector2 faceDisplacement =
       barycentricDisplacementToCartesian(vertexCoordinatesInTriangle(geom, fShared), baryPoint - baryClosestPoint);
 
-  Vector2 displacement = exactgeodesic::transformToCoordinateSystem(geom, faceDisplacement, fShared, point);
+  // (transform the direction towards closestPoint, which lies in fShared)
+  Vector2 displacement = -exactgeodesic::transformToCoordinateSystem(geom, -faceDisplacement, fShared, point);
 
   return displacement.normalize();
 }
-- 
2.43.0


From b80bb113ec4b258b15224fe82d94878299b3cdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 058/123] fix: exact geodesic paths ended with a segment of
 rounding error length at sources on edges

---
 src/surface/exact_geodesics.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index d781f95..835cb75 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -1314,7 +1314,12 @@ std::vector<SurfacePoint> GeodesicAlgorithmExact::traceBack(const SurfacePoint&
   }
 
   SurfacePoint source = static_cast<SurfacePoint>(m_sources[source_index]);
-  if (exactgeodesic::compute_surface_distance(geom, path.back(), source) > 0) {
+  if (path.size() > 1 && path.back().type == SurfacePointType::Edge && source.type == SurfacePointType::Edge &&
+      path.back().edge == source.edge) {
+    // the path just reached the edge of the source, up to rounding at the source: don't add another segment along the
+    // edge, whose length would be rounding error and direction arbitrary
+    path.back() = source;
+  } else if (exactgeodesic::compute_surface_distance(geom, path.back(), source) > 0) {
     path.push_back(source);
   }
 
-- 
2.43.0


From 7656a9a003c49563ce77d134c97293197299f9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 059/123] fix: fast marching used wrong distances from face
 points to the vertices of the face

---
 src/surface/fast_marching_method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 417e782..85a7e8c 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -170,9 +170,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         double u = p.faceCoords[0];
         double v = p.faceCoords[1];
         double w = p.faceCoords[2];
-        double dist2_A = lAB2 * (v * (1. - u)) + lCA2 * (w * (1. - u)) - lAB2 * v * w; // squared distance from p to vA
+        double dist2_A = lAB2 * (v * (1. - u)) + lCA2 * (w * (1. - u)) - lBC2 * v * w; // squared distance from p to vA
         double dist2_B = lAB2 * (u * (1. - v)) + lBC2 * (w * (1. - v)) - lCA2 * u * w; // squared distance from p to vB
-        double dist2_C = lCA2 * (u * (1. - w)) + lBC2 * (v * (1. - w)) - lBC2 * u * v; // squared distance from p to vC
+        double dist2_C = lCA2 * (u * (1. - w)) + lBC2 * (v * (1. - w)) - lAB2 * u * v; // squared distance from p to vC
         frontierPQ.push(std::make_pair(x.second + signs[vA] * std::sqrt(dist2_A), vA));
         frontierPQ.push(std::make_pair(x.second + signs[vB] * std::sqrt(dist2_B), vB));
         frontierPQ.push(std::make_pair(x.second + signs[vC] * std::sqrt(dist2_C), vC));
-- 
2.43.0


From 4a269b826c8b7d053d1ad6a3a7735be8be07acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 060/123] fix: signed fast marching took the largest instead of
 the smallest distance on the negative side

---
 src/surface/fast_marching_method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 85a7e8c..c4d6ffc 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -30,7 +30,7 @@ double eikonalDistanceSubroutine(double a, double b, double theta, double dA, do
     if (u < sign * t && a * cTheta < y && y < a / cTheta) {
       return dA + t;
     } else {
-      return std::min(b * sign + dA, a * sign + dB);
+      return sign * std::min(b + sign * dA, a + sign * dB);
     }
 
   }
@@ -42,7 +42,7 @@ double eikonalDistanceSubroutine(double a, double b, double theta, double dA, do
     double altitude = 2 * area / c; // distance to base, must be inside triangle since obtuse
     double baseDist = maxDist + altitude;
 
-    return std::min({b * sign + dA, a * sign + dB, sign * baseDist});
+    return sign * std::min({b + sign * dA, a + sign * dB, baseDist});
   }
 }
 
-- 
2.43.0


From 91532118e946caa1246ba0d1b77216a490248e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 061/123] fix: signed fast marching read out of bounds for an
 empty curve

---
 src/surface/fast_marching_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index c4d6ffc..4693d23 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -84,7 +84,7 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
     for (Vertex v : mesh.vertices()) signs[v] = 0;
     for (auto& curve : initialDistances) {
       size_t nNodes = curve.size();
-      for (size_t i = 0; i < nNodes - 1; i++) {
+      for (size_t i = 0; i + 1 < nNodes; i++) {
         const SurfacePoint& pA = curve[i].first;
         const SurfacePoint& pB = curve[i + 1].first;
         Edge commonEdge = sharedEdge(pA, pB);
-- 
2.43.0


From e7e7cb075235f3b3261cbf88f52a8f9eba036b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 062/123] fix: signed fast marching got the side wrong for
 curve segments between points inside an edge

---
 src/surface/fast_marching_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 4693d23..101777a 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -92,7 +92,7 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
           // Assign +/- signs to the "third" vertices of each face straddling this edge.
           // These vertices might themselves lie on the curve, in which case we overwrite them below.
           Halfedge he = commonEdge.halfedge();
-          signs[he.next().tipVertex()] = (he.vertex() == pA.vertex) ? -1 : 1;
+          signs[he.next().tipVertex()] = (pA.inEdge(commonEdge).tEdge < pB.inEdge(commonEdge).tEdge) ? -1 : 1;
           if (!commonEdge.isBoundary()) signs[he.twin().next().tipVertex()] = -signs[he.next().tipVertex()];
         } else {
           Face commonFace = sharedFace(pA, pB);
-- 
2.43.0


From a31a6d09bb6c0f43c6e440c62afaab939a85b467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 063/123] fix: signed fast marching did not reach all vertices
 left of the curve, and walked around boundary vertices wrongly

---
 src/surface/fast_marching_method.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 101777a..0dec46d 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -123,15 +123,21 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
       for (size_t i = 0; i < nNodes; i++) {
         const SurfacePoint& p = curve[i].first;
         if (p.type != SurfacePointType::Vertex) continue;
-        Halfedge startHe = p.vertex.halfedge();
-        Halfedge currHe = startHe;
-        while (true) {
-          if (signs[currHe.tipVertex()] != 0 && signs[currHe.tipVertex()] != signs[p.vertex] &&
-              signs[currHe.next().tipVertex()] == 0) {
-            signs[currHe.next().tipVertex()] = -1;
+        bool changed = true;
+        while (changed) {
+          changed = false;
+          for (Face f : p.vertex.adjacentFaces()) {
+            for (Halfedge he : f.adjacentHalfedges()) {
+              // the edge of the face opposite of the vertex
+              if (he.tailVertex() == p.vertex || he.tipVertex() == p.vertex) continue;
+              int& signA = signs[he.tailVertex()];
+              int& signB = signs[he.tipVertex()];
+              if ((signA == -1 && signB == 0) || (signA == 0 && signB == -1)) {
+                signA = signB = -1;
+                changed = true;
+              }
+            }
           }
-          currHe = currHe.next().next().twin();
-          if (currHe == startHe) break;
         }
       }
     }
-- 
2.43.0


From 175cb5b3d35894bc4b07da52ce9ae8d7729c13fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 064/123] fix: fast marching missed edges and swapped lengths
 on manifold meshes which are not a ManifoldSurfaceMesh

---
 src/surface/fast_marching_method.cpp | 42 +++++++++-------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 0dec46d..0c75428 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -212,13 +212,13 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
     nFound++;
 
     // Add any eligible neighbors
-    for (Halfedge he : currV.incomingHalfedges()) {
-      Vertex neighVert = he.vertex();
+    for (Edge e : currV.adjacentEdges()) {
+      Vertex neighVert = e.otherVertex(currV);
 
       // Add with length
       if (!finalized[neighVert] && !isSource[neighVert]) {
         if (signs[neighVert] == 0) signs[neighVert] = signs[currV];
-        double newDist = currDist + signs[neighVert] * geometry.edgeLengths[he.edge()];
+        double newDist = currDist + signs[neighVert] * geometry.edgeLengths[e];
         if (signs[neighVert] * newDist < signs[neighVert] * distances[neighVert] || std::isinf(distances[neighVert])) {
           frontierPQ.push(std::make_pair(newDist, neighVert));
           distances[neighVert] = newDist;
@@ -226,39 +226,23 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         continue;
       }
 
-      // Check the third point of the "left" triangle straddling this edge
-      if (he.isInterior()) {
+      // Check the third point of the triangles straddling this edge
+      // (the halfedges of the edge need not be oppositely oriented, nor start at each of its vertices)
+      for (Halfedge he : e.adjacentHalfedges()) {
+        if (!he.isInterior()) continue;
         Vertex newVert = he.next().next().vertex();
         if (!finalized[newVert] && !isSource[newVert]) {
 
           // Compute the distance
-          double lenB = geometry.edgeLengths[he.next().next().edge()];
+          bool fromCurr = (he.vertex() == currV);
+          Edge edgeCurr = fromCurr ? he.next().next().edge() : he.next().edge();
+          Edge edgeNeigh = fromCurr ? he.next().edge() : he.next().next().edge();
+          double lenB = geometry.edgeLengths[edgeNeigh];
           double distB = currDist;
-          double lenA = geometry.edgeLengths[he.next().edge()];
+          double lenA = geometry.edgeLengths[edgeCurr];
           double distA = distances[neighVert];
           double theta = geometry.cornerAngles[he.next().next().corner()];
-          if (signs[newVert] == 0) signs[newVert] = (signs[currV] != 0) ? signs[currV] : signs[he.next().vertex()];
-          double newDist = eikonalDistanceSubroutine(lenA, lenB, theta, distA, distB, signs[newVert]);
-          if (signs[newVert] * newDist < signs[newVert] * distances[newVert] || std::isinf(distances[newVert])) {
-            frontierPQ.push(std::make_pair(newDist, newVert));
-            distances[newVert] = newDist;
-          }
-        }
-      }
-
-      // Check the third point of the "right" triangle straddling this edge
-      Halfedge heT = he.twin();
-      if (heT.isInterior()) {
-        Vertex newVert = heT.next().next().vertex();
-        if (!finalized[newVert] && !isSource[newVert]) {
-
-          // Compute the distance
-          double lenB = geometry.edgeLengths[heT.next().edge()];
-          double distB = currDist;
-          double lenA = geometry.edgeLengths[heT.next().next().edge()];
-          double distA = distances[neighVert];
-          double theta = geometry.cornerAngles[heT.next().next().corner()];
-          if (signs[newVert] == 0) signs[newVert] = (signs[currV] != 0) ? signs[currV] : signs[he.next().vertex()];
+          if (signs[newVert] == 0) signs[newVert] = (signs[currV] != 0) ? signs[currV] : signs[neighVert];
           double newDist = eikonalDistanceSubroutine(lenA, lenB, theta, distA, distB, signs[newVert]);
           if (signs[newVert] * newDist < signs[newVert] * distances[newVert] || std::isinf(distances[newVert])) {
             frontierPQ.push(std::make_pair(newDist, newVert));
-- 
2.43.0


From f47da7ad0183de2c8448a45ef59757eccffa28dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 065/123] fix: signed fast marching updated triangles with the
 infinite distance of a source not reached yet

---
 src/surface/fast_marching_method.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 0c75428..8315c17 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -225,6 +225,8 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         }
         continue;
       }
+      // (a source which was not reached yet: the triangle is updated from there)
+      if (!finalized[neighVert]) continue;
 
       // Check the third point of the triangles straddling this edge
       // (the halfedges of the edge need not be oppositely oriented, nor start at each of its vertices)
-- 
2.43.0


From a9ed0b5ae89b585f1242a39fc93b7757ce39568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 066/123] fix: shift the semidefinite Laplacian in the Poisson
 solves of the vector, signed and polygon heat methods

---
 src/surface/polygon_mesh_heat_solver.cpp | 5 ++++-
 src/surface/signed_heat_method.cpp       | 7 +++++--
 src/surface/vector_heat_method.cpp       | 5 ++++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index a75f5c0..3d99aab 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -48,7 +48,10 @@ void PolygonMeshHeatSolver::ensureHaveVectorHeatSolver() {
 void PolygonMeshHeatSolver::ensureHavePoissonSolver() {
   if (poissonSolver != nullptr) return;
 
-  poissonSolver.reset(new PositiveDefiniteSolver<double>(laplaceMat));
+  // NOTE: The Laplacian is only positive SEMIdefinite (constants are in its kernel), so whether a Cholesky factorization
+  // succeeds would be up to rounding. Shift it by a tiny amount.
+  SparseMatrix<double> Ls = laplaceMat + 1e-10 * identityMatrix<double>(mesh.nVertices());
+  poissonSolver.reset(new PositiveDefiniteSolver<double>(Ls));
 }
 
 VertexData<double> PolygonMeshHeatSolver::computeDistance(const Vertex& sourceVert) {
diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index 4673618..36ee2ca 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -638,6 +638,7 @@ Vector<double> SignedHeatSolver::integrateWithLevelSetConstraints(const Vector<d
     phi = soln.head(V);
   } else {
     SparseMatrix<double> LHS = geom.cotanLaplacian + options.softLevelSetWeight * A.transpose() * A;
+    shiftDiagonal(LHS, 1e-10); // only positive SEMIdefinite otherwise
     phi = solvePositiveDefinite(LHS, rhs);
   }
 
@@ -791,8 +792,10 @@ void SignedHeatSolver::ensureHavePoissonSolver() {
 
   geom.requireCotanLaplacian();
 
-  SparseMatrix<double>& L = geom.cotanLaplacian;
-  poissonSolver.reset(new PositiveDefiniteSolver<double>(L));
+  // NOTE: The Laplacian is only positive SEMIdefinite (constants are in its kernel), so whether a Cholesky factorization
+  // succeeds would be up to rounding. Shift it by a tiny amount.
+  SparseMatrix<double> Ls = geom.cotanLaplacian + 1e-10 * identityMatrix<double>(mesh.nVertices());
+  poissonSolver.reset(new PositiveDefiniteSolver<double>(Ls));
 
   geom.unrequireCotanLaplacian();
 }
diff --git a/src/surface/vector_heat_method.cpp b/src/surface/vector_heat_method.cpp
index 081ecbb..cc9e11d 100644
--- a/src/surface/vector_heat_method.cpp
+++ b/src/surface/vector_heat_method.cpp
@@ -152,7 +152,10 @@ void VectorHeatMethodSolver::ensureHavePoissonSolver() {
   SparseMatrix<double>& L = geom.cotanLaplacian;
 
   // Build the operator
-  poissonSolver.reset(new PositiveDefiniteSolver<double>(L));
+  // NOTE: The Laplacian is only positive SEMIdefinite (constants are in its kernel), so whether a Cholesky factorization
+  // succeeds would be up to rounding. Shift it by a tiny amount.
+  SparseMatrix<double> Ls = L + 1e-10 * identityMatrix<double>(mesh.nVertices());
+  poissonSolver.reset(new PositiveDefiniteSolver<double>(Ls));
 
   geom.unrequireCotanLaplacian();
 }
-- 
2.43.0


From 15cbdf58667ba12a45698c8426e98b4fbb5c0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 067/123] fix: regularize the singular level set constraint
 systems of the signed and polygon heat methods

---
 src/surface/polygon_mesh_heat_solver.cpp | 7 +++++--
 src/surface/signed_heat_method.cpp       | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index 3d99aab..4d89d3a 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -255,8 +255,11 @@ VertexData<double> PolygonMeshHeatSolver::computeSignedDistance(const std::vecto
     }
     A.resize(m, V);
     A.setFromTriplets(triplets.begin(), triplets.end());
-    SparseMatrix<double> Z(m, m);
-    SparseMatrix<double> LHS1 = horizontalStack<double>({laplaceMat, A.transpose()});
+    // Regularize the saddle point problem: constants are in the kernel of the Laplacian, and the constraints are redundant
+    // if nodes are repeated (as in a closed curve).
+    SparseMatrix<double> Z = -1e-10 * identityMatrix<double>(m);
+    SparseMatrix<double> Ls = laplaceMat + 1e-10 * identityMatrix<double>(V);
+    SparseMatrix<double> LHS1 = horizontalStack<double>({Ls, A.transpose()});
     SparseMatrix<double> LHS2 = horizontalStack<double>({A, Z});
     SparseMatrix<double> LHS = verticalStack<double>({LHS1, LHS2});
     Vector<double> RHS = Vector<double>::Zero(V + m);
diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index 36ee2ca..c34c9a1 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -628,8 +628,11 @@ Vector<double> SignedHeatSolver::integrateWithLevelSetConstraints(const Vector<d
   // Assemble and solve system.
   Vector<double> phi;
   if (options.softLevelSetWeight < 0.) {
-    SparseMatrix<double> Z(m, m);
-    SparseMatrix<double> LHS1 = horizontalStack<double>({geom.cotanLaplacian, A.transpose()});
+    // Regularize the saddle point problem: constants are in the kernel of the Laplacian, and the constraints are redundant
+    // if nodes are repeated, or if there are many nodes in one face.
+    SparseMatrix<double> Z = -1e-10 * identityMatrix<double>(m);
+    SparseMatrix<double> Ls = geom.cotanLaplacian + 1e-10 * identityMatrix<double>(V);
+    SparseMatrix<double> LHS1 = horizontalStack<double>({Ls, A.transpose()});
     SparseMatrix<double> LHS2 = horizontalStack<double>({A, Z});
     SparseMatrix<double> LHS = verticalStack<double>({LHS1, LHS2});
     Vector<double> RHS = Vector<double>::Zero(V + m);
-- 
2.43.0


From 4a5578f0c6b949e3d2a5356aafeb56cfeefb3837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 068/123] fix: orientation of signed heat curve segments along
 part of an edge

---
 src/surface/signed_heat_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index c34c9a1..d603bc6 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -213,7 +213,7 @@ void SignedHeatSolver::buildSignedCurveSource(const Curve& curve, Vector<std::co
     if (commonEdge != Edge()) {
       size_t eIdx = geom.edgeIndices[commonEdge];
       std::complex<double> innerProd(0, 1);
-      if (pA.vertex == commonEdge.secondVertex()) innerProd.imag(-1);
+      if (pA.inEdge(commonEdge).tEdge > pB.inEdge(commonEdge).tEdge) innerProd.imag(-1);
       double length = lengthOfSegment(pA, pB);
       std::complex<double> contrib = length * innerProd;
       X0[eIdx] += contrib;
-- 
2.43.0


From aad4bc0b5f3aac66b6c245e23f9dd117e6b869e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 069/123] fix: regularize the source normal constraint system
 of the signed heat method

---
 src/surface/signed_heat_method.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index d603bc6..c3c851b 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -126,7 +126,11 @@ Vector<std::complex<double>> SignedHeatSolver::integrateVectorHeatFlow(const std
     C.resize(m, 2 * E);
     C.setFromTriplets(triplets.begin(), triplets.end());
 
-    SparseMatrix<double> Z(m, m);
+    // Regularize the saddle point problem, since the constraints are redundant if several segments of a curve lie along one
+    // edge, or many of them in one face.
+    SparseMatrix<double> CCt = C * C.transpose();
+    Vector<double> zDiag = (-1e-10 / doubleVectorOp.diagonal().mean()) * CCt.diagonal();
+    SparseMatrix<double> Z(zDiag.asDiagonal());
     SparseMatrix<double> LHS1 = horizontalStack<double>({doubleVectorOp, C.transpose()});
     SparseMatrix<double> LHS2 = horizontalStack<double>({C, Z});
     SparseMatrix<double> LHS = verticalStack<double>({LHS1, LHS2});
-- 
2.43.0


From a330e51b9795eb22cd7dc57ee7ff7688b7d0f5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 070/123] fix: unsigned signed-heat curves along boundary edges

---
 src/surface/signed_heat_method.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index c3c851b..91a1f92 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -253,6 +253,7 @@ void SignedHeatSolver::buildUnsignedCurveSource(const Curve& curve, Vector<std::
     Halfedge commonHalfedge = determineHalfedgeFromVertices(vA, vB);
     Edge commonEdge = commonHalfedge.edge();
     for (Halfedge he : commonEdge.adjacentHalfedges()) {
+      if (!he.isInterior()) continue; // boundary edges have a face on one side only
       // Ordinarily, "double-sided" vector information would cancel out along the edge. So in each face, "smear"
       // the info out a bit by parallel-transporting the initial vectors to other edges in adjacent faces.
       Face f = he.face();
-- 
2.43.0


From 0343828f53a647e0802de85e2902cc4c425ec141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 071/123] fix: NaN in the polygon heat method for a zero
 gradient

---
 src/surface/polygon_mesh_heat_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index 4d89d3a..33678d0 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -82,7 +82,7 @@ VertexData<double> PolygonMeshHeatSolver::computeDistance(const std::vector<Vert
   Vector<double> Y = geom.polygonGradientMatrix * X; // 3|F|
   for (size_t i = 0; i < F; i++) {
     Vector3 g = {Y[3 * i], Y[3 * i + 1], Y[3 * i + 2]};
-    g /= g.norm();
+    g = g.normalizeCutoff();
     for (int j = 0; j < 3; j++) Y[3 * i + j] = g[j];
   }
 
@@ -203,7 +203,7 @@ VertexData<double> PolygonMeshHeatSolver::computeSignedDistance(const std::vecto
       Yf += std::real(Xt[vIdx]) * geom.vertexTangentBasis[v][0];
       Yf += std::imag(Xt[vIdx]) * geom.vertexTangentBasis[v][1];
     }
-    Yf /= Yf.norm();
+    Yf = Yf.normalizeCutoff();
     size_t fIdx = geom.faceIndices[f];
     for (int j = 0; j < 3; j++) {
       Y[3 * fIdx + j] = Yf[j];
-- 
2.43.0


From 1dd1e92e374335033846c2d73721623f2534afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 072/123] fix: weaker regularization of the constraint systems
 of the signed and polygon heat methods

---
 src/surface/polygon_mesh_heat_solver.cpp | 2 +-
 src/surface/signed_heat_method.cpp       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index 33678d0..9b3c1b3 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -257,7 +257,7 @@ VertexData<double> PolygonMeshHeatSolver::computeSignedDistance(const std::vecto
     A.setFromTriplets(triplets.begin(), triplets.end());
     // Regularize the saddle point problem: constants are in the kernel of the Laplacian, and the constraints are redundant
     // if nodes are repeated (as in a closed curve).
-    SparseMatrix<double> Z = -1e-10 * identityMatrix<double>(m);
+    SparseMatrix<double> Z = -1e-13 * identityMatrix<double>(m);
     SparseMatrix<double> Ls = laplaceMat + 1e-10 * identityMatrix<double>(V);
     SparseMatrix<double> LHS1 = horizontalStack<double>({Ls, A.transpose()});
     SparseMatrix<double> LHS2 = horizontalStack<double>({A, Z});
diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index 91a1f92..b4edb8c 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -129,7 +129,7 @@ Vector<std::complex<double>> SignedHeatSolver::integrateVectorHeatFlow(const std
     // Regularize the saddle point problem, since the constraints are redundant if several segments of a curve lie along one
     // edge, or many of them in one face.
     SparseMatrix<double> CCt = C * C.transpose();
-    Vector<double> zDiag = (-1e-10 / doubleVectorOp.diagonal().mean()) * CCt.diagonal();
+    Vector<double> zDiag = (-1e-13 / doubleVectorOp.diagonal().mean()) * CCt.diagonal();
     SparseMatrix<double> Z(zDiag.asDiagonal());
     SparseMatrix<double> LHS1 = horizontalStack<double>({doubleVectorOp, C.transpose()});
     SparseMatrix<double> LHS2 = horizontalStack<double>({C, Z});
@@ -635,7 +635,7 @@ Vector<double> SignedHeatSolver::integrateWithLevelSetConstraints(const Vector<d
   if (options.softLevelSetWeight < 0.) {
     // Regularize the saddle point problem: constants are in the kernel of the Laplacian, and the constraints are redundant
     // if nodes are repeated, or if there are many nodes in one face.
-    SparseMatrix<double> Z = -1e-10 * identityMatrix<double>(m);
+    SparseMatrix<double> Z = -1e-13 * identityMatrix<double>(m);
     SparseMatrix<double> Ls = geom.cotanLaplacian + 1e-10 * identityMatrix<double>(V);
     SparseMatrix<double> LHS1 = horizontalStack<double>({Ls, A.transpose()});
     SparseMatrix<double> LHS2 = horizontalStack<double>({A, Z});
-- 
2.43.0


From 61c3a1ea32ac2066df86af41d8399454211d0c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 073/123] fix: polygon heat method on meshes which are not
 compressed

---
 src/surface/polygon_mesh_heat_solver.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index 9b3c1b3..e0f1cb4 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -106,15 +106,17 @@ VertexData<double> PolygonMeshHeatSolver::extendScalars(const std::vector<std::t
 
   ensureHaveScalarHeatSolver();
 
+  geom.requireVertexIndices();
   size_t V = mesh.nVertices();
   Vector<double> rhsVals = Vector<double>::Zero(V);
   Vector<double> rhsOnes = Vector<double>::Zero(V);
   for (size_t i = 0; i < sources.size(); i++) {
-    size_t ind = std::get<0>(sources[i]).getIndex();
+    size_t ind = geom.vertexIndices[std::get<0>(sources[i])];
     double val = std::get<1>(sources[i]);
     rhsVals[ind] = val;
     rhsOnes[ind] = 1.;
   }
+  geom.unrequireVertexIndices();
 
   Vector<double> interpVals = scalarHeatSolver->solve(rhsVals);
   Vector<double> interpOnes = scalarHeatSolver->solve(rhsOnes);
@@ -156,7 +158,6 @@ PolygonMeshHeatSolver::transportTangentVectors(const std::vector<std::tuple<Vert
       normsAllSame = false;
     }
   }
-  geom.unrequireVertexIndices();
 
   // Transport
   Vector<std::complex<double>> vecSolution = vectorHeatSolver->solve(dirRHS);
@@ -165,14 +166,15 @@ PolygonMeshHeatSolver::transportTangentVectors(const std::vector<std::tuple<Vert
   VertexData<Vector2> solution(mesh);
   if (normsAllSame) {
     vecSolution = (vecSolution.array() / vecSolution.array().abs()) * firstNorm;
-    for (size_t i = 0; i < V; i++) solution[i] = Vector2::fromComplex(vecSolution[i]);
+    for (Vertex v : mesh.vertices()) solution[v] = Vector2::fromComplex(vecSolution[geom.vertexIndices[v]]);
   } else {
     VertexData<double> interpMags = extendScalars(magnitudeSources);
-    for (size_t i = 0; i < V; i++) {
-      Vector2 dir = Vector2::fromComplex(vecSolution[i]).normalize();
-      solution[i] = dir * interpMags[i];
+    for (Vertex v : mesh.vertices()) {
+      Vector2 dir = Vector2::fromComplex(vecSolution[geom.vertexIndices[v]]).normalize();
+      solution[v] = dir * interpMags[v];
     }
   }
+  geom.unrequireVertexIndices();
 
   return solution;
 }
-- 
2.43.0


From 8d7acc2a0ab14f7b5630758e30c1ade5c5548ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 074/123] fix: AffineAdaptive log map on meshes which are not
 compressed

---
 src/surface/vector_heat_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/vector_heat_method.cpp b/src/surface/vector_heat_method.cpp
index cc9e11d..5ab3508 100644
--- a/src/surface/vector_heat_method.cpp
+++ b/src/surface/vector_heat_method.cpp
@@ -414,7 +414,7 @@ VertexData<Vector2> VectorHeatMethodSolver::computeLogMap_AffineAdaptive(const V
     // Do the translation using the values at i
     // (we could equivalently do it at j)
     Vector2 eij = geom.halfedgeVectorsInVertex[he];
-    Vector2 Xi = parallel_section[iTail];
+    Vector2 Xi = parallel_section[he.vertex()];
     Vector2 t = -eij / Xi;
 
     // The developing connection
-- 
2.43.0


From 35c1b5ea484863cc93aa0bd50d60da8c16b49204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 075/123] fix: flip geodesics never straightened the corner at
 the base of a loop

---
 src/surface/flip_geodesics.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index a9abbcb..821fec6 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -67,6 +67,9 @@ FlipEdgePath::FlipEdgePath(FlipEdgeNetwork& network_, std::vector<Halfedge> half
     std::get<1>(pathHeInfo[firstID]) = lastID;
     std::get<2>(pathHeInfo[lastID]) = firstID;
 
+    // The corner at the base of the loop could not be measured above
+    network.addToWedgeAngleQueue({this, firstID});
+
   } else {
 
     // Set marked vertex flags for endpoints
-- 
2.43.0


From 4983e4ef7df4851eb2f596172132e45c325d3ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 076/123] fix: flip geodesics took the queue entry of the
 larger angle at a vertex for stale

---
 src/surface/flip_geodesics.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index 821fec6..6693d8c 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -942,7 +942,14 @@ void FlipEdgeNetwork::iterativeShorten(size_t maxIterations, double maxRelativeL
     if (path.pathHeInfo.find(pathSegment.id) == path.pathHeInfo.end()) {
       continue; // segment no longer exists
     }
-    double currAngle = minWedgeAngle(pathSegment);
+    SegmentID prevID = std::get<1>(path.pathHeInfo[pathSegment.id]);
+    if (prevID == INVALID_IND) {
+      continue; // no wedge any more
+    }
+    // NOTE: both sides of a segment may be in the queue
+    double leftAngle, rightAngle;
+    std::tie(leftAngle, rightAngle) = measureSideAngles(std::get<0>(path.pathHeInfo[prevID]), pathSegment.halfedge());
+    double currAngle = (angleType == SegmentAngleType::LeftTurn) ? leftAngle : rightAngle;
     if (currAngle != minAngle) {
       continue; // angle has changed
     }
-- 
2.43.0


From 50ee6726bad5dcd1f0a72812332ae910b03c1cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 077/123] fix: FlipEdgeNetwork::constructFromEdgeSet ignored
 the extra marked vertices

---
 src/surface/flip_geodesics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index 6693d8c..47fd1ae 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -395,7 +395,7 @@ std::unique_ptr<FlipEdgeNetwork> FlipEdgeNetwork::constructFromEdgeSet(ManifoldS
     } while (heCurr != heStart);
   }
 
-  return std::unique_ptr<FlipEdgeNetwork>(new FlipEdgeNetwork(mesh_, geom, allHalfedges));
+  return std::unique_ptr<FlipEdgeNetwork>(new FlipEdgeNetwork(mesh_, geom, allHalfedges, extraMarkedVertices));
 }
 
 
-- 
2.43.0


From 1bc9d7e6f120f6628be262b11d2f87df2f700ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 078/123] fix: flip geodesics did not terminate, or increased
 the length, for loops which contract to a single edge

---
 src/surface/flip_geodesics.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index 47fd1ae..913383b 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -866,8 +866,10 @@ void FlipEdgeNetwork::processSingleEdgeLoop(FlipPathSegment& pathSegment, Segmen
   std::tie(he, UNUSED1, UNUSED2) = edgePath.pathHeInfo[id];
 
 
-  // == Replace the old segment with the two opposite edges of the triangle
+  // == Replace the old segment with the two opposite edges of the triangle, and shorten at the base vertex right away.
+  // (the two edges alone are longer than the loop, and their corner at the apex would lead straight back to it)
 
+  SegmentID firstID, secondID;
   switch (angleType) {
   case SegmentAngleType::Shortest: {
     // nothing to do, probably shouldn't even be here
@@ -879,8 +881,11 @@ void FlipEdgeNetwork::processSingleEdgeLoop(FlipPathSegment& pathSegment, Segmen
     Halfedge heFirst = he.next().next().twin();
     Halfedge heSecond = he.next().twin();
 
-    SegmentID firstID = getNextUniquePathSegmentInd();
-    SegmentID secondID = getNextUniquePathSegmentInd();
+    // The loop contracts to its apex, there is no shorter loop along edges
+    if (heFirst == heSecond.twin()) return;
+
+    firstID = getNextUniquePathSegmentInd();
+    secondID = getNextUniquePathSegmentInd();
 
     edgePath.pathHeInfo.erase(id);
     popOutsideSegment(he);
@@ -890,9 +895,6 @@ void FlipEdgeNetwork::processSingleEdgeLoop(FlipPathSegment& pathSegment, Segmen
     pushOutsideSegment(heFirst.twin(), FlipPathSegment{&edgePath, firstID});
     pushOutsideSegment(heSecond.twin(), FlipPathSegment{&edgePath, secondID});
 
-    addToWedgeAngleQueue(FlipPathSegment{&edgePath, firstID});
-    addToWedgeAngleQueue(FlipPathSegment{&edgePath, secondID});
-
     break;
   }
   case SegmentAngleType::RightTurn: {
@@ -900,8 +902,11 @@ void FlipEdgeNetwork::processSingleEdgeLoop(FlipPathSegment& pathSegment, Segmen
     Halfedge heFirst = he.twin().next();
     Halfedge heSecond = he.twin().next().next();
 
-    SegmentID firstID = getNextUniquePathSegmentInd();
-    SegmentID secondID = getNextUniquePathSegmentInd();
+    // The loop contracts to its apex, there is no shorter loop along edges
+    if (heFirst == heSecond.twin()) return;
+
+    firstID = getNextUniquePathSegmentInd();
+    secondID = getNextUniquePathSegmentInd();
 
     edgePath.pathHeInfo.erase(id);
     popOutsideSegment(he.twin());
@@ -911,12 +916,12 @@ void FlipEdgeNetwork::processSingleEdgeLoop(FlipPathSegment& pathSegment, Segmen
     pushOutsideSegment(heFirst, FlipPathSegment{&edgePath, firstID});
     pushOutsideSegment(heSecond, FlipPathSegment{&edgePath, secondID});
 
-    addToWedgeAngleQueue(FlipPathSegment{&edgePath, firstID});
-    addToWedgeAngleQueue(FlipPathSegment{&edgePath, secondID});
-
     break;
   }
   }
+
+  FlipPathSegment baseSegment{&edgePath, firstID};
+  locallyShortenAt(baseSegment, angleType);
 }
 
 void FlipEdgeNetwork::iterativeShorten(size_t maxIterations, double maxRelativeLengthDecrease) {
-- 
2.43.0


From cf95abfb7fd8615b1f7e77bf003ba93a1c4bb228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 079/123] fix: flip geodesics left corners unstraightened next
 to a split edge

---
 src/surface/flip_geodesics.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index 913383b..95008d2 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -1820,6 +1820,7 @@ void FlipEdgeNetwork::updatePathAfterEdgeSplit(Halfedge origHe, Halfedge newHeFr
   // NOTE: shouldn't need to add to wedge angle queue for straightening, the newly created wedge is straight, since
   // it's a subdivided (geodesic) edge, but do so anyway to think less about numerics
   addToWedgeAngleQueue(newSeg);
+  if (nextID != INVALID_IND) addToWedgeAngleQueue(FlipPathSegment{path, nextID}); // same for the wedge after the edge
 
   // validate();
 }
-- 
2.43.0


From 169d292fa89babd0ea3bba3e4add1e98bfeb5745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 080/123] fix: flip geodesics did not reconsider all corners
 which a shortening step may have unblocked

---
 src/surface/flip_geodesics.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index 95008d2..e39721f 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -175,13 +175,16 @@ void FlipEdgePath::replacePathSegment(SegmentID nextID, SegmentAngleType angleTy
     network.addToWedgeAngleQueue({this, firstAddedID});
   }
 
-  // Reconsider any outside segments that share the edge, as they may have become unblocked by this move
-  if (angleType == SegmentAngleType::LeftTurn) {
-    network.addToWedgeAngleQueue(network.getOutsideSegment(heNext)); // auto-exits if null
-    network.addToWedgeAngleQueue(network.getOutsideSegment(hePrev));
-  } else /* RightTurn */ {
-    network.addToWedgeAngleQueue(network.getOutsideSegment(heNext.twin()));
-    network.addToWedgeAngleQueue(network.getOutsideSegment(hePrev.twin()));
+  // Reconsider any corners at the vertices of the old edges, as they may have become unblocked by this move
+  for (Vertex v : {hePrev.vertex(), heNext.vertex(), heNext.twin().vertex()}) {
+    for (Halfedge he : v.outgoingHalfedges()) {
+      for (FlipPathSegment& seg : network.pathsAtEdge[he.edge()]) {
+        SegmentID cornerID = (seg.halfedge() == he) ? seg.id : std::get<2>(seg.path->pathHeInfo[seg.id]);
+        if (cornerID != INVALID_IND) {
+          network.addToWedgeAngleQueue({seg.path, cornerID});
+        }
+      }
+    }
   }
 }
 
-- 
2.43.0


From 96a124f3d44f37c2ab165ee0dafb041114b69e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:08 +0000
Subject: [PATCH 081/123] fix: MutationManager::collapseEdge() by position
 reported tCollapse = -1

---
 src/surface/mutation_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 31b8483..9352083 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -214,7 +214,7 @@ Vertex MutationManager::collapseEdge(Edge e, Vector3 newVertexPosition) {
     VertexData<Vector3>& pos = geometry->vertexPositions;
     Vector3 posTail = pos[e.halfedge().tailVertex()];
     Vector3 posTip = pos[e.halfedge().tipVertex()];
-    double tCollapse = pointLineSegmentNeaestLocation(newVertexPosition, posTail, posTip);
+    tCollapse = pointLineSegmentNeaestLocation(newVertexPosition, posTail, posTip);
   }
 
   return collapseEdge(e, tCollapse, newVertexPosition);
-- 
2.43.0


From 4466eb381ecb2c146bddf16b4ea2001816960eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:08 +0000
Subject: [PATCH 082/123] fix: MutationManager::removePolicy() left dangling
 face split policies

---
 src/surface/mutation_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 9352083..8f59763 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -393,6 +393,7 @@ void MutationManager::removePolicy(const MutationPolicyHandle& toRemove) {
   removeFromVector(edgeFlipPolicies, toRemove.policy);
   removeFromVector(edgeSplitPolicies, toRemove.policy);
   removeFromVector(edgeCollapsePolicies, toRemove.policy);
+  removeFromVector(faceSplitPolicies, toRemove.policy);
 
   // deletion happens here
   removeUniquePtrFromVector(allPolicies, toRemove.policy);
-- 
2.43.0


From ea0d16010863a3af17476eb6036aa018fc1f5d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:08 +0000
Subject: [PATCH 083/123] fix: loopSubdivide() did not flip edges through the
 mutation manager

---
 src/surface/subdivide.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/subdivide.cpp b/src/surface/subdivide.cpp
index adfe0f0..e7c667e 100644
--- a/src/surface/subdivide.cpp
+++ b/src/surface/subdivide.cpp
@@ -243,7 +243,7 @@ void loopSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo, Mutat
   }
 
   for (Edge e : toFlip) {
-    mesh.flip(e);
+    mm.flipEdge(e);
   }
 
   mesh.compress();
-- 
2.43.0


From ac0c09e03e6ba66d38982e1e8da941d1658d0fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:08 +0000
Subject: [PATCH 084/123] fix: adjustEdgeLengths() ignored that a negative
 target length is relative to the mean length, remesh() used stale lengths for
 it

---
 src/surface/remeshing.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/surface/remeshing.cpp b/src/surface/remeshing.cpp
index fa73e07..b7dd754 100644
--- a/src/surface/remeshing.cpp
+++ b/src/surface/remeshing.cpp
@@ -6,23 +6,25 @@ namespace surface {
 // The default trace options
 const RemeshOptions defaultRemeshOptions;
 
+// A negative target length is relative to the mean edge length of the input mesh
+double absoluteTargetLength(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, const RemeshOptions& options) {
+  if (options.targetEdgeLength >= 0) return options.targetEdgeLength;
+
+  double meanLength = 0;
+  for (Edge e : mesh.edges()) {
+    meanLength += geom.edgeLength(e);
+  }
+  meanLength /= mesh.nEdges();
+  return std::abs(options.targetEdgeLength * meanLength);
+}
+
 void remesh(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, RemeshOptions options) {
   MutationManager mm(mesh, geom);
   return remesh(mesh, geom, mm, options);
 }
 
 void remesh(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, MutationManager& mm, RemeshOptions options) {
-  if (options.targetEdgeLength < 0) {
-    double meanLength = 0;
-    geom.requireEdgeLengths();
-    for (Edge e : mesh.edges()) {
-      meanLength += geom.edgeLengths[e];
-    }
-    geom.unrequireEdgeLengths();
-    meanLength /= mesh.nEdges();
-
-    options.targetEdgeLength = abs(options.targetEdgeLength * meanLength);
-  }
+  options.targetEdgeLength = absoluteTargetLength(mesh, geom, options);
 
   bool doConnectivityChanges = true;
 
@@ -367,6 +369,7 @@ bool adjustEdgeLengths(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom,
   geom.requireVertexDualAreas();
   geom.requireVertexMeanCurvatures();
 
+  options.targetEdgeLength = absoluteTargetLength(mesh, geom, options);
   double curvatureAdaptation = options.curvatureAdaptation;
   bool useCurvatureAdaptation = curvatureAdaptation > 0;
   double flatLength = options.targetEdgeLength;
-- 
2.43.0


From 68ee3132931bdf311fa1fc80535f8f48a72bfc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:49 +0000
Subject: [PATCH 085/123] fix: Catmull-Clark weights, boundary rules of
 Catmull-Clark and Loop subdivision (read faces of boundary loops)

---
 src/surface/subdivide.cpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/surface/subdivide.cpp b/src/surface/subdivide.cpp
index e7c667e..13b12d5 100644
--- a/src/surface/subdivide.cpp
+++ b/src/surface/subdivide.cpp
@@ -3,6 +3,17 @@
 namespace geometrycentral {
 namespace surface {
 
+namespace {
+// Boundary curves are subdivided as cubic B-splines
+Vector3 subdividedBoundaryVertex(const VertexData<Vector3>& pos, Vertex v) {
+  Vector3 newPos = 3. / 4. * pos[v];
+  for (Edge e : v.adjacentEdges()) {
+    if (e.isBoundary()) newPos += pos[e.otherVertex(v)] / 8.;
+  }
+  return newPos;
+}
+} // namespace
+
 void linearSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo) {
 
   VertexData<Vector3>& pos = geo.inputVertexPositions;
@@ -101,16 +112,26 @@ void catmullClarkSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& ge
 
   EdgeData<Vector3> splitEdgePositions(mesh);
   for (Edge e : mesh.edges()) {
-    std::array<Face, 2> neigh{e.halfedge().face(), e.halfedge().twin().face()};
-    splitEdgePositions[e] = (splitFacePositions[neigh[0]] + splitFacePositions[neigh[1]]) / 2.;
+    Vector3 midpoint = (pos[e.halfedge().tailVertex()] + pos[e.halfedge().tipVertex()]) / 2.;
+    if (e.isBoundary()) {
+      splitEdgePositions[e] = midpoint;
+    } else {
+      std::array<Face, 2> neigh{e.halfedge().face(), e.halfedge().twin().face()};
+      Vector3 faceMean = (splitFacePositions[neigh[0]] + splitFacePositions[neigh[1]]) / 2.;
+      splitEdgePositions[e] = (midpoint + faceMean) / 2.;
+    }
   }
 
   for (Vertex v : mesh.vertices()) {
+    if (v.isBoundary()) {
+      newPositions[v] = subdividedBoundaryVertex(pos, v);
+      continue;
+    }
     double D = (double)v.degree();
     Vector3 S = geo.inputVertexPositions[v];
-    Vector3 R = Vector3::zero();
+    Vector3 R = Vector3::zero(); // mean of the midpoints of the adjacent edges
     for (Edge e : v.adjacentEdges()) {
-      R += splitEdgePositions[e] / D;
+      R += (pos[e.halfedge().tailVertex()] + pos[e.halfedge().tipVertex()]) / (2. * D);
     }
     Vector3 Q = Vector3::zero();
     for (Face f : v.adjacentFaces()) {
@@ -194,6 +215,10 @@ void loopSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo, Mutat
   // Compute new positions for original vertices
   VertexData<Vector3> newPositions(mesh);
   for (Vertex v : mesh.vertices()) {
+    if (v.isBoundary()) {
+      newPositions[v] = subdividedBoundaryVertex(pos, v);
+      continue;
+    }
     double n = (double)v.degree();
     double u = (n == 3) ? 3. / 16. : 3. / (8. * n);
     newPositions[v] = (1 - n * u) * pos[v];
-- 
2.43.0


From 61e75e7b1ea0e330f690e8d1cb064d4c5bcbf6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:12 +0000
Subject: [PATCH 086/123] fix: collapseEdgeTriangular() threw for a degree 2
 vertex instead of reporting it as not collapsible (quadricErrorSimplify()
 failed on closed meshes)

---
 src/surface/manifold_surface_mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index a7e4c07..d9d35fb 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1292,8 +1292,8 @@ Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
     }
 
     else {
-      // return heA0.vertex();
-      throw std::runtime_error("Collapsing interior vertices with degree < 3 is not supported.");
+      // an interior vertex of degree < 3 cannot be collapsed
+      return Vertex();
     }
   }
 
-- 
2.43.0


From b1591461399bd056f73ab9805a400c682a511572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 087/123] fix: BFF::dirichletToNeumann() used the scale factors
 with the wrong sign

---
 src/surface/boundary_first_flattening.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface/boundary_first_flattening.cpp b/src/surface/boundary_first_flattening.cpp
index d479c91..87bb78b 100644
--- a/src/surface/boundary_first_flattening.cpp
+++ b/src/surface/boundary_first_flattening.cpp
@@ -129,7 +129,8 @@ VertexData<Vector2> BFF::flattenFromBoth(const Vector<double>& uBdy, const Vecto
 }
 
 Vector<double> BFF::dirichletToNeumann(const Vector<double>& uBdy) {
-  return Omegab - (Lib.transpose() * Liisolver->solve(Omegai - Lib * uBdy)) - Lbb * uBdy;
+  // Interior scale factors satisfy L u = -Omega (with zero target curvature), then k = Omega + L u at the boundary
+  return Omegab - (Lib.transpose() * Liisolver->solve(Omegai + Lib * uBdy)) + Lbb * uBdy;
 }
 
 Vector<double> BFF::neumannToDirichlet(const Vector<double>& kBdy) {
-- 
2.43.0


From bc9c4c3bd8355acc5e163f65e1cc025793c8bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 088/123] fix: BFF factorized the singular Laplacian (the
 shifted one was a shadowing local variable)

---
 src/surface/boundary_first_flattening.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/boundary_first_flattening.cpp b/src/surface/boundary_first_flattening.cpp
index 87bb78b..ec9d001 100644
--- a/src/surface/boundary_first_flattening.cpp
+++ b/src/surface/boundary_first_flattening.cpp
@@ -49,7 +49,7 @@ BFF::BFF(ManifoldSurfaceMesh& mesh_, IntrinsicGeometryInterface& geo_) : mesh(me
   nBoundary = nVertices - nInterior;
 
   geo.requireCotanLaplacian();
-  SparseMatrix<double> L = geo.cotanLaplacian;
+  L = geo.cotanLaplacian;
   shiftDiagonal(L, 1e-12);
 
   Ldecomp = blockDecomposeSquare(L, isInterior);
-- 
2.43.0


From fdf1b9efba0c9ad3e714c537e3d8e6edc7412d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 089/123] fix: parameterizeDisk(), uniformizeDisk() and BFF
 accepted surfaces which are no disks (torus, closed surfaces, several
 components)

---
 src/surface/boundary_first_flattening.cpp |  2 +-
 src/surface/parameterize.cpp              | 10 +++-------
 src/surface/uniformize.cpp                |  9 +++------
 3 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/surface/boundary_first_flattening.cpp b/src/surface/boundary_first_flattening.cpp
index ec9d001..30edb83 100644
--- a/src/surface/boundary_first_flattening.cpp
+++ b/src/surface/boundary_first_flattening.cpp
@@ -22,7 +22,7 @@ VertexData<Vector2> parameterizeBFFfromExteriorAngles(ManifoldSurfaceMesh& mesh,
 
 BFF::BFF(ManifoldSurfaceMesh& mesh_, IntrinsicGeometryInterface& geo_) : mesh(mesh_), geo(geo_) {
 
-  GC_SAFETY_ASSERT(mesh.eulerCharacteristic() == 2 && mesh.nBoundaryLoops() == 1,
+  GC_SAFETY_ASSERT(mesh.eulerCharacteristic() == 2 && mesh.nBoundaryLoops() == 1 && mesh.nConnectedComponents() == 1,
                    "Input to BFF must be a topological disk");
 
   vIdx = mesh.getVertexIndices();
diff --git a/src/surface/parameterize.cpp b/src/surface/parameterize.cpp
index 04c86ec..aa6667f 100644
--- a/src/surface/parameterize.cpp
+++ b/src/surface/parameterize.cpp
@@ -17,14 +17,10 @@ namespace surface {
 VertexData<Vector2> parameterizeDisk(ManifoldSurfaceMesh& origMesh, IntrinsicGeometryInterface& origGeom) {
   // Check that it's a (punctured) disk
 
-  /*
-   if ((long long int)origMesh.eulerCharacteristic() - (long long int)(2 * origMesh.nBoundaryLoops()) != -2) {
-    long long int val =
-        ((long long int)origMesh.eulerCharacteristic() - (long long int)(2 * origMesh.nBoundaryLoops()));
-    throw std::runtime_error("parameterizeDisk(): input origMesh must be a (possibly punctured) disk, chi - 2b = " +
-                             std::to_string(val));
+  if (origMesh.eulerCharacteristic() != 2 || origMesh.nBoundaryLoops() == 0 || origMesh.nConnectedComponents() != 1) {
+    throw std::runtime_error("parameterizeDisk(): input must be a (possibly punctured) disk, chi = " +
+                             std::to_string(origMesh.eulerCharacteristic()));
   }
-  */
 
   // Get uniformized edge lengths
   // Copy the mesh, since we will flip its edges
diff --git a/src/surface/uniformize.cpp b/src/surface/uniformize.cpp
index 8885d3e..c55c469 100644
--- a/src/surface/uniformize.cpp
+++ b/src/surface/uniformize.cpp
@@ -12,13 +12,10 @@ namespace surface {
 EdgeData<double> uniformizeDisk(ManifoldSurfaceMesh& mesh, IntrinsicGeometryInterface& geometry, bool withEdgeFlips) {
 
   // Check that it's a (punctured) disk
-  /*
-  if ((long long int)mesh.eulerCharacteristic() - (long long int)(2 * mesh.nBoundaryLoops()) != -2) {
-    long long int val = ((long long int)mesh.eulerCharacteristic() - (long long int)(2 * mesh.nBoundaryLoops()));
-    throw std::runtime_error("uniformizeDisk(): input must be a (possibly punctured) disk, chi - 2b = " +
-                             std::to_string(val));
+  if (mesh.eulerCharacteristic() != 2 || mesh.nBoundaryLoops() == 0 || mesh.nConnectedComponents() != 1) {
+    throw std::runtime_error("uniformizeDisk(): input must be a (possibly punctured) disk, chi = " +
+                             std::to_string(mesh.eulerCharacteristic()));
   }
-  */
 
 
   geometry.requireEdgeLengths();
-- 
2.43.0


From 83406a0d04b111ade36a01a69e16a2932751ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 090/123] fix: uniformizeDisk() and parameterizeDisk() accessed
 deleted elements of uncompressed meshes

---
 src/surface/parameterize.cpp | 2 +-
 src/surface/uniformize.cpp   | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/surface/parameterize.cpp b/src/surface/parameterize.cpp
index aa6667f..cd4e37f 100644
--- a/src/surface/parameterize.cpp
+++ b/src/surface/parameterize.cpp
@@ -59,7 +59,7 @@ VertexData<Vector2> parameterizeDisk(ManifoldSurfaceMesh& origMesh, IntrinsicGeo
   };
 
   // initialize the layout
-  Halfedge he0 = mesh.halfedge(0);
+  Halfedge he0 = *mesh.halfedges().begin();
   Vertex v0 = he0.vertex();
   Vertex v1 = he0.twin().vertex();
   coords[v0] = Vector2{0., 0.};
diff --git a/src/surface/uniformize.cpp b/src/surface/uniformize.cpp
index c55c469..96ed866 100644
--- a/src/surface/uniformize.cpp
+++ b/src/surface/uniformize.cpp
@@ -35,11 +35,13 @@ EdgeData<double> uniformizeDisk(ManifoldSurfaceMesh& mesh, IntrinsicGeometryInte
   size_t N = mesh.nVertices();
   size_t N_b = 0;
   Vector<bool> isInterior(N);
-  for (size_t i = 0; i < N; i++) {
-    isInterior(i) = !mesh.vertex(i).isBoundary();
-    if (!isInterior(i)) {
+  size_t iV = 0;
+  for (Vertex v : mesh.vertices()) {
+    isInterior(iV) = !v.isBoundary();
+    if (!isInterior(iV)) {
       N_b++;
     }
+    iV++;
   }
 
 
-- 
2.43.0


From 46f347e3f9189e0f33bc53512dec706f3974f49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:00 +0000
Subject: [PATCH 091/123] fix: embedConvex() reported success for radii which
 do not form tetrahedra (clamped dihedral angles)

---
 include/geometrycentral/surface/embed_convex.h |  3 +++
 src/surface/embed_convex.cpp                   | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/geometrycentral/surface/embed_convex.h b/include/geometrycentral/surface/embed_convex.h
index cbd6851..58c3895 100644
--- a/include/geometrycentral/surface/embed_convex.h
+++ b/include/geometrycentral/surface/embed_convex.h
@@ -104,6 +104,9 @@ protected:
   // negative, the triangle inequality has been violated.
   double minTriSlack();
 
+  // Do the boundary triangles and radii form tetrahedra?
+  bool tetrahedraValid();
+
   // Local geometry
   double l(Edge ij);        // length of boundary edge ij
   double l(Halfedge ij);    // length of boundary edge ij.edge()
diff --git a/src/surface/embed_convex.cpp b/src/surface/embed_convex.cpp
index 3b84819..5e6aecc 100644
--- a/src/surface/embed_convex.cpp
+++ b/src/surface/embed_convex.cpp
@@ -338,7 +338,7 @@ bool ConvexEmbedder::solveNewton(VertexData<double> kappaStar) {
         size_t I = i.getIndex();
         r[i] = r0[i] - tau * v[I];
       }
-      if (minTriSlack() < 1e-3) { // triangles fail to strictly satisfy triangle inequality
+      if (minTriSlack() < 1e-3 || !tetrahedraValid()) { // triangles or tetrahedra are not strictly valid
         r = r0;
         tau *= .5;
       } else {
@@ -476,6 +476,20 @@ double ConvexEmbedder::minTriSlack() {
   return m;
 }
 
+// Do the boundary triangles and radii form tetrahedra?  (Otherwise
+// the dihedral angles are clamped, and κ is meaningless.)
+bool ConvexEmbedder::tetrahedraValid() {
+  for (Corner ijk : currentMesh->corners()) {
+    double cGamma = cosGamma(ijk);
+    double cRhoJI, sRhoJI, cRhoKI, sRhoKI;
+    tie(cRhoJI, sRhoJI) = cosSinRho(ijk.halfedge().twin());
+    tie(cRhoKI, sRhoKI) = cosSinRho(ijk.halfedge().next().next());
+
+    if (!(abs(cGamma - cRhoJI * cRhoKI) < sRhoJI * sRhoKI)) return false;
+  }
+  return true;
+}
+
 // Returns the interior angle of the boundary triangle ijk at corner i
 double ConvexEmbedder::gamma(Corner ijk) {
   Halfedge ij = ijk.halfedge();
-- 
2.43.0


From db111e5987835efc14053cee314e6bbc5500edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 092/123] fix: embedConvex() depended on the scale of the input
 (absolute triangle inequality slack)

---
 src/surface/embed_convex.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/surface/embed_convex.cpp b/src/surface/embed_convex.cpp
index 5e6aecc..d4847d2 100644
--- a/src/surface/embed_convex.cpp
+++ b/src/surface/embed_convex.cpp
@@ -330,6 +330,12 @@ bool ConvexEmbedder::solveNewton(VertexData<double> kappaStar) {
     // Solve J|ᵣ v = u
     Vector<double> v = solveSquare(J, u);
 
+    // Slack relative to the size of the triangles
+    double minSlack = std::numeric_limits<double>::max();
+    for (Edge ij : currentMesh->edges()) {
+      minSlack = min(minSlack, 1e-3 * l(ij));
+    }
+
     // Subtract r ← r − τv
     double tau = 1.;
     VertexData<double> r0 = r;
@@ -338,7 +344,7 @@ bool ConvexEmbedder::solveNewton(VertexData<double> kappaStar) {
         size_t I = i.getIndex();
         r[i] = r0[i] - tau * v[I];
       }
-      if (minTriSlack() < 1e-3 || !tetrahedraValid()) { // triangles or tetrahedra are not strictly valid
+      if (minTriSlack() < minSlack || !tetrahedraValid()) { // triangles or tetrahedra are not strictly valid
         r = r0;
         tau *= .5;
       } else {
-- 
2.43.0


From ff00ddf885ac0ebeaa534a9ebf6c0d84764fc35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:32 +0000
Subject: [PATCH 093/123] fix: OBJ reader: relative indices, continued lines,
 optional texture indices, stray slashes, unparsable numbers

---
 src/surface/simple_polygon_mesh.cpp | 68 +++++++++++++++++++----------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 111b7eb..1996691 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -77,17 +77,22 @@ public:
   long long int normal = -1;
 };
 
-Index parseFaceIndex(const std::string& token) {
+// Entries which are not present in the token (as in "7" or "7//3") are -1 in the result. Negative indices in the file
+// are relative to the number of elements read so far.
+Index parseFaceIndex(const std::string& token, size_t nPositions, size_t nUVs) {
   std::stringstream in(token);
   std::string indexString;
-  int indices[3] = {1, 1, 1};
+  long long int indices[3] = {0, 0, 0};
 
-  int i = 0;
-  while (std::getline(in, indexString, '/')) {
-    if (indexString != "\\") {
-      std::stringstream ss(indexString);
-      ss >> indices[i++];
-    }
+  for (int i = 0; i < 3 && std::getline(in, indexString, '/'); i++) {
+    std::stringstream ss(indexString);
+    ss >> indices[i];
+  }
+
+  if (indices[0] < 0) indices[0] += static_cast<long long int>(nPositions) + 1;
+  if (indices[1] < 0) indices[1] += static_cast<long long int>(nUVs) + 1;
+  if (indices[0] < 1 || indices[1] < 0) {
+    throw std::runtime_error("invalid face index \"" + token + "\" in obj file");
   }
 
   // decrement since indices in OBJ files are 1-based
@@ -170,10 +175,26 @@ void SimplePolygonMesh::readMeshFromObjFile(std::istream& in) {
   // corner UV coords, unpacked below
   std::vector<Vector2> coords;
   std::vector<std::vector<size_t>> polygonCoordInds;
+  bool anyCoordInds = false;
 
   // parse obj format
   std::string line;
   while (getline(in, line)) {
+
+    // a trailing backslash continues a statement on the next line
+    auto continues = [&]() {
+      size_t first = line.find_first_not_of(" \t");
+      if (first == std::string::npos || line[first] == '#') return false;
+      if (line.back() == '\r') line.pop_back();
+      return !line.empty() && line.back() == '\\';
+    };
+    std::string nextLine;
+    while (continues()) {
+      line.pop_back();
+      if (!getline(in, nextLine)) break;
+      line += " " + nextLine;
+    }
+
     std::stringstream ss(line);
     std::string token;
 
@@ -182,12 +203,15 @@ void SimplePolygonMesh::readMeshFromObjFile(std::istream& in) {
     if (token == "v") {
       Vector3 position;
       ss >> position;
+      if (!ss) throw std::runtime_error("could not parse obj file vertex: " + line);
 
       vertexCoordinates.push_back(position);
 
     } else if (token == "vt") {
-      double u, v;
-      ss >> u >> v;
+      double u;
+      double v = 0.; // optional
+      if (!(ss >> u)) throw std::runtime_error("could not parse obj file texture coordinate: " + line);
+      ss >> v;
 
       coords.push_back(Vector2{u, v});
 
@@ -198,34 +222,34 @@ void SimplePolygonMesh::readMeshFromObjFile(std::istream& in) {
       std::vector<size_t> face;
       std::vector<size_t> faceCoordInds;
       while (ss >> token) {
-        Index index = parseFaceIndex(token);
-        if (index.position < 0) {
-          getline(in, line);
-          size_t i = line.find_first_not_of("\t\n\v\f\r ");
-          index = parseFaceIndex(line.substr(i));
-        }
+        Index index = parseFaceIndex(token, vertexCoordinates.size(), coords.size());
 
         face.push_back(index.position);
 
-        if (index.uv != -1) {
+        if (index.uv == -1) {
+          faceCoordInds.push_back(INVALID_IND);
+        } else {
           faceCoordInds.push_back(index.uv);
+          anyCoordInds = true;
         }
       }
 
       polygons.push_back(face);
-      if (!faceCoordInds.empty()) {
-        polygonCoordInds.push_back(faceCoordInds);
-      }
+      polygonCoordInds.push_back(faceCoordInds);
     }
   }
 
   // If we got uv coords, unpack them in to per-corner values
-  if (!polygonCoordInds.empty()) {
+  // (in correspondence with the polygons: corners without a uv coord get zero)
+  if (anyCoordInds && !coords.empty()) {
     for (std::vector<size_t>& faceCoordInd : polygonCoordInds) {
       paramCoordinates.emplace_back();
       std::vector<Vector2>& faceCoord = paramCoordinates.back();
       for (size_t i : faceCoordInd) {
-        if (i < coords.size()) faceCoord.push_back(coords[i]);
+        if (i != INVALID_IND && i >= coords.size()) {
+          throw std::runtime_error("face uses a texture coordinate which does not exist in obj file");
+        }
+        faceCoord.push_back(i == INVALID_IND ? Vector2::zero() : coords[i]);
       }
     }
   }
-- 
2.43.0


From 8ad9de438aa129a3c641dc8c97dc6a97eb99fb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:32 +0000
Subject: [PATCH 094/123] fix: STL reader: out of bounds access on facets with
 fewer than 3 vertices, truncated files, blank lines

---
 src/surface/simple_polygon_mesh.cpp | 32 ++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 1996691..4ddf5d4 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -277,12 +277,14 @@ void SimplePolygonMesh::readMeshFromAsciiStlFile(std::istream& in) {
   };
 
   auto nextLine = [&]() {
-    if (!getline(in, line)) {
-      return false;
-    }
+    do {
+      if (!getline(in, line)) {
+        throw std::runtime_error("Failed to parse ASCII stl file. Unexpected end of file.");
+      }
+      lineNum++;
+    } while (line.find_first_not_of(" \t\r\v\f") == std::string::npos); // skip blank lines
 
     ss = std::stringstream(line);
-    lineNum++;
     return true;
   };
 
@@ -293,7 +295,7 @@ void SimplePolygonMesh::readMeshFromAsciiStlFile(std::istream& in) {
     return token == prefix;
   };
   // Eat the header line
-  nextLine();
+  getline(in, line);
   // Parse STL file
   while (nextLine() && !startsWithToken(line, "endsolid")) {
     assertToken("facet");
@@ -314,11 +316,16 @@ void SimplePolygonMesh::readMeshFromAsciiStlFile(std::istream& in) {
 
       Vector3 position;
       ss >> position;
+      if (!ss) throw std::runtime_error("Failed to parse ASCII stl file. Bad vertex: " + line);
       vertexCoordinates.push_back(position);
 
       face.push_back(vertexCoordinates.size() - 1);
     }
 
+    if (face.size() < 3) {
+      throw std::runtime_error("Failed to parse ASCII stl file. Facet has fewer than 3 vertices");
+    }
+
     nextLine();
     assertToken("endfacet");
 
@@ -337,18 +344,19 @@ void SimplePolygonMesh::readMeshFromBinaryStlFile(std::istream& in) {
   clear();
 
   auto parseVector3 = [&](std::istream& in) {
-    char buffer[3 * sizeof(float)];
-    in.read(buffer, 3 * sizeof(float));
-    float* fVec = (float*)buffer;
+    float fVec[3];
+    if (!in.read(reinterpret_cast<char*>(fVec), sizeof(fVec))) {
+      throw std::runtime_error("Failed to parse binary stl file. Unexpected end of file.");
+    }
     return Vector3{fVec[0], fVec[1], fVec[2]};
   };
 
   char header[80];
-  char nTriangleChars[4];
+  uint32_t nTriangles = 0;
   in.read(header, 80);
-  in.read(nTriangleChars, 4);
-  unsigned int* intPtr = (unsigned int*)nTriangleChars;
-  size_t nTriangles = *intPtr;
+  if (!in.read(reinterpret_cast<char*>(&nTriangles), sizeof(nTriangles))) {
+    throw std::runtime_error("Failed to parse binary stl file. Unexpected end of file.");
+  }
 
   for (size_t iT = 0; iT < nTriangles; ++iT) {
     Vector3 normal = parseVector3(in);
-- 
2.43.0


From 56090770f277ce497b2678491debb4c5eefebf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:32 +0000
Subject: [PATCH 095/123] fix: OFF reader: uninitialized values from unparsable
 lines, whitespace lines, counts on the header line

---
 src/surface/simple_polygon_mesh.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 4ddf5d4..4d160e7 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -412,7 +412,8 @@ void SimplePolygonMesh::readMeshFromOffFile(std::istream& in) {
       if (!std::getline(in, line)) {
         throw std::runtime_error("ran out of lines while parsing off file");
       }
-    } while (line.size() == 0 || line[0] == '#');
+    } while (line.find_first_not_of(" \t\r\v\f") == std::string::npos ||
+             line[line.find_first_not_of(" \t")] == '#');
     return line;
   };
 
@@ -422,34 +423,37 @@ void SimplePolygonMesh::readMeshFromOffFile(std::istream& in) {
 
   // counts
   size_t nVert, nFace;
-  std::string countLine = getNextLine();
+  std::string countLine = headerLine.substr(3); // the counts may follow on the same line
+  size_t countStart = countLine.find_first_not_of(" \t\r\v\f");
+  if (countStart == std::string::npos || countLine[countStart] == '#') countLine = getNextLine();
   std::stringstream countStream(countLine);
   countStream >> nVert >> nFace; // ignore nEdges, if present
+  if (!countStream) throw std::runtime_error("could not parse off file counts: " + countLine);
 
   // parse vertices
-  vertexCoordinates.resize(nVert);
   for (size_t iV = 0; iV < nVert; iV++) {
     std::string vertLine = getNextLine();
     std::stringstream vertStream(vertLine);
     Vector3 p;
     vertStream >> p.x >> p.y >> p.z; // ignore color etc, if present
-    vertexCoordinates[iV] = p;
+    if (!vertStream) throw std::runtime_error("could not parse off file vertex: " + vertLine);
+    vertexCoordinates.push_back(p);
   }
 
   // = Get face indices
-  polygons.resize(nFace);
   for (size_t iF = 0; iF < nFace; iF++) {
     std::string faceLine = getNextLine();
     std::stringstream faceStream(faceLine);
 
     size_t degree;
-    faceStream >> degree;
-    std::vector<size_t>& face = polygons[iF];
+    if (!(faceStream >> degree)) throw std::runtime_error("could not parse off file face: " + faceLine);
+    std::vector<size_t> face;
     for (size_t i = 0; i < degree; i++) {
       size_t ind;
-      faceStream >> ind;
+      if (!(faceStream >> ind)) throw std::runtime_error("could not parse off file face: " + faceLine);
       face.push_back(ind);
     }
+    polygons.push_back(face);
   }
 }
 
-- 
2.43.0


From 0c1570d26a21adb4637ee2bf848e83659f5ac59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:32 +0000
Subject: [PATCH 096/123] fix: SimplePolygonMesh::triangulate() left the
 texture coordinates out of correspondence

---
 src/surface/simple_polygon_mesh.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 4d160e7..85d2be3 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -670,8 +670,10 @@ void SimplePolygonMesh::stripDuplicateFaces() {
 
 void SimplePolygonMesh::triangulate() {
   std::vector<std::vector<size_t>> newPolygons;
+  std::vector<std::vector<Vector2>> newParamCoordinates;
 
-  for (auto poly : polygons) {
+  for (size_t iF = 0; iF < polygons.size(); iF++) {
+    const std::vector<size_t>& poly = polygons[iF];
     if (poly.size() <= 2) {
       throw std::runtime_error("ERROR: SimplePolygonMesh has degree < 3 polygon");
     }
@@ -679,10 +681,16 @@ void SimplePolygonMesh::triangulate() {
     for (size_t i = 2; i < poly.size(); i++) {
       std::vector<size_t> tri = {poly[0], poly[i - 1], poly[i]};
       newPolygons.push_back(tri);
+
+      if (hasParameterization()) {
+        const std::vector<Vector2>& coords = paramCoordinates[iF];
+        newParamCoordinates.push_back({coords[0], coords[i - 1], coords[i]});
+      }
     }
   }
 
   polygons = newPolygons;
+  paramCoordinates = newParamCoordinates;
 }
 
 void SimplePolygonMesh::consistentlyOrientFaces(bool outwardOrient) {
-- 
2.43.0


From 05ca1c8829cd3d364c60628c3e5b4d3f34a94c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:32 +0000
Subject: [PATCH 097/123] fix: WavefrontOBJ::write() with texture coordinates
 and normals did not write the texture coordinates

---
 src/surface/meshio.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/meshio.cpp b/src/surface/meshio.cpp
index f1ff8f8..88fe611 100644
--- a/src/surface/meshio.cpp
+++ b/src/surface/meshio.cpp
@@ -238,6 +238,7 @@ bool WavefrontOBJ::write(std::string filename, EmbeddedGeometryInterface& geomet
   cout << endl;
 
   writeVertices(out, geometry);
+  writeTexCoords(out, geometry, texCoords);
   writeNormals(out, geometry, normals);
 
   bool useTexCoords = true;
-- 
2.43.0


From 8bf7391a8a53ad308079132ec7c11ecf10a39f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 098/123] fix: destroying a PointCloud did not tell its data
 containers (use after free in their destructors)

---
 src/pointcloud/point_cloud.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pointcloud/point_cloud.cpp b/src/pointcloud/point_cloud.cpp
index f2dc02e..902126e 100644
--- a/src/pointcloud/point_cloud.cpp
+++ b/src/pointcloud/point_cloud.cpp
@@ -23,7 +23,11 @@ PointCloud::PointCloud(size_t nPts) {
   isCompressedFlag = true;
 }
 
-PointCloud::~PointCloud() {}
+PointCloud::~PointCloud() {
+  for (auto& f : meshDeleteCallbackList) {
+    f();
+  }
+}
 
 
 // ==========================================================
-- 
2.43.0


From f5aaa1b741f1ae93993c5375c0c05198712aea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 099/123] fix: RichSurfaceMeshData wrote wrong boundary loop
 indices for meshes with unused face capacity

---
 src/surface/rich_surface_mesh_data.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/surface/rich_surface_mesh_data.cpp b/src/surface/rich_surface_mesh_data.cpp
index 50c8659..a099b53 100644
--- a/src/surface/rich_surface_mesh_data.cpp
+++ b/src/surface/rich_surface_mesh_data.cpp
@@ -153,7 +153,13 @@ void RichSurfaceMeshData::addMeshConnectivity() {
 
   // Halfedge properties
   elemHalfedge.addProperty<uint32_t>("gc_internal_heNextArr", toSmallerVec(mesh->heNextArr.begin(), mesh->heNextArr.begin() + mesh->nHalfedgesFillCount));
-  elemHalfedge.addProperty<uint32_t>("gc_internal_heFaceArr", toSmallerVec(mesh->heFaceArr.begin(), mesh->heFaceArr.begin() + mesh->nHalfedgesFillCount));
+  // (boundary loops are indexed from the end of the face buffer, whose unused capacity is not written)
+  size_t nUnusedFaces = mesh->nFacesCapacityCount - mesh->nFacesFillCount - mesh->nBoundaryLoopsFillCount;
+  std::vector<size_t> heFace(mesh->heFaceArr.begin(), mesh->heFaceArr.begin() + mesh->nHalfedgesFillCount);
+  for (size_t& iF : heFace) {
+    if (iF != INVALID_IND && iF >= mesh->nFacesFillCount) iF -= nUnusedFaces;
+  }
+  elemHalfedge.addProperty<uint32_t>("gc_internal_heFaceArr", toSmallerVec(heFace.begin(), heFace.end()));
   elemHalfedge.addProperty<uint32_t>("gc_internal_heVertexArr", toSmallerVec(mesh->heVertexArr.begin(), mesh->heVertexArr.begin() + mesh->nHalfedgesFillCount));
   if(!mesh->usesImplicitTwin()) {
     elemHalfedge.addProperty<uint32_t>("gc_internal_heSiblingArr", toSmallerVec(mesh->heSiblingArr.begin(), mesh->heSiblingArr.begin() + mesh->nHalfedgesFillCount));
-- 
2.43.0


From 77919e8b8368ed96cbb8d9333a5b96a18842630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:51 +0000
Subject: [PATCH 100/123] fix: RichSurfaceMeshData accepted files whose
 connectivity indexes out of bounds

---
 src/surface/rich_surface_mesh_data.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/surface/rich_surface_mesh_data.cpp b/src/surface/rich_surface_mesh_data.cpp
index a099b53..9c35aa6 100644
--- a/src/surface/rich_surface_mesh_data.cpp
+++ b/src/surface/rich_surface_mesh_data.cpp
@@ -71,6 +71,27 @@ void RichSurfaceMeshData::loadMeshFromFile() {
 
   // clang-format on
 
+  // Make sure the file is sane, such that all of the arrays can be used for indexing
+  size_t nHe = heNextArr.size();
+  auto checkInds = [](const std::vector<size_t>& arr, size_t size, size_t bound) {
+    bool good = arr.size() == size;
+    for (size_t ind : arr) good = good && (ind == INVALID_IND || ind < bound);
+    if (!good) throw std::runtime_error("Cannot load mesh from file, connectivity is malformed.");
+  };
+  checkInds(heNextArr, nHe, nHe);
+  checkInds(heVertexArr, nHe, vHalfedgeArr.size());
+  checkInds(heFaceArr, nHe, fHalfedgeArr.size());
+  checkInds(vHalfedgeArr, vHalfedgeArr.size(), nHe);
+  checkInds(fHalfedgeArr, fHalfedgeArr.size(), nHe);
+  if (useImplicitTwin) {
+    if (nHe % 2 != 0) throw std::runtime_error("Cannot load mesh from file, connectivity is malformed.");
+  } else {
+    checkInds(heSiblingArr, nHe, nHe);
+    checkInds(heEdgeArr, nHe, eHalfedgeArr.size());
+    checkInds(eHalfedgeArr, eHalfedgeArr.size(), nHe);
+    if (heOrientArr.size() != nHe) throw std::runtime_error("Cannot load mesh from file, connectivity is malformed.");
+  }
+
   // Build the actual mesh
   if (useImplicitTwin) {
     mesh = new ManifoldSurfaceMesh(heNextArr, heVertexArr, heFaceArr, vHalfedgeArr, fHalfedgeArr, fHalfedgeArrB.size());
-- 
2.43.0


From 0b429274f5a43f2e09a25ced64b46cc1094b7fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 101/123] fix: adding a point to an empty PointCloud wrote out
 of bounds (capacity 0 doubled to 0)

---
 src/pointcloud/point_cloud.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointcloud/point_cloud.cpp b/src/pointcloud/point_cloud.cpp
index 902126e..c7cde66 100644
--- a/src/pointcloud/point_cloud.cpp
+++ b/src/pointcloud/point_cloud.cpp
@@ -103,7 +103,7 @@ Point PointCloud::getNewPoint() {
   }
   // The intesting case, where vectors resize
   else {
-    size_t newCapacity = nPointsCapacityCount * 2;
+    size_t newCapacity = nPointsCapacityCount * 2 + 1; // (+1 so an empty cloud can grow)
 
     // Resize internal arrays
     pointValid.resize(newCapacity);
-- 
2.43.0


From b23955fd7b2f5d46a4d81034c250251fbe14f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 102/123] fix: the connection Laplacian of a point cloud
 conjugated the wrong side where normals are inconsistently oriented

---
 src/pointcloud/point_position_geometry.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pointcloud/point_position_geometry.cpp b/src/pointcloud/point_position_geometry.cpp
index 4b992ef..0915289 100644
--- a/src/pointcloud/point_position_geometry.cpp
+++ b/src/pointcloud/point_position_geometry.cpp
@@ -350,7 +350,6 @@ std::tuple<Vector2, bool> PointPositionGeometry::transportBetweenOriented(Point
   bool inverted = false;
   if (dot(sourceN, targetN) < 0.) {
     targetN *= -1;
-    targetBasisY *= -1;
     inverted = true;
   }
 
-- 
2.43.0


From c61477c1a8bcab0f1a6b44039da600d4862188f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 103/123] fix: the connection Laplacian of a point cloud used
 purged tangent bases

---
 src/pointcloud/point_position_geometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pointcloud/point_position_geometry.cpp b/src/pointcloud/point_position_geometry.cpp
index 0915289..b830e3e 100644
--- a/src/pointcloud/point_position_geometry.cpp
+++ b/src/pointcloud/point_position_geometry.cpp
@@ -213,6 +213,7 @@ void PointPositionGeometry::unrequireLaplacian() { laplacianQ.unrequire(); }
 void PointPositionGeometry::computeConnectionLaplacian() {
   laplacianQ.ensureHave();
   normalsQ.ensureHave();
+  tangentBasisQ.ensureHave();
 
   // Build the conection Laplacian by hitting each entry of the Laplacian with a tangent rotation r_ij between the
   // corresponding vertices
-- 
2.43.0


From 930e5e79c50ea2b71852d23924d8f67722255387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 104/123] fix: point cloud signed distance kept only the last
 segment's source at shared curve points instead of accumulating

---
 src/pointcloud/point_cloud_heat_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointcloud/point_cloud_heat_solver.cpp b/src/pointcloud/point_cloud_heat_solver.cpp
index 60a1c9b..f5d6798 100644
--- a/src/pointcloud/point_cloud_heat_solver.cpp
+++ b/src/pointcloud/point_cloud_heat_solver.cpp
@@ -298,8 +298,8 @@ PointData<double> PointCloudHeatSolver::computeSignedDistance(const std::vector<
       size_t vIdxA = geom.pointIndices[vA];
       size_t vIdxB = geom.pointIndices[vB];
       for (int j = 0; j < 2; j++) {
-        X0[2 * vIdxA + j] = curveNormalA[j];
-        X0[2 * vIdxB + j] = curveNormalB[j];
+        X0[2 * vIdxA + j] += curveNormalA[j];
+        X0[2 * vIdxB + j] += curveNormalB[j];
       }
       if (options.preserveSourceNormals) {
         if (curveIndices[vA] < 0) {
-- 
2.43.0


From 78d424b5cee4a10b6c9478cdb7ebdaa281bd92d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 105/123] fix: boundary-aligned direction fields mass-weighted
 the Dirichlet right-hand side

---
 src/surface/direction_fields.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/surface/direction_fields.cpp b/src/surface/direction_fields.cpp
index be79ff7..76a85a0 100644
--- a/src/surface/direction_fields.cpp
+++ b/src/surface/direction_fields.cpp
@@ -149,12 +149,8 @@ VertexData<Vector2> computeSmoothestBoundaryAlignedVertexDirectionField(Intrinsi
     throw std::logic_error("tried to compute smoothest boundary aligned direction field on a mesh without boundary");
   }
 
-  geometry.requireVertexGalerkinMassMatrix();
   geometry.requireHalfedgeVectorsInVertex();
 
-  // Mass matrix
-  SparseMatrix<std::complex<double>> massMatrix = geometry.vertexGalerkinMassMatrix.cast<std::complex<double>>();
-
   // Energy matrix
   SparseMatrix<std::complex<double>> energyMatrix = computeVertexConnectionLaplacian(geometry, nSym);
 
@@ -204,7 +200,7 @@ VertexData<Vector2> computeSmoothestBoundaryAlignedVertexDirectionField(Intrinsi
   }
 
   Eigen::SparseMatrix<std::complex<double>, Eigen::ColMajor> LHS = energyMatrix;
-  Eigen::VectorXcd RHS = massMatrix * b;
+  Eigen::VectorXcd RHS = b;
   Eigen::VectorXcd solution = solveSquare(LHS, RHS);
 
   // Copy the result to a VertexData vector for both the boundary and interior
@@ -229,12 +225,8 @@ FaceData<Vector2> computeSmoothestBoundaryAlignedFaceDirectionField(IntrinsicGeo
     throw std::logic_error("tried to compute smoothest boundary aligned direction field on a mesh without boundary");
   }
 
-  geometry.requireFaceGalerkinMassMatrix();
   geometry.requireHalfedgeVectorsInFace();
 
-  // Mass matrix
-  SparseMatrix<std::complex<double>> massMatrix = geometry.faceGalerkinMassMatrix.cast<std::complex<double>>();
-
   // Energy matrix
   SparseMatrix<std::complex<double>> energyMatrix = computeFaceConnectionLaplacian(geometry, nSym);
 
@@ -287,7 +279,7 @@ FaceData<Vector2> computeSmoothestBoundaryAlignedFaceDirectionField(IntrinsicGeo
   }
 
   Eigen::SparseMatrix<std::complex<double>, Eigen::ColMajor> LHS = energyMatrix;
-  Eigen::VectorXcd RHS = massMatrix * b;
+  Eigen::VectorXcd RHS = b;
   Eigen::VectorXcd solution = solveSquare(LHS, RHS);
 
   // Copy the result to a FaceData object
-- 
2.43.0


From b26070de3587cd7795f7b25407a008875472b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 106/123] fix: computeFaceIndex left out the boundary edges of
 a face

---
 src/surface/direction_fields.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/surface/direction_fields.cpp b/src/surface/direction_fields.cpp
index 76a85a0..20b4110 100644
--- a/src/surface/direction_fields.cpp
+++ b/src/surface/direction_fields.cpp
@@ -416,19 +416,17 @@ FaceData<int> computeFaceIndex(IntrinsicGeometryInterface& geometry, const Verte
     double totalRot = geometry.faceGaussianCurvatures[f] * nSym;
 
     for (Halfedge he : f.adjacentHalfedges()) {
-      if (he.twin().isInterior()) {
-        // Compute the rotation along the halfedge implied by the field
-        Vector2 x0 = directionField[he.vertex()];
-        Vector2 x1 = directionField[he.twin().vertex()];
-        Vector2 rot = geometry.transportVectorsAlongHalfedge[he].pow(nSym);
+      // Compute the rotation along the halfedge implied by the field
+      Vector2 x0 = directionField[he.vertex()];
+      Vector2 x1 = directionField[he.twin().vertex()];
+      Vector2 rot = geometry.transportVectorsAlongHalfedge[he].pow(nSym);
 
-        // Find the difference in angle
-        double theta0 = (rot * x0).arg();
-        double theta1 = x1.arg();
-        double deltaTheta = regularizeAngle(theta1 - theta0 + PI) - PI; // regularize to [-PI,PI]
+      // Find the difference in angle
+      double theta0 = (rot * x0).arg();
+      double theta1 = x1.arg();
+      double deltaTheta = regularizeAngle(theta1 - theta0 + PI) - PI; // regularize to [-PI,PI]
 
-        totalRot += deltaTheta; // accumulate
-      }
+      totalRot += deltaTheta; // accumulate
     }
 
     // Compute the net rotation and corresponding index
-- 
2.43.0


From e4ea205618b193bcf2ddc403a2cbb706170bfc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 107/123] fix: stripe patterns used dense vertex indices as
 element indices on uncompressed meshes

---
 src/surface/stripe_patterns.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index 6bc2fbc..1a43269 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -120,11 +120,13 @@ SparseMatrix<double> computeRealVertexMassMatrix(IntrinsicGeometryInterface& geo
 
   SurfaceMesh& mesh = geometry.mesh;
 
+  geometry.requireVertexIndices();
   geometry.requireVertexDualAreas();
 
   std::vector<Eigen::Triplet<double>> triplets(2 * mesh.nVertices());
-  for (size_t i = 0; i < mesh.nVertices(); ++i) {
-    double area = geometry.vertexDualAreas[i];
+  for (Vertex v : mesh.vertices()) {
+    size_t i = geometry.vertexIndices[v];
+    double area = geometry.vertexDualAreas[v];
     triplets[2 * i] = Eigen::Triplet<double>(2 * i, 2 * i, area);
     triplets[2 * i + 1] = Eigen::Triplet<double>(2 * i + 1, 2 * i + 1, area);
   }
@@ -152,10 +154,11 @@ VertexData<Vector2> computeParameterization(IntrinsicGeometryInterface& geometry
 
   // Copy the result to a VertexData vector
   VertexData<Vector2> toReturn(mesh);
-  for (size_t i = 0; i < mesh.nVertices(); ++i) {
-    toReturn[i].x = solution(2 * i);
-    toReturn[i].y = solution(2 * i + 1);
-    toReturn[i] = toReturn[i].normalize();
+  for (Vertex v : mesh.vertices()) {
+    size_t i = geometry.vertexIndices[v];
+    toReturn[v].x = solution(2 * i);
+    toReturn[v].y = solution(2 * i + 1);
+    toReturn[v] = toReturn[v].normalize();
   }
   return toReturn;
 }
-- 
2.43.0


From 435334ac4b9ce10a4b0c807d95a223a69fff944a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 108/123] fix: stripe values were inconsistent across faces
 where the direction field turns quickly

---
 src/surface/stripe_patterns.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index 1a43269..e0db4af 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -190,16 +190,16 @@ std::tuple<CornerData<double>, FaceData<int>> computeTextureCoordinates(Intrinsi
       // grab the connection coeffients
       double omegaIJ = cIJ * computeOmega(geometry, directionField, frequencies, he.edge());
 
+      // accumulate the sheet changes edge by edge, consistently with the 1-form on the edges
       auto crossesSheets = [&](Halfedge hTarget) {
-        Halfedge h = f.halfedge();
-        Vector2 Xi = Vector2::fromAngle(directionField[h.vertex()].arg() / 2);
-        Vector2 Xj = Vector2::fromAngle(directionField[hTarget.vertex()].arg() / 2);
-        while (h != hTarget) {
+        bool crosses = false;
+        for (Halfedge h = f.halfedge(); h != hTarget; h = h.next()) {
+          Vector2 Xi = Vector2::fromAngle(directionField[h.vertex()].arg() / 2);
+          Vector2 Xj = Vector2::fromAngle(directionField[h.next().vertex()].arg() / 2);
           Vector2 r = geometry.transportVectorsAlongHalfedge[h];
-          Xi = r * Xi;
-          h = h.next();
+          if (dot(r * Xi, Xj) <= 0) crosses = !crosses;
         }
-        return dot(Xi, Xj) <= 0;
+        return crosses;
       };
 
       if (crossesSheets(he)) {
-- 
2.43.0


From 408257af9f2c9efb9bb1a618d31f19afdb6869f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 109/123] fix: extractPolylinesFromStripePattern read the
 vertex positions without requiring them

---
 src/surface/stripe_patterns.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index e0db4af..541f18f 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -518,6 +518,8 @@ extractPolylinesFromStripePattern(EmbeddedGeometryInterface& geometry, const Cor
                                   const VertexData<Vector2>& directionField, bool connectOnSingularities) {
   SurfaceMesh& mesh = geometry.mesh;
 
+  geometry.requireVertexPositions();
+
   std::vector<Vector3> points;
   std::vector<std::array<size_t, 2>> edges;
   EdgeData<std::vector<size_t>> indicesPerEdge;
-- 
2.43.0


From c1ed26647d3297db5584286fa003ba33e531c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 110/123] fix: stripe connection read out of bounds on faces
 singular in the field and in the pattern

---
 src/surface/stripe_patterns.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index 541f18f..64387ee 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -461,7 +461,7 @@ void connectIsolinesOnSingularities(EmbeddedGeometryInterface& geometry, const C
   geometry.requireFaceIndices();
 
   for (Face f : mesh.faces()) {
-    if (stripeIndices[f] != 0) {
+    if (stripeIndices[f] != 0 && branchIndices[f] == 0) { // values around field singularities are not consistent
       std::vector<std::vector<Vector3>> facePoints;
       std::vector<std::vector<size_t>> faceIndices;
       for (Halfedge he : f.adjacentHalfedges()) {
-- 
2.43.0


From 422bab8219c8959182eec9837e8293cb318267cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 111/123] fix: connecting stripes at singularities of higher
 index violated the triangle inequality

---
 src/surface/stripe_patterns.cpp | 47 ++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index 64387ee..14fa4b3 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -384,8 +384,8 @@ extractCrossingsFromStripePattern(EmbeddedGeometryInterface& geometry, const Cor
   return std::make_tuple(vertices, edges, polylineIndices);
 }
 
-// Returns positions of maximum values, skipping some values to focus on IJ if the triangular inequality needs to be
-// preserved. M = nIJ - nJK - nKI, should be at most 0
+// Returns positions of maximum values, skipping some values if the triangular inequality (n_ij <= n_jk + n_ki, for all
+// three edges) needs to be preserved.
 std::vector<std::vector<size_t>> removeCrossings(std::vector<std::pair<double, std::array<size_t, 2>>>& values, int N,
                                                  std::vector<std::vector<size_t>>& faceIndices) {
   using elemType = std::pair<double, std::array<size_t, 2>>;
@@ -395,33 +395,32 @@ std::vector<std::vector<size_t>> removeCrossings(std::vector<std::pair<double, s
   for (int i = 0; i < 3; ++i) removed[i] = std::vector<bool>(faceIndices[i].size(), false);
 
   assert(faceIndices.size() == 3);
-  size_t idxIJ = 0;
-  if (faceIndices[1].size() >= faceIndices[2].size() && faceIndices[1].size() >= faceIndices[0].size()) {
-    idxIJ = 1;
-  } else if (faceIndices[2].size() >= faceIndices[1].size() && faceIndices[2].size() >= faceIndices[0].size()) {
-    idxIJ = 2;
-  }
+  std::array<int, 3> counts;
+  for (int i = 0; i < 3; ++i) counts[i] = faceIndices[i].size();
+
+  // By how much the triangle inequality is violated if one crossing of the given edge is removed
+  auto excessWithout = [&](size_t iEdge) {
+    std::array<int, 3> n = counts;
+    --n[iEdge];
+    return 2 * std::max(n[0], std::max(n[1], n[2])) - (n[0] + n[1] + n[2]);
+  };
 
-  int M = faceIndices[idxIJ].size() - faceIndices[(idxIJ + 1) % 3].size() - faceIndices[(idxIJ + 2) % 3].size();
   int nbRemoved = 0; // total number of removed points
-  int i = 0;
   while (nbRemoved < N) {
-    std::array<size_t, 2> indices = values[i].second;
-    if (indices[0] == idxIJ) {
-      --M;
-    } else {
-      if (N - nbRemoved <= M) {
-        ++i;
-        continue;
-      }
-      ++M;
+    bool found = false;
+    for (const elemType& value : values) {
+      std::array<size_t, 2> indices = value.second;
+      if (removed[indices[0]][indices[1]]) continue;
+      if (excessWithout(indices[0]) > N - nbRemoved - 1) continue; // could not be repaired any more
+
+      removed[indices[0]][indices[1]] = true;
+      --counts[indices[0]];
+      ++nbRemoved;
+      found = true;
+      break;
     }
-
-    removed[indices[0]][indices[1]] = true;
-    ++nbRemoved;
-    ++i;
+    if (!found) break;
   }
-  assert(M <= 0);
 
   std::vector<std::vector<size_t>> crossingIndices(3);
   for (size_t i = 0; i < 3; ++i)
-- 
2.43.0


From 6a0be189818f2d5ab44028be05c8b71ef9eb1db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:34 +0000
Subject: [PATCH 112/123] fix: intersections of two meshes skipped face pairs
 whose vertices have equal indices

---
 src/surface/intersection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/surface/intersection.cpp b/src/surface/intersection.cpp
index 219302d..8d528a8 100644
--- a/src/surface/intersection.cpp
+++ b/src/surface/intersection.cpp
@@ -50,8 +50,9 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
         j++;
       }
 
-      // skip triangles that share vertices
-      if (!(u[0] == v[0] || u[0] == v[1] || u[0] == v[2] || u[1] == v[0] || u[1] == v[1] || u[1] == v[2] ||
+      // skip triangles that share vertices (only meaningful within one mesh)
+      if (!selfCheck ||
+          !(u[0] == v[0] || u[0] == v[1] || u[0] == v[2] || u[1] == v[0] || u[1] == v[1] || u[1] == v[2] ||
             u[2] == v[0] || u[2] == v[1] || u[2] == v[2])) {
 
         // get vertex locations
-- 
2.43.0


From 26484c476cbb5ebb4446146803ed66b7520167c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:34 +0000
Subject: [PATCH 113/123] fix: intersections() read the vertex positions
 without requiring them

---
 src/surface/intersection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/surface/intersection.cpp b/src/surface/intersection.cpp
index 8d528a8..7e2a27e 100644
--- a/src/surface/intersection.cpp
+++ b/src/surface/intersection.cpp
@@ -11,6 +11,8 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
                                         bool selfCheck) {
   SurfaceMesh& mesh1 = geometry1.mesh;
   SurfaceMesh& mesh2 = geometry2.mesh;
+  geometry1.requireVertexPositions();
+  geometry2.requireVertexPositions();
   SurfaceIntersectionResult intersections;
   intersections.hasIntersections = false;
   size_t n = 0; // number of intersection points
@@ -79,6 +81,9 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
     }
   }
 
+  geometry1.unrequireVertexPositions();
+  geometry2.unrequireVertexPositions();
+
   return intersections;
 }
 
-- 
2.43.0


From a7cc4d8b6d220b817e96a873e2d82907926ec69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:34 +0000
Subject: [PATCH 114/123] fix: PoissonDiskSampler read the vertex positions
 without requiring them

---
 src/surface/poisson_disk_sampler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index afb70cd..877fd6a 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -6,6 +6,8 @@ namespace surface {
 PoissonDiskSampler::PoissonDiskSampler(ManifoldSurfaceMesh& mesh_, VertexPositionGeometry& geometry_)
     : mesh(mesh_), geometry(geometry_) {
 
+  geometry.requireVertexPositions();
+
   // Prepare spatial lookup
   Vector3 bboxMin, bboxMax;
   std::tie(bboxMin, bboxMax) = boundingBox();
-- 
2.43.0


From 4bba072baa0e736ab867f838a7f1d0244572af21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:34 +0000
Subject: [PATCH 115/123] fix: Poisson disk samples could be closer than the
 minimum distance

---
 src/surface/poisson_disk_sampler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index 877fd6a..5136878 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -173,11 +173,11 @@ bool PoissonDiskSampler::isCandidateValid(const SurfacePoint& candidate) const {
   Vector3 queryPoint = candidate.interpolate(geometry.vertexPositions);
   SpatialKey queryKey = positionKey(queryPoint);
 
-  // Check all adjacent buckets. Each bucket's sidelength is chosen to be small enough such that if any two adjacent
-  // buckets contain points, their points are guaranteed to be within r of each other.
-  for (int offsetX = -1; offsetX <= 1; offsetX++) {
-    for (int offsetY = -1; offsetY <= 1; offsetY++) {
-      for (int offsetZ = -1; offsetZ <= 1; offsetZ++) {
+  // Check all nearby buckets. The buckets have sidelength r/sqrt(3), so points within distance r are at most two buckets
+  // apart in each dimension.
+  for (int offsetX = -2; offsetX <= 2; offsetX++) {
+    for (int offsetY = -2; offsetY <= 2; offsetY++) {
+      for (int offsetZ = -2; offsetZ <= 2; offsetZ++) {
 
         SpatialKey bucketKey = queryKey;
         bucketKey[0] += offsetX;
-- 
2.43.0


From 4b8bc03aa193fc75278a6b241a62e6ce7824541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:34 +0000
Subject: [PATCH 116/123] fix: Poisson disk sampling did not check the first
 sample of each component

---
 src/surface/poisson_disk_sampler.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index 5136878..6f92b4b 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -201,11 +201,26 @@ bool PoissonDiskSampler::isCandidateValid(const SurfacePoint& candidate) const {
  */
 void PoissonDiskSampler::sampleOnConnectedComponent(const Face& f) {
 
-  // Get initial sample.
+  // Get initial sample. Usually this is the given face, but it may be too close to the samples on other components, or to
+  // the points to avoid.
   Vector3 baryCoords = {1. / 3., 1. / 3., 1. / 3.};
-  SurfacePoint x0(f, baryCoords);
   activeList.clear();
-  addNewSample(x0);
+  FaceData<char> marked(mesh, false);
+  std::vector<Face> queue = {f};
+  marked[f] = true;
+  while (!queue.empty() && activeList.empty()) {
+    Face currF = queue.back();
+    queue.pop_back();
+
+    SurfacePoint x0(currF, baryCoords);
+    if (isCandidateValid(x0)) addNewSample(x0);
+
+    for (Face g : currF.adjacentFaces()) {
+      if (marked[g]) continue;
+      marked[g] = true;
+      queue.push_back(g);
+    }
+  }
 
   while (activeList.size() > 0) {
     // Select a random point from the active list.
-- 
2.43.0


From b92e064abf077a5a15a76baea81841be6eee3b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:34 +0000
Subject: [PATCH 117/123] fix: marchingTriangles lost or repeated the segments
 of level sets passing through vertices

---
 src/surface/marching_triangles.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/surface/marching_triangles.cpp b/src/surface/marching_triangles.cpp
index 5436d8f..ddd7b06 100644
--- a/src/surface/marching_triangles.cpp
+++ b/src/surface/marching_triangles.cpp
@@ -76,16 +76,11 @@ std::vector<std::vector<SurfacePoint>> marchingTriangles(IntrinsicGeometryInterf
       Vertex v1 = e.secondVertex();
       double u0 = u[v0];
       double u1 = u[v1];
-      double lB = std::min(u0, u1);
-      double uB = std::max(u0, u1);
-      if (lB == uB && lB == isoval) {
-        hits.clear();
-        hits = {SurfacePoint(v0), SurfacePoint(v1)};
-        break;
+      for (Vertex v : {v0, v1}) { // the curve passes through vertices which are exactly on the level set
+        SurfacePoint p(v);
+        if (u[v] == isoval && std::find(hits.begin(), hits.end(), p) == hits.end()) hits.push_back(p);
       }
-      double t = (isoval - lB) / (uB - lB);
-      if (u0 > u1) t = 1. - t;
-      if (t <= 1. && t >= 0.) hits.emplace_back(e, t);
+      if ((u0 < isoval && isoval < u1) || (u1 < isoval && isoval < u0)) hits.emplace_back(e, (isoval - u0) / (u1 - u0));
       // Compute gradient of the scalar function.
       BarycentricVector heVec(he.next(), f);
       BarycentricVector ePerp = heVec.rotate90(geom);
@@ -106,10 +101,16 @@ std::vector<std::vector<SurfacePoint>> marchingTriangles(IntrinsicGeometryInterf
     }
     BarycentricVector segTangent(hits[0], hits[1]);
     BarycentricVector segNormal = -segTangent.inFace(f).rotate90(geom);
+    std::array<size_t, 2> segReversed = {seg[1], seg[0]};
+    // a segment along an edge is seen from both of its faces
+    if (std::find(edges.begin(), edges.end(), seg) != edges.end() ||
+        std::find(edges.begin(), edges.end(), segReversed) != edges.end()) {
+      continue;
+    }
     if (dot(geom, segNormal, gradient) > 0.) {
       edges.push_back(seg);
     } else {
-      edges.push_back({seg[1], seg[0]});
+      edges.push_back(segReversed);
     }
   }
   std::vector<std::vector<std::array<size_t, 2>>> components = getCurveComponents(mesh, nodes, edges);
-- 
2.43.0


From a06378e4a4e91c0845c886b4676f3f26c8f72795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:34 +0000
Subject: [PATCH 118/123] fix: the centroidal Voronoi update was divided by the
 cell weight twice

---
 src/surface/geodesic_centroidal_voronoi_tessellation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
index 8b20d16..f36adec 100644
--- a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
+++ b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
@@ -105,7 +105,7 @@ VoronoiResult computeGeodesicCentroidalVoronoiTessellation(ManifoldSurfaceMesh&
           energy += dist * dist * weight;
         }
         updateSum /= updateWSum;
-        Vector2 update = updateSum / updateWSum;
+        Vector2 update = updateSum;
 
         // Take a step
         TraceGeodesicResult traceResult = traceGeodesic(geom, site, options.stepSize * update);
-- 
2.43.0


From ad695f19699d682c389e52a7a43d17531c5874e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 119/123] fix: Poisson disk samples were not kept out of the
 avoided 3D balls (layers spaced without regard to scale)

---
 .../surface/poisson_disk_sampler.h            |  1 +
 src/surface/poisson_disk_sampler.cpp          | 24 +++++++------------
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/include/geometrycentral/surface/poisson_disk_sampler.h b/include/geometrycentral/surface/poisson_disk_sampler.h
index 2d34c82..e233ba9 100644
--- a/include/geometrycentral/surface/poisson_disk_sampler.h
+++ b/include/geometrycentral/surface/poisson_disk_sampler.h
@@ -46,6 +46,7 @@ private:
   // Spatial lookup structure
   typedef std::array<long long int, 3> SpatialKey;
   std::map<SpatialKey, Vector3> spatialBuckets;
+  std::vector<std::pair<Vector3, double>> avoidedBalls; // solid balls which contain no samples
   Vector3 mapCenter;
 
   // ===== Utility and auxiliary functions
diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index 6f92b4b..af51f32 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -145,22 +145,8 @@ void PoissonDiskSampler::addPointToSpatialLookupWithRadius(const SurfacePoint& n
       r += rMinDist;
     }
   } else {
-    // This places fictitious points in a *solid 3D ball* approximately of radius R*r centered at <newPoint>.
-    // The solid ball is built by constructing R layers, radially outward; each layer is spaced r apart, and
-    // points in each layer are spaced approx. r apart in a "grid" (a mapping from the cylinder to the sphere that has
-    // been scaled s.t. projected points end up being approx. r apart.)
-    double r = rMinDist;
-    while (r < radius) {
-      for (double z = -0.99; z <= 0.99; z += rMinDist) {
-        double coeff = std::sqrt(1. - z * z);
-        for (double theta = 0.0; theta <= 2.0 * PI; theta += rMinDist / coeff) {
-          Vector3 pos = {r * coeff * std::cos(theta), r * coeff * std::sin(theta), r * z};
-          pos += newPos;
-          addPointToSpatialLookup(pos);
-        }
-      }
-      r += rMinDist;
-    }
+    // Candidates within the solid 3D ball of the given radius are rejected in isCandidateValid().
+    avoidedBalls.push_back(std::make_pair(newPos, radius));
   }
 }
 
@@ -171,6 +157,11 @@ void PoissonDiskSampler::addPointToSpatialLookupWithRadius(const SurfacePoint& n
 bool PoissonDiskSampler::isCandidateValid(const SurfacePoint& candidate) const {
 
   Vector3 queryPoint = candidate.interpolate(geometry.vertexPositions);
+
+  for (const std::pair<Vector3, double>& ball : avoidedBalls) {
+    if ((queryPoint - ball.first).norm() < ball.second) return false;
+  }
+
   SpatialKey queryKey = positionKey(queryPoint);
 
   // Check all nearby buckets. The buckets have sidelength r/sqrt(3), so points within distance r are at most two buckets
@@ -259,6 +250,7 @@ void PoissonDiskSampler::clearData() {
 
   samples.clear();
   spatialBuckets.clear();
+  avoidedBalls.clear();
 }
 
 /*
-- 
2.43.0


From 12a0e23634582f68c8ca88b8983243295f338f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 120/123] fix: findCenter could start at a deleted vertex of an
 uncompressed mesh

---
 src/surface/surface_centers.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/surface/surface_centers.cpp b/src/surface/surface_centers.cpp
index 0044f11..542aecb 100644
--- a/src/surface/surface_centers.cpp
+++ b/src/surface/surface_centers.cpp
@@ -64,7 +64,13 @@ SurfacePoint findCenter(ManifoldSurfaceMesh& mesh, IntrinsicGeometryInterface& g
   //}
 
   // Random initial guess
-  initialGuess = SurfacePoint(mesh.vertex(randomIndex(mesh.nVertices())));
+  size_t iInitial = randomIndex(mesh.nVertices());
+  for (Vertex v : mesh.vertices()) { // (indices may not be contiguous)
+    if (iInitial-- == 0) {
+      initialGuess = SurfacePoint(v);
+      break;
+    }
+  }
 
   // Compute an approximate mesh diameter to use as parameter in the p=1 case
   double meshDiameter = 1.;
-- 
2.43.0


From b904e15e67c41680f3c14820d5d888aa5d096bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 121/123] fix: Voronoi tessellation could place initial sites
 on deleted faces of an uncompressed mesh

---
 src/surface/geodesic_centroidal_voronoi_tessellation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
index f36adec..9d4c765 100644
--- a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
+++ b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
@@ -52,8 +52,10 @@ VoronoiResult computeGeodesicCentroidalVoronoiTessellation(ManifoldSurfaceMesh&
   // Set points to start
   std::vector<SurfacePoint> siteLocations = options.initialSites;
   if (siteLocations.empty()) {
+    std::vector<Face> faces; // (indices may not be contiguous)
+    for (Face f : mesh.faces()) faces.push_back(f);
     for (size_t i = 0; i < options.nSites; i++) {
-      Face startF = mesh.face(randomIndex(mesh.nFaces()));
+      Face startF = faces[randomIndex(faces.size())];
       double u = unitRand();
       Vector3 bCoord{u, 0.5 * (1.0 - u), 0.5 * (1.0 - u)};
       SurfacePoint fp{startF, bCoord};
-- 
2.43.0


From 38e971bc10a91aea2f39904483447a4be20de3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 122/123] fix: AttributeTransfer read vertex positions which
 may not have been required

---
 src/surface/transfer_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/transfer_functions.cpp b/src/surface/transfer_functions.cpp
index e6fb72c..04ac5bf 100644
--- a/src/surface/transfer_functions.cpp
+++ b/src/surface/transfer_functions.cpp
@@ -11,7 +11,7 @@ AttributeTransfer::AttributeTransfer(CommonSubdivision& cs_, VertexPositionGeome
   // === Prepare data
   P_A = cs.interpolationMatrixA();
   P_B = cs.interpolationMatrixB();
-  M_CS_Galerkin = cs.vertexGalerkinMassMatrixFromPositionsA(geomA.vertexPositions);
+  M_CS_Galerkin = cs.vertexGalerkinMassMatrixFromPositionsA(geomA.inputVertexPositions);
 }
 
 AttributeTransfer::AttributeTransfer(IntrinsicTriangulation& intTri) : cs(intTri.getCommonSubdivision()) {
-- 
2.43.0


From d5291d8c7a970c906fd50b802d0ed4ef60928af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:30 +0000
Subject: [PATCH 123/123] fix: buildTuftedLaplacian threw on manifold meshes

---
 src/surface/tufted_laplacian.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/surface/tufted_laplacian.cpp b/src/surface/tufted_laplacian.cpp
index f845f0f..3469a42 100644
--- a/src/surface/tufted_laplacian.cpp
+++ b/src/surface/tufted_laplacian.cpp
@@ -11,9 +11,12 @@ std::tuple<SparseMatrix<double>, SparseMatrix<double>>
 buildTuftedLaplacian(SurfaceMesh& mesh, EmbeddedGeometryInterface& geom, double relativeMollificationFactor) {
 
   // Create a copy of the mesh / geometry to operate on
-  std::unique_ptr<SurfaceMesh> tuftedMesh = mesh.copyToSurfaceMesh();
+  // (faces cannot be duplicated on a ManifoldSurfaceMesh, which is copied to a general mesh)
+  std::unique_ptr<SurfaceMesh> tuftedMesh(mesh.usesImplicitTwin() ? new SurfaceMesh(mesh.getFaceVertexList())
+                                                                  : mesh.copyToSurfaceMesh().release());
   geom.requireVertexPositions();
-  VertexPositionGeometry tuftedGeom(*tuftedMesh, geom.vertexPositions.reinterpretTo(*tuftedMesh));
+  VertexPositionGeometry tuftedGeom(*tuftedMesh,
+                                    VertexData<Vector3>(*tuftedMesh, geom.vertexPositions.toVector()));
   tuftedGeom.requireEdgeLengths();
   EdgeData<double> tuftedEdgeLengths = tuftedGeom.edgeLengths;
 
-- 
2.43.0

