From 47438c0da8f035fd84ba496b262cd583929914b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 01/53] fix: hash positions into 64 bit keys

The position hashes pack 31 (2D) or 21 (3D) bits per coordinate, but their key
type had become a 32 bit int, which drops every coordinate but the first.
Distinct points that share an x coordinate were merged by uniquePoints and so by
tessellateDegenerate.
---
 src/polytope_geometric_utilities.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 653504c..6552c94 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -61,7 +61,7 @@ template<int Dimension, typename RealType> struct Hasher;
 template<typename RealType> struct Hasher<2, RealType> {
 
   // typedef typename DimensionTraits<Dimension, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef uint64_t CoordHash;
 
   static unsigned  num1dbits()                { return 31U; }
   //static unsigned  num1dbits()                { return 30U; }
@@ -172,7 +172,7 @@ template<typename RealType> struct Hasher<2, RealType> {
 template<typename RealType> struct Hasher<3, RealType> {
 
   // typedef DimensionTraits<3, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef uint64_t CoordHash;
 
   static unsigned  num1dbits()                { return 21U; }
   static CoordHash coordMax()                 { return (1ULL << num1dbits()) - 1ULL; }
@@ -1359,7 +1359,7 @@ uniquePoints(const std::vector<RealType>& points,
   POLY_ASSERT(points.size() % Dimension == 0);
   typedef geometry::Hasher<Dimension, RealType> HasherType;
   // typedef DimensionTraits<Dimension, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef uint64_t CoordHash;
 
   // // Compute the bounding box.
   // RealType xmin[Dimension], xmax[Dimension];
-- 
2.43.0


From 5edb888ea9e0dcea9b769a465a19fcd43cfaaa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 02/53] fix: do not read before the first point in
 removeCollinearPoints

(i-1)%n is -1 for the first point of the polygon; its predecessor is the last
distinct point, since the last point repeats the first.
---
 src/clipQuantizedTessellation2d.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/clipQuantizedTessellation2d.cc b/src/clipQuantizedTessellation2d.cc
index 6a3b36d..8cf823e 100644
--- a/src/clipQuantizedTessellation2d.cc
+++ b/src/clipQuantizedTessellation2d.cc
@@ -37,7 +37,8 @@ removeCollinearPoints(bp::polygon_data<IntType>& poly) {
   std::vector<Point> points;
   Segment segment;
   for (int i = 0; i != n-1; ++i) {
-    segment = bp::construct<Segment>(*(poly.begin()+(i-1)%n), *(poly.begin()+(i+1)%n));
+    // The last point repeats the first, so the one before point 0 is n-2.
+    segment = bp::construct<Segment>(*(poly.begin()+(i + n - 2)%(n - 1)), *(poly.begin()+(i+1)%n));
     if (!bp::contains(segment, *(poly.begin() + i))) points.push_back(*(poly.begin() + i));
   }
   POLY_ASSERT2(points.size() >= 3, points.size());
-- 
2.43.0


From 8a005abedf4c654b91bf53fc683af4cbffd3f1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 03/53] fix: scale the distributed tessellator's key spacing
 with the bounding box

The spacing was the relative degeneracy, so positions in any domain longer
than about 8 overflowed the integer keys: hulls came out empty or wrong and
the shared elements were ordered differently on the two sides.
---
 src/DistributedTessellator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index afed0ed..7bfdcb5 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -445,7 +445,7 @@ computeDistributedTessellation(const vector<RealType>& points,
 
     // Compute the bounding box for the mesh coordinates.
     this->computeBoundingBox(mesh.nodes, rlow, rhigh);
-    const RealType dx = mSerialTessellator->degeneracy();
+    const RealType dx = mSerialTessellator->degeneracy() * DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh);
     // const RealType dx = DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh)/(1LL << 34);
     
     // Sort the shared elements.  This should make the ordering consistent on all domains without communication.
@@ -859,7 +859,8 @@ computeDomainNeighbors(const vector<RealType>& points,
   vector<ConvexHull> domainHulls; // (numProcs);
   vector<unsigned> domainCellOffset(1, 0);
   {
-    ConvexHull localHull = DT::convexHull(points, rlow, mSerialTessellator->degeneracy());;
+    const RealType dx = mSerialTessellator->degeneracy() * DT::maxLength(rlow, rhigh);
+    ConvexHull localHull = DT::convexHull(points, rlow, dx);
 
     // We can skip some work here if the convex hull is of lower dimension than the 
     // problem itself. We determine the set of visible points for a full-dimension
-- 
2.43.0


From 243327f367824989d62fcd5e8462442dbf525a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 04/53] fix: order shared elements by position up to round-off

Shared nodes and faces were sorted by truncated coordinates before the other
domains' cells were removed.  A coordinate common to several elements that
truncated differently on two domains changed their relative order, so the
domains exchanged the coordinates of different nodes.
---
 src/DistributedTessellator.cc | 137 +++++++++++++++-------------------
 1 file changed, 60 insertions(+), 77 deletions(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index 7bfdcb5..f7640b9 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -55,6 +55,34 @@ sortByKeys(vector<Value>& values, const vector<Key>& keys) {
   for (unsigned i = 0; i != values.size(); ++i) values[i] = stuff[i].second;
 }
 
+//------------------------------------------------------------------------------
+// Sort elements lexicographically by position.  Positions that differ by no
+// more than the tolerance along an axis count as equal along that axis, so the
+// order does not depend on round-off.
+//------------------------------------------------------------------------------
+template<int Dimension, typename RealType>
+void
+sortByPosition(const vector<RealType>& positions,
+               const RealType tol,
+               vector<unsigned>& elements) {
+  const unsigned n = elements.size();
+  POLY_ASSERT(positions.size() == Dimension*n);
+  vector<pair<vector<unsigned>, unsigned> > keys(n);
+  for (unsigned i = 0; i != n; ++i) keys[i].second = elements[i];
+  for (unsigned j = 0; j != Dimension; ++j) {
+    vector<pair<RealType, unsigned> > xs(n);
+    for (unsigned i = 0; i != n; ++i) xs[i] = make_pair(positions[Dimension*i + j], i);
+    std::sort(xs.begin(), xs.end());
+    unsigned level = 0;
+    for (unsigned k = 0; k != n; ++k) {
+      if (k > 0 and xs[k].first - xs[k - 1].first > tol) ++level;
+      keys[xs[k].second].first.push_back(level);
+    }
+  }
+  std::sort(keys.begin(), keys.end());
+  for (unsigned i = 0; i != n; ++i) elements[i] = keys[i].second;
+}
+
 //------------------------------------------------------------------------------
 // Output an intermediate tessellation
 //------------------------------------------------------------------------------
@@ -442,83 +470,6 @@ computeDistributedTessellation(const vector<RealType>& points,
     //   MPI_Barrier(MPI_COMM_WORLD);
     // }
     // // Blago!
-
-    // Compute the bounding box for the mesh coordinates.
-    this->computeBoundingBox(mesh.nodes, rlow, rhigh);
-    const RealType dx = mSerialTessellator->degeneracy() * DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh);
-    // const RealType dx = DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh)/(1LL << 34);
-    
-    // Sort the shared elements.  This should make the ordering consistent on all domains without communication.
-    unsigned numNeighbors = mesh.neighborDomains.size();
-    for (unsigned idomain = 0; idomain != numNeighbors; ++idomain) {
-
-      // Nodes.
-      vector<Point> nodePoints;
-      nodePoints.reserve(mesh.sharedNodes[idomain].size());
-      for (vector<unsigned>::const_iterator itr = mesh.sharedNodes[idomain].begin();
-           itr != mesh.sharedNodes[idomain].end();
-           ++itr) nodePoints.push_back(DimensionTraits<Dimension, RealType>::constructPoint(&(mesh.nodes[Dimension * (*itr)]),
-                                                                                            &rlow[0],
-                                                                                            dx,
-                                                                                            *itr));
-      
-      
-      // // Blago!
-      // int rank1 = 10;
-      // int rank2 = 13;
-      // if ((rank == rank1 and mesh.neighborDomains[idomain] == rank2) or
-      //     (rank == rank2 and mesh.neighborDomains[idomain] == rank1)) {
-      //   const unsigned other = mesh.neighborDomains[idomain];
-      //   set<unsigned> nnn;
-      //   for (unsigned iface = 0; iface < mesh.faceCells.size(); ++iface) { 
-      //     if (mesh.faceCells[iface].size() == 2) {
-      //       const unsigned icell1 = (mesh.faceCells[iface][0] < 0) ? ~mesh.faceCells[iface][0] : mesh.faceCells[iface][0];
-      //       const unsigned icell2 = (mesh.faceCells[iface][1] < 0) ? ~mesh.faceCells[iface][1] : mesh.faceCells[iface][1];
-      //       const unsigned iproc1 = gen2domain[icell1];
-      //       const unsigned iproc2 = gen2domain[icell2];
-      //       if ((iproc1 == rank1 and iproc2 == rank2) or (iproc1 == rank2 and iproc2 == rank1)) {
-      //         nnn.insert(mesh.faces[iface][0]);
-      //         nnn.insert(mesh.faces[iface][1]);
-      //       }
-      //     }
-      //   }
-      //   vector<Point> n4;
-      //   for (set<unsigned>::iterator itr = nnn.begin(); itr != nnn.end(); ++itr) {
-      //     cerr << setprecision(numeric_limits<double>::digits)
-      //          << mesh.nodes[Dimension*(*itr)] << " , "
-      //          << mesh.nodes[Dimension*(*itr)+1] << "  " << *itr << endl;
-      //     POLY_ASSERT(*itr < nodePoints.size());
-      //     RealType cen[2] = {0.5, 0.5};
-      //     Point pp = DimensionTraits<Dimension, RealType>::constructPoint(&(mesh.nodes[Dimension * (*itr)]),
-      //                                                                     // &rlow[0],
-      //                                                                     &cen[0],
-      //                                                                     dx,
-      //                                                                     *itr);
-      //     n4.push_back(pp);
-      //   }
-      //   sort(n4.begin(), n4.end());
-      //   for (unsigned i = 0; i < n4.size(); ++i) {
-      //     cerr << n4[i] << endl;
-      //   }
-      // }
-      // // Blago!
-      
-      
-      sort(nodePoints.begin(), nodePoints.end());
-      for (unsigned i = 0; i != mesh.sharedNodes[idomain].size(); ++i) mesh.sharedNodes[idomain][i] = nodePoints[i].index;
-
-
-      // Faces.
-      vector<Point> facePoints;
-      for (vector<unsigned>::const_iterator itr = mesh.sharedFaces[idomain].begin();
-           itr != mesh.sharedFaces[idomain].end();
-           ++itr) facePoints.push_back(DimensionTraits<Dimension, RealType>::faceCentroid(mesh,
-                                                                                          *itr,
-                                                                                          &rlow[0],
-                                                                                          dx));
-      sort(facePoints.begin(), facePoints.end());
-      for (unsigned i = 0; i != mesh.sharedFaces[idomain].size(); ++i) mesh.sharedFaces[idomain][i] = facePoints[i].index;
-    }
   }
 
   // // Blago!
@@ -542,6 +493,38 @@ computeDistributedTessellation(const vector<RealType>& points,
   fill(cellMask.begin() + nlocal, cellMask.end(), 0);
   deleteCells(mesh, cellMask);
 
+  // Sort the shared elements.  This should make the ordering consistent on all domains without communication.
+  // We do this after deleting the other domains' cells, when both domains hold the same set of shared elements.
+  if (mBuildCommunicationInfo and numProcs > 1) {
+    this->computeBoundingBox(mesh.nodes, rlow, rhigh);
+    const RealType tol = 4*mSerialTessellator->degeneracy() * DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh);
+    for (unsigned idomain = 0; idomain != mesh.neighborDomains.size(); ++idomain) {
+
+      // Nodes.
+      vector<RealType> positions;
+      for (vector<unsigned>::const_iterator itr = mesh.sharedNodes[idomain].begin();
+           itr != mesh.sharedNodes[idomain].end();
+           ++itr) {
+        for (unsigned j = 0; j != Dimension; ++j) positions.push_back(mesh.nodes[Dimension * (*itr) + j]);
+      }
+      sortByPosition<Dimension, RealType>(positions, tol, mesh.sharedNodes[idomain]);
+
+      // Faces.
+      positions.clear();
+      for (vector<unsigned>::const_iterator itr = mesh.sharedFaces[idomain].begin();
+           itr != mesh.sharedFaces[idomain].end();
+           ++itr) {
+        const vector<unsigned>& face = mesh.faces[*itr];
+        for (unsigned j = 0; j != Dimension; ++j) {
+          RealType xj = 0;
+          for (unsigned k = 0; k != face.size(); ++k) xj += mesh.nodes[Dimension * face[k] + j];
+          positions.push_back(xj/face.size());
+        }
+      }
+      sortByPosition<Dimension, RealType>(positions, tol, mesh.sharedFaces[idomain]);
+    }
+  }
+
   if (visIntermediateMeshes)
   {
     outputTessellation(mesh, generators, "finalMesh", rank, vector<RealType>(mesh.cells.size()), "dummy");
-- 
2.43.0


From c17294dda62720c80edcfbadacb7fa14e93c206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 05/53] fix: distributed tessellation without communication
 info

The neighbor pruning indexed the shared node and face lists, which are empty
unless the communication info was requested.
---
 src/DistributedTessellator.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index f7640b9..1e037bb 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -531,6 +531,9 @@ computeDistributedTessellation(const vector<RealType>& points,
   }
 
 
+  // Without communication info there is nothing to say about our neighbors.
+  if (not mBuildCommunicationInfo) mesh.neighborDomains.clear();
+
   // Remove any neighbors we don't actually share any info with.
   unsigned numNeighbors = mesh.neighborDomains.size();
   for (int i = numNeighbors - 1; i != -1; --i) {
@@ -720,9 +723,11 @@ computeDistributedTessellation(const vector<RealType>& points,
 
   // Post-conditions.
 #ifdef DEBUG_MODE
-  const string msg = checkDistributedTessellation(mesh);
-  if (msg != "ok" and rank == 0) cerr << msg;
-  POLY_ASSERT(msg == "ok");
+  if (mBuildCommunicationInfo) {
+    const string msg = checkDistributedTessellation(mesh);
+    if (msg != "ok" and rank == 0) cerr << msg;
+    POLY_ASSERT(msg == "ok");
+  }
 #endif
 }
 
-- 
2.43.0


From 956e80da36ebfedf9ae197aebee7d0627097a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 06/53] fix: report the receiver's own list length in
 checkDistributedTessellation

k is the sender's neighbor index, which may be out of range on the receiver.
---
 src/checkDistributedTessellation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checkDistributedTessellation.hh b/src/checkDistributedTessellation.hh
index dd27e51..7b067f4 100644
--- a/src/checkDistributedTessellation.hh
+++ b/src/checkDistributedTessellation.hh
@@ -108,7 +108,7 @@ checkConsistentCommInfo(const std::string& label,
           const unsigned kk = std::distance(neighborDomains.begin(), neighbItr);
           if (recvHashes.size() != sharedIDs[kk].size()) {
             std::stringstream os;
-            os << "Domain " << sendProc << " -> " << rank << " disagree about the number of shared hashes:  " << nother << " != " << sharedIDs[k].size();
+            os << "Domain " << sendProc << " -> " << rank << " disagree about the number of shared hashes:  " << nother << " != " << sharedIDs[kk].size();
             result = os.str();
           } else {
             unsigned i = 0;
-- 
2.43.0


From 7cb5b19aa8a023ddf59726f3708656b0b847046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 07/53] fix: renumber the cells that MeshEditor::deleteCells
 keeps

The kept cells were written at their old numbers in an array sized for the
new ones, past its end whenever a cell before the last was deleted.
---
 src/MeshEditor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 1a32cfb..de2d0ac 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -713,7 +713,7 @@ cleanMesh(std::vector<unsigned>& cellMap,
         //POLY_ASSERT(faceMap.find(iface) != faceMap.end());
         if (mFaceMask[iface] == 1) {
           // int newFace = (*itr >= 0 ? faceMap[iface] : ~faceMap[iface]);
-          newCells[i].push_back( *itr < 0 ? ~faceMap[iface] : faceMap[iface]);
+          newCells[cellMap[i]].push_back( *itr < 0 ? ~faceMap[iface] : faceMap[iface]);
         }
       }
     }
-- 
2.43.0


From 60b39188ff342e57752b0689a8ac6a8db5cb0837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 08/53] fix: keep the boundary elements current when a mesh is
 edited

Deleting cells or cleaning edges renumbered the faces and nodes but left
boundaryFaces and boundaryNodes naming the old ones.
---
 src/MeshEditor.cc           | 4 ++++
 src/deleteCells.hh          | 4 ++++
 src/findBoundaryElements.hh | 2 +-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index de2d0ac..bd8b8c8 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -6,6 +6,7 @@
 
 #include "polytope.hh"
 #include "MeshEditor.hh"
+#include "findBoundaryElements.hh"
 
 namespace polytope {
 
@@ -742,6 +743,9 @@ cleanMesh(std::vector<unsigned>& cellMap,
   // If there was a convex hull in the mesh, it's probably no longer valid.
   mMesh.convexHull = PLC<Dimension, RealType>();
 
+  // The boundary elements have been renumbered, and there may be new ones.
+  findBoundaryElements(mMesh, mMesh.boundaryFaces, mMesh.boundaryNodes);
+
   // Clear out the masks. We're done.
   mCellMask.clear();
   mFaceMask.clear();
diff --git a/src/deleteCells.hh b/src/deleteCells.hh
index a15147b..82a6f0f 100644
--- a/src/deleteCells.hh
+++ b/src/deleteCells.hh
@@ -17,6 +17,7 @@
 #include <map>
 
 #include "polytope.hh"
+#include "findBoundaryElements.hh"
 
 namespace polytope {
 
@@ -157,6 +158,9 @@ deleteCells(Tessellation<Dimension, RealType>& mesh,
   // If there was a convex hull in the mesh, it's probably no longer valid.
   mesh.convexHull = PLC<Dimension, RealType>();
 
+  // The boundary elements have been renumbered, and there may be new ones.
+  findBoundaryElements(mesh, mesh.boundaryFaces, mesh.boundaryNodes);
+
   // Post-conditions.
   POLY_ASSERT(mesh.nodes.size() == Dimension*nnodes1);
   POLY_ASSERT(mesh.faces.size() == nfaces1);
diff --git a/src/findBoundaryElements.hh b/src/findBoundaryElements.hh
index fa81822..6a69576 100644
--- a/src/findBoundaryElements.hh
+++ b/src/findBoundaryElements.hh
@@ -34,7 +34,7 @@ findBoundaryElements(const Tessellation<Dimension, RealType>& mesh,
   std::sort(boundaryNodes.begin(), boundaryNodes.end());
   boundaryNodes.erase(unique(boundaryNodes.begin(), boundaryNodes.end()), boundaryNodes.end());
 
-  POLY_ASSERT(boundaryNodes.size() > 0);
+  POLY_ASSERT(mesh.faces.empty() or boundaryNodes.size() > 0);
   POLY_ASSERT(boundaryNodes.size() <= mesh.nodes.size()/2);
 }
 
-- 
2.43.0


From 19ead9619d4666b14e38cb615e14585d43fe1ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:55 +0000
Subject: [PATCH 09/53] fix: give each neighbor its own buffer in
 MeshEditor::cleanEdges

One buffer was appended to for every neighbor while earlier sends of it were
still in flight, and the size was sent from a variable that had gone out of
scope by then.
---
 src/MeshEditor.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index bd8b8c8..eb7d9c9 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -379,14 +379,17 @@ flagEdgesForCleaning(const RealType edgeTol,
     }
     
     // Send the sharedEdgeMask to each neighbor asynchronously
-    vector<char> localBuffer;
+    vector<vector<char> > localBuffers(mMesh.neighborDomains.size());
+    vector<unsigned> localBufferSizes(mMesh.neighborDomains.size());
     vector<MPI_Request> sendRequests;
     sendRequests.reserve(2*mMesh.neighborDomains.size());
     ineighbor = 0;
     for (vector<unsigned>::const_iterator otherItr = mMesh.neighborDomains.begin();
          otherItr != mMesh.neighborDomains.end(); ++otherItr, ++ineighbor) {
+      vector<char>& localBuffer = localBuffers[ineighbor];
+      unsigned& localBufferSize = localBufferSizes[ineighbor];
       serialize(sharedEdgeMask[ineighbor], localBuffer);
-      unsigned localBufferSize = localBuffer.size();
+      localBufferSize = localBuffer.size();
       const unsigned otherProc = *otherItr;
       sendRequests.push_back(MPI_Request());
       MPI_Isend(&localBufferSize, 1, MPI_UNSIGNED, otherProc, 1, MPI_COMM_WORLD, &sendRequests.back());
-- 
2.43.0


From f29f150eb0bbf860919f9403dc2d5f43e1e09e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:25 +0000
Subject: [PATCH 10/53] fix: cleanEdges keeps every cell a polygon and the
 border intact

Collapsing the short edge of a triangle, or both short edges of a thin
quadrilateral, left cells of two coincident faces; merging two border nodes
across the mesh pinched it.
---
 src/MeshEditor.cc | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index eb7d9c9..cfba753 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -117,6 +117,8 @@ flagEdgesForCleaning(const RealType edgeTol,
   map<int, EdgeType> indexToEdge;
   map<unsigned, vector<unsigned> > cellToEdges, borderNodesToBorderFaces;
   set<unsigned> borderNodes;
+  set<EdgeType> borderEdges;
+  vector<vector<unsigned> > edgeToCells;
   vector<RealType> edgeLength;
   RealType length;
   unsigned inode0, inode1;
@@ -154,7 +156,10 @@ flagEdgesForCleaning(const RealType edgeTol,
            length = geometry::distance<Dimension, RealType>
               (&mMesh.nodes[Dimension*inode0], &mMesh.nodes[Dimension*inode1]);
            edgeLength.push_back(length);
+           edgeToCells.push_back(vector<unsigned>());
         }
+        if (nfaceCells == 1) borderEdges.insert(edge);
+        edgeToCells[iedge].push_back(icell);
         cellEdgeIDs.push_back(iedge);
 
         // // typename EdgeMap::left_const_iterator lItr = edgeToID.left.find(edge);
@@ -224,6 +229,10 @@ flagEdgesForCleaning(const RealType edgeTol,
   }
   
   // Flag the edges we want to remove.
+  // In 2D we may not leave a cell with fewer than 3 edges, nor pinch the mesh by
+  // merging two border nodes across its interior.
+  vector<unsigned> numCellEdges(ncells0);
+  for (unsigned icell = 0; icell != ncells0; ++icell) numCellEdges[icell] = cellToEdges[icell].size();
   vector<unsigned> edgeMask(nedges0, 1);
   vector<unsigned> nodeCollapse(nnodes0);
   EdgeType edge;
@@ -242,13 +251,26 @@ flagEdgesForCleaning(const RealType edgeTol,
     const bool cornerEdge = (cornerNodes.find(inode0) != cornerNodes.end() or
                              cornerNodes.find(inode1) != cornerNodes.end());
                             //(isCornerNode[inode0] == 0 or isCornerNode[inode1] == 0));
-    const bool cleanTest = (edgeLength[iedge] < edgeTol*maxCellEdgeLength[iedge] and
+    bool collapsible = true;
+    if (Dimension == 2) {
+      collapsible = (borderEdges.find(edge) != borderEdges.end() or
+                     borderNodes.find(inode0) == borderNodes.end() or
+                     borderNodes.find(inode1) == borderNodes.end());
+      for (vector<unsigned>::const_iterator itr = edgeToCells[iedge].begin();
+           itr != edgeToCells[iedge].end(); 
+           ++itr) collapsible = collapsible and numCellEdges[*itr] > 3;
+    }
+    const bool cleanTest = (collapsible and
+                            edgeLength[iedge] < edgeTol*maxCellEdgeLength[iedge] and
                             mNodeMask[inode0] == 1 and 
                             mNodeMask[inode1] == 1 and
                             not cornerEdge);
     if (cleanTest) {
       edgesClean = false;
       edgeMask[iedge] = 0;
+      for (vector<unsigned>::const_iterator itr = edgeToCells[iedge].begin();
+           itr != edgeToCells[iedge].end(); 
+           ++itr) --numCellEdges[*itr];
       const bool node1KeepTest = //isCornerNode[inode1] == 1 or 
          (cornerNodes.find(inode1) != cornerNodes.end()) or
          (borderNodes.find(inode1) != borderNodes.end() and
-- 
2.43.0


From d2aa2e4eda310bc41328eba834e56c811a73e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:26 +0000
Subject: [PATCH 11/53] fix: allow a process with a single generator in
 DistributedTessellator

computeDomainNeighbors tessellated the local generators without a boundary
even when their hull is of lower dimension, where the result is not used
(except for visualization).  For a single generator that tessellation has no
extent, and the process crashed.
---
 src/DistributedTessellator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index 1e037bb..6bc6264 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -890,7 +890,7 @@ computeDomainNeighbors(const vector<RealType>& points,
     // We have a lower-dimension hull. Every point is visible.
     else
     {
-      mSerialTessellator->tessellate(points, localMesh);
+      if (visIntermediateMeshes) mSerialTessellator->tessellate(points, localMesh);
       localHull.points = points;
     }
     
-- 
2.43.0


From 81d1ec9d30462365cf45c98f0017c692975df4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:38 +0000
Subject: [PATCH 12/53] fix: judge collinearity by direction at every length
 scale

---
 src/polytope_geometric_utilities.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 6552c94..3d1ff21 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -433,7 +433,8 @@ collinear(const RealType* a, const RealType* b, const RealType* c, const RealTyp
     abmag += ab[j]*ab[j];
     acmag += ac[j]*ac[j];
   }
-  if (abmag < tol or acmag < tol) return true;
+  const double fuzz = tol*tol*std::max(abmag, acmag);
+  if (abmag <= fuzz or acmag <= fuzz) return true;
   abmag = sqrt(abmag);
   acmag = sqrt(acmag);
   for (unsigned j = 0; j != Dimension; ++j) {
-- 
2.43.0


From 4094c3889fda0257515727965e6097134eb91ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:12 +0000
Subject: [PATCH 13/53] fix: exchange the masks of shared faces' edges only in
 cleanEdges

---
 src/MeshEditor.cc | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index cfba753..0d6ea7f 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -329,21 +329,27 @@ flagEdgesForCleaning(const RealType edgeTol,
       POLY_ASSERT(nodeIndexToSharePosition.size() == mMesh.sharedNodes[ineighbor].size());
       domainNodeMaps[ineighbor] = nodeIndexToSharePosition;
 
-      // Consider all edges on this domain. The shared ones consist of two shared nodes.
-      for (typename map<EdgeType, int>::const_iterator edgeItr = edgeToIndex.begin();
-           edgeItr != edgeToIndex.end();
+      // The edges of the shared faces.  (Two shared nodes alone do not make an edge
+      // shared: the other domain need not have an edge between them.)
+      set<EdgeType> edges;
+      for (vector<unsigned>::const_iterator faceItr = mMesh.sharedFaces[ineighbor].begin();
+           faceItr != mMesh.sharedFaces[ineighbor].end(); ++faceItr) {
+        const vector<unsigned>& faceNodes = mMesh.faces[*faceItr];
+        const unsigned nfaceNodes = faceNodes.size();
+        const unsigned maxNodeIndex = (nfaceNodes == 2) ? 1 : nfaceNodes;
+        for (unsigned inode = 0; inode != maxNodeIndex; ++inode) {
+          edges.insert(internal::hashEdge(faceNodes[inode], faceNodes[(inode+1) % nfaceNodes]));
+        }
+      }
+      for (set<EdgeType>::const_iterator edgeItr = edges.begin();
+           edgeItr != edges.end();
            ++edgeItr) {
-
-      // // for (typename EdgeMap::left_const_iterator edgeItr = edgeToID.left.begin();
-      // //      edgeItr != edgeToID.left.end(); ++edgeItr) {
-
-        const EdgeType edge  = edgeItr->first;
-        const unsigned iedge = edgeItr->second;
-        inode0 = edge.first;
-        inode1 = edge.second;
+        typename map<EdgeType, int>::const_iterator idItr = edgeToIndex.find(*edgeItr);
+        POLY_ASSERT(idItr != edgeToIndex.end());
+        const unsigned iedge = idItr->second;
+        inode0 = edgeItr->first;
+        inode1 = edgeItr->second;
         POLY_ASSERT(inode0 < inode1);
-        POLY_ASSERT(inode0 < mMesh.nodes.size()/Dimension and
-                    inode1 < mMesh.nodes.size()/Dimension);
         map<unsigned,unsigned>::const_iterator it0 = nodeIndexToSharePosition.find(inode0);
         map<unsigned,unsigned>::const_iterator it1 = nodeIndexToSharePosition.find(inode1);
         if (it0 != nodeIndexToSharePosition.end() and 
-- 
2.43.0


From eefe8da8d7fcf0cadc6c7507c9afd539ba29b2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:21 +0000
Subject: [PATCH 14/53] fix: initialize and clear every array of a C
 tessellation

---
 polytope_c/polytope_tessellation.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/polytope_c/polytope_tessellation.cc b/polytope_c/polytope_tessellation.cc
index 2414762..2b12d3f 100644
--- a/polytope_c/polytope_tessellation.cc
+++ b/polytope_c/polytope_tessellation.cc
@@ -24,6 +24,7 @@ polytope_tessellation_t* polytope_tessellation_new(int dimension)
   tess->num_faces = 0;
   tess->face_offsets = NULL;
   tess->face_nodes = NULL;
+  tess->face_cells = NULL;
   tess->num_neighbor_domains = 0;
   tess->neighbor_domains = NULL;
   tess->shared_node_domain_offsets = NULL;
@@ -78,14 +79,19 @@ void polytope_tessellation_clear(polytope_tessellation_t* tessellation)
   if (tessellation->boundary_nodes != NULL)
   {
     free(tessellation->boundary_nodes);
+    tessellation->num_boundary_nodes = 0;
+    tessellation->boundary_nodes = NULL;
   }
   if (tessellation->boundary_faces != NULL)
   {
     free(tessellation->boundary_faces);
+    tessellation->num_boundary_faces = 0;
+    tessellation->boundary_faces = NULL;
   }
   if (tessellation->face_cells != NULL)
   {
     free(tessellation->face_cells);
+    tessellation->face_cells = NULL;
   }
   if (tessellation->neighbor_domains != NULL)
   {
-- 
2.43.0


From 0763f95d55a374cd66b2f40a384ba19f507f5195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:42 +0000
Subject: [PATCH 15/53] fix: give plain cell indices in the face_cells array of
 a C tessellation

---
 polytope_c/polytope_tessellator.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/polytope_c/polytope_tessellator.cc b/polytope_c/polytope_tessellator.cc
index df67df5..6e6c4f8 100644
--- a/polytope_c/polytope_tessellator.cc
+++ b/polytope_c/polytope_tessellator.cc
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "polytope_c.h"
 #include "polytope.hh"
 #include "BoostTessellator.hh"
@@ -76,8 +78,11 @@ void fill_tessellation(const Tessellation<Dimension, polytope_real_t>& t, polyto
   tess->face_cells = (int*)malloc(2 * tess->num_faces * sizeof(int));
   for (int f = 0; f < t.faceCells.size(); ++f)
   {
-    tess->face_cells[2*f] = t.faceCells[f][0];
-    tess->face_cells[2*f+1] = (t.faceCells[f].size() == 2) ? t.faceCells[f][1] : -1;
+    // These are plain cell indices: as a 1s complement, cell 0 would look like 
+    // the boundary.
+    const std::vector<int>& cells = t.faceCells[f];
+    tess->face_cells[2*f] = (cells[0] < 0) ? ~cells[0] : cells[0];
+    tess->face_cells[2*f+1] = (cells.size() != 2) ? -1 : (cells[1] < 0) ? ~cells[1] : cells[1];
   }
 
   // Convex hull.
@@ -171,7 +176,12 @@ void fill_tessellation(polytope_tessellation_t* tess, Tessellation<Dimension, po
     int num_cells = (tess->face_cells[2*i+1] != -1) ? 2 : 1;
     t.faceCells[i].resize(num_cells);
     for (int j = 0; j < num_cells; ++j)
-      t.faceCells[i][j] = tess->face_cells[2*i+j];
+    {
+      // The cell's list of faces says whether the cell sees the face reversed.
+      int c = tess->face_cells[2*i+j];
+      bool positive = std::find(t.cells[c].begin(), t.cells[c].end(), (int)i) != t.cells[c].end();
+      t.faceCells[i][j] = positive ? c : ~c;
+    }
   }
 
   // Convex hull.
-- 
2.43.0


From 7062a00dc4ebd715836d7440277bde13683a2bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:05 +0000
Subject: [PATCH 16/53] fix: keep the string that polytope_tessellator_name
 returns

---
 polytope_c/polytope_tessellator.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/polytope_c/polytope_tessellator.cc b/polytope_c/polytope_tessellator.cc
index 6e6c4f8..42af408 100644
--- a/polytope_c/polytope_tessellator.cc
+++ b/polytope_c/polytope_tessellator.cc
@@ -227,6 +227,7 @@ struct polytope_tessellator_t
 {
   Tessellator<2, polytope_real_t>* tess2;
   Tessellator<3, polytope_real_t>* tess3;
+  char* name;
 };
 //------------------------------------------------------------------------
 
@@ -237,6 +238,7 @@ void polytope_tessellator_free(polytope_tessellator_t* tessellator)
     delete tessellator->tess2;
   else
     delete tessellator->tess3;
+  free(tessellator->name);
   free(tessellator);
 }
 //------------------------------------------------------------------------
@@ -333,10 +335,15 @@ bool polytope_tessellator_handles_plcs(polytope_tessellator_t* tessellator)
 //------------------------------------------------------------------------
 const char* polytope_tessellator_name(polytope_tessellator_t* tessellator)
 {
-  if (tessellator->tess2 != NULL)
-    return tessellator->tess2->name().c_str();
-  else
-    return tessellator->tess3->name().c_str();
+  // The string has to outlive the one that name() returns.
+  if (tessellator->name == NULL)
+  {
+    string name = (tessellator->tess2 != NULL) ? tessellator->tess2->name()
+                                               : tessellator->tess3->name();
+    tessellator->name = (char*)malloc(sizeof(char) * (name.length() + 1));
+    copy(name.c_str(), name.c_str() + name.length() + 1, tessellator->name);
+  }
+  return tessellator->name;
 }
 //------------------------------------------------------------------------
 
@@ -367,6 +374,7 @@ polytope_tessellator_t* boost_tessellator_new()
   polytope_tessellator_t* t = (polytope_tessellator_t*)malloc(sizeof(polytope_tessellator_t));
   t->tess2 = new BoostTessellator<polytope_real_t>();
   t->tess3 = NULL;
+  t->name = NULL;
   return t;
 }
 #endif
@@ -379,6 +387,7 @@ polytope_tessellator_t* triangle_tessellator_new()
   polytope_tessellator_t* t = (polytope_tessellator_t*)malloc(sizeof(polytope_tessellator_t));
   t->tess2 = new TriangleTessellator<polytope_real_t>();
   t->tess3 = NULL;
+  t->name = NULL;
   return t;
 }
 #endif
@@ -391,6 +400,7 @@ polytope_tessellator_t* tetgen_tessellator_new()
   polytope_tessellator_t* t = (polytope_tessellator_t*)malloc(sizeof(polytope_tessellator_t));
   t->tess2 = NULL;
   t->tess3 = new TetgenTessellator();
+  t->name = NULL;
   return t;
 }
 #endif
-- 
2.43.0


From 1568febb653606bf42a3d46e08b4be9e969547a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:47 +0000
Subject: [PATCH 17/53] fix: print C tessellations and PLCs within the given
 buffer

---
 polytope_c/polytope_plc.cc          | 24 +++++++++++++++---------
 polytope_c/polytope_tessellation.cc | 13 ++++---------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/polytope_c/polytope_plc.cc b/polytope_c/polytope_plc.cc
index 75d363a..2fa6206 100644
--- a/polytope_c/polytope_plc.cc
+++ b/polytope_c/polytope_plc.cc
@@ -1,3 +1,5 @@
+#include <sstream>
+
 #include "polytope_c.h"
 #include "polytope.hh"
 
@@ -191,7 +193,13 @@ bool polytope_plc_valid(polytope_plc_t* plc)
 //------------------------------------------------------------------------
 void polytope_plc_snprintf(polytope_plc_t* plc, char* str, int n)
 {
-  // FIXME
+  POLY_ASSERT(plc != NULL);
+  ostringstream text;
+  if (plc->plc2 != NULL)
+    text << *(plc->plc2);
+  else
+    text << *(plc->plc3);
+  snprintf(str, n, "%s", text.str().c_str());
 }
 //------------------------------------------------------------------------
 
@@ -199,14 +207,12 @@ void polytope_plc_snprintf(polytope_plc_t* plc, char* str, int n)
 void polytope_plc_fprintf(polytope_plc_t* plc, FILE* stream)
 {
   POLY_ASSERT(plc != NULL);
-  // Let's assume, for the moment, that the output of our PLC scales with the 
-  // number of facets.
-  int n = (plc->plc2 != NULL) ? 128 * plc->plc2->facets.size()
-                               : 128 * plc->plc3->facets.size();
-  char* str = (char*)malloc(n * sizeof(char));
-  polytope_plc_snprintf(plc, str, n);
-  fprintf(stream, "%s", str);
-  free(str);
+  ostringstream text;
+  if (plc->plc2 != NULL)
+    text << *(plc->plc2);
+  else
+    text << *(plc->plc3);
+  fprintf(stream, "%s", text.str().c_str());
 }
 //------------------------------------------------------------------------
 
diff --git a/polytope_c/polytope_tessellation.cc b/polytope_c/polytope_tessellation.cc
index 2b12d3f..f07ef33 100644
--- a/polytope_c/polytope_tessellation.cc
+++ b/polytope_c/polytope_tessellation.cc
@@ -135,9 +135,8 @@ void polytope_tessellation_snprintf(polytope_tessellation_t* tessellation, char*
 {
   POLY_ASSERT(tessellation != NULL);
 
-  char fmt[128];
-  snprintf(fmt, 128, "Tessellation (%d)", static_cast<int>(sizeof(str) - strlen(str) - 1));
-  strncat(str, fmt, sizeof(str) - strlen(str));
+  snprintf(str, n, "Tessellation (%dD): %d nodes, %d faces, %d cells\n", tessellation->dimension,
+           tessellation->num_nodes, tessellation->num_faces, tessellation->num_cells);
 }
 //------------------------------------------------------------------------
 
@@ -145,13 +144,9 @@ void polytope_tessellation_snprintf(polytope_tessellation_t* tessellation, char*
 void polytope_tessellation_fprintf(polytope_tessellation_t* tessellation, FILE* stream)
 {
   POLY_ASSERT(tessellation != NULL);
-  // Let's assume, for the moment, that the output of our tessellation scales with the
-  // number of cells.
-  int n = 512 * tessellation->num_cells;
-  char* str = (char*)malloc(n * sizeof(char));
-  polytope_tessellation_snprintf(tessellation, str, n);
+  char str[512];
+  polytope_tessellation_snprintf(tessellation, str, 512);
   fprintf(stream, "%s", str);
-  free(str);
 }
 //------------------------------------------------------------------------
 
-- 
2.43.0


From 5ebf004da32d9b26aa93cf66dab903fe9e83cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 18/53] fix: write both cells of each face, and their number,
 to Silo files

---
 src/SiloWriter_2d.cc | 7 ++++---
 src/SiloWriter_3d.cc | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index 0a1449d..ecd696d 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -314,13 +314,14 @@ write(const Tessellation<2, RealType>& mesh,
   }
   for (int f = 0; f < mesh.faceCells.size(); ++f)
   {
-    conn.push_back(mesh.faceCells[f][0]);
-    conn.push_back(mesh.faceCells[f][0]);
+    // A boundary face has only one cell, which we give twice.
+    conn.push_back(mesh.faceCells[f].front());
+    conn.push_back(mesh.faceCells[f].back());
   }
   elemnames[0] = strDup("ncellfaces");
   elemlengths[0] = numCells;
   elemnames[2] = strDup("facecells");
-  elemlengths[2] = conn.size() - 2*mesh.faces.size();
+  elemlengths[2] = 2*mesh.faceCells.size();
   elemnames[1] = strDup("cellfaces");
   elemlengths[1] = conn.size() - elemlengths[2] - elemlengths[0];
   DBPutCompoundarray(file, "conn", elemnames, elemlengths, 3, 
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 70ddaed..61694ec 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -351,13 +351,14 @@ write(const Tessellation<3, RealType>& mesh,
   }
   for (int f = 0; f < mesh.faceCells.size(); ++f)
   {
-    conn.push_back(mesh.faceCells[f][0]);
-    conn.push_back(mesh.faceCells[f][0]);
+    // A boundary face has only one cell, which we give twice.
+    conn.push_back(mesh.faceCells[f].front());
+    conn.push_back(mesh.faceCells[f].back());
   }
   elemnames[0] = strDup("ncellfaces");
   elemlengths[0] = numCells;
   elemnames[2] = strDup("facecells");
-  elemlengths[2] = conn.size() - 2*mesh.faces.size();
+  elemlengths[2] = 2*mesh.faceCells.size();
   elemnames[1] = strDup("cellfaces");
   elemlengths[1] = conn.size() - elemlengths[2] - elemlengths[0];
   DBPutCompoundarray(file, "conn", elemnames, elemlengths, 3, 
-- 
2.43.0


From db491be78082c717186be3d97543d95d5fce6fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 19/53] fix: write the names of tags to Silo files

---
 src/SiloUtils.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SiloUtils.cc b/src/SiloUtils.cc
index 97e51b4..e77a4f6 100644
--- a/src/SiloUtils.cc
+++ b/src/SiloUtils.cc
@@ -37,8 +37,7 @@ writeTagsToFile(const map<string, vector<int>*>& tags,
   {
     vector<int>& tag = *iter->second;
     elemLengths.push_back(static_cast<int>(tag.size()));
-    string tagName;
-    elemNames.push_back(strDup(tagName.c_str()));
+    elemNames.push_back(strDup(iter->first.c_str()));
     for (size_t i = 0; i < tag.size(); ++i)
       tagData.push_back(tag[i]);
   }
-- 
2.43.0


From 5ed5174ea6e488f6acfdf8d85ab21d14c64ad9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 20/53] fix: add to the Silo file that processes share rather
 than recreate it

---
 src/SiloWriter_2d.cc | 3 ++-
 src/SiloWriter_3d.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index ecd696d..d822d99 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -92,7 +92,8 @@ PMPIO_openFile(const char* filename,
   DBfile* file;
   if (iomode == PMPIO_WRITE)
   { 
-    file = DBCreate(filename, 0, DB_LOCAL, 0, driver);
+    // The first process of our group has created the file.
+    file = DBOpen(filename, driver, DB_APPEND);
     DBMkDir(file, dirname);
     DBSetDir(file, dirname);
   }
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 61694ec..e21bf37 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -117,7 +117,8 @@ PMPIO_openFile(const char* filename,
   DBfile* file;
   if (iomode == PMPIO_WRITE)
   { 
-    file = DBCreate(filename, 0, DB_LOCAL, 0, driver);
+    // The first process of our group has created the file.
+    file = DBOpen(filename, driver, DB_APPEND);
     DBMkDir(file, dirname);
     DBSetDir(file, dirname);
   }
-- 
2.43.0


From 843d4bef8dc84a4ab18149b585291524d1d0886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:18 +0000
Subject: [PATCH 21/53] fix: refer to every process's domain in the Silo files
 of uneven groups

---
 src/SiloWriter_2d.cc | 32 +++++++++++++++++++-------------
 src/SiloWriter_3d.cc | 32 +++++++++++++++++++-------------
 2 files changed, 38 insertions(+), 26 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index d822d99..a658880 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -399,8 +399,14 @@ write(const Tessellation<2, RealType>& mesh,
   DBFreeOptlist(optlist);
 
 #ifdef HAVE_MPI
+  // Count the domains in each file. If numFiles doesn't divide nproc, some
+  // files have one more than others.
+  vector<int> numFileChunks(numFiles, 0);
+  for (int p = 0; p < nproc; ++p)
+    ++numFileChunks[PMPIO_GroupRank(baton, p)];
+
   // Write the multi-block objects to the file if needed.
-  int numChunks = nproc / numFiles;
+  int numChunks = numFileChunks[groupRank];
   if (rankInGroup == 0)
   {
     vector<char*> meshNames(numChunks);
@@ -468,16 +474,16 @@ write(const Tessellation<2, RealType>& mesh,
     // cerr << "Opening MASTER file " << masterFileName << endl;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-    vector<char*> meshNames(numFiles*numChunks);
-    vector<int> meshTypes(numFiles*numChunks, DB_UCDMESH);
+    vector<char*> meshNames;
+    vector<int> meshTypes(nproc, DB_UCDMESH);
     vector<vector<char*> > varNames(nodeFields.size() +
         edgeFields.size() +
         faceFields.size() +
         cellFields.size());
-    vector<int> varTypes(numFiles*numChunks, DB_UCDVAR);
+    vector<int> varTypes(nproc, DB_UCDVAR);
     for (int i = 0; i < numFiles; ++i)
     {
-      for (int c = 0; c < numChunks; ++c)
+      for (int c = 0; c < numFileChunks[i]; ++c)
       {
         // Mesh.
         char meshName[1024];
@@ -485,7 +491,7 @@ write(const Tessellation<2, RealType>& mesh,
           snprintf(meshName, 1024, "%d/%s-%d.silo:/domain_%d/mesh", i, prefix.c_str(), cycle, c);
         else
           snprintf(meshName, 1024, "%d/%s.silo:/domain_%d/mesh", i, prefix.c_str(), c);
-        meshNames[i*numChunks+c] = strDup(meshName);
+        meshNames.push_back(strDup(meshName));
 
         // Field data.
         int fieldIndex = 0;
@@ -504,21 +510,21 @@ write(const Tessellation<2, RealType>& mesh,
       DBAddOption(optlist, DBOPT_DTIME, &dtime);
 
     // Write the multimesh and variable data, and close the file.
-    DBPutMultimesh(file, "mesh", numFiles*numChunks, &meshNames[0], 
+    DBPutMultimesh(file, "mesh", nproc, &meshNames[0], 
         &meshTypes[0], optlist);
     int fieldIndex = 0;
-    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
+    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
     DBClose(file);
 
     // Clean up.
     DBFreeOptlist(optlist);
-    for (int i = 0; i < numFiles*numChunks; ++i)
+    for (int i = 0; i < nproc; ++i)
       free(meshNames[i]);
     for (int f = 0; f < varNames.size(); ++f)
-      for (int i = 0; i < numFiles*numChunks; ++i)
+      for (int i = 0; i < nproc; ++i)
         free(varNames[f][i]);
   }
 #else
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index e21bf37..dc56ae8 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -441,8 +441,14 @@ write(const Tessellation<3, RealType>& mesh,
   DBFreeOptlist(optlist);
 
 #ifdef HAVE_MPI
+  // Count the domains in each file. If numFiles doesn't divide nproc, some
+  // files have one more than others.
+  vector<int> numFileChunks(numFiles, 0);
+  for (int p = 0; p < nproc; ++p)
+    ++numFileChunks[PMPIO_GroupRank(baton, p)];
+
   // Write the multi-block objects to the file if needed.
-  int numChunks = nproc / numFiles;
+  int numChunks = numFileChunks[groupRank];
   if (rankInGroup == 0)
   {
     vector<char*> meshNames(numChunks);
@@ -509,16 +515,16 @@ write(const Tessellation<3, RealType>& mesh,
     int driver = DB_HDF5;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-    vector<char*> meshNames(numFiles*numChunks);
-    vector<int> meshTypes(numFiles*numChunks, DB_UCDMESH);
+    vector<char*> meshNames;
+    vector<int> meshTypes(nproc, DB_UCDMESH);
     vector<vector<char*> > varNames(nodeFields.size() +
                                     edgeFields.size() +
                                     faceFields.size() +
                                     cellFields.size());
-    vector<int> varTypes(numFiles*numChunks, DB_UCDVAR);
+    vector<int> varTypes(nproc, DB_UCDVAR);
     for (int i = 0; i < numFiles; ++i)
     {
-      for (int c = 0; c < numChunks; ++c)
+      for (int c = 0; c < numFileChunks[i]; ++c)
       {
         // Mesh.
         char meshName[1024];
@@ -526,7 +532,7 @@ write(const Tessellation<3, RealType>& mesh,
           snprintf(meshName, 1024, "%d/%s-%d.silo:/domain_%d/mesh", i, prefix.c_str(), cycle, c);
         else
           snprintf(meshName, 1024, "%d/%s.silo:/domain_%d/mesh", i, prefix.c_str(), c);
-        meshNames[i*numChunks+c] = strDup(meshName);
+        meshNames.push_back(strDup(meshName));
 
         // Field data.
         int fieldIndex = 0;
@@ -545,21 +551,21 @@ write(const Tessellation<3, RealType>& mesh,
       DBAddOption(optlist, DBOPT_DTIME, &dtime);
 
     // Write the multimesh and variable data, and close the file.
-    DBPutMultimesh(file, "mesh", numFiles*numChunks, &meshNames[0], 
+    DBPutMultimesh(file, "mesh", nproc, &meshNames[0], 
                    &meshTypes[0], optlist);
     int fieldIndex = 0;
-    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
+    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
     DBClose(file);
 
     // Clean up.
     DBFreeOptlist(optlist);
-    for (int i = 0; i < numFiles*numChunks; ++i)
+    for (int i = 0; i < nproc; ++i)
       free(meshNames[i]);
     for (int f = 0; f < varNames.size(); ++f)
-      for (int i = 0; i < numFiles*numChunks; ++i)
+      for (int i = 0; i < nproc; ++i)
         free(varNames[f][i]);
   }
 #else
-- 
2.43.0


From 05f6c0da42cf05ee1334813f39f0c5e36c618b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:18 +0000
Subject: [PATCH 22/53] fix: put the master Silo file of a 3D mesh in the given
 directory

---
 src/SiloWriter_3d.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index dc56ae8..332632e 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -509,9 +509,9 @@ write(const Tessellation<3, RealType>& mesh,
   {
     char masterFileName[1024];
     if (cycle >= 0)
-      snprintf(masterFileName, 1024, "%s-%d/%s-%d.silo", prefix.c_str(), nproc, prefix.c_str(), cycle);
+      snprintf(masterFileName, 1024, "%s/%s-%d.silo", masterDirName.c_str(), prefix.c_str(), cycle);
     else
-      snprintf(masterFileName, 1024, "%s-%d/%s.silo", prefix.c_str(), nproc, prefix.c_str());
+      snprintf(masterFileName, 1024, "%s/%s.silo", masterDirName.c_str(), prefix.c_str());
     int driver = DB_HDF5;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-- 
2.43.0


From bec5543d519205282f0362ce0c325487ae0eee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 23/53] fix: keep the direction of segments that the 2D CSG
 operations split

splitSegment pushed the second vertex of a spanning segment before the point
where it is cut, so one of the two fragments came out reversed and the result
of most unions, intersections and differences was not a consistent outline.
---
 src/PLC_CSG_2d.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLC_CSG_2d.hh b/src/PLC_CSG_2d.hh
index 5b30dc5..ccbe6ad 100644
--- a/src/PLC_CSG_2d.hh
+++ b/src/PLC_CSG_2d.hh
@@ -209,14 +209,14 @@ void Line<RealType>::splitSegment(const Segment<RealType>& segment,
       Vertex<RealType> vi = segment.vertices[0], vj = segment.vertices[1];
       if (ti != BACK) f.push_back(vi);
       if (ti != FRONT) b.push_back(vi);
-      if (tj != BACK) f.push_back(vj);
-      if (tj != FRONT) b.push_back(vj);
       if ((ti | tj) == SPANNING) {
         double t = (this->w - dot(this->normal, vi.pos)) / dot(this->normal, vj.pos - vi.pos);
         Vertex<RealType> v = interpolate(vi, vj, t);
         f.push_back(v);
         b.push_back(v);
       }
+      if (tj != BACK) f.push_back(vj);
+      if (tj != FRONT) b.push_back(vj);
       if (f.size() == 2) front.push_back(Segment<RealType>(f));
       if (b.size() == 2) back.push_back(Segment<RealType>(b));
       break;
-- 
2.43.0


From 9ce883edd920cd970a3f9a21c5b1dc698ac87192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 24/53] fix: give the facets of holes both of their points

ReducedPLCfromPolygon assigned the first index of every hole facet twice and
left the second one 0.
---
 src/PLC_Boost_2d.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLC_Boost_2d.hh b/src/PLC_Boost_2d.hh
index 38d35e3..daf0029 100644
--- a/src/PLC_Boost_2d.hh
+++ b/src/PLC_Boost_2d.hh
@@ -121,9 +121,9 @@ ReducedPLCfromPolygon(const boost::geometry::model::polygon<Point2<RealType>, fa
       result.points.push_back((*itr).x);
       result.points.push_back((*itr).y);
       result.holes[ihole][ii][0] = offset + ii;
-      result.holes[ihole][ii][0] = offset + ((ii+1) % nhfacets);
+      result.holes[ihole][ii][1] = offset + ((ii+1) % nhfacets);
     }
-    POLY_ASSERT(ii == nhfacets-1);
+    POLY_ASSERT(ii == nhfacets);
     offset += ii;
   }
   return result;
-- 
2.43.0


From 3444eac17ddcbcd492460cf21551ab4fe52b5235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 25/53] fix: return an empty 3D outline when a CSG operation
 leaves nothing

ReducedPLCfromPolygons read the first polygon of an empty list, so intersecting
disjoint solids crashed.
---
 src/PLC_CSG_3d.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PLC_CSG_3d.hh b/src/PLC_CSG_3d.hh
index 12653f4..6b97680 100644
--- a/src/PLC_CSG_3d.hh
+++ b/src/PLC_CSG_3d.hh
@@ -435,6 +435,9 @@ ReducedPLCfromPolygons(const std::vector<Polygon<RealType> >& polys) {
   typedef uint64_t PointHash;
   const RealType tol = Plane<RealType>::EPSILON;
 
+  // An empty solid has no facets (and no bounding box).
+  if (polys.empty()) return ReducedPLC<3, RealType>();
+
   // Find the bounding box for the vertex coordinates.
   const unsigned npolys = polys.size();
   POLY_ASSERT(npolys >= 4);
-- 
2.43.0


From ec47975ea389af46d65b5cfee8c8b3ea74cdc69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 26/53] fix: take the holes of the outlines into account in the
 2D CSG operations

The operands' holes were ignored, so that a union, intersection or difference
treated them as part of the solid.
---
 src/PLC_CSG_2d.hh | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/PLC_CSG_2d.hh b/src/PLC_CSG_2d.hh
index ccbe6ad..83b6868 100644
--- a/src/PLC_CSG_2d.hh
+++ b/src/PLC_CSG_2d.hh
@@ -373,6 +373,22 @@ Node<RealType>::Node(const std::vector<Segment<RealType> > & list): front(0), ba
 //------------------------------------------------------------------------------
 // Convert between polytope::ReducedPLC <-> vector<Segment>
 //------------------------------------------------------------------------------
+// The area (times 2) a set of facets goes around, positive if counter-clockwise.
+template<typename RealType>
+double
+signedArea(const std::vector<std::vector<int> >& facets,
+           const std::vector<RealType>& coords) {
+  double result = 0.0;
+  if (facets.empty()) return result;
+  const double x0 = coords[2*facets[0][0]], y0 = coords[2*facets[0][0]+1];
+  for (size_t i = 0; i != facets.size(); ++i) {
+    const unsigned k1 = facets[i][0], k2 = facets[i][1];
+    result += ((coords[2*k1] - x0)*(coords[2*k2+1] - y0) -
+               (coords[2*k2] - x0)*(coords[2*k1+1] - y0));
+  }
+  return result;
+}
+
 // Convert a ReducedPLC to a set of CSG segments.
 template<typename RealType>
 std::vector<Segment<RealType> >
@@ -390,6 +406,20 @@ ReducedPLCtoSegments(const ReducedPLC<2, RealType>& model) {
     list.push_back(Segment<RealType>(seg));
   }
   POLY_ASSERT(list.size() == model.facets.size());
+
+  // The boundaries of any holes run the other way round.
+  const double sgn = signedArea(model.facets, coords);
+  for (size_t ihole = 0; ihole != model.holes.size(); ++ihole) {
+    const std::vector<std::vector<int> >& hole = model.holes[ihole];
+    const bool reverse = (sgn*signedArea(hole, coords) > 0.0);
+    for (size_t i = 0; i != hole.size(); ++i) {
+      POLY_ASSERT(hole[i].size() == 2);
+      const unsigned k1 = hole[i][reverse ? 1 : 0], k2 = hole[i][reverse ? 0 : 1];
+      seg[0] = Vertex<RealType>(PointType(coords[2*k1], coords[2*k1+1]));
+      seg[1] = Vertex<RealType>(PointType(coords[2*k2], coords[2*k2+1]));
+      list.push_back(Segment<RealType>(seg));
+    }
+  }
   return list;
 }
 
-- 
2.43.0


From 3d4d65c8ebd1b1382297b96426cd5a0d87785758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 27/53] fix: take the holes of the outlines into account in the
 3D CSG operations

The operands' holes were ignored, so that a union, intersection or difference
treated them as part of the solid.
---
 src/PLC_CSG_3d.hh | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/PLC_CSG_3d.hh b/src/PLC_CSG_3d.hh
index 6b97680..eb25669 100644
--- a/src/PLC_CSG_3d.hh
+++ b/src/PLC_CSG_3d.hh
@@ -380,6 +380,28 @@ Node<RealType>::Node(const std::vector<Polygon<RealType> > & list): front(0), ba
 //------------------------------------------------------------------------------
 // Convert between polytope::ReducedPLC <-> vector<Polygon>
 //------------------------------------------------------------------------------
+// The volume (times 6) a set of facets encloses, positive if they face outward.
+template<typename RealType>
+double
+signedVolume(const std::vector<std::vector<int> >& facets,
+             const std::vector<RealType>& coords) {
+  double result = 0.0;
+  if (facets.empty()) return result;
+  const RealType* a = &coords[3*facets[0][0]];
+  for (size_t i = 0; i != facets.size(); ++i) {
+    const RealType* p = &coords[3*facets[i][0]];
+    for (size_t j = 1; j + 1 < facets[i].size(); ++j) {
+      const RealType* q = &coords[3*facets[i][j]];
+      const RealType* r = &coords[3*facets[i][j+1]];
+      const double px = p[0] - a[0], py = p[1] - a[1], pz = p[2] - a[2];
+      const double qx = q[0] - a[0], qy = q[1] - a[1], qz = q[2] - a[2];
+      const double rx = r[0] - a[0], ry = r[1] - a[1], rz = r[2] - a[2];
+      result += px*(qy*rz - qz*ry) + py*(qz*rx - qx*rz) + pz*(qx*ry - qy*rx);
+    }
+  }
+  return result;
+}
+
 // Convert a ReducedPLC to a set of CSG polygons.
 // Note PLC facets are arbitrary polygons, but this CSG code is built with 
 // triangular facets.
@@ -405,6 +427,26 @@ ReducedPLCtoPolygons(const ReducedPLC<3, RealType>& model) {
       list.push_back(Polygon<RealType>(triangle));
     }
   }
+
+  // The boundaries of any holes face the other way.
+  const double sgn = signedVolume(model.facets, coords);
+  for (size_t ihole = 0; ihole != model.holes.size(); ++ihole) {
+    const std::vector<std::vector<int> >& hole = model.holes[ihole];
+    const bool reverse = (sgn*signedVolume(hole, coords) > 0.0);
+    for (size_t i = 0; i != hole.size(); ++i) {
+      const unsigned n = hole[i].size();
+      POLY_ASSERT(n >= 3);
+      const unsigned k1 = hole[i][0];
+      for (size_t j = 1; j != n-1; ++j) {
+        const unsigned k2 = hole[i][reverse ? j + 1 : j],
+                       k3 = hole[i][reverse ? j : j + 1];
+        triangle[0] = Vertex<RealType>(PointType(coords[3*k1], coords[3*k1 + 1], coords[3*k1 + 2]));
+        triangle[1] = Vertex<RealType>(PointType(coords[3*k2], coords[3*k2 + 1], coords[3*k2 + 2]));
+        triangle[2] = Vertex<RealType>(PointType(coords[3*k3], coords[3*k3 + 1], coords[3*k3 + 2]));
+        list.push_back(Polygon<RealType>(triangle));
+      }
+    }
+  }
   return list;
 }
 
-- 
2.43.0


From d43cabaa0998f7fa17652953f64830e9a3044bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 28/53] fix: compare with tolerances that fit the coordinates
 in the CSG operations

The signed distance to a line or plane, which scales with the length of its
(unnormalised) normal and has the roundoff of the coordinates, was compared
with an absolute EPSILON.  For large coordinates a segment could be found off
its own line, and building the tree recursed until the stack overflowed; for
small ones everything counted as collinear.  Scale the tolerance, and put the
segment that gives a node its line in that node.
---
 src/PLC_CSG_2d.hh | 31 +++++++++++++++++++++++++------
 src/PLC_CSG_3d.hh | 33 +++++++++++++++++++++++++++------
 2 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/src/PLC_CSG_2d.hh b/src/PLC_CSG_2d.hh
index 83b6868..fed5341 100644
--- a/src/PLC_CSG_2d.hh
+++ b/src/PLC_CSG_2d.hh
@@ -15,6 +15,8 @@
 #include <map>
 #include <vector>
 #include <algorithm>
+#include <cmath>
+#include <limits>
 
 #include "ReducedPLC.hh"
 #include "Point.hh"
@@ -41,6 +43,7 @@ template<typename RealType> Point2<RealType> lerp(const Point2<RealType>& a, con
                           a.y + (b.y - a.y)*v);
 }
 template<typename RealType> RealType         length2(const Point2<RealType>& a) { return a.x*a.x + a.y*a.y; }
+template<typename RealType> double           maxCoord(const Point2<RealType>& a) { return std::max(std::abs(double(a.x)), std::abs(double(a.y))); }
 template<typename RealType> RealType         dot(const Point2<RealType>& a, const Point2<RealType>& b) { return geometry::dot<2, RealType>(&a.x, &b.x); }
 template<typename RealType> Point2<RealType> perp(const Point2<RealType>& a, const Point2<RealType>& b) { Point2<RealType> result; geometry::cross<2, RealType>(&a.x, &b.x, &result.x); return result; }
 
@@ -69,14 +72,15 @@ template<typename RealType>
 struct Line {
   typedef Point2<RealType> PointType;
   PointType direction, normal;
-  double w;
+  double w, size;
   static double EPSILON;
 
-  Line(): direction(), normal(), w(0.0) {}
+  Line(): direction(), normal(), w(0.0), size(0.0) {}
   Line(const PointType& a, const PointType& b): 
     direction(b - a),
     normal(direction.y, -(direction.x)),
-    w(dot(normal, a)) {}
+    w(dot(normal, a)),
+    size(std::max(maxCoord(a), maxCoord(b))) {}
   bool ok() const { return (length2(this->normal) > 0.0) && (length2(this->direction) > 0.0); }
   void flip() { direction = -direction; normal = -normal; w *= -1.0; }
   void splitSegment(const Segment<RealType> & segment,
@@ -175,9 +179,18 @@ void Line<RealType>::splitSegment(const Segment<RealType>& segment,
   int segmentType = 0;
   std::vector<int> types;
 
+  // The signed distances computed here are scaled by the length of the normal, and
+  // their accuracy depends on the size of the coordinates.
+  const double nmag = std::sqrt(double(this->normal.x)*this->normal.x + double(this->normal.y)*this->normal.y);
+  double scale = this->size;
+  for (size_t i = 0; i < 2; i++) {
+    scale = std::max(scale, maxCoord(segment.vertices[i].pos));
+  }
+  const double tol = 1000.0*std::numeric_limits<RealType>::epsilon()*nmag*scale;
+
   for (size_t i = 0; i < 2; i++) {
     double t = dot(this->normal, segment.vertices[i].pos) - this->w;
-    int type = (t < -EPSILON) ? BACK : ((t > EPSILON) ? FRONT : COLLINEAR);
+    int type = (t < -tol) ? BACK : ((t > tol) ? FRONT : COLLINEAR);
     segmentType |= type;
     types.push_back(type);
   }
@@ -350,9 +363,15 @@ Node<RealType>* Node<RealType>::clone() const {
 template<typename RealType>
 void Node<RealType>::build(const std::vector<Segment<RealType> > & list) {
   if (!list.size()) return;
-  if (!this->line.ok()) this->line = list[0].line;
+  size_t first = 0;
+  if (!this->line.ok()) {
+    // The segment that gives this node its line belongs here, whatever the roundoff.
+    this->line = list[0].line;
+    this->segments.push_back(list[0]);
+    first = 1;
+  }
   std::vector<Segment<RealType> > list_front, list_back;
-  for (size_t i = 0; i < list.size(); i++) {
+  for (size_t i = first; i < list.size(); i++) {
     this->line.splitSegment(list[i], this->segments, this->segments, list_front, list_back);
   }
   if (list_front.size()) {
diff --git a/src/PLC_CSG_3d.hh b/src/PLC_CSG_3d.hh
index eb25669..4916c3c 100644
--- a/src/PLC_CSG_3d.hh
+++ b/src/PLC_CSG_3d.hh
@@ -17,6 +17,8 @@
 #include <map>
 #include <vector>
 #include <algorithm>
+#include <cmath>
+#include <limits>
 
 #include "ReducedPLC.hh"
 #include "Point.hh"
@@ -48,6 +50,7 @@ template<typename RealType> Point3<RealType> lerp(const Point3<RealType>& a, con
 
 // template<typename RealType> Point3<RealType> lerp(const Point3<RealType>& a, const Point3<RealType>& b, const double v) { return a + (b - a) * v; }
 template<typename RealType> RealType         length2(const Point3<RealType>& a) { return a.x*a.x + a.y*a.y + a.z*a.z; }
+template<typename RealType> double           maxCoord(const Point3<RealType>& a) { return std::max(std::abs(double(a.x)), std::max(std::abs(double(a.y)), std::abs(double(a.z)))); }
 // template<typename RealType> Point3<RealType> unit(const Point3<RealType>& a) { Point3<RealType> result(a); geometry::unitVector<3, RealType>(&result.x); return result; }
 template<typename RealType> RealType         dot(const Point3<RealType>& a, const Point3<RealType>& b) { return geometry::dot<3, RealType>(&a.x, &b.x); }
 template<typename RealType> Point3<RealType> cross(const Point3<RealType>& a, const Point3<RealType>& b) { Point3<RealType> result; geometry::cross<3, RealType>(&a.x, &b.x, &result.x); return result; }
@@ -77,13 +80,14 @@ template<typename RealType>
 struct Plane {
   typedef Point3<RealType> PointType;
   PointType normal;
-  double w;
+  double w, size;
   static double EPSILON;
 
-  Plane(): normal(), w(0.0) {}
+  Plane(): normal(), w(0.0), size(0.0) {}
   Plane(const PointType& a, const PointType& b, const PointType& c): 
     normal(cross(b - a, c - a)),
-    w(dot(normal, a)) {}
+    w(dot(normal, a)),
+    size(std::max(maxCoord(a), std::max(maxCoord(b), maxCoord(c)))) {}
   bool ok() const { return length2(this->normal) > 0.0; }
   void flip() { normal = -normal; w *= -1; }
   void splitPolygon(const Polygon<RealType> & polygon,
@@ -181,9 +185,20 @@ void Plane<RealType>::splitPolygon(const Polygon<RealType>& polygon,
   int polygonType = 0;
   std::vector<int> types;
 
+  // The signed distances computed here are scaled by the length of the normal, and
+  // their accuracy depends on the size of the coordinates.
+  const double nmag = std::sqrt(double(this->normal.x)*this->normal.x + 
+                                double(this->normal.y)*this->normal.y + 
+                                double(this->normal.z)*this->normal.z);
+  double scale = this->size;
+  for (size_t i = 0; i < polygon.vertices.size(); i++) {
+    scale = std::max(scale, maxCoord(polygon.vertices[i].pos));
+  }
+  const double tol = 1000.0*std::numeric_limits<RealType>::epsilon()*nmag*scale;
+
   for (size_t i = 0; i < polygon.vertices.size(); i++) {
     double t = dot(this->normal, polygon.vertices[i].pos) - this->w;
-    int type = (t < -EPSILON) ? BACK : ((t > EPSILON) ? FRONT : COPLANAR);
+    int type = (t < -tol) ? BACK : ((t > tol) ? FRONT : COPLANAR);
     polygonType |= type;
     types.push_back(type);
   }
@@ -357,9 +372,15 @@ Node<RealType>* Node<RealType>::clone() const {
 template<typename RealType>
 void Node<RealType>::build(const std::vector<Polygon<RealType> > & list) {
   if (!list.size()) return;
-  if (!this->plane.ok()) this->plane = list[0].plane;
+  size_t first = 0;
+  if (!this->plane.ok()) {
+    // The polygon that gives this node its plane belongs here, whatever the roundoff.
+    this->plane = list[0].plane;
+    this->polygons.push_back(list[0]);
+    first = 1;
+  }
   std::vector<Polygon<RealType> > list_front, list_back;
-  for (size_t i = 0; i < list.size(); i++) {
+  for (size_t i = first; i < list.size(); i++) {
     this->plane.splitPolygon(list[i], this->polygons, this->polygons, list_front, list_back);
   }
   if (list_front.size()) {
-- 
2.43.0


From 4edebdfad1f6c57c545112d00ca3ef5fb0bf3d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 29/53] fix: leave degenerate triangles out of the 3D CSG
 operations

Facets with a point in the middle of a side (as the operations themselves
return) gave triangles without a plane, and the pieces they were compared with
were lost.
---
 src/PLC_CSG_3d.hh | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/PLC_CSG_3d.hh b/src/PLC_CSG_3d.hh
index 4916c3c..e0e7604 100644
--- a/src/PLC_CSG_3d.hh
+++ b/src/PLC_CSG_3d.hh
@@ -423,6 +423,20 @@ signedVolume(const std::vector<std::vector<int> >& facets,
   return result;
 }
 
+// Add a triangle to a list, unless its points are collinear and it has no plane.
+// Facets may well have points in the middle of their sides.
+template<typename RealType>
+void
+addTriangle(const std::vector<Vertex<RealType> >& triangle,
+            std::vector<Polygon<RealType> >& list) {
+  const Polygon<RealType> poly(triangle);
+  const Point3<RealType> ab = triangle[1].pos - triangle[0].pos,
+                         ac = triangle[2].pos - triangle[0].pos;
+  const double tol = 1000.0*std::numeric_limits<RealType>::epsilon()*poly.plane.size;
+  if (std::sqrt(double(length2(poly.plane.normal))) > 
+      tol*std::sqrt(std::max(double(length2(ab)), double(length2(ac))))) list.push_back(poly);
+}
+
 // Convert a ReducedPLC to a set of CSG polygons.
 // Note PLC facets are arbitrary polygons, but this CSG code is built with 
 // triangular facets.
@@ -445,7 +459,7 @@ ReducedPLCtoPolygons(const ReducedPLC<3, RealType>& model) {
       triangle[0] = Vertex<RealType>(PointType(coords[3*k1], coords[3*k1 + 1], coords[3*k1 + 2]));
       triangle[1] = Vertex<RealType>(PointType(coords[3*k2], coords[3*k2 + 1], coords[3*k2 + 2]));
       triangle[2] = Vertex<RealType>(PointType(coords[3*k3], coords[3*k3 + 1], coords[3*k3 + 2]));
-      list.push_back(Polygon<RealType>(triangle));
+      addTriangle(triangle, list);
     }
   }
 
@@ -464,7 +478,7 @@ ReducedPLCtoPolygons(const ReducedPLC<3, RealType>& model) {
         triangle[0] = Vertex<RealType>(PointType(coords[3*k1], coords[3*k1 + 1], coords[3*k1 + 2]));
         triangle[1] = Vertex<RealType>(PointType(coords[3*k2], coords[3*k2 + 1], coords[3*k2 + 2]));
         triangle[2] = Vertex<RealType>(PointType(coords[3*k3], coords[3*k3 + 1], coords[3*k3 + 2]));
-        list.push_back(Polygon<RealType>(triangle));
+        addTriangle(triangle, list);
       }
     }
   }
-- 
2.43.0


From 3b58f26f416e78ae17fffc1d6895ba12dbfc2aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 30/53] fix: order the points added to one side of a 3D facet
 among themselves

The points found in the middle of a side were sorted together with those
already added to the sides before it, which scrambled the facet.
---
 src/PLC_CSG_3d.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLC_CSG_3d.hh b/src/PLC_CSG_3d.hh
index e0e7604..4acc537 100644
--- a/src/PLC_CSG_3d.hh
+++ b/src/PLC_CSG_3d.hh
@@ -586,6 +586,7 @@ ReducedPLCfromPolygons(const std::vector<Polygon<RealType> >& polys) {
       unsigned k = (j + 1) % n;
       const unsigned a = result.facets[i][j], b = result.facets[i][k];
       newfacet.push_back(a);
+      const unsigned offset = newfacet.size();
       std::set<int> checkNeighbors, usedNeighbors;
       // for (unsigned v = 0; v != result.points.size()/3; ++v) checkNeighbors.insert(b);
       std::set_union(neighbors[a].begin(), neighbors[a].end(), neighbors[b].begin(), neighbors[b].end(), std::inserter(checkNeighbors, checkNeighbors.end()));
@@ -610,7 +611,7 @@ ReducedPLCfromPolygons(const std::vector<Polygon<RealType> >& polys) {
         checkNeighbors = std::set<int>();
         std::set_difference(newNeighbors.begin(), newNeighbors.end(), usedNeighbors.begin(), usedNeighbors.end(), std::inserter(checkNeighbors, checkNeighbors.end()));
       }
-      std::sort(newfacet.begin() + j + 1, newfacet.end(), _EdgePointComparator3d<RealType>(a, result.points));
+      std::sort(newfacet.begin() + offset, newfacet.end(), _EdgePointComparator3d<RealType>(a, result.points));
     }
     POLY_ASSERT(newfacet.size() >= result.facets[i].size());
     if (newfacet.size() > result.facets[i].size()) result.facets[i] = newfacet;
-- 
2.43.0


From a46f0b6dbdeea4ec35deb7e215caa227fe5a4bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 31/53] fix: keep the holes and the direction of 2D outlines
 when simplifying them

---
 src/simplifyPLCfacets.hh | 116 +++++++++++++++++++++++++++------------
 1 file changed, 80 insertions(+), 36 deletions(-)

diff --git a/src/simplifyPLCfacets.hh b/src/simplifyPLCfacets.hh
index 3fe1459..dd51a0a 100644
--- a/src/simplifyPLCfacets.hh
+++ b/src/simplifyPLCfacets.hh
@@ -20,39 +20,24 @@
 namespace polytope {
 
 //------------------------------------------------------------------------------
-// 2D
+// Join the collinear facets of one closed 2D loop (the outer boundary or a hole).
 //------------------------------------------------------------------------------
 template<typename RealType>
-ReducedPLC<2, RealType>
-simplifyPLCfacets(const PLC<2, RealType>& plc,
-                  const std::vector<RealType>& points,
-                  const RealType* xmin,
-                  const RealType* xmax,
-                  const RealType tol) {
-  typedef Point2<RealType> PointType;
+std::vector<std::vector<int> >
+simplifyLoop2d(const std::vector<std::vector<int> >& facets,
+               const std::vector<RealType>& points,
+               const std::vector<unsigned>& old2new,
+               const RealType tol) {
   typedef std::pair<int, int> EdgeHash;
-  ReducedPLC<2, RealType> result;
-  
-  // Reduce to the set of unique points.
-  std::vector<unsigned> old2new;
-  geometry::uniquePoints<2, RealType>(points, xmin, xmax, tol, result.points, old2new);
-  // const unsigned nnewpoints = result.points.size()/2;
-  // std::cerr << "Original points: " << std::endl;
-  // for (unsigned i = 0; i != points.size()/2; ++i) {
-  //   std::cerr << "    " << i << " : (" << points[2*i] << " " << points[2*i+1] << ")" << std::endl;
-  // }
-  // std::cerr << "Unique points: " << std::endl;
-  // for (unsigned i = 0; i != nnewpoints; ++i) {
-  //   std::cerr << "    " << i << " : (" << result.points[2*i] << " " << result.points[2*i+1] << ")" << std::endl;
-  // }
+  std::vector<std::vector<int> > result;
 
   // Sort the edges around input PLC so they're in order.
-  const unsigned noldfacets = plc.facets.size();
+  const unsigned noldfacets = facets.size();
   std::vector<EdgeHash> inputEdges(noldfacets);
   for (unsigned i = 0; i != noldfacets; ++i) {
-    POLY_ASSERT(plc.facets[i].size() == 2);
-    inputEdges[i] = internal::hashEdge(old2new[plc.facets[i][0]], 
-                                       old2new[plc.facets[i][1]]);
+    POLY_ASSERT(facets[i].size() == 2);
+    inputEdges[i] = internal::hashEdge(old2new[facets[i][0]], 
+                                       old2new[facets[i][1]]);
   }
   std::vector<int> inputEdgeOrder;
   internal::computeSortedFaceEdges(inputEdges, inputEdgeOrder);
@@ -67,6 +52,13 @@ simplifyPLCfacets(const PLC<2, RealType>& plc,
   }
   POLY_ASSERT(orderedEdges.size() == noldfacets);
 
+  // Walk the loop in the same direction as the input.
+  const unsigned ifirst = internal::positiveID(inputEdgeOrder[0]);
+  if (orderedEdges[0].first != old2new[facets[ifirst][0]]) {
+    std::reverse(orderedEdges.begin(), orderedEdges.end());
+    for (unsigned i = 0; i != noldfacets; ++i) std::swap(orderedEdges[i].first, orderedEdges[i].second);
+  }
+
   // {
   //   std::cerr << "input edges : ";
   //   for (unsigned i = 0; i != noldfacets; ++i) std::cerr << " (" << inputEdges[i].first << " " << inputEdges[i].second << ")";
@@ -79,9 +71,9 @@ simplifyPLCfacets(const PLC<2, RealType>& plc,
   // Find the first edge not collinear with previous one.
   int istart = 0;
   while (istart != noldfacets and 
-         geometry::collinear<2, RealType>(&result.points[2*orderedEdges[istart].first],
-                                          &result.points[2*orderedEdges[istart].second],
-                                          &result.points[2*orderedEdges[(istart + noldfacets - 1) % noldfacets].first],
+         geometry::collinear<2, RealType>(&points[2*orderedEdges[istart].first],
+                                          &points[2*orderedEdges[istart].second],
+                                          &points[2*orderedEdges[(istart + noldfacets - 1) % noldfacets].first],
                                           tol)) ++istart;
   POLY_ASSERT(istart != noldfacets);
 
@@ -90,17 +82,53 @@ simplifyPLCfacets(const PLC<2, RealType>& plc,
   int nwalked = 0;
   while (nwalked < noldfacets) {
     int iedge1 = (istart + nwalked) % noldfacets, ncoll = 0;
-    while (geometry::collinear<2, RealType>(&result.points[2*orderedEdges[iedge1].first],
-                                            &result.points[2*orderedEdges[iedge1].second],
-                                            &result.points[2*orderedEdges[(iedge1 + ncoll + 1) % noldfacets].second],
+    while (geometry::collinear<2, RealType>(&points[2*orderedEdges[iedge1].first],
+                                            &points[2*orderedEdges[iedge1].second],
+                                            &points[2*orderedEdges[(iedge1 + ncoll + 1) % noldfacets].second],
                                             tol)) ++ncoll;
     int iedge2 = (iedge1 + ncoll) % noldfacets;
-    result.facets.push_back(std::vector<int>());
-    result.facets.back().push_back(orderedEdges[iedge1].first);
-    result.facets.back().push_back(orderedEdges[iedge2].second);
+    result.push_back(std::vector<int>());
+    result.back().push_back(orderedEdges[iedge1].first);
+    result.back().push_back(orderedEdges[iedge2].second);
     nwalked += ncoll + 1;
   }
-  POLY_ASSERT(result.facets.size() > 2);
+  POLY_ASSERT(result.size() > 2);
+
+  return result;
+}
+
+//------------------------------------------------------------------------------
+// 2D
+//------------------------------------------------------------------------------
+template<typename RealType>
+ReducedPLC<2, RealType>
+simplifyPLCfacets(const PLC<2, RealType>& plc,
+                  const std::vector<RealType>& points,
+                  const RealType* xmin,
+                  const RealType* xmax,
+                  const RealType tol) {
+  typedef Point2<RealType> PointType;
+  typedef std::pair<int, int> EdgeHash;
+  ReducedPLC<2, RealType> result;
+  
+  // Reduce to the set of unique points.
+  std::vector<unsigned> old2new;
+  geometry::uniquePoints<2, RealType>(points, xmin, xmax, tol, result.points, old2new);
+  // const unsigned nnewpoints = result.points.size()/2;
+  // std::cerr << "Original points: " << std::endl;
+  // for (unsigned i = 0; i != points.size()/2; ++i) {
+  //   std::cerr << "    " << i << " : (" << points[2*i] << " " << points[2*i+1] << ")" << std::endl;
+  // }
+  // std::cerr << "Unique points: " << std::endl;
+  // for (unsigned i = 0; i != nnewpoints; ++i) {
+  //   std::cerr << "    " << i << " : (" << result.points[2*i] << " " << result.points[2*i+1] << ")" << std::endl;
+  // }
+
+  // Join the collinear facets of the outer boundary and of each hole.
+  result.facets = simplifyLoop2d(plc.facets, result.points, old2new, tol);
+  for (unsigned i = 0; i != plc.holes.size(); ++i) {
+    result.holes.push_back(simplifyLoop2d(plc.holes[i], result.points, old2new, tol));
+  }
 
   // Make a final pass and remove any points we're not actually using.
   std::vector<int> mask(result.points.size()/2, -1);
@@ -109,6 +137,13 @@ simplifyPLCfacets(const PLC<2, RealType>& plc,
       mask[result.facets[i][j]] = 1;
     }
   }
+  for (unsigned k = 0; k != result.holes.size(); ++k) {
+    for (unsigned i = 0; i != result.holes[k].size(); ++i) {
+      for (unsigned j = 0; j != result.holes[k][i].size(); ++j) {
+        mask[result.holes[k][i][j]] = 1;
+      }
+    }
+  }
   unsigned n = 0;
   for (unsigned i = 0; i != mask.size(); ++i) {
     if (mask[i] == 1) mask[i] = n++;
@@ -128,6 +163,15 @@ simplifyPLCfacets(const PLC<2, RealType>& plc,
       result.facets[i][j] = mask[k];
     }
   }
+  for (unsigned k = 0; k != result.holes.size(); ++k) {
+    for (unsigned i = 0; i != result.holes[k].size(); ++i) {
+      for (unsigned j = 0; j != result.holes[k][i].size(); ++j) {
+        const unsigned l = result.holes[k][i][j];
+        POLY_ASSERT(mask[l] != -1);
+        result.holes[k][i][j] = mask[l];
+      }
+    }
+  }
 
   // That's it.
   return result;
-- 
2.43.0


From 4f7ee043d13d3009024ace5d8548961b6f39e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 32/53] fix: join all the coplanar facets that share an edge
 when simplifying 3D outlines

---
 src/simplifyPLCfacets.hh | 55 ++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/src/simplifyPLCfacets.hh b/src/simplifyPLCfacets.hh
index dd51a0a..71c99da 100644
--- a/src/simplifyPLCfacets.hh
+++ b/src/simplifyPLCfacets.hh
@@ -205,18 +205,16 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
   //   std::cerr << "    " << i << " : (" << result.points[3*i] << " " << result.points[3*i+1] << " " << result.points[3*i+2] << ")" << std::endl;
   // }
 
-  // Build a map of the old facets attached to each unique point.
+  // Build a map of the old facets attached to each edge.
   const unsigned noldfacets = plc.facets.size();
-  std::vector<std::vector<unsigned> > nodeFacets(nnewpoints);
+  std::map<EdgeHash, std::vector<unsigned> > edgeFacets;
   for (unsigned i = 0; i != noldfacets; ++i) {
-    for (unsigned j = 0; j != plc.facets[i].size(); ++j) {
-      nodeFacets[old2new[plc.facets[i][j]]].push_back(i);
+    const unsigned n = plc.facets[i].size();
+    for (unsigned j = 0; j != n; ++j) {
+      edgeFacets[internal::hashEdge(old2new[plc.facets[i][j]],
+                                    old2new[plc.facets[i][(j + 1) % n]])].push_back(i);
     }
   }
-  for (unsigned i = 0; i != nnewpoints; ++i) {
-    std::sort(nodeFacets[i].begin(), nodeFacets[i].end());
-    nodeFacets[i].erase(std::unique(nodeFacets[i].begin(), nodeFacets[i].end()), nodeFacets[i].end());
-  }
 
   // Find the normals for each starting facet.  It's possible we may have degenerate (zero area)
   // facets here, so screen those out and flag them as "used".
@@ -257,29 +255,30 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
       facetUsed[i] = 1;
 
       // Build the set of old facets that will contribute to this new one
-      // by checking neighbor facets (by node connectivity) to see if they're
+      // by checking neighbor facets (by edge connectivity) to see if they're
       // coplanar.
-      std::set<unsigned> oldfacets, nodes2check;
-      std::map<unsigned, unsigned> nodeFacetUsedCount;
+      std::set<unsigned> oldfacets;
+      std::vector<unsigned> facets2check(1, i);
       oldfacets.insert(i);
       // std::cerr << " gluing together old facets : " << i;
-      for (std::vector<int>::const_iterator nodeItr = plc.facets[i].begin();
-           nodeItr != plc.facets[i].end();
-           ++nodeItr) nodes2check.insert(old2new[*nodeItr]);
-      for (std::set<unsigned>::iterator nodeItr = nodes2check.begin();
-           nodeItr != nodes2check.end();
-           ++nodeItr) {
-        for (std::vector<unsigned>::const_iterator otherFacetItr = nodeFacets[*nodeItr].begin();
-             otherFacetItr != nodeFacets[*nodeItr].end();
-             ++otherFacetItr) {
-          if ((*otherFacetItr != i) and (facetUsed[*otherFacetItr] == 0) and
-              (std::abs(geometry::dot<3, RealType>(&facetNormals[i].x, &facetNormals[*otherFacetItr].x) - facetNormalMag[i]*facetNormalMag[*otherFacetItr]) < tol)) {
-            // std::cerr << " " << *otherFacetItr;
-            facetUsed[*otherFacetItr] = 1;
-            oldfacets.insert(*otherFacetItr);
-            for (std::vector<int>::const_iterator otherNodeItr = plc.facets[*otherFacetItr].begin();
-                 otherNodeItr != plc.facets[*otherFacetItr].end();
-                 ++otherNodeItr) nodes2check.insert(old2new[*otherNodeItr]);
+      while (not facets2check.empty()) {
+        const unsigned ifacet = facets2check.back();
+        facets2check.pop_back();
+        const unsigned n = plc.facets[ifacet].size();
+        for (unsigned j = 0; j != n; ++j) {
+          const std::vector<unsigned>& otherFacets = edgeFacets[internal::hashEdge(old2new[plc.facets[ifacet][j]],
+                                                                                   old2new[plc.facets[ifacet][(j + 1) % n]])];
+          for (std::vector<unsigned>::const_iterator otherFacetItr = otherFacets.begin();
+               otherFacetItr != otherFacets.end();
+               ++otherFacetItr) {
+            const double magProduct = facetNormalMag[i]*facetNormalMag[*otherFacetItr];
+            if ((facetUsed[*otherFacetItr] == 0) and
+                (std::abs(geometry::dot<3, RealType>(&facetNormals[i].x, &facetNormals[*otherFacetItr].x) - magProduct) < tol*magProduct)) {
+              // std::cerr << " " << *otherFacetItr;
+              facetUsed[*otherFacetItr] = 1;
+              oldfacets.insert(*otherFacetItr);
+              facets2check.push_back(*otherFacetItr);
+            }
           }
         }
       }
-- 
2.43.0


From e3ec628a9fd5f2457a89081efa4435a61c9c7741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 33/53] fix: take the direction of 3D facets from all of their
 points when simplifying outlines

---
 src/simplifyPLCfacets.hh | 50 +++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/simplifyPLCfacets.hh b/src/simplifyPLCfacets.hh
index 71c99da..539a63f 100644
--- a/src/simplifyPLCfacets.hh
+++ b/src/simplifyPLCfacets.hh
@@ -177,6 +177,27 @@ simplifyPLCfacets(const PLC<2, RealType>& plc,
   return result;
 }
 
+//------------------------------------------------------------------------------
+// The area vector of a 3D facet.
+//------------------------------------------------------------------------------
+template<typename RealType>
+Point3<RealType>
+facetAreaVector(const std::vector<int>& facet,
+                const std::vector<RealType>& points) {
+  typedef Point3<RealType> PointType;
+  PointType result(0, 0, 0), c;
+  const RealType* p0 = &points[3*facet[0]];
+  for (unsigned j = 1; j + 1 < facet.size(); ++j) {
+    const RealType* p1 = &points[3*facet[j]];
+    const RealType* p2 = &points[3*facet[j + 1]];
+    const PointType a(p1[0] - p0[0], p1[1] - p0[1], p1[2] - p0[2]),
+                    b(p2[0] - p0[0], p2[1] - p0[1], p2[2] - p0[2]);
+    geometry::cross<3, RealType>(&a.x, &b.x, &c.x);
+    result += c;
+  }
+  return result;
+}
+
 //------------------------------------------------------------------------------
 // 3D
 //------------------------------------------------------------------------------
@@ -223,7 +244,7 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
   std::vector<unsigned> facetUsed(noldfacets, 0);
   for (unsigned i = 0; i != noldfacets; ++i) {
     POLY_ASSERT(plc.facets[i].size() >= 3);
-    unsigned k1 = plc.facets[i][0], k2, k3;
+    unsigned k1 = plc.facets[i][0], k2;
     unsigned j = 1;
     while (j < plc.facets[i].size() and 
            (geometry::distance<3, RealType>(&points[3*k1], &points[3*plc.facets[i][j]]) < tol)) ++j;
@@ -236,15 +257,8 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
       if (j == plc.facets[i].size()) {
         facetUsed[i] = 1;
       } else {
-        k3 = plc.facets[i][j];
-        RealType a[3] = {points[3*k3  ] - points[3*k1  ],
-                         points[3*k3+1] - points[3*k1+1],
-                         points[3*k3+2] - points[3*k1+2]},
-                 b[3] = {points[3*k2  ] - points[3*k1  ],
-                         points[3*k2+1] - points[3*k1+1],
-                         points[3*k2+2] - points[3*k1+2]};
-          geometry::cross<3, RealType>(b, a, &facetNormals[i].x);
-          facetNormalMag[i] = sqrt(double(geometry::dot<3, RealType>(&facetNormals[i].x, &facetNormals[i].x)));
+        facetNormals[i] = facetAreaVector(plc.facets[i], points);
+        facetNormalMag[i] = sqrt(double(geometry::dot<3, RealType>(&facetNormals[i].x, &facetNormals[i].x)));
       }
     }
   }
@@ -344,20 +358,8 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
       POLY_ASSERT(newfacet.size() >= 3);
 
       // Do we need to reverse the ordering of this facet?
-      const PointType a0(points[3*plc.facets[i][0]], points[3*plc.facets[i][0]+1], points[3*plc.facets[i][0]+2]), 
-                      b0(points[3*plc.facets[i][1]], points[3*plc.facets[i][1]+1], points[3*plc.facets[i][1]+2]), 
-                      c0(points[3*plc.facets[i][2]], points[3*plc.facets[i][2]+1], points[3*plc.facets[i][2]+2]), 
-                      a1(result.points[3*newfacet[0]], result.points[3*newfacet[0]+1], result.points[3*newfacet[0]+2]), 
-                      b1(result.points[3*newfacet[1]], result.points[3*newfacet[1]+1], result.points[3*newfacet[1]+2]), 
-                      c1(result.points[3*newfacet[2]], result.points[3*newfacet[2]+1], result.points[3*newfacet[2]+2]),
-                      ab0 = b0 - a0,
-                      ac0 = c0 - a0,
-                      ab1 = b1 - a1,
-                      ac1 = c1 - a1;
-      PointType oldnorm, newnorm;
-      geometry::cross<3, RealType>(&ab0.x, &ac0.x, &oldnorm.x);
-      geometry::cross<3, RealType>(&ab1.x, &ac1.x, &newnorm.x);
-      if (geometry::dot<3, RealType>(&oldnorm.x, &newnorm.x) < 0) std::reverse(newfacet.begin(), newfacet.end());
+      const PointType newnorm = facetAreaVector(newfacet, result.points);
+      if (geometry::dot<3, RealType>(&facetNormals[i].x, &newnorm.x) < 0) std::reverse(newfacet.begin(), newfacet.end());
     }
   }
   POLY_ASSERT(result.facets.size() >= 4);
-- 
2.43.0


From 0a06cda4aa3a61f0f7d16e2ad9d2b61212b1092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 34/53] fix: do not join coplanar 3D facets around a hole into
 one facet

---
 src/simplifyPLCfacets.hh | 42 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/simplifyPLCfacets.hh b/src/simplifyPLCfacets.hh
index 539a63f..5026ba1 100644
--- a/src/simplifyPLCfacets.hh
+++ b/src/simplifyPLCfacets.hh
@@ -198,6 +198,34 @@ facetAreaVector(const std::vector<int>& facet,
   return result;
 }
 
+//------------------------------------------------------------------------------
+// Check if the given edges form exactly one closed loop.
+//------------------------------------------------------------------------------
+inline
+bool
+edgesFormOneLoop(const std::vector<std::pair<int, int> >& edges) {
+  std::map<int, std::vector<int> > neighbors;
+  for (unsigned i = 0; i != edges.size(); ++i) {
+    neighbors[edges[i].first].push_back(edges[i].second);
+    neighbors[edges[i].second].push_back(edges[i].first);
+  }
+  for (std::map<int, std::vector<int> >::const_iterator itr = neighbors.begin();
+       itr != neighbors.end();
+       ++itr) {
+    if (itr->second.size() != 2) return false;
+  }
+  unsigned nwalked = 0;
+  int last = edges[0].first, node = edges[0].first;
+  do {
+    const std::vector<int>& next = neighbors[node];
+    const int k = (next[0] == last ? next[1] : next[0]);
+    last = node;
+    node = k;
+    ++nwalked;
+  } while (node != edges[0].first);
+  return nwalked == edges.size();
+}
+
 //------------------------------------------------------------------------------
 // 3D
 //------------------------------------------------------------------------------
@@ -327,6 +355,20 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
       }
       POLY_ASSERT(edges.size() >= 3);
 
+      // If the outline of these facets is not one loop (there is a hole in the plane)
+      // we can't represent them as one facet, so keep them as they are.
+      if (not edgesFormOneLoop(edges)) {
+        for (std::set<unsigned>::const_iterator facetItr = oldfacets.begin();
+             facetItr != oldfacets.end();
+             ++facetItr) {
+          result.facets.push_back(std::vector<int>());
+          for (unsigned j = 0; j != plc.facets[*facetItr].size(); ++j) {
+            result.facets.back().push_back(old2new[plc.facets[*facetItr][j]]);
+          }
+        }
+        continue;
+      }
+
       // Sort the edges around the face.
       std::vector<int> edgeOrder;
       bool hangingNodes = internal::computeSortedFaceEdges(edges, edgeOrder);
-- 
2.43.0


From aba7c238b70bcd4e1896f16a5aebeec691729bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 35/53] fix: compare with the lengths of the edges when
 dropping collinear points of 3D facets

---
 src/simplifyPLCfacets.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplifyPLCfacets.hh b/src/simplifyPLCfacets.hh
index 5026ba1..ec7fbac 100644
--- a/src/simplifyPLCfacets.hh
+++ b/src/simplifyPLCfacets.hh
@@ -393,7 +393,7 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
         khat *= geometry::sgn(korder);
         const double jmag = sqrt(double(geometry::dot<3, RealType>(&jhat.x, &jhat.x))), 
                      kmag = sqrt(double(geometry::dot<3, RealType>(&khat.x, &khat.x)));
-        if (jmag*kmag - std::abs(geometry::dot<3, RealType>(&jhat.x, &khat.x)) > tol) {
+        if (jmag*kmag - std::abs(geometry::dot<3, RealType>(&jhat.x, &khat.x)) > tol*jmag*kmag) {
           newfacet.push_back(korder < 0 ? ek.second : ek.first);
         }
       }
-- 
2.43.0


From b4e7f9db8d4864c4f106e2af315ec65b536c1c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 36/53] fix: keep the holes of 3D outlines when simplifying
 them

---
 src/simplifyPLCfacets.hh | 144 +++++++++++++++++++++++++--------------
 1 file changed, 91 insertions(+), 53 deletions(-)

diff --git a/src/simplifyPLCfacets.hh b/src/simplifyPLCfacets.hh
index ec7fbac..78e5ef8 100644
--- a/src/simplifyPLCfacets.hh
+++ b/src/simplifyPLCfacets.hh
@@ -227,41 +227,27 @@ edgesFormOneLoop(const std::vector<std::pair<int, int> >& edges) {
 }
 
 //------------------------------------------------------------------------------
-// 3D
+// Join the coplanar facets of one closed 3D surface (the outer boundary or a hole).
 //------------------------------------------------------------------------------
 template<typename RealType>
-ReducedPLC<3, RealType>
-simplifyPLCfacets(const PLC<3, RealType>& plc,
+std::vector<std::vector<int> >
+simplifySurface3d(const std::vector<std::vector<int> >& facets,
                   const std::vector<RealType>& points,
-                  const RealType* xmin,
-                  const RealType* xmax,
+                  const std::vector<RealType>& newpoints,
+                  const std::vector<unsigned>& old2new,
                   const RealType tol) {
   typedef Point3<RealType> PointType;
   typedef std::pair<int, int> EdgeHash;
-  typedef geometry::Hasher<2, RealType> HasherType2d;
-  ReducedPLC<3, RealType> result;
-  
-  // Reduce to the set of unique points.
-  std::vector<unsigned> old2new;
-  geometry::uniquePoints<3, RealType>(points, xmin, xmax, tol, result.points, old2new);
-  const unsigned nnewpoints = result.points.size()/3;
-  // std::cerr << "Original points: " << std::endl;
-  // for (unsigned i = 0; i != points.size()/3; ++i) {
-  //   std::cerr << "    " << i << " : (" << points[3*i] << " " << points[3*i+1] << " " << points[3*i+2] << ")" << std::endl;
-  // }
-  // std::cerr << "Unique points: " << std::endl;
-  // for (unsigned i = 0; i != nnewpoints; ++i) {
-  //   std::cerr << "    " << i << " : (" << result.points[3*i] << " " << result.points[3*i+1] << " " << result.points[3*i+2] << ")" << std::endl;
-  // }
+  std::vector<std::vector<int> > result;
 
   // Build a map of the old facets attached to each edge.
-  const unsigned noldfacets = plc.facets.size();
+  const unsigned noldfacets = facets.size();
   std::map<EdgeHash, std::vector<unsigned> > edgeFacets;
   for (unsigned i = 0; i != noldfacets; ++i) {
-    const unsigned n = plc.facets[i].size();
+    const unsigned n = facets[i].size();
     for (unsigned j = 0; j != n; ++j) {
-      edgeFacets[internal::hashEdge(old2new[plc.facets[i][j]],
-                                    old2new[plc.facets[i][(j + 1) % n]])].push_back(i);
+      edgeFacets[internal::hashEdge(old2new[facets[i][j]],
+                                    old2new[facets[i][(j + 1) % n]])].push_back(i);
     }
   }
 
@@ -271,21 +257,21 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
   std::vector<double> facetNormalMag(noldfacets);
   std::vector<unsigned> facetUsed(noldfacets, 0);
   for (unsigned i = 0; i != noldfacets; ++i) {
-    POLY_ASSERT(plc.facets[i].size() >= 3);
-    unsigned k1 = plc.facets[i][0], k2;
+    POLY_ASSERT(facets[i].size() >= 3);
+    unsigned k1 = facets[i][0], k2;
     unsigned j = 1;
-    while (j < plc.facets[i].size() and 
-           (geometry::distance<3, RealType>(&points[3*k1], &points[3*plc.facets[i][j]]) < tol)) ++j;
-    if (j == plc.facets[i].size()) {
+    while (j < facets[i].size() and 
+           (geometry::distance<3, RealType>(&points[3*k1], &points[3*facets[i][j]]) < tol)) ++j;
+    if (j == facets[i].size()) {
       facetUsed[i] = 1;
     } else {
-      k2 = plc.facets[i][j++];
-      while (j < plc.facets[i].size() and 
-             geometry::collinear<3, RealType>(&points[3*k1], &points[3*k2], &points[3*plc.facets[i][j]], tol)) ++j;
-      if (j == plc.facets[i].size()) {
+      k2 = facets[i][j++];
+      while (j < facets[i].size() and 
+             geometry::collinear<3, RealType>(&points[3*k1], &points[3*k2], &points[3*facets[i][j]], tol)) ++j;
+      if (j == facets[i].size()) {
         facetUsed[i] = 1;
       } else {
-        facetNormals[i] = facetAreaVector(plc.facets[i], points);
+        facetNormals[i] = facetAreaVector(facets[i], points);
         facetNormalMag[i] = sqrt(double(geometry::dot<3, RealType>(&facetNormals[i].x, &facetNormals[i].x)));
       }
     }
@@ -306,10 +292,10 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
       while (not facets2check.empty()) {
         const unsigned ifacet = facets2check.back();
         facets2check.pop_back();
-        const unsigned n = plc.facets[ifacet].size();
+        const unsigned n = facets[ifacet].size();
         for (unsigned j = 0; j != n; ++j) {
-          const std::vector<unsigned>& otherFacets = edgeFacets[internal::hashEdge(old2new[plc.facets[ifacet][j]],
-                                                                                   old2new[plc.facets[ifacet][(j + 1) % n]])];
+          const std::vector<unsigned>& otherFacets = edgeFacets[internal::hashEdge(old2new[facets[ifacet][j]],
+                                                                                   old2new[facets[ifacet][(j + 1) % n]])];
           for (std::vector<unsigned>::const_iterator otherFacetItr = otherFacets.begin();
                otherFacetItr != otherFacets.end();
                ++otherFacetItr) {
@@ -333,7 +319,7 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
       for (std::set<unsigned>::const_iterator facetItr = oldfacets.begin();
            facetItr != oldfacets.end();
            ++facetItr) {
-        const std::vector<int>& facetNodes = plc.facets[*facetItr];
+        const std::vector<int>& facetNodes = facets[*facetItr];
         const unsigned n = facetNodes.size();
         for (unsigned j = 0; j != n; ++j) {
           const EdgeHash ehash = internal::hashEdge(old2new[facetNodes[j]],
@@ -349,8 +335,8 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
         // const EdgeHash ehash = itr->first;
         // std::cerr << "  --> " << itr->second 
         //           << " [" << ehash.first << " " << ehash.second << "] : ("
-        //           << result.points[3*ehash.first] << " " << result.points[3*ehash.first+1] << " " << result.points[3*ehash.first+2] << ") (" 
-        //           << result.points[3*ehash.second] << " " << result.points[3*ehash.second+1] << " " << result.points[3*ehash.second+2] << ") "
+        //           << newpoints[3*ehash.first] << " " << newpoints[3*ehash.first+1] << " " << newpoints[3*ehash.first+2] << ") (" 
+        //           << newpoints[3*ehash.second] << " " << newpoints[3*ehash.second+1] << " " << newpoints[3*ehash.second+2] << ") "
         //           << std::endl;
       }
       POLY_ASSERT(edges.size() >= 3);
@@ -361,9 +347,9 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
         for (std::set<unsigned>::const_iterator facetItr = oldfacets.begin();
              facetItr != oldfacets.end();
              ++facetItr) {
-          result.facets.push_back(std::vector<int>());
-          for (unsigned j = 0; j != plc.facets[*facetItr].size(); ++j) {
-            result.facets.back().push_back(old2new[plc.facets[*facetItr][j]]);
+          result.push_back(std::vector<int>());
+          for (unsigned j = 0; j != facets[*facetItr].size(); ++j) {
+            result.back().push_back(old2new[facets[*facetItr][j]]);
           }
         }
         continue;
@@ -376,19 +362,19 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
       POLY_ASSERT(!hangingNodes);
 
       // Remove any sequential edges that are collinear.
-      result.facets.push_back(std::vector<int>());
-      std::vector<int>& newfacet = result.facets.back();
+      result.push_back(std::vector<int>());
+      std::vector<int>& newfacet = result.back();
       for (unsigned j = 0; j != edges.size(); ++j) {
         const unsigned k = (j + 1) % edges.size();
         const int jorder = edgeOrder[j], korder = edgeOrder[k];
         const EdgeHash ej = edges[internal::positiveID(jorder)], ek = edges[internal::positiveID(korder)];
         POLY_ASSERT((jorder < 0 ? ej.first : ej.second) == (korder < 0 ? ek.second : ek.first));
-        PointType jhat(result.points[3*ej.second  ] - result.points[3*ej.first  ],
-                       result.points[3*ej.second+1] - result.points[3*ej.first+1],
-                       result.points[3*ej.second+2] - result.points[3*ej.first+2]),
-                  khat(result.points[3*ek.second  ] - result.points[3*ek.first  ],
-                       result.points[3*ek.second+1] - result.points[3*ek.first+1],
-                       result.points[3*ek.second+2] - result.points[3*ek.first+2]);
+        PointType jhat(newpoints[3*ej.second  ] - newpoints[3*ej.first  ],
+                       newpoints[3*ej.second+1] - newpoints[3*ej.first+1],
+                       newpoints[3*ej.second+2] - newpoints[3*ej.first+2]),
+                  khat(newpoints[3*ek.second  ] - newpoints[3*ek.first  ],
+                       newpoints[3*ek.second+1] - newpoints[3*ek.first+1],
+                       newpoints[3*ek.second+2] - newpoints[3*ek.first+2]);
         jhat *= geometry::sgn(jorder);
         khat *= geometry::sgn(korder);
         const double jmag = sqrt(double(geometry::dot<3, RealType>(&jhat.x, &jhat.x))), 
@@ -400,11 +386,47 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
       POLY_ASSERT(newfacet.size() >= 3);
 
       // Do we need to reverse the ordering of this facet?
-      const PointType newnorm = facetAreaVector(newfacet, result.points);
+      const PointType newnorm = facetAreaVector(newfacet, newpoints);
       if (geometry::dot<3, RealType>(&facetNormals[i].x, &newnorm.x) < 0) std::reverse(newfacet.begin(), newfacet.end());
     }
   }
-  POLY_ASSERT(result.facets.size() >= 4);
+  POLY_ASSERT(result.size() >= 4);
+  return result;
+}
+
+//------------------------------------------------------------------------------
+// 3D
+//------------------------------------------------------------------------------
+template<typename RealType>
+ReducedPLC<3, RealType>
+simplifyPLCfacets(const PLC<3, RealType>& plc,
+                  const std::vector<RealType>& points,
+                  const RealType* xmin,
+                  const RealType* xmax,
+                  const RealType tol) {
+  typedef Point3<RealType> PointType;
+  typedef std::pair<int, int> EdgeHash;
+  typedef geometry::Hasher<2, RealType> HasherType2d;
+  ReducedPLC<3, RealType> result;
+  
+  // Reduce to the set of unique points.
+  std::vector<unsigned> old2new;
+  geometry::uniquePoints<3, RealType>(points, xmin, xmax, tol, result.points, old2new);
+  const unsigned nnewpoints = result.points.size()/3;
+  // std::cerr << "Original points: " << std::endl;
+  // for (unsigned i = 0; i != points.size()/3; ++i) {
+  //   std::cerr << "    " << i << " : (" << points[3*i] << " " << points[3*i+1] << " " << points[3*i+2] << ")" << std::endl;
+  // }
+  // std::cerr << "Unique points: " << std::endl;
+  // for (unsigned i = 0; i != nnewpoints; ++i) {
+  //   std::cerr << "    " << i << " : (" << result.points[3*i] << " " << result.points[3*i+1] << " " << result.points[3*i+2] << ")" << std::endl;
+  // }
+
+  // Join the coplanar facets of the outer boundary and of each hole.
+  result.facets = simplifySurface3d(plc.facets, points, result.points, old2new, tol);
+  for (unsigned i = 0; i != plc.holes.size(); ++i) {
+    result.holes.push_back(simplifySurface3d(plc.holes[i], points, result.points, old2new, tol));
+  }
 
   // Make a final pass and remove any points we're not actually using.
   std::vector<int> mask(result.points.size()/3, -1);
@@ -413,6 +435,13 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
       mask[result.facets[i][j]] = 1;
     }
   }
+  for (unsigned k = 0; k != result.holes.size(); ++k) {
+    for (unsigned i = 0; i != result.holes[k].size(); ++i) {
+      for (unsigned j = 0; j != result.holes[k][i].size(); ++j) {
+        mask[result.holes[k][i][j]] = 1;
+      }
+    }
+  }
   unsigned n = 0;
   for (unsigned i = 0; i != mask.size(); ++i) {
     if (mask[i] == 1) mask[i] = n++;
@@ -433,6 +462,15 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
       result.facets[i][j] = mask[k];
     }
   }
+  for (unsigned k = 0; k != result.holes.size(); ++k) {
+    for (unsigned i = 0; i != result.holes[k].size(); ++i) {
+      for (unsigned j = 0; j != result.holes[k][i].size(); ++j) {
+        const unsigned l = result.holes[k][i][j];
+        POLY_ASSERT(mask[l] != -1);
+        result.holes[k][i][j] = mask[l];
+      }
+    }
+  }
 
   // That's it.
   return result;
-- 
2.43.0


From 58c42ae85cc455b697ccd76ef861c5c97ba58747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 37/53] fix: judge each facet of an outline by its own vertices
 in within

---
 src/within.hh | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/within.hh b/src/within.hh
index ad7543e..148593c 100644
--- a/src/within.hh
+++ b/src/within.hh
@@ -33,13 +33,24 @@ struct WithinBoundaryFunctor<2, RealType> {
 		  const RealType* vertices,
 		  const std::vector<std::vector<int> >& facets) {
     const unsigned numFacets = facets.size();
-    unsigned i = facets[0][0];
-
-    // Check if point is on the boundary of the facet
-    bool onBoundary = geometry::pointOnPolygon(point, numFacets, &vertices[2*i]);
-
-    // Check if point is on the interior
-    bool inBoundary = geometry::pointInPolygon(point, numFacets, &vertices[2*i]);
+    unsigned i, j;
+    bool onBoundary = false, inBoundary = false;
+    for (unsigned ifacet = 0; ifacet != numFacets; ++ifacet) {
+      POLY_ASSERT(facets[ifacet].size() == 2);
+      i = facets[ifacet][0];
+      j = facets[ifacet][1];
+      POLY_ASSERT(i < numVertices and j < numVertices);
+      const RealType ends[4] = {vertices[2*i], vertices[2*i+1],
+                                vertices[2*j], vertices[2*j+1]};
+
+      // Check if point is on the facet
+      onBoundary = (onBoundary or geometry::pointOnPolygon(point, 2, ends));
+
+      // Check if the ray from the point in the +x direction crosses the facet
+      if ( ((ends[1] > point[1]) != (ends[3] > point[1])) and
+           ( point[0] < (ends[0] + (ends[2] - ends[0])*(point[1] - ends[1])/(ends[3] - ends[1])) ) )
+        inBoundary = not inBoundary;
+    }
 
     if (onBoundary)                        return 2;
     else if(inBoundary and not onBoundary) return 1;
-- 
2.43.0


From 28b646cbb3769ca73139e6e4ce02fbe177fe9925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 38/53] fix: report each intersection of a segment and an
 outline once

---
 src/intersect.hh | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/intersect.hh b/src/intersect.hh
index bcbcbe8..425af46 100644
--- a/src/intersect.hh
+++ b/src/intersect.hh
@@ -30,6 +30,7 @@ struct IntersectFacetsFunctor<2, RealType> {
                        const unsigned numVertices,
                        const RealType* vertices,
                        const std::vector<std::vector<int> >& facets,
+                       const unsigned firstResult,
                        std::vector<RealType>& result) {
     unsigned i, j, numIntersections=0;
     RealType intersectionPoint[2];
@@ -44,16 +45,13 @@ struct IntersectFacetsFunctor<2, RealType> {
       intersects = geometry::segmentIntersection2D(point1, point2,
                                                    &vertices[2*i], &vertices[2*j],
                                                    intersectionPoint);
-      addPoint = false;
-      if(intersects) {
-        if (numIntersections == 0) addPoint = true;
-        else {
-          if (intersectionPoint[0] != result.back() - 1 and
-              intersectionPoint[1] != result.back() ) addPoint = true;
-          else addPoint = false;
-        }
+      // A point shared by several facets is only counted once.
+      addPoint = intersects;
+      for (unsigned k = firstResult; addPoint and k < result.size(); k += 2) {
+        addPoint = (intersectionPoint[0] != result[k] or
+                    intersectionPoint[1] != result[k+1]);
       }
-      
+
       if (addPoint) {
         ++numIntersections;
         result.push_back(intersectionPoint[0]);
@@ -71,8 +69,9 @@ unsigned intersectFacets(const RealType* point1,
                          const unsigned numVertices,
                          const RealType* vertices,
                          const std::vector<std::vector<int> >& facets,
+                         const unsigned firstResult,
                          std::vector<RealType>& result) {
-  return IntersectFacetsFunctor<2, RealType>::impl(point1, point2, numVertices, vertices, facets, result);
+  return IntersectFacetsFunctor<2, RealType>::impl(point1, point2, numVertices, vertices, facets, firstResult, result);
 }
 
 }
@@ -90,14 +89,17 @@ intersect(const RealType* point1,
           const PLC<Dimension, RealType>& plc,
           std::vector<RealType>& result) {
 
+  // Points are appended to the result.
+  const unsigned firstResult = result.size();
+
   // Check the outer boundary of the PLC.
-  unsigned numIntersections = intersectFacets<Dimension, RealType>(point1, point2, numVertices, vertices, plc.facets, result);
+  unsigned numIntersections = intersectFacets<Dimension, RealType>(point1, point2, numVertices, vertices, plc.facets, firstResult, result);
 
   // Check each of the holes.
   unsigned numHoles = plc.holes.size();
   std::vector<unsigned> holeIntersections(numHoles);
   for (unsigned ihole = 0; ihole != plc.holes.size(); ++ihole) {
-    holeIntersections[ihole] = intersectFacets<Dimension, RealType>(point1, point2, numVertices, vertices, plc.holes[ihole], result);
+    holeIntersections[ihole] = intersectFacets<Dimension, RealType>(point1, point2, numVertices, vertices, plc.holes[ihole], firstResult, result);
     numIntersections += holeIntersections[ihole];
   }
   return numIntersections;
-- 
2.43.0


From b2fd6b0cfd31d5c6c3adbdcb89bafce448193c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 39/53] fix: correct the x component of the normal through
 three points

---
 src/convexIntersect.hh              | 2 +-
 src/polytope_geometric_utilities.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convexIntersect.hh b/src/convexIntersect.hh
index 095a9c1..ca7ec46 100644
--- a/src/convexIntersect.hh
+++ b/src/convexIntersect.hh
@@ -95,7 +95,7 @@ void computeNormal(const RealType& ax, const RealType& ay, const RealType& az,
                    double& nx, double& ny, double& nz) {
   const double dx_ab = bx - ax, dy_ab = by - ay, dz_ab = bz - az;
   const double dx_ac = cx - ax, dy_ac = cy - ay, dz_ac = cz - az;
-  nx = dy_ab*dz_ac - dz_ab*dz_ac;
+  nx = dy_ab*dz_ac - dz_ab*dy_ac;
   ny = dz_ab*dx_ac - dx_ab*dz_ac;
   nz = dx_ab*dy_ac - dy_ab*dx_ac;
 }
diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 3d1ff21..cee3fa5 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -1578,7 +1578,7 @@ computeNormal(const RealType& ax, const RealType& ay, const RealType& az,
               double& nx, double& ny, double& nz) {
   const double dx_ab = bx - ax, dy_ab = by - ay, dz_ab = bz - az;
   const double dx_ac = cx - ax, dy_ac = cy - ay, dz_ac = cz - az;
-  nx = dy_ab*dz_ac - dz_ab*dz_ac;
+  nx = dy_ab*dz_ac - dz_ab*dy_ac;
   ny = dz_ab*dx_ac - dx_ab*dz_ac;
   nz = dx_ab*dy_ac - dy_ab*dx_ac;
 }
-- 
2.43.0


From 1fbb3e6a6bc63bc79c657ba4a20d742451e85437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 40/53] fix: test the directions of the edges when separating
 convex polyhedra

---
 src/convexIntersect.hh | 50 ++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/convexIntersect.hh b/src/convexIntersect.hh
index ca7ec46..e89c6c1 100644
--- a/src/convexIntersect.hh
+++ b/src/convexIntersect.hh
@@ -2,6 +2,8 @@
 #define __polytope_convexIntersection__
 
 #include <vector>
+#include <set>
+#include <algorithm>
 #include <utility>
 
 #include "PLC.hh"
@@ -100,6 +102,25 @@ void computeNormal(const RealType& ax, const RealType& ay, const RealType& az,
   nz = dx_ab*dy_ac - dy_ab*dx_ac;
 }
 
+//------------------------------------------------------------------------------
+// The range of a cloud of points along the given direction, measured from the
+// given origin.
+//------------------------------------------------------------------------------
+template<typename RealType>
+void rangeAlong(const RealType* origin,
+            const double& nx, const double& ny, const double& nz,
+            const std::vector<RealType>& points,
+            double& low, double& high) {
+  const unsigned n = points.size() / 3;
+  for (unsigned i = 0; i != n; ++i) {
+    const double d = (nx*(double(points[3*i    ]) - origin[0]) +
+                      ny*(double(points[3*i + 1]) - origin[1]) +
+                      nz*(double(points[3*i + 2]) - origin[2]));
+    low  = (i == 0 ? d : std::min(low,  d));
+    high = (i == 0 ? d : std::max(high, d));
+  }
+}
+
 //------------------------------------------------------------------------------
 // Hash a pair points to represent an edge.
 //------------------------------------------------------------------------------
@@ -248,30 +269,31 @@ convexIntersect(const ReducedPLC<3, RealType>& a, const ReducedPLC<3, RealType>&
   }
 
   // Test against the cross products of the edges.
-  int sidea, sideb;
   for (typename EdgeSet::const_iterator aItr = aEdges.begin();
        aItr != aEdges.end();
        ++aItr) {
     i = aItr->first;
+    k = aItr->second;
+    const double ea[3] = {double(a.points[3*k]) - a.points[3*i],
+                          double(a.points[3*k + 1]) - a.points[3*i + 1],
+                          double(a.points[3*k + 2]) - a.points[3*i + 2]};
     for (typename EdgeSet::const_iterator bItr = bEdges.begin();
          bItr != bEdges.end();
          ++bItr) {
       j = bItr->first;
-      computeNormal(RealType(0), RealType(0), RealType(0),
-                    a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
-                    b.points[3*j], b.points[3*j + 1], b.points[3*j + 2],
+      k = bItr->second;
+      computeNormal(0.0, 0.0, 0.0,
+                    ea[0], ea[1], ea[2],
+                    double(b.points[3*k]) - b.points[3*j],
+                    double(b.points[3*k + 1]) - b.points[3*j + 1],
+                    double(b.points[3*k + 2]) - b.points[3*j + 2],
                     nx, ny, nz);
 
-      // Test all of a.
-      sidea = compare(a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
-                      nx, ny, nz,
-                      a.points);
-      if (sidea == 0) continue;
-      sideb = compare(a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
-                      nx, ny, nz,
-                      b.points);
-      if (sideb == 0) continue;
-      if (sidea*sideb < 0) return false;
+      // Does a plane with this normal separate a and b?
+      double amin, amax, bmin, bmax;
+      rangeAlong(&a.points[3*i], nx, ny, nz, a.points, amin, amax);
+      rangeAlong(&a.points[3*i], nx, ny, nz, b.points, bmin, bmax);
+      if (amax < bmin or bmax < amin) return false;
     }
   }
 
-- 
2.43.0


From f773603b16cb2ee7f7d0482968f459c0215eb6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 41/53] fix: quantise the points of 2D hulls in 64 bits and
 judge collinearity by distance

---
 src/convexHull_2d.hh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/convexHull_2d.hh b/src/convexHull_2d.hh
index f0f9623..90e8e8d 100644
--- a/src/convexHull_2d.hh
+++ b/src/convexHull_2d.hh
@@ -83,7 +83,7 @@ PLC<2, RealType>
 convexHull_2d(const std::vector<RealType>& points,
               const RealType* low,
               const RealType& dx) {
-  typedef KeyTraits::Key CoordHash;
+  typedef int64_t CoordHash;
   typedef Point2<CoordHash> PointHash;
   // typedef polytope::DimensionTraits<2, RealType>::CoordHash CoordHash;
   // typedef polytope::DimensionTraits<2, RealType>::IntPoint PointHash;
@@ -119,12 +119,16 @@ convexHull_2d(const std::vector<RealType>& points,
     return plc;
   }
 
-  // Check if the input points are collinear.
+  // Check if the input points are collinear, i.e., all within dx of the line through
+  // the distinct points we found.
   bool collinear = true;
   POLY_ASSERT(n > 2);
-  i = 2;
+  const double ux = double(points[2*j]) - points[0], uy = double(points[2*j + 1]) - points[1];
+  const double umag = sqrt(ux*ux + uy*uy);
+  i = 1;
   while (collinear and i != n) {
-    collinear = geometry::collinear<2,RealType>(&points[0], &points[2*j], &points[2*i], dx);
+    const double px = double(points[2*i]) - points[0], py = double(points[2*i + 1]) - points[1];
+    collinear = (std::abs(ux*py - uy*px) < double(dx)*umag);
     ++i;
   }
   
-- 
2.43.0


From 86846fd12101887f0491381f75270902be64824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 42/53] fix: name the input points in the facets of 3D hulls

---
 src/convexHull_3d.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/convexHull_3d.hh b/src/convexHull_3d.hh
index 9114d7a..50332bb 100644
--- a/src/convexHull_3d.hh
+++ b/src/convexHull_3d.hh
@@ -420,13 +420,17 @@ convexHull_3d(const std::vector<RealType>& points,
 
   // Read out the data to the PLC and we're done.
   PLC<3, RealType> plc;
+  std::vector<unsigned> firstPoint(nunique, pointMap.size());   // One of the input points for each unique point.
+  for (unsigned i = 0; i != pointMap.size(); ++i) {
+    firstPoint[pointMap[i]] = std::min(firstPoint[pointMap[i]], i);
+  }
   for (typename FacetSet::iterator facetItr = workingFacets.begin();
        facetItr != workingFacets.end();
        ++facetItr) {
     plc.facets.push_back(std::vector<int>());
-    plc.facets.back().push_back(pointMap[facetItr->inode]);
-    plc.facets.back().push_back(pointMap[facetItr->jnode]);
-    plc.facets.back().push_back(pointMap[facetItr->knode]);
+    plc.facets.back().push_back(firstPoint[facetItr->inode]);
+    plc.facets.back().push_back(firstPoint[facetItr->jnode]);
+    plc.facets.back().push_back(firstPoint[facetItr->knode]);
   }
   return plc;
 }
-- 
2.43.0


From 474dedb45d2b3f5eebb02b7edc8e01e24cfac797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 43/53] fix: measure the distance of a parallel ray from the
 plane along the normal of the plane

---
 src/polytope_geometric_utilities.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index cee3fa5..3437d7a 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -705,7 +705,7 @@ rayPlaneIntersection(const RealType* p_ray,
   const RealType delta[3] = {p_plane[0] - p_ray[0], p_plane[1] - p_ray[1], p_plane[2] - p_ray[2]};
   if (std::abs(ndots) < tol) {
     // Ray is parallel to the plane.
-    if (std::abs(dot<3, RealType>(p_ray, delta)) < tol) {
+    if (std::abs(dot<3, RealType>(n_plane, delta)) < tol) {
       // Ray is in the plane, just choose the origin point.
       result[0] = p_ray[0]; result[1] = p_ray[1]; result[2] = p_ray[2];
       return true;
-- 
2.43.0


From e9694244fe6a3437c749687f75f090bf9d01be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 44/53] fix: scale the tolerance of 3D hulls with the extent of
 the points

---
 src/convexHull_3d.hh | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/convexHull_3d.hh b/src/convexHull_3d.hh
index 50332bb..2e42f37 100644
--- a/src/convexHull_3d.hh
+++ b/src/convexHull_3d.hh
@@ -139,15 +139,18 @@ struct TriangleFacet {
 
   unsigned inode, jnode, knode;          // Indices of the vertices of the triangle.
   PointType normal;                      // Normal to the surface.
+  RealType tol;                          // Points nearer than this are in the plane.
 
-  TriangleFacet(): inode(0), jnode(0), knode(0), normal() {}
+  TriangleFacet(const RealType tolerance): inode(0), jnode(0), knode(0), normal(), tol(tolerance) {}
   TriangleFacet(const unsigned i, 
                 const unsigned j,
                 const unsigned k,
-                const std::vector<PointType>& points): inode(i), 
-                                                       jnode(j),
-                                                       knode(k),
-                                                       normal() {
+                const std::vector<PointType>& points,
+                const RealType tolerance): inode(i), 
+                                           jnode(j),
+                                           knode(k),
+                                           normal(),
+                                           tol(tolerance) {
     this->computeNormal(points);
   }
 
@@ -162,7 +165,7 @@ struct TriangleFacet {
               const std::vector<PointType>& points) const { 
     const PointType ip = point - points[inode];
     const RealType test = geometry::dot<3, RealType>(&ip.x, &normal.x);
-    return (std::abs(test) < 1.0e-8 ? 0 :
+    return (std::abs(test) < tol ? 0 :
             test < 0 ? -1 :
             1);
   }
@@ -330,7 +333,10 @@ convexHull_3d(const std::vector<RealType>& points,
                  boxy2 = geometry::dot<3, RealType>(&boxy.x, &boxy.x),
                  boxz2 = geometry::dot<3, RealType>(&boxz.x, &boxz.x);
   POLY_ASSERT(boxx2 > 0.0 and boxy2 > 0.0 and boxz2 > 0.0);
-  TriangleFacet<RealType> startingFacet;
+
+  // Points within this distance of a facet count as in its plane.
+  const RealType tol = 1.0e-8*sqrt(std::max(boxx2, std::max(boxy2, boxz2)));
+  TriangleFacet<RealType> startingFacet(tol);
   if (boxx2 >= std::max(boxy2, boxz2)) {
     startingFacet.inode = ixmin;
     startingFacet.jnode = ixmax;
@@ -360,9 +366,9 @@ convexHull_3d(const std::vector<RealType>& points,
   // Intialize our starting tetrahedron.
   FacetSet workingFacets;
   workingFacets.push_back(startingFacet);
-  workingFacets.push_back(TriangleFacet<RealType>(startingFacet.jnode, startingFacet.inode, apex, ps));
-  workingFacets.push_back(TriangleFacet<RealType>(startingFacet.inode, startingFacet.knode, apex ,ps));
-  workingFacets.push_back(TriangleFacet<RealType>(startingFacet.knode, startingFacet.jnode, apex, ps));
+  workingFacets.push_back(TriangleFacet<RealType>(startingFacet.jnode, startingFacet.inode, apex, ps, tol));
+  workingFacets.push_back(TriangleFacet<RealType>(startingFacet.inode, startingFacet.knode, apex ,ps, tol));
+  workingFacets.push_back(TriangleFacet<RealType>(startingFacet.knode, startingFacet.jnode, apex, ps, tol));
   // std::cerr << "Starting facets: " << std::endl
   //           << "    " << workingFacets[0] << std::endl
   //           << "    " << workingFacets[1] << std::endl
@@ -398,7 +404,7 @@ convexHull_3d(const std::vector<RealType>& points,
     for (typename std::vector<EdgeHash>::const_iterator eitr = horizonEdges.begin();
          eitr != horizonEdges.end();
          ++eitr) {
-      workingFacets.push_back(TriangleFacet<RealType>(eitr->first, eitr->second, apex, ps));
+      workingFacets.push_back(TriangleFacet<RealType>(eitr->first, eitr->second, apex, ps, tol));
       if (workingFacets.back().compare(testPoint, ps) == 1) workingFacets.back().flip();
     }
 
-- 
2.43.0


From 465ccca3cf68660f025362162ae630816ea01415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 45/53] fix: a mesh that holds only communication data is not
 empty

Tessellation::empty() ignored the neighbor domains and the shared nodes and
faces, which clear() resets with everything else.
---
 src/Tessellation.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Tessellation.hh b/src/Tessellation.hh
index 109fcc3..39073dd 100644
--- a/src/Tessellation.hh
+++ b/src/Tessellation.hh
@@ -51,7 +51,8 @@ class Tessellation
   {
     return nodes.empty() and cells.empty() and faces.empty() and 
        boundaryNodes.empty() and boundaryFaces.empty() and faceCells.empty() and 
-       convexHull.empty();
+       convexHull.empty() and neighborDomains.empty() and
+       sharedNodes.empty() and sharedFaces.empty();
   }
 
   //! An array of (Dimension*numNodes) values containing components of 
-- 
2.43.0


From 2cccfc29ac4f0ab26c550e382fd0b3149ed42f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 46/53] fix: clear the points of a ReducedPLC with its facets
 and holes

clear() was inherited from PLC, which does not know of the points.
---
 src/ReducedPLC.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ReducedPLC.hh b/src/ReducedPLC.hh
index f2082d4..0139cbc 100644
--- a/src/ReducedPLC.hh
+++ b/src/ReducedPLC.hh
@@ -56,6 +56,13 @@ public:
     }
   }
 
+  //! Clears facets, holes and points to empty the PLC.
+  void clear()
+  {
+    PLC<Dimension, RealType>::clear();
+    points.clear();
+  }
+
   //! output operator.
   friend std::ostream& operator<<(std::ostream& s, const ReducedPLC& plc)
   {
-- 
2.43.0


From 0685a130d8d6bd00c180182412fe3580bad1d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 47/53] fix: keep the points of holes when reducing a PLC

Only the points of the outer facets were copied, and the facets of holes kept
the old indices.
---
 src/ReducedPLC.hh | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ReducedPLC.hh b/src/ReducedPLC.hh
index 0139cbc..16b42b9 100644
--- a/src/ReducedPLC.hh
+++ b/src/ReducedPLC.hh
@@ -40,6 +40,12 @@ public:
     for (i = 0; i != plc.facets.size(); ++i) {
       std::copy(plc.facets[i].begin(), plc.facets[i].end(), std::inserter(indices, indices.end()));
     }
+    int k;
+    for (k = 0; k != plc.holes.size(); ++k) {
+      for (i = 0; i != plc.holes[k].size(); ++i) {
+        std::copy(plc.holes[k][i].begin(), plc.holes[k][i].end(), std::inserter(indices, indices.end()));
+      }
+    }
     std::map<int, int> old2new;
     int j = 0;
     for (typename std::set<int>::const_iterator itr = indices.begin();
@@ -54,6 +60,13 @@ public:
         this->facets[i][j] = old2new[this->facets[i][j]];
       }
     }
+    for (k = 0; k != this->holes.size(); ++k) {
+      for (i = 0; i != this->holes[k].size(); ++i) {
+        for (j = 0; j != this->holes[k][i].size(); ++j) {
+          this->holes[k][i][j] = old2new[this->holes[k][i][j]];
+        }
+      }
+    }
   }
 
   //! Clears facets, holes and points to empty the PLC.
-- 
2.43.0


From 6202431859c74b5df734ab1ce182c60590a03698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 48/53] fix: makeBoxPLC replaces whatever the result held
 before

Holes survived, and facets that already existed kept their size.
---
 src/makeBoxPLC.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/makeBoxPLC.hh b/src/makeBoxPLC.hh
index a8921f1..afd99d5 100644
--- a/src/makeBoxPLC.hh
+++ b/src/makeBoxPLC.hh
@@ -21,7 +21,8 @@ makeBoxPLC(ReducedPLC<2, RealType>& result,
   result.points[2] = high[0]; result.points[3] =  low[1];
   result.points[4] = high[0]; result.points[5] = high[1];
   result.points[6] =  low[0]; result.points[7] = high[1];
-  result.facets.resize(4, std::vector<int>(2));
+  result.facets.assign(4, std::vector<int>(2));
+  result.holes.clear();
   for (unsigned i = 0; i != 4; ++i) {
     result.facets[i][0] = i;
     result.facets[i][1] = (i + 1) % 4;
-- 
2.43.0


From 6958e4be8a6c2a1269c148deb284fe2d8a8ae545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 49/53] fix: narrow the matches of IntPointMap::have axis by
 axis

---
 src/IntPointMap.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/IntPointMap.hh b/src/IntPointMap.hh
index edec07c..32b9332 100644
--- a/src/IntPointMap.hh
+++ b/src/IntPointMap.hh
@@ -162,6 +162,7 @@ struct IntPointMap {
           // If the intersection is empty, we have a new distinct point.
           return false;
         }
+        matchingIDs = intersection;
       }
     }
 
-- 
2.43.0


From ac70740fe352522a493b101d69679e9eb4dd1e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 50/53] fix: index the nodes of a face directly in the 3D
 faceCentroid

---
 src/DimensionTraits.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DimensionTraits.hh b/src/DimensionTraits.hh
index a84190e..cc2c168 100644
--- a/src/DimensionTraits.hh
+++ b/src/DimensionTraits.hh
@@ -122,7 +122,7 @@ struct DimensionTraits<3, RealType> {
     for (typename std::vector<unsigned>::const_iterator itr = mesh.faces[iface].begin();
          itr != mesh.faces[iface].end();
          ++itr) {
-      ni = mesh.faces[iface][*itr];
+      ni = *itr;
       pface[0] += mesh.nodes[3*ni];
       pface[1] += mesh.nodes[3*ni + 1];
       pface[2] += mesh.nodes[3*ni + 2];
-- 
2.43.0


From e253d467664a734463149b5f355a1202d78fa182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 51/53] fix: take the z extent into account in
 QuantizedTessellation3d

---
 src/QuantizedTessellation3d.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QuantizedTessellation3d.cc b/src/QuantizedTessellation3d.cc
index 4f898f6..1268247 100644
--- a/src/QuantizedTessellation3d.cc
+++ b/src/QuantizedTessellation3d.cc
@@ -48,7 +48,7 @@ QuantizedTessellation3d(const std::vector<RealType>& points,
   xmax[0] = xmax_in[0];
   xmax[1] = xmax_in[1];
   xmax[2] = xmax_in[2];
-  length = std::max(xmax[0] - xmin[0], xmax[1] - xmin[1]);
+  length = std::max(xmax[0] - xmin[0], std::max(xmax[1] - xmin[1], xmax[2] - xmin[2]));
   this->construct(points);
 }
 
-- 
2.43.0


From 0e895a5d1f2bf08de57a48d9d17385777032c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 52/53] fix: store the current box of QuantizedCoordinates as
 its outline

---
 src/QuantizedCoordinates.hh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/QuantizedCoordinates.hh b/src/QuantizedCoordinates.hh
index e7613e8..adb9d68 100644
--- a/src/QuantizedCoordinates.hh
+++ b/src/QuantizedCoordinates.hh
@@ -264,6 +264,7 @@ public:
       mUsingTwoBoundingBoxes = false;
 
       setMaximumCoordinate(2.0*mRinf_inner, mDegeneracy);
+      storeBoundsAsPLCData();
     }
   
     mCoordinatesModified = false;
@@ -379,12 +380,12 @@ private:
       pts.push_back(low_inner [0]);  pts.push_back(high_inner[1]);  pts.push_back(high_inner[2]);
 
       fcts.resize(6, std::vector<int>(4));
-      fcts[0][0] = 0;  fcts[0][1] = 1;  fcts[0][2] = 2;  fcts[0][3] = 3;  // -z face
-      fcts[0][0] = 4;  fcts[0][1] = 5;  fcts[0][2] = 6;  fcts[0][3] = 7;  // +z face
-      fcts[0][0] = 0;  fcts[0][1] = 1;  fcts[0][2] = 5;  fcts[0][3] = 4;  // -y face
-      fcts[0][0] = 2;  fcts[0][1] = 6;  fcts[0][2] = 7;  fcts[0][3] = 3;  // +y face
-      fcts[0][0] = 0;  fcts[0][1] = 4;  fcts[0][2] = 7;  fcts[0][3] = 3;  // -x face
-      fcts[0][0] = 1;  fcts[0][1] = 5;  fcts[0][2] = 6;  fcts[0][3] = 2;  // +x face
+      fcts[0][0] = 0;  fcts[0][1] = 3;  fcts[0][2] = 2;  fcts[0][3] = 1;  // -z face
+      fcts[1][0] = 4;  fcts[1][1] = 5;  fcts[1][2] = 6;  fcts[1][3] = 7;  // +z face
+      fcts[2][0] = 0;  fcts[2][1] = 1;  fcts[2][2] = 5;  fcts[2][3] = 4;  // -y face
+      fcts[3][0] = 2;  fcts[3][1] = 3;  fcts[3][2] = 7;  fcts[3][3] = 6;  // +y face
+      fcts[4][0] = 0;  fcts[4][1] = 4;  fcts[4][2] = 7;  fcts[4][3] = 3;  // -x face
+      fcts[5][0] = 1;  fcts[5][1] = 2;  fcts[5][2] = 6;  fcts[5][3] = 5;  // +x face
     }
     this->points = pts;
     this->facets = fcts;
-- 
2.43.0


From dd415a14980266de8736c1959ceef7eef3e9df8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 53/53] fix: grow QuantizedCoordinates around its centre, not
 the origin

---
 src/QuantizedCoordinates.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QuantizedCoordinates.hh b/src/QuantizedCoordinates.hh
index adb9d68..c506a9a 100644
--- a/src/QuantizedCoordinates.hh
+++ b/src/QuantizedCoordinates.hh
@@ -218,7 +218,7 @@ public:
     
     // Resize the box
     RealType boxHalf = 0.0;
-    RealPoint low_new, high_new;
+    RealPoint low_new = mCenter, high_new = mCenter;
     RealType rinf_new;
     for (unsigned j = 0; j != Dimension; ++j) {
       POLY_ASSERT(plow [j] <= phigh[j]);
-- 
2.43.0

