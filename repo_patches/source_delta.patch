From 27c6c8f454a27c4dcf0fdf28aaeb56b43420d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:15 +0000
Subject: [PATCH 01/86] fix: clear the index array in
 JArrayEdgeUnidir_PointSurPoint

The counts were accumulated on top of whatever the caller's vector held.
---
 include/delfem2/jagarray.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/jagarray.cpp b/include/delfem2/jagarray.cpp
index bb66659..54ba3d6 100644
--- a/include/delfem2/jagarray.cpp
+++ b/include/delfem2/jagarray.cpp
@@ -21,8 +21,7 @@ DFM2_INLINE void delfem2::JArrayEdgeUnidir_PointSurPoint(
     const std::vector<unsigned int> &psup) {
   assert(psup_ind.size() >= 2);
   const std::size_t np = psup_ind.size() - 1;
-  edge_ind.resize(np + 1);
-  edge_ind[0] = 0;
+  edge_ind.assign(np + 1, 0);
   edge.clear();
   //
   for (unsigned int ip = 0; ip < np; ++ip) {
-- 
2.43.0


From b9a4980131262f313ab68ca2acdac0ac90d6e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 02/86] fix: sixth edge of a tetrahedron is 2-3

The edge table listed 2-2, so edge extraction of tet meshes lost an edge
and produced degenerate ones.
---
 include/delfem2/mshelm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mshelm.h b/include/delfem2/mshelm.h
index d43e3cb..e045794 100644
--- a/include/delfem2/mshelm.h
+++ b/include/delfem2/mshelm.h
@@ -149,7 +149,7 @@ const int noelElemEdge_Tet[6][2] = {
   { 0, 3},
   { 1, 2},
   { 1, 3},
-  { 2, 2},
+  { 2, 3},
 };
 const int noelElemEdge_Quad[4][2] = {
   { 0, 1},
-- 
2.43.0


From 6bbacf24d288f3b9dbfefe97667c7aa9915dea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 03/86] fix: JArrayEdge_MeshElem discards the caller's old edge
 list

---
 include/delfem2/msh_topology_uniform.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/msh_topology_uniform.cpp b/include/delfem2/msh_topology_uniform.cpp
index 21aab1f..fa7a8f0 100644
--- a/include/delfem2/msh_topology_uniform.cpp
+++ b/include/delfem2/msh_topology_uniform.cpp
@@ -373,6 +373,7 @@ DFM2_INLINE void delfem2::JArrayEdge_MeshElem(
   const std::size_t nPoint0 = elsup_ind.size() - 1;
   edge_ind.resize(nPoint0 + 1);
   edge_ind[0] = 0;
+  edge.clear();
   for (unsigned int ip = 0; ip < nPoint0; ++ip) {
     std::set<unsigned int> setIP;
     for (unsigned int ielsup = elsup_ind[ip]; ielsup < elsup_ind[ip + 1]; ++ielsup) {
-- 
2.43.0


From 2644b0258daf33bea0804c2130c2cece4697f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 04/86] fix: AddElement accepts the first element of a mixed
 mesh

The assertion rejected the index array {0} a CElemMixed is constructed with.
---
 include/delfem2/msh_topology_mix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_topology_mix.cpp b/include/delfem2/msh_topology_mix.cpp
index 24f39a4..75601c2 100644
--- a/include/delfem2/msh_topology_mix.cpp
+++ b/include/delfem2/msh_topology_mix.cpp
@@ -19,7 +19,7 @@ DFM2_INLINE void delfem2::AddElement
   //
   std::copy(aElemIn.begin(), aElemIn.end(), std::back_inserter(aElem));
   //
-  assert( aElemInd.size() >= 2 );
+  assert( !aElemInd.empty() );
   const std::size_t nelem0 = aElemInd.size()-1;
   const int nei0 = aElemInd[nelem0];
   aElemInd.reserve(aElemInd.size()+nElemIn);
-- 
2.43.0


From fc6e7c2c3eef9e8ae4ef1045e452b31639373366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 05/86] fix: JArray_PSuP of a dynamic mesh lists the neighbours
 of point 0

---
 include/delfem2/dtri_topology.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/dtri_topology.cpp b/include/delfem2/dtri_topology.cpp
index 01a3c40..edc091a 100644
--- a/include/delfem2/dtri_topology.cpp
+++ b/include/delfem2/dtri_topology.cpp
@@ -101,7 +101,7 @@ DFM2_INLINE void delfem2::JArray_PSuP(
     const unsigned int npoin,
     const std::vector<int> &elsup_ind,
     const std::vector<int> &elsup) {
-  std::vector<unsigned int> aflg(npoin, 0);
+  std::vector<unsigned int> aflg(npoin, UINT_MAX);
   psup_ind[0] = 0;
   for (unsigned int ino = 0; ino < npoin; ino++) {
     psup_ind[ino + 1] = psup_ind[ino];
@@ -117,7 +117,7 @@ DFM2_INLINE void delfem2::JArray_PSuP(
   }
   const int npsup = psup_ind[npoin];
   psup.resize(npsup);
-  for (unsigned int ino = 0; ino < npoin; ino++) { aflg[ino] = 0; }
+  for (unsigned int ino = 0; ino < npoin; ino++) { aflg[ino] = UINT_MAX; }
   unsigned int iedge = 0;
   for (unsigned int ino = 0; ino < npoin; ino++) {
     assert(psup_ind[ino] == (int) iedge);
-- 
2.43.0


From 05c571f69e4ebb85a3a36c5c394e1211c6aad523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:15 +0000
Subject: [PATCH 06/86] fix: ResamplingLoop counts the added points of the loop
 edge it copies

---
 include/delfem2/geo_polygon2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index 18e0956..b381555 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -341,7 +341,7 @@ void delfem2::ResamplingLoop(
       const int ip_loop = loopIP0[iip_loop];
       loopIP1[ivtx0] = ip_loop;
       ivtx0++;
-      for (std::size_t iadd = 0; iadd < aPoInEd[ip_loop].size(); iadd++) {
+      for (std::size_t iadd = 0; iadd < aPoInEd[iip_loop].size(); iadd++) {
         loopIP1[ivtx0] = aPoInEd[iip_loop][iadd];
         ivtx0++;
       }
-- 
2.43.0


From c1f046c82d91afda540a34e3c7c1b003619dd048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:15 +0000
Subject: [PATCH 07/86] fix: loop intersection check uses the x coordinate of
 the end point

---
 include/delfem2/geo_polygon2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index b381555..eeb9b5f 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -481,7 +481,7 @@ bool delfem2::CheckInputBoundaryForTriangulation(
             int jpo1 = loopIP_ind[jloop] + jbar + 1;
             if (jbar == nbar_j - 1) { jpo1 = loopIP_ind[jloop]; }
             const double pj0[2] = {aXY[jpo0].p[0], aXY[jpo0].p[1]};
-            const double pj1[2] = {aXY[jpo1].p[1], aXY[jpo1].p[1]};
+            const double pj1[2] = {aXY[jpo1].p[0], aXY[jpo1].p[1]};
             const double xmax_j = (pj1[0] > pj0[0]) ? pj1[0] : pj0[0];
             const double xmin_j = (pj1[0] < pj0[0]) ? pj1[0] : pj0[0];
             const double ymax_j = (pj1[1] > pj0[1]) ? pj1[1] : pj0[1];
-- 
2.43.0


From 02441ad377ba5468a687b8a17c3036c3c8a68db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:15 +0000
Subject: [PATCH 08/86] fix: deleting points relinks the remaining points by
 their new index

---
 include/delfem2/dtri2_v2dtri.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index b062af1..7a2b90b 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -576,9 +576,10 @@ DFM2_INLINE void delfem2::DeleteUnrefPoints(
     for (int ifatri = 0; ifatri < 3; ifatri++) {
       const unsigned int ipo = aTri_in[itri].v[ifatri];
       assert(map_po_del[ipo] != UINT_MAX);
-      aTri_in[itri].v[ifatri] = map_po_del[ipo];
-      aPo2D[ipo].e = itri;
-      aPo2D[ipo].d = ifatri;
+      const unsigned int ipo1 = map_po_del[ipo];
+      aTri_in[itri].v[ifatri] = ipo1;
+      aPo2D[ipo1].e = itri;
+      aPo2D[ipo1].d = ifatri;
     }
   }
 }
@@ -622,9 +623,10 @@ DFM2_INLINE void delfem2::DeletePointsFlag(
   for (unsigned int itri = 0; itri < aTri.size(); itri++) {
     for (int ifatri = 0; ifatri < 3; ifatri++) {
       const unsigned int ipo = aTri[itri].v[ifatri];
-      aTri[itri].v[ifatri] = map01[ipo];
-      aPo1[ipo].e = itri;
-      aPo1[ipo].d = ifatri;
+      const unsigned int ipo1 = map01[ipo];
+      aTri[itri].v[ifatri] = ipo1;
+      aPo1[ipo1].e = itri;
+      aPo1[ipo1].d = ifatri;
     }
   }
 }
-- 
2.43.0


From fdcdddf7cb0423fa5e79d1c545258b016ef53da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:14 +0000
Subject: [PATCH 09/86] fix: walk around the point correctly when searching the
 edge crossed by a constraint

---
 include/delfem2/dtri2_v2dtri.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index 7a2b90b..87a82dd 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -80,7 +80,7 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
       const unsigned int inotri2 = (inotri_cur + 1) % 3;
       const unsigned int itri_nex = aDTri[itri_cur].s2[inotri2];
       if (itri_nex == UINT_MAX) { break; }
-      const unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_nex], inotri2, aDTri);
+      const unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_cur], inotri2, aDTri);
       const unsigned int inotri3 = (jnob + 1) % 3;
       assert(itri_nex < aDTri.size());
       assert(aDTri[itri_nex].v[inotri3] == ipo0);
@@ -123,8 +123,9 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
     {
       const unsigned int inotri2 = (inotri_cur + 2) % 3;
       unsigned int itri_nex = aDTri[itri_cur].s2[inotri2];
+      if (itri_nex == UINT_MAX) { break; }
       unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_cur], inotri2, aDTri);
-      const unsigned int inotri3 = (jnob + 1) % 3;
+      const unsigned int inotri3 = (jnob + 2) % 3;
       assert(aDTri[itri_nex].v[inotri3] == ipo0);
       if (itri_nex == itri_ini) {
         assert(0);
-- 
2.43.0


From 1a570050051a3cc21d70e7efd5c1d657df867b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:31 +0000
Subject: [PATCH 10/86] fix: top-down BVH picks one direction when the longest
 sides are equal

---
 include/delfem2/srch_bvh.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/srch_bvh.cpp b/include/delfem2/srch_bvh.cpp
index f83f76d..f02898a 100755
--- a/include/delfem2/srch_bvh.cpp
+++ b/include/delfem2/srch_bvh.cpp
@@ -66,9 +66,9 @@ DFM2_INLINE void DevideElemAryConnex(
     double lenx = x_max - x_min;
     double leny = y_max - y_min;
     double lenz = z_max - z_min;
-    if (lenx > leny && lenx > lenz) { dir[0] = 1; }
-    if (leny > lenz && leny > lenx) { dir[1] = 1; }
-    if (lenz > lenx && lenz > leny) { dir[2] = 1; }
+    if (lenx >= leny && lenx >= lenz) { dir[0] = 1; }
+    else if (leny >= lenz) { dir[1] = 1; }
+    else { dir[2] = 1; }
   }
   double org[3] = {(x_min + x_max) * 0.5, (y_min + y_max) * 0.5, (z_min + z_max) * 0.5};
   unsigned int itri_ker = UINT_MAX;
-- 
2.43.0


From df5b0ded49bef79841aa0f355fa163a76f4d0e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:31 +0000
Subject: [PATCH 11/86] fix: BVHTopology_Morton stores the object of a
 single-object tree

---
 include/delfem2/srch_bvh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/delfem2/srch_bvh.cpp b/include/delfem2/srch_bvh.cpp
index f02898a..e696fc3 100755
--- a/include/delfem2/srch_bvh.cpp
+++ b/include/delfem2/srch_bvh.cpp
@@ -449,6 +449,10 @@ DFM2_INLINE void delfem2::BVHTopology_Morton(
   bvh_nodes.resize(sorted_morton_codes.size() * 2 - 1);
   bvh_nodes[0].iparent = UINT_MAX;
   const auto nni = static_cast<unsigned int>(sorted_morton_codes.size() - 1); // number of internal node
+  if (nni == 0) { // the root is the only leaf
+    bvh_nodes[0].ichild[0] = sorted_object_indexes[0];
+    bvh_nodes[0].ichild[1] = UINT_MAX;
+  }
   for (unsigned int ini = 0; ini < nni; ++ini) {
     const std::pair<unsigned int, unsigned int>
         range = MortonCode_DeterminRange(sorted_morton_codes.data(), sorted_morton_codes.size(), ini);
-- 
2.43.0


From dff533484b97f73db875f97a75dcae09366d295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:31 +0000
Subject: [PATCH 12/86] fix: top-down BVH of a single element is a leaf

---
 include/delfem2/srch_bvh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/delfem2/srch_bvh.cpp b/include/delfem2/srch_bvh.cpp
index e696fc3..7af4f0a 100755
--- a/include/delfem2/srch_bvh.cpp
+++ b/include/delfem2/srch_bvh.cpp
@@ -278,6 +278,11 @@ DFM2_INLINE int delfem2::BVHTopology_TopDown_MeshElem(
   aElem2Node.resize(nelem, 0);
   aNodeBVH.resize(1);
   aNodeBVH[0].iparent = UINT_MAX;
+  if (nelem == 1) { // the root is the only leaf
+    aNodeBVH[0].ichild[0] = 0;
+    aNodeBVH[0].ichild[1] = UINT_MAX;
+    return 0;
+  }
   bvh::DevideElemAryConnex(
       0, aElem2Node, aNodeBVH,
       list, static_cast<int>(nfael), aElSuEl, aElemCenter);
-- 
2.43.0


From 606a5205b253e3cadd46061d5f74631f90a38457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 13/86] fix: CBV3_AABB::MaxLength is the longest side when two
 sides are equal

---
 include/delfem2/srch_bv3_aabb.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/srch_bv3_aabb.h b/include/delfem2/srch_bv3_aabb.h
index 5ed4fcd..31bffbf 100755
--- a/include/delfem2/srch_bv3_aabb.h
+++ b/include/delfem2/srch_bv3_aabb.h
@@ -53,8 +53,8 @@ class CBV3_AABB {
     REAL x0 = bbmax[0] - bbmin[0];
     REAL y0 = bbmax[1] - bbmin[1];
     REAL z0 = bbmax[2] - bbmin[2];
-    if (x0 > y0 && x0 > z0) { return x0; }
-    else if (y0 > x0 && y0 > z0) { return y0; }
+    if (x0 >= y0 && x0 >= z0) { return x0; }
+    else if (y0 >= x0 && y0 >= z0) { return y0; }
     return z0;
   }
   void SetCenterWidth(REAL cx, REAL cy, REAL cz,
-- 
2.43.0


From ca499d6024a94647fbd1e10da2fc61c04ee05f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 14/86] fix: proximity search culls with the bounding volume of
 the leaf node

---
 include/delfem2/srch_selfintersection_bvh.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/srch_selfintersection_bvh.h b/include/delfem2/srch_selfintersection_bvh.h
index e56c482..0d82f47 100644
--- a/include/delfem2/srch_selfintersection_bvh.h
+++ b/include/delfem2/srch_selfintersection_bvh.h
@@ -295,22 +295,22 @@ void delfem2::GetContactElement_Proximity
     const CVec3d q0(aXYZ[jn0*3+0], aXYZ[jn0*3+1], aXYZ[jn0*3+2]);
     const CVec3d q1(aXYZ[jn1*3+0], aXYZ[jn1*3+1], aXYZ[jn1*3+2]);
     const CVec3d q2(aXYZ[jn2*3+0], aXYZ[jn2*3+1], aXYZ[jn2*3+2]);
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn0, p0,p1,p2,q0, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn0, p0,p1,p2,q0, aBB[ibvh0], delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn0) );
     }
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn1, p0,p1,p2,q1, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn1, p0,p1,p2,q1, aBB[ibvh0], delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn1) );
     }
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn2, p0,p1,p2,q2, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn2, p0,p1,p2,q2, aBB[ibvh0], delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn2) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in0, q0,q1,q2,p0, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in0, q0,q1,q2,p0, aBB[ibvh1], delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in0) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in1, q0,q1,q2,p1, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in1, q0,q1,q2,p1, aBB[ibvh1], delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in1) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in2, q0,q1,q2,p2, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in2, q0,q1,q2,p2, aBB[ibvh1], delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in2) );
     }
     ////
-- 
2.43.0


From a18b35785e17c76dfdb1d5ba66f982b92f1712a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 15/86] fix: CContactElement order tells vertex-face from
 edge-edge contacts

---
 include/delfem2/srch_selfintersection_bvh.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/srch_selfintersection_bvh.h b/include/delfem2/srch_selfintersection_bvh.h
index 0d82f47..9517eb8 100644
--- a/include/delfem2/srch_selfintersection_bvh.h
+++ b/include/delfem2/srch_selfintersection_bvh.h
@@ -237,7 +237,8 @@ public:
     if( ino0 != p2.ino0 ){ return ino0 < p2.ino0; }
     if( ino1 != p2.ino1 ){ return ino1 < p2.ino1; }
     if( ino2 != p2.ino2 ){ return ino2 < p2.ino2; }
-    return ino3 < p2.ino3;
+    if( ino3 != p2.ino3 ){ return ino3 < p2.ino3; }
+    return is_fv < p2.is_fv;
   }
 public:
   bool is_fv; // true: ee contact, false: vf contact
-- 
2.43.0


From c1d89d5d231b74cc09dcdd0e10e38b310eb5c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 16/86] fix: point leaf volumes are rebuilt from scratch

---
 include/delfem2/srch_bvh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/srch_bvh.h b/include/delfem2/srch_bvh.h
index 2210fe7..306caa4 100755
--- a/include/delfem2/srch_bvh.h
+++ b/include/delfem2/srch_bvh.h
@@ -174,6 +174,7 @@ public:
   void SetVolume(BBOX& bb,
 	  unsigned int ielem) const {
     assert( ielem < nXYZ );
+    bb.Set_Inactive();
     bb.AddPoint(aXYZ+ielem*3, 0.0);
     return;
   }
-- 
2.43.0


From d3efb2248a1b1e304d2a0c3c070bf64e47817981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 17/86] fix: triangle kd-tree uses the exact distance to a
 node's box

---
 include/delfem2/srch_kdtree_tri.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/srch_kdtree_tri.h b/include/delfem2/srch_kdtree_tri.h
index e395c37..bf0b5b7 100644
--- a/include/delfem2/srch_kdtree_tri.h
+++ b/include/delfem2/srch_kdtree_tri.h
@@ -45,7 +45,15 @@ struct KDTTriangle {
 				SCALAR max, min;
 			} dist;
 
-			dist.min = (Q - VEC { AABBmax[0], AABBmax[1], AABBmax[2] }).norm();
+			// nearest point of the box: clamp the query to the box
+			VEC nearest = Q;
+			for (int idim = 0; idim < 3; idim++) {
+				if (nearest[idim] < AABBmin[idim])
+					nearest[idim] = AABBmin[idim];
+				if (nearest[idim] > AABBmax[idim])
+					nearest[idim] = AABBmax[idim];
+			}
+			dist.min = (Q - nearest).norm();
 			dist.max = (Q - VEC { AABBmax[0], AABBmax[1], AABBmax[2] }).norm();
 
 			for (int i = 0; i < 8; i++) {
@@ -55,15 +63,10 @@ struct KDTTriangle {
 
 				SCALAR hogedist = (Q - VEC { hogex, hogey, hogez }).norm();
 
-				if (hogedist < dist.min)
-					dist.min = hogedist;
 				if (hogedist > dist.max)
 					dist.max = hogedist;
 			}
 
-			if (Q[0] < AABBmax[0] && Q[0] > AABBmin[0] && Q[1] < AABBmax[1] && Q[1] > AABBmin[1] && Q[2] < AABBmax[2] && Q[2] > AABBmin[2])
-				dist.min = 0.0;
-
 			return dist;
 		}
 	};
-- 
2.43.0


From f92782ce70ce2771e4fcc7007af70d0fe7b70dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 18/86] fix: 2D convex hull drops all but the furthest of
 collinear points

---
 include/delfem2/geo_convhull2.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/geo_convhull2.h b/include/delfem2/geo_convhull2.h
index c2f2511..b4c18c6 100644
--- a/include/delfem2/geo_convhull2.h
+++ b/include/delfem2/geo_convhull2.h
@@ -71,9 +71,11 @@ void ConvexHull2(
   }
 
   // check for collinear points
-  for (auto itr = ++idxcos.begin(); std::next(itr) != idxcos.end(); itr++) {
+  for (auto itr = idxcos.begin(); std::next(itr) != idxcos.end();) {
     if (std::abs((*itr).second - (*std::next(itr)).second) < EPSILON) {
       idxcos.erase(std::next(itr)); // only keep the furthest
+    } else {
+      ++itr;
     }
   }
 
-- 
2.43.0


From fad09bc0c342ca0366ad863e94e4266ffdce2efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 19/86] fix: 2D GJK search direction when the origin lies on
 the simplex line or the first points coincide

---
 include/delfem2/geo_gjksat2.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/geo_gjksat2.h b/include/delfem2/geo_gjksat2.h
index 3d7c590..7e077d6 100644
--- a/include/delfem2/geo_gjksat2.h
+++ b/include/delfem2/geo_gjksat2.h
@@ -49,6 +49,7 @@ auto FindIntersectingSimplexForGjk2(
   // add first and second points of simplex
   std::vector<VEC> simplex;
   VEC init_dir = vtxsB[0] - vtxsA[0];
+  if (init_dir.squaredNorm() == 0) { init_dir = VEC{1, 0}; } // the first points coincide
   simplex.push_back(support(init_dir));
   VEC O = VEC{0, 0};
   VEC d = O - simplex[0];
@@ -65,7 +66,8 @@ auto FindIntersectingSimplexForGjk2(
     if (simplex.size() == 2) { // line case
       AB = simplex[0] - simplex[1];
       AO = O - simplex[1];
-      d = AO - AB.dot(AO) / AB.squaredNorm() * AB; // ABperp
+      d = VEC{-AB[1], AB[0]}; // ABperp, also valid if the origin is on the line
+      if (d.dot(AO) < 0) { d = -d; }
     } else if (simplex.size() == 3) { // triangle case
       AB = simplex[1] - simplex[2];
       AC = simplex[0] - simplex[2];
-- 
2.43.0


From b9320629c287ec2201da1f3c30b14e8442646d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 20/86] fix: 3D GJK with the origin on the first segment, all
 edge pairs in the 3D separating axis test

---
 include/delfem2/geo_gjksat3.h | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/delfem2/geo_gjksat3.h b/include/delfem2/geo_gjksat3.h
index 1574edd..8dcfbc4 100644
--- a/include/delfem2/geo_gjksat3.h
+++ b/include/delfem2/geo_gjksat3.h
@@ -47,6 +47,9 @@ auto FindIntersectingSimplexForGjk3(const std::vector<VEC>& vtxsA, const std::ve
 
 	{ // add first point of simplex
 		VEC init_dir = vtxsB[0] - vtxsA[0];
+		if (init_dir.squaredNorm() == 0) { // the first points coincide
+			init_dir = VEC { 1.0, 0.0, 0.0 };
+		}
 		simplex.push_back(support(init_dir));
 	}
 
@@ -55,14 +58,25 @@ auto FindIntersectingSimplexForGjk3(const std::vector<VEC>& vtxsA, const std::ve
 
 	{ // add second point
 		VEC P = support(d);
+		if (P.dot(d) < 0) {
+			return std::vector<VEC>();
+		}
 		simplex.push_back(P);
 	}
 
 	{ // add thierd point
 		VEC AB = simplex[0] - simplex[1];
 		VEC AO = O - simplex[1];
-		d      = AO - AB.dot(AO) / AB.squaredNorm() * AB; // ABperp
-		VEC P  = support(d);
+		d      = AB.cross(AO).cross(AB); // ABperp
+		if (d.squaredNorm() == 0) { // the origin is on the line: take any perpendicular direction
+			const bool is_x = std::abs(AB[0]) > std::abs(AB[1]);
+			const VEC axis	= is_x ? VEC { 0.0, 1.0, 0.0 } : VEC { 1.0, 0.0, 0.0 };
+			d		= AB.cross(axis);
+		}
+		VEC P = support(d);
+		if (P.dot(d) < 0) {
+			return std::vector<VEC>();
+		}
 		simplex.push_back(P);
 	}
 
@@ -407,18 +421,9 @@ bool IsIntersect_Points3_Points3_Sat(
 			edgeA[1] = vtxsA[faceA[3 * fiA + 2]] - vtxsA[faceA[3 * fiA + 0]];
 			edgeA[2] = vtxsA[faceA[3 * fiA + 2]] - vtxsA[faceA[3 * fiA + 1]];
 
-			for (unsigned int i = 0; i < 6; i++) {
-
-				constexpr unsigned int FaceToEdge[12] = {
-					0, 0,
-					0, 1,
-					0, 2,
-					1, 1,
-					1, 2,
-					2, 2
-				};
+			for (unsigned int i = 0; i < 9; i++) { // all the pairs of edges
 
-				const VEC normal = (edgeB[FaceToEdge[2 * i + 1]]).cross(edgeA[FaceToEdge[2 * i + 0]]);
+				const VEC normal = edgeB[i % 3].cross(edgeA[i / 3]);
 
 				const auto rangeA = Range_ProjectionPointsOnAxis(vtxsA, normal);
 				const auto rangeB = Range_ProjectionPointsOnAxis(vtxsB, normal);
-- 
2.43.0


From e881b32f0f7cced3792224e1a73ee191d0cb9441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 21/86] fix: foot of parallel edges lies in their overlap,
 floating-point abs in Nearest_Edge3_Line3

---
 include/delfem2/geo_edge.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 1d0e64d..86a60e6 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -328,7 +328,7 @@ void delfem2::Nearest_Edge3_Line3(
   Nearest_Line3_Line3(
     D0, Da0, Db0, Dta0, Dtb0,
     lineseg_start, lineseg_end - lineseg_start, line_origin, line_direction);
-  if (abs(D0) < 1.0e-10) { // pararell
+  if (std::abs(D0) < 1.0e-10) { // pararell
     nearest_lineseg = (lineseg_start + lineseg_end) * static_cast<T>(0.5);
     nearest_line = ::delfem2::Nearest_Line3_Point3<VEC>(
       nearest_lineseg, line_origin, line_direction);
@@ -391,11 +391,10 @@ double delfem2::Distance_Edge3_Edge3(
     double p_max = (lp0 > lp1) ? lp0 : lp1;
     double q_min = (lq0 < lq1) ? lq0 : lq1;
     double q_max = (lq0 > lq1) ? lq0 : lq1;
-    double lm;
-    if (p_max < q_min) { lm = (p_max + q_min) * 0.5; }
-    else if (q_max < p_min) { lm = (q_max + p_min) * 0.5; }
-    else if (p_max < q_max) { lm = (p_max + q_min) * 0.5; }
-    else { lm = (q_max + p_min) * 0.5; }
+    // the middle of the overlap, or of the gap if the edges do not overlap
+    const double l_min = (p_min > q_min) ? p_min : q_min;
+    const double l_max = (p_max < q_max) ? p_max : q_max;
+    const double lm = (l_min + l_max) * 0.5;
     ratio_p = (lm - lp0) / (lp1 - lp0);
     ratio_q = (lm - lq0) / (lq1 - lq0);
     return dist;
-- 
2.43.0


From 9fafbc288474e9c98dcc5c6bf0e3ec0586450da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 22/86] fix: nearest point of a triangle for a query point in
 its plane

---
 include/delfem2/geo_tri.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 406da70..847dd56 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -66,13 +66,10 @@ DFM2_INLINE void delfem2::Nearest_Triangle3_Point3(
   double area, n012[3];
   UnitNormalAreaTri3(n012, area, q0, q1, q2);
   const double pe[3] = {ps[0] + n012[0], ps[1] + n012[1], ps[2] + n012[2]};
-  const double v012 = lcl::Volume_Tet3(ps, q0, q1, q2);
-  if (fabs(v012) > 1.0e-10) {
-    const double sign = (v012 > 0) ? +1 : -1;
-    const double v0 = lcl::Volume_Tet3(ps, q1, q2, pe) * sign;
-    const double v1 = lcl::Volume_Tet3(ps, q2, q0, pe) * sign;
-    const double v2 = lcl::Volume_Tet3(ps, q0, q1, pe) * sign;
-    assert(fabs(v0 + v1 + v2) > 1.0e-10);
+  const double v0 = lcl::Volume_Tet3(ps, q1, q2, pe);
+  const double v1 = lcl::Volume_Tet3(ps, q2, q0, pe);
+  const double v2 = lcl::Volume_Tet3(ps, q0, q1, pe);
+  if (fabs(v0 + v1 + v2) > 1.0e-10) { // the triangle is not degenerate
     double inv_v012 = 1.0 / (v0 + v1 + v2);
     r0 = v0 * inv_v012;
     r1 = v1 * inv_v012;
-- 
2.43.0


From facdef663c9a5b5affdae4aa7c9e2cb7ee9c0f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 23/86] fix: tangent of a polyline past its last vertex

---
 include/delfem2/geo_polyline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index ab854f9..2a473b9 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -155,7 +155,7 @@ VEC Tangent_Polyline(
   assert(np>=2);
   if (np < 2) { return VEC(0, 0); }
   if (param <= 0) { return polyline[1] - polyline[0]; }
-  if (param >= static_cast<SCALAR>(np)) {
+  if (param >= static_cast<SCALAR>(np - 1)) {
     return polyline[np - 1] - polyline[np - 2];
   }
   const unsigned int ie = int(param);
-- 
2.43.0


From 0681259b99a605f15e5416a7b7e3b8204c28b577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 24/86] fix: define IsIntersect_AABB2_Edge2 in its namespace

---
 include/delfem2/geo_edge.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 86a60e6..6a181d3 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -197,7 +197,7 @@ double delfem2::Distance_Edge2_Edge2(
 }
 
 template<typename VEC>
-bool IsIntersect_AABB2_Edge2(
+bool delfem2::IsIntersect_AABB2_Edge2(
   const VEC &pmin,
   const VEC &pmax,
   const VEC &p0,
@@ -268,12 +268,12 @@ bool IsIntersect_AABB2_Edge2(
   return false;
 }
 #ifdef DFM2_STATIC_LIBRARY
-template bool IsIntersect_AABB2_Edge2(
+template bool delfem2::IsIntersect_AABB2_Edge2(
   const delfem2::CVec2d &pmin,
   const delfem2::CVec2d &pmax,
   const delfem2::CVec2d &p0,
   const delfem2::CVec2d &p1);
-template bool IsIntersect_AABB2_Edge2(
+template bool delfem2::IsIntersect_AABB2_Edge2(
   const delfem2::CVec2f &pmin,
   const delfem2::CVec2f &pmax,
   const delfem2::CVec2f &p0,
-- 
2.43.0


From 7287139200f525847dba3ace9becec5fd5bfd93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 25/86] fix: RootsInRange_QuadraticPolynomial returns the root
 of the linear case

---
 include/delfem2/polynomial_root.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 38dd232..28ab2fb 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -209,8 +209,8 @@ std::vector<REAL> RootsInRange_QuadraticPolynomial(
       assert(0);
       return {};
     }
-    const REAL cand = c / b;
-    if (cand > x0 || cand < x1) { return {cand}; }
+    const REAL cand = -c / b;
+    if (cand >= x0 && cand <= x1) { return {cand}; }
     return {};
   }
   delta = std::sqrt(delta);
-- 
2.43.0


From c5609f0f51a2c5222a07b64fb846f32be4b89ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 26/86] fix: RootInInterval_Bisection keeps a root at the right
 end or at a middle point

---
 include/delfem2/polynomial_root.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 28ab2fb..4adeec6 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -247,9 +247,11 @@ inline double RootInInterval_Bisection(
   double fx0 = Eval_Polynomial(x0, a, ndegree_plus1);
   double fx1 = Eval_Polynomial(x1, a, ndegree_plus1);
   assert(fx0 * fx1 <= 0);
+  if (fx1 == 0) { return x1; }  // the right end is the root
   for (int i = 0; i < num_iteration; i++) {
     const double x2 = (x0 + x1) / 2; // bisection method
     const double fx2 = Eval_Polynomial(x2, a, ndegree_plus1);
+    if (fx2 == 0) { return x2; }  // the middle point is the root
     if (fx1 * fx2 < 0) {
       x0 = x1;
       x1 = x2;
-- 
2.43.0


From c3c63ec89366cbba23e8fbcb6aacfab1b0133482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 27/86] fix: CLinPro::Precomp normalizes greater-or-equal rows
 with non-positive right-hand side

---
 include/delfem2/lp.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index e7e30b7..a7e9ae0 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -338,7 +338,14 @@ int delfem2::CLinPro::Precomp(int& nitr)
   }
 //  std::cout << "precomp" << std::endl;
 //  ::Print(A, ncol, nrow, map_col2row);
-  if( nart == 0 ){ nitr=0; return 0; }
+  if( nart == 0 ){
+    nitr=0;
+    for(unsigned int ieq=0;ieq<neq;++ieq){ // the slack variable should be positive in the dictionary
+      if( A[ieq*nrow+map_col2row[ieq]] > 0 ){ continue; }
+      for(unsigned int jrow=0;jrow<nrow;++jrow){ A[ieq*nrow+jrow] = -A[ieq*nrow+jrow]; }
+    }
+    return 0;
+  }
   ////
   A[(ncol-1)*nrow+1] = 1.0;
   for(unsigned int ieq=0;ieq<aEq.size();++ieq){
-- 
2.43.0


From 24f6c4cd1aa97c26a21df5e15714d8b799a34cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:42 +0000
Subject: [PATCH 28/86] fix: CLinPro::Precomp does not report a feasible system
 infeasible when an artificial variable stays in the basis at zero

---
 include/delfem2/lp.cpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index a7e9ae0..33a5de1 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -291,7 +291,7 @@ int delfem2::CLinPro::Precomp(int& nitr)
     if( aEq[ieq].itype == GE && aEq[ieq].rhs > 0  ){ mapEq2Art[ieq] = nart; nart++; }
     if( aEq[ieq].itype == EQ ){ mapEq2Art[ieq] = nart; nart++; }
   }
-  const unsigned int ncol = (neq+1); // neq,trg
+  unsigned int ncol = (neq+1); // neq,trg
   const unsigned int nrow = (1+1+nvar+nslk+nart); // rhs,trg,var,slk,art
 //  std::cout << neq << " " << nvar << " " << nslk << " " << nart << "  " << ncol << " " << nrow << std::endl;
   A.resize(ncol*nrow,0.0);
@@ -375,12 +375,35 @@ int delfem2::CLinPro::Precomp(int& nitr)
 //    std::cout << "no bound in solution" << std::endl;
     return 2;
   }
-  for(unsigned int icol=0;icol<ncol;++icol){
-    unsigned int jrow_dia = map_col2row[icol];
-    if( jrow_dia < 1 || jrow_dia >= 2+nvar+nslk ){
-//      std::cout << "precomputation is not solved: " << jrow_dia << " " << 2+nvar+nslk << std::endl;
-      return 3;
+  if( fabs(A[(ncol-1)*nrow]) >= 1.0e-8 ){ // some artificial variables cannot be zero
+    return 3;
+  }
+  // drive the remaining artificial variables (they are zero) out of the basis
+  for(unsigned int icol=0;icol<neq;++icol){
+    const unsigned int jrow_dia = map_col2row[icol];
+    if( jrow_dia < 2+nvar+nslk ){ continue; }
+    A[icol*nrow] = 0.0; // zero up to the tolerance above
+    unsigned int jrow_piv = UINT_MAX;
+    for(unsigned int jrow=2;jrow<2+nvar+nslk;++jrow){
+      if( fabs(A[icol*nrow+jrow]) < 1.0e-10 ){ continue; }
+      if( jrow_piv == UINT_MAX || fabs(A[icol*nrow+jrow]) > fabs(A[icol*nrow+jrow_piv]) ){ jrow_piv = jrow; }
+    }
+    if( jrow_piv == UINT_MAX ){ // this equation is redundant
+      A.erase(A.begin()+icol*nrow, A.begin()+(icol+1)*nrow);
+      map_col2row.erase(map_col2row.begin()+icol);
+      --neq;
+      --ncol;
+      --icol;
+      continue;
+    }
+    const double vpiv = A[icol*nrow+jrow_piv];
+    for(unsigned int jrow=0;jrow<nrow;++jrow){ A[icol*nrow+jrow] /= vpiv; }
+    for(unsigned int jcol=0;jcol<ncol;++jcol){
+      if( jcol == icol ){ continue; }
+      const double v0 = A[jcol*nrow+jrow_piv];
+      for(unsigned int jrow=0;jrow<nrow;++jrow){ A[jcol*nrow+jrow] -= v0*A[icol*nrow+jrow]; }
     }
+    map_col2row[icol] = jrow_piv;
   }
   assert( fabs(A[(ncol-1)*nrow]) < 1.0e-8 );
 //  std::cout << "  solved" << std::endl;
-- 
2.43.0


From 5c37e85fc36ea09fca91118280d168ac5a07f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 29/86] fix: element assembly takes the diagonal block from the
 matching column when row and column index lists differ

---
 include/delfem2/ls_block_sparse.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index 6ac30b2..1532df3 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -232,7 +232,7 @@ bool Mearge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        const T *pval_in = &emat[(irow * ncol + irow) * blksize];
+        const T *pval_in = &emat[(irow * ncol + jcol) * blksize];
         T *pval_out = &vdia[iblk1 * blksize];
         for (unsigned int i = 0; i < blksize; i++) { pval_out[i] += pval_in[i]; }
       } else {  // Marge Non-Diagonal
@@ -284,7 +284,7 @@ bool Merge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        const T *pval_in = &emat[irow][irow][0][0];
+        const T *pval_in = &emat[irow][jcol][0][0];
         T *pval_out = &vdia[iblk1 * blksize];
         for (unsigned int i = 0; i < blksize; i++) { pval_out[i] += pval_in[i]; }
       } else {  // Marge Non-Diagonal
@@ -335,7 +335,7 @@ bool Merge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        vdia[iblk1] += emat[irow][irow];
+        vdia[iblk1] += emat[irow][jcol];
       } else {  // Marge Non-Diagonal
         if (merge_buffer[jblk1] == UINT_MAX) {
           assert(0);
-- 
2.43.0


From 0b8e534de6475fcde3fe847e8403dc4adfa4e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 30/86] fix: LinearSystemSolver_BlockPentaDiagonal::Merge adds
 every column of a rectangular element block

---
 include/delfem2/ls_pentadiagonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/ls_pentadiagonal.h b/include/delfem2/ls_pentadiagonal.h
index 805b2e5..d677117 100644
--- a/include/delfem2/ls_pentadiagonal.h
+++ b/include/delfem2/ls_pentadiagonal.h
@@ -159,7 +159,7 @@ class LinearSystemSolver_BlockPentaDiagonal {
         double *p = dia.GetValuePointer(aIpRow[irow], aIpCol[icol]);
         assert(p != nullptr);
         for (int i = 0; i < ndimrow; ++i) {
-          for (int j = 0; j < ndimrow; ++j) {
+          for (int j = 0; j < ndimcol; ++j) {
             p[i * ndim_ + j] += emat[irow][icol][i][j];
           }
         }
-- 
2.43.0


From b7272a26723ffe52cb7fde9ff2d6f4a0c4fa1981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 31/86] fix: Initialize_ILUk accepts rows without off-diagonal
 entries

---
 include/delfem2/ls_ilu_block_sparse.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/delfem2/ls_ilu_block_sparse.cpp b/include/delfem2/ls_ilu_block_sparse.cpp
index 21cbb62..abb00b8 100755
--- a/include/delfem2/ls_ilu_block_sparse.cpp
+++ b/include/delfem2/ls_ilu_block_sparse.cpp
@@ -883,6 +883,11 @@ void delfem2::CPreconditionerILU<T>::Initialize_ILUk(
   m_diaInd.resize(nblk);
 
   for (unsigned int iblk = 0; iblk < nblk; ++iblk) {
+    if (m.col_ind_[iblk] == m.col_ind_[iblk + 1]) {  // this row has only the diagonal
+      colInd[iblk + 1] = colInd[iblk];
+      m_diaInd[iblk] = colInd[iblk];
+      continue;
+    }
     std::vector<ilu::CRowLevNext> listNonzero;
     {  // copy row pattern of input matrix into listNonzero
       listNonzero.resize(m.col_ind_[iblk + 1] - m.col_ind_[iblk]);
-- 
2.43.0


From 639680ebde2623b622b4ff55e2e4036d0518fdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 32/86] fix: Distance of two vectors is the Euclidean distance,
 not its square

---
 include/delfem2/vecxitrsol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/vecxitrsol.cpp b/include/delfem2/vecxitrsol.cpp
index e025f0b..f52a462 100755
--- a/include/delfem2/vecxitrsol.cpp
+++ b/include/delfem2/vecxitrsol.cpp
@@ -102,7 +102,7 @@ T delfem2::Distance(
   const size_t n = va.size();
   T r = 0.0;
   for (unsigned i = 0; i < n; i++) { r += (va[i] - vb[i]) * (va[i] - vb[i]); }
-  return r;
+  return std::sqrt(r);
 }
 #ifdef DFM2_STATIC_LIBRARY
 template float delfem2::Distance(
-- 
2.43.0


From 005dfe53f659f87def3323eb1bc8caff10788f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 33/86] fix: master-slave pattern contains the entries written
 by SetMasterSlave

---
 include/delfem2/ls_masterslave.cpp | 91 +++++++-----------------------
 1 file changed, 19 insertions(+), 72 deletions(-)

diff --git a/include/delfem2/ls_masterslave.cpp b/include/delfem2/ls_masterslave.cpp
index 2f69c15..4cd1113 100755
--- a/include/delfem2/ls_masterslave.cpp
+++ b/include/delfem2/ls_masterslave.cpp
@@ -53,87 +53,34 @@ DFM2_INLINE void delfem2::JArray_AddMasterSlavePattern(
   //
   for(unsigned int ino0=0;ino0<nno;++ino0){
     aflg[ino0] = ino0;
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      if( aflg[jno] == ino0 ){ continue; }
+    const size_t iarray0 = array.size();
+    const auto add = [&](unsigned int jno){
+      if( aflg[jno] == ino0 ){ return; }
       aflg[jno] = ino0;
-      index[ino0+1]++;
-    }
-    for(int iino1=0;iino1<(int)mapM2S[ino0].size();++iino1){
-      const int ino1 = mapM2S[ino0][iino1];
-      if( aflg[ino1] != ino0 ){
-        aflg[ino1] = ino0;
-        index[ino0+1]++;
-      }
-      for(unsigned int jcrs=psup_ind0[ino1];jcrs<psup_ind0[ino1+1];++jcrs){
-        const unsigned int jno1 = psup0[jcrs];
-        if( aflg[jno1] == ino0 ){ continue; }
-        aflg[jno1] = ino0;
-        index[ino0+1]++;
-      }
-    }
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
+      array.push_back(jno);
+    };
+    const auto add_master = [&](unsigned int jno){
       for(unsigned int jdim=0;jdim<ndim;++jdim){
-        unsigned int kdof = aMSFlag[jno*ndim+jdim];
+        const unsigned int kdof = aMSFlag[jno*ndim+jdim];
         if( kdof == UINT_MAX ) continue;
-        unsigned int kno = kdof/ndim;
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        index[ino0+1]++;
+        add(kdof/ndim);
       }
-    }
-  }
-  //
-  for(unsigned int ino=0;ino<nno;ino++){ index[ino+1] += index[ino]; }
-  const unsigned int narray = index[nno];
-  array.resize(narray);
-  for(unsigned int ino=0;ino<nno;ino++){ aflg[ino] = -1; }
-  //
-  for(unsigned int ino0=0;ino0<nno;++ino0){
-    aflg[ino0] = ino0;
+    };
     for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      if( aflg[jno] == ino0 ){ continue; }
-      aflg[jno] = ino0;
-      const unsigned int ind = index[ino0];
-      array[ind] = jno;
-      index[ino0]++;
-    }
-    for(std::size_t jjno=0;jjno<mapM2S[ino0].size();++jjno){
-      const int jno = mapM2S[ino0][jjno];
-      if( aflg[jno] != ino0 ){
-        aflg[jno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = jno;
-        index[ino0]++;
-      }
-      for(unsigned int jcrs=psup_ind0[jno];jcrs<psup_ind0[jno+1];++jcrs){
-        const unsigned int kno = psup0[jcrs];
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = kno;
-        index[ino0]++;
-      }
+      add(psup0[icrs]);
     }
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      for(unsigned int jdim=0;jdim<ndim;++jdim){
-        unsigned int kdof = aMSFlag[jno*ndim+jdim];
-        if( kdof == UINT_MAX ) continue;
-        unsigned int kno = kdof/ndim;
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = kno;
-        index[ino0]++;
+    for(const int ino1 : mapM2S[ino0]){  // the row of the slave is added to the row of the master
+      add(ino1);
+      for(unsigned int jcrs=psup_ind0[ino1];jcrs<psup_ind0[ino1+1];++jcrs){
+        add(psup0[jcrs]);
       }
     }
+    // the column of the slave is added to the column of the master
+    const size_t iarray1 = array.size();
+    for(size_t iarray=iarray0;iarray<iarray1;++iarray){ add_master(array[iarray]); }
+    add_master(ino0);
+    index[ino0+1] = static_cast<unsigned int>(array.size());
   }
-  // ---------
-  for(int ino=static_cast<int>(nno);ino>0;--ino){ index[ino] = index[ino-1]; }
-  index[0] = 0;
 }
 
 
-- 
2.43.0


From 6faf0f0a7aa11e1de0a7f19cef681c74a08389fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 34/86] fix: WdWddW_Bend returns the energy whose derivative is
 dW

---
 include/delfem2/fem_quadratic_bending.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_quadratic_bending.cpp b/include/delfem2/fem_quadratic_bending.cpp
index 3cdcc3e..549fd4f 100644
--- a/include/delfem2/fem_quadratic_bending.cpp
+++ b/include/delfem2/fem_quadratic_bending.cpp
@@ -101,7 +101,7 @@ DFM2_INLINE void delfem2::WdWddW_Bend(
           dW[ino][idim] += ddW[ino][jno][idim][jdim] * c[jno][jdim];
         }
       }
-      W += dW[ino][idim] * c[ino][idim];
+      W += 0.5 * dW[ino][idim] * c[ino][idim];
     }
   }
 }
-- 
2.43.0


From 9b91d18151c5f0a32f228390ad66b94eb2a7c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 35/86] fix: MITC3 transverse shear couples rt and st with the
 full constitutive tensor

---
 include/delfem2/fem_mitc3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/fem_mitc3.cpp b/include/delfem2/fem_mitc3.cpp
index 654666c..0fe1fe5 100644
--- a/include/delfem2/fem_mitc3.cpp
+++ b/include/delfem2/fem_mitc3.cpp
@@ -131,8 +131,8 @@ DFM2_INLINE void delfem2::WdWddW_PlateBendingMITC3(
          myu * GuGu2[1] * GuGu2[3]}  // st*st -> ss(1):tt(3)
     };
     const double CnstB[2][2] = {
-        {4.0 * CnstA[0][0], 2.0 * CnstA[0][1]},
-        {2.0 * CnstA[1][0], 4.0 * CnstA[1][1]}};
+        {4.0 * CnstA[0][0], 4.0 * CnstA[0][1]},
+        {4.0 * CnstA[1][0], 4.0 * CnstA[1][1]}};
     const double Ert_01 =
         0.5 * thk * (u[1][0] - u[0][0] + 0.5 * Gd[0][0] * (u[0][2] + u[1][2]) - 0.5 * Gd[0][1] * (u[0][1] + u[1][1]));
     const double Ert_12 =
-- 
2.43.0


From 700e879f8780c19269ecc59394df07dcf247d945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 36/86] fix: MIPS Hessian has symmetric cross terms

---
 include/delfem2/fem_mips.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/fem_mips.cpp b/include/delfem2/fem_mips.cpp
index ac8a7e4..6762928 100644
--- a/include/delfem2/fem_mips.cpp
+++ b/include/delfem2/fem_mips.cpp
@@ -105,15 +105,15 @@ DFM2_INLINE void delfem2::WdWddW_MIPS(
     dE[1][idim]=EC*dEA*dad1[idim]+EA*dECd1[idim];
     dE[2][idim]=EC*dEA*dad2[idim]+EA*dECd2[idim];
   }
-  CMat3d ddEd0d0 = EC*dEA*ddad0d0 + EC*ddEA*op(dad0,dad0) + EA*CMat3d::Identity(t00) + dEA*op(dad0,dECd0)*2.0;
-  CMat3d ddEd0d1 = EC*dEA*ddad0d1 + EC*ddEA*op(dad0,dad1) + EA*CMat3d::Identity(t01) + dEA*op(dad0,dECd1) + dEA*op(dad1,dECd0);
-  CMat3d ddEd0d2 = EC*dEA*ddad0d2 + EC*ddEA*op(dad0,dad2) + EA*CMat3d::Identity(t02) + dEA*op(dad0,dECd2) + dEA*op(dad2,dECd0);
-  CMat3d ddEd1d0 = EC*dEA*ddad1d0 + EC*ddEA*op(dad1,dad0) + EA*CMat3d::Identity(t01) + dEA*op(dad1,dECd0) + dEA*op(dad0,dECd1);
-  CMat3d ddEd1d1 = EC*dEA*ddad1d1 + EC*ddEA*op(dad1,dad1) + EA*CMat3d::Identity(t11) + dEA*op(dad1,dECd1)*2.0;
-  CMat3d ddEd1d2 = EC*dEA*ddad1d2 + EC*ddEA*op(dad1,dad2) + EA*CMat3d::Identity(t12) + dEA*op(dad1,dECd2) + dEA*op(dad2,dECd1);
-  CMat3d ddEd2d0 = EC*dEA*ddad2d0 + EC*ddEA*op(dad2,dad0) + EA*CMat3d::Identity(t02) + dEA*op(dad2,dECd0) + dEA*op(dad0,dECd2);
-  CMat3d ddEd2d1 = EC*dEA*ddad2d1 + EC*ddEA*op(dad2,dad1) + EA*CMat3d::Identity(t12) + dEA*op(dad2,dECd1) + dEA*op(dad1,dECd2);
-  CMat3d ddEd2d2 = EC*dEA*ddad2d2 + EC*ddEA*op(dad2,dad2) + EA*CMat3d::Identity(t22) + dEA*op(dad2,dECd2)*2.0;
+  CMat3d ddEd0d0 = EC*dEA*ddad0d0 + EC*ddEA*op(dad0,dad0) + EA*CMat3d::Identity(t00) + dEA*op(dad0,dECd0) + dEA*op(dECd0,dad0);
+  CMat3d ddEd0d1 = EC*dEA*ddad0d1 + EC*ddEA*op(dad0,dad1) + EA*CMat3d::Identity(t01) + dEA*op(dad0,dECd1) + dEA*op(dECd0,dad1);
+  CMat3d ddEd0d2 = EC*dEA*ddad0d2 + EC*ddEA*op(dad0,dad2) + EA*CMat3d::Identity(t02) + dEA*op(dad0,dECd2) + dEA*op(dECd0,dad2);
+  CMat3d ddEd1d0 = EC*dEA*ddad1d0 + EC*ddEA*op(dad1,dad0) + EA*CMat3d::Identity(t01) + dEA*op(dad1,dECd0) + dEA*op(dECd1,dad0);
+  CMat3d ddEd1d1 = EC*dEA*ddad1d1 + EC*ddEA*op(dad1,dad1) + EA*CMat3d::Identity(t11) + dEA*op(dad1,dECd1) + dEA*op(dECd1,dad1);
+  CMat3d ddEd1d2 = EC*dEA*ddad1d2 + EC*ddEA*op(dad1,dad2) + EA*CMat3d::Identity(t12) + dEA*op(dad1,dECd2) + dEA*op(dECd1,dad2);
+  CMat3d ddEd2d0 = EC*dEA*ddad2d0 + EC*ddEA*op(dad2,dad0) + EA*CMat3d::Identity(t02) + dEA*op(dad2,dECd0) + dEA*op(dECd2,dad0);
+  CMat3d ddEd2d1 = EC*dEA*ddad2d1 + EC*ddEA*op(dad2,dad1) + EA*CMat3d::Identity(t12) + dEA*op(dad2,dECd1) + dEA*op(dECd2,dad1);
+  CMat3d ddEd2d2 = EC*dEA*ddad2d2 + EC*ddEA*op(dad2,dad2) + EA*CMat3d::Identity(t22) + dEA*op(dad2,dECd2) + dEA*op(dECd2,dad2);
   
   for(int idim=0;idim<3;++idim){
     for(int jdim=0;jdim<3;++jdim){
-- 
2.43.0


From 0c46cc8ac3a00378c23cce3c90a3bf87329abfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 37/86] fix: MakePositiveDefinite_Sim22 keeps the positive
 principal direction

---
 include/delfem2/fem_stvk.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/fem_stvk.cpp b/include/delfem2/fem_stvk.cpp
index cc44675..0d1d13c 100644
--- a/include/delfem2/fem_stvk.cpp
+++ b/include/delfem2/fem_stvk.cpp
@@ -243,9 +243,9 @@ DFM2_INLINE void MakePositiveDefinite_Sim22(
     const double invlen_t0 = 1.0/sqrt(sqlen_t0);
     t0[0] *= invlen_t0;
     t0[1] *= invlen_t0;
-    s3[0] = l*t0[0]*t0[0];
-    s3[1] = l*t0[1]*t0[1];
-    s3[2] = l*t0[0]*t0[1];
+    s3[0] = l*t0[1]*t0[1];
+    s3[1] = l*t0[0]*t0[0];
+    s3[2] = -l*t0[0]*t0[1];
   }
   else{
     if( sqlen_t1 < 1.0e-20 ){
@@ -257,9 +257,9 @@ DFM2_INLINE void MakePositiveDefinite_Sim22(
     const double invlen_t1 = 1.0/sqrt(sqlen_t1);
     t1[0] *= invlen_t1;
     t1[1] *= invlen_t1;
-    s3[0] = l*t1[0]*t1[0];
-    s3[1] = l*t1[1]*t1[1];
-    s3[2] = l*t1[0]*t1[1];
+    s3[0] = l*t1[1]*t1[1];
+    s3[1] = l*t1[0]*t1[0];
+    s3[2] = -l*t1[0]*t1[1];
   }
 }
 
-- 
2.43.0


From 2472ad9f2e8615c1d58def774a715af65c1785fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 38/86] fix: PBD_ConstProj_Rigid3D measures the deformation in
 all three coordinates

---
 include/delfem2/pbd_geo3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/pbd_geo3.cpp b/include/delfem2/pbd_geo3.cpp
index 024e347..1e3e3db 100644
--- a/include/delfem2/pbd_geo3.cpp
+++ b/include/delfem2/pbd_geo3.cpp
@@ -133,7 +133,7 @@ DFM2_INLINE void delfem2::PBD_ConstProj_Rigid3D(
     for (int iip = clstr_ind[iclstr]; iip < clstr_ind[iclstr + 1]; iip++) {
       const int ip = clstr[iip];
       const CVec3d dq = CVec3d(aXYZ0[ip * 3 + 0], aXYZ0[ip * 3 + 1], aXYZ0[ip * 3 + 2]) - qc; // undeform
-      const CVec3d dp = CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZ0[ip * 3 + 2]) - pc; // deform
+      const CVec3d dp = CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZt[ip * 3 + 2]) - pc; // deform
       A[0 * 3 + 0] += dp[0] * dq[0];
       A[0 * 3 + 1] += dp[0] * dq[1];
       A[0 * 3 + 2] += dp[0] * dq[2];
-- 
2.43.0


From d31c1f58eaef7b9ba076227932bf2d5ae6eaa888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 39/86] fix: Vec3_SpinVectorFromMat3 returned the y component
 twice

---
 include/delfem2/mat3_funcs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 73f9346..3b33d98 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -710,7 +710,7 @@ std::array<T, 3> delfem2::Vec3_SpinVectorFromMat3(
   return {
       (m[7] - m[5]) * half,
       (m[2] - m[6]) * half,
-      (m[2] - m[6]) * half};
+      (m[3] - m[1]) * half};
 }
 
 template<typename MAT, typename T>
-- 
2.43.0


From 77151d8a916bc3a6e0b84134abaed00a9a68be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 40/86] fix: Mat3_MinimumRotation between opposite directions
 returned Rp^T*Rq instead of Rq*Rp^T

---
 include/delfem2/mat3_funcs.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 3b33d98..f588c70 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -828,9 +828,15 @@ std::array<REAL, 9> delfem2::Mat3_MinimumRotation(
       const VEC eqx = epx - eq.dot(epx) * eq; // vector orthogonal to eq
       const VEC eqy = eq.cross(eqx);
       return {
-          eqx.dot(epx), eqy.dot(epx), eq.dot(epx),
-          eqx.dot(epy), eqy.dot(epy), eq.dot(epy),
-          eqx.dot(ep), eqy.dot(ep), eq.dot(ep)};
+          eqx.x * epx.x + eqy.x * epy.x + eq.x * ep.x,
+          eqx.x * epx.y + eqy.x * epy.y + eq.x * ep.y,
+          eqx.x * epx.z + eqy.x * epy.z + eq.x * ep.z,
+          eqx.y * epx.x + eqy.y * epy.x + eq.y * ep.x,
+          eqx.y * epx.y + eqy.y * epy.y + eq.y * ep.y,
+          eqx.y * epx.z + eqy.y * epy.z + eq.y * ep.z,
+          eqx.z * epx.x + eqy.z * epy.x + eq.z * ep.x,
+          eqx.z * epx.y + eqy.z * epy.y + eq.z * ep.y,
+          eqx.z * epx.z + eqy.z * epy.z + eq.z * ep.z};
       /*
       const CMat3<REAL> Rp = Mat3_3Bases(epx, epy, ep);
       const CMat3<REAL> Rq = Mat3_3Bases(eqx, eqy, eq);
-- 
2.43.0


From 54a002e9701db04295bec19419fbb89f1fff9c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 41/86] fix: RotationalComponentOfMatrix2 returned zero for
 matrices with orthogonal columns in decreasing length

---
 include/delfem2/mat2.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/mat2.cpp b/include/delfem2/mat2.cpp
index 331017a..d263242 100644
--- a/include/delfem2/mat2.cpp
+++ b/include/delfem2/mat2.cpp
@@ -135,12 +135,16 @@ DFM2_INLINE void delfem2::RotationalComponentOfMatrix2(
       d = sqrt(d);
       l0 = 0.5 * (b + d);
       l1 = 0.5 * (b - d);
-      v0[0] = G[1];
-      v0[1] = G[3] - l1;
-      if (lcl::SquareLength2(v0) > eps) { lcl::Normalize2(v0); }
-      v1[0] = G[0] - l0;
-      v1[1] = G[2];
-      if (lcl::SquareLength2(v1) > eps) { lcl::Normalize2(v1); }
+      if (G[0] > G[3]) {  // choose the column that does not vanish
+        v0[0] = G[0] - l1;
+        v0[1] = G[2];
+      } else {
+        v0[0] = G[1];
+        v0[1] = G[3] - l1;
+      }
+      lcl::Normalize2(v0);
+      v1[0] = -v0[1];
+      v1[1] = +v0[0];
     }
   }
   double V[4] = {v0[0], v1[0], v0[1], v1[1]};
-- 
2.43.0


From d9842f2995f6814bc398864ca18600cbacdff916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 42/86] fix: Length_QuadraticCurve returned NaN for straight
 curves that stop or turn back

---
 include/delfem2/geo_curve_quadratic.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/geo_curve_quadratic.h b/include/delfem2/geo_curve_quadratic.h
index 3b4b2b4..244ce86 100644
--- a/include/delfem2/geo_curve_quadratic.h
+++ b/include/delfem2/geo_curve_quadratic.h
@@ -76,7 +76,8 @@ double Length_QuadraticCurve(
     const double tmp0 = (coe[1] + 2 * coe[2] * t) * std::sqrt(coe[0] + t * (coe[1] + coe[2] * t));
     const double tmp3 = sqrt(coe[2]);
     const double tmp1 = coe[1] + 2 * coe[2] * t + 2 * tmp3 * sqrt(coe[0] + t * (coe[1] + coe[2] * t));
-    const double tmp2 = (coe[1] * coe[1] - 4 * coe[0] * coe[2]) * std::log(tmp1);
+    // tmp1 is zero only if the curve is straight, then the coefficient of the log is zero too
+    const double tmp2 = (tmp1 > 0.) ? (coe[1] * coe[1] - 4 * coe[0] * coe[2]) * std::log(tmp1) : 0.;
     return tmp0 / (4. * coe[2]) - tmp2 / (8. * coe[2] * tmp3);
   };
   return intt(1) - intt(0);
-- 
2.43.0


From 1a542269684175513587cc067c2fb4a71fa41f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 43/86] fix: Volume_Wedge passed a corner twice for one of the
 side faces

---
 include/delfem2/geosolidelm_v3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geosolidelm_v3.cpp b/include/delfem2/geosolidelm_v3.cpp
index b940348..c040dca 100644
--- a/include/delfem2/geosolidelm_v3.cpp
+++ b/include/delfem2/geosolidelm_v3.cpp
@@ -324,7 +324,7 @@ double delfem2::Volume_Wedge(
   double vm435 = Volume_Tet(pm, p4, p3, p5);
   double vp0143 = Volume_Pyramid(p0, p1, p4, p3, pm);
   double vp1254 = Volume_Pyramid(p1, p2, p5, p4, pm);
-  double vp2035 = Volume_Pyramid(p2, p2, p3, p5, pm);
+  double vp2035 = Volume_Pyramid(p2, p0, p3, p5, pm);
   return vm012 + vm435 + vp0143 + vp1254 + vp2035;
 }
 
-- 
2.43.0


From c9d0efc8017c911cc0937a7e3dbab205e783a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 44/86] fix: solid angle of a triangle was wrong when it covers
 more than a half space

---
 include/delfem2/geo_tri.cpp | 3 +--
 include/delfem2/mshmisc.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 847dd56..d017032 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -413,8 +413,7 @@ T delfem2::SolidAngleTri(
   const T l3 = v3.norm();
   const T den = (v1.cross(v2)).dot(v3);
   const T num = l1 * l2 * l3 + (v1.dot(v2)) * l3 + (v2.dot(v3)) * l1 + (v3.dot(v1)) * l2;
-  const T tho = den / num;
-  T v = std::atan(tho);
+  T v = std::atan2(den, num);
   if (v < 0) { v += 2 * M_PI; }
   v *= 2;
   return v;
diff --git a/include/delfem2/mshmisc.cpp b/include/delfem2/mshmisc.cpp
index 100c30a..bab2282 100644
--- a/include/delfem2/mshmisc.cpp
+++ b/include/delfem2/mshmisc.cpp
@@ -517,8 +517,7 @@ DFM2_INLINE double delfem2::SolidAngleTri3D(
       + (mshmisc::Dot3(v1, v2)) * l3
       + (mshmisc::Dot3(v2, v3)) * l1
       + (mshmisc::Dot3(v3, v1)) * l2;
-  double tho = den / num;
-  double v = atan(tho);
+  double v = atan2(den, num);
   if (v < 0) { v += 2 * M_PI; }
   v *= 2;
   return v;
-- 
2.43.0


From 6638cb2f0934f7ac27b5420fed8138be1661cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 45/86] fix: SecondMomentOfArea_Polygon left the principal
 moments unset for isotropic polygons

---
 include/delfem2/geo_polygon2.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index eeb9b5f..5d3f07a 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -225,6 +225,7 @@ void delfem2::SecondMomentOfArea_Polygon(
   if (fabs(Ix - Iy) + fabs(Ixy) < 1.0e-20) {
     pa1 = CVec2<T>(1, 0);
     pa2 = CVec2<T>(0, 1);
+    I1 = I2 = 0.5 * (Ix + Iy);
     return;
   }
   double phi = 0.5 * atan2(-2 * Ixy, Ix - Iy);
-- 
2.43.0


From 08163abfbafc836f64ada7bf50553fd57fa04327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 46/86] fix: UnifySeparateIndexing_PosTex aborted on texture
 vertices shared by two positions and kept stale outputs

---
 include/delfem2/msh_topology_uniform.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/msh_topology_uniform.cpp b/include/delfem2/msh_topology_uniform.cpp
index fa7a8f0..457282e 100644
--- a/include/delfem2/msh_topology_uniform.cpp
+++ b/include/delfem2/msh_topology_uniform.cpp
@@ -520,7 +520,9 @@ void delfem2::UnifySeparateIndexing_PosTex(
   std::vector<unsigned int> elsup1_ind, elsup1;
   JArray_ElSuP_MeshTri(
       elsup1_ind, elsup1, elem_vtx_tex, vtx_tex.size()/2);
-  tri_uni.resize(elem_vtx_xyz.size(),UINT_MAX);
+  tri_uni.assign(elem_vtx_xyz.size(),UINT_MAX);
+  uni_xyz.clear();
+  uni_tex.clear();
   for(unsigned int itri=0;itri<elem_vtx_xyz.size()/3;++itri){
     for(unsigned int ino=0;ino<3;++ino){
       if( tri_uni[itri*3+ino] != UINT_MAX ) { continue; }
@@ -540,7 +542,7 @@ void delfem2::UnifySeparateIndexing_PosTex(
       for(unsigned jtri : tris){
         const unsigned int jno = FindIndexTri(elem_vtx_xyz.data()+jtri*3, ixyz);
         assert( elem_vtx_xyz[jtri*3+jno] == ixyz );
-        assert( elem_vtx_tex[jtri*3+jno] == itex );
+        if( elem_vtx_tex[jtri*3+jno] != itex ){ continue; } // itex is at another corner
         assert( tri_uni[jtri*3+jno] == UINT_MAX );
         tri_uni[jtri*3+jno] = iuni;
       }
-- 
2.43.0


From 34551394fad00397555a74092a0b39769d289a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 47/86] fix: CCylinder::IntersectionPoint intersected a sphere
 instead of the cylinder

---
 include/delfem2/msh_primitive.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/msh_primitive.cpp b/include/delfem2/msh_primitive.cpp
index 7e33eda..46ccf99 100644
--- a/include/delfem2/msh_primitive.cpp
+++ b/include/delfem2/msh_primitive.cpp
@@ -880,9 +880,16 @@ template<typename REAL>
 bool delfem2::CCylinder<REAL>::IntersectionPoint(
     double p[3],
     const double o[3], const double d[3]) const {
-  const double q[3] = {o[0] - cent_[0], o[1] - cent_[1], o[2] - cent_[2]};
-  const double a = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
-  const double b = q[0] * d[0] + q[1] * d[1] + q[2] * d[2];
+  // components perpendicular to the axis of the cylinder
+  const double dd = dir_[0] * dir_[0] + dir_[1] * dir_[1] + dir_[2] * dir_[2];
+  const double q0[3] = {o[0] - cent_[0], o[1] - cent_[1], o[2] - cent_[2]};
+  const double rq = (q0[0] * dir_[0] + q0[1] * dir_[1] + q0[2] * dir_[2]) / dd;
+  const double rd = (d[0] * dir_[0] + d[1] * dir_[1] + d[2] * dir_[2]) / dd;
+  const double q[3] = {q0[0] - rq * dir_[0], q0[1] - rq * dir_[1], q0[2] - rq * dir_[2]};
+  const double e[3] = {d[0] - rd * dir_[0], d[1] - rd * dir_[1], d[2] - rd * dir_[2]};
+  const double a = e[0] * e[0] + e[1] * e[1] + e[2] * e[2];
+  if (a == 0) return false;  // parallel to the axis
+  const double b = q[0] * e[0] + q[1] * e[1] + q[2] * e[2];
   const double c = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] - radius_ * radius_;
   const double det = b * b - a * c;
   if (det < 0) return false;
-- 
2.43.0


From 4117a3767c1cffd58713f594f05ee57caa01aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 48/86] fix: CTorus::Projection returned a wrong depth and no
 normal on the axis

---
 include/delfem2/msh_primitive.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/msh_primitive.cpp b/include/delfem2/msh_primitive.cpp
index 46ccf99..973fc6e 100644
--- a/include/delfem2/msh_primitive.cpp
+++ b/include/delfem2/msh_primitive.cpp
@@ -914,13 +914,16 @@ double delfem2::CTorus<REAL>::Projection(
 //	dir[1] -= t*norm_[1];
   dir[2] -= t;
   const double len = sqrt(dir[0] * dir[0] + dir[1] * dir[1] + dir[2] * dir[2]);
-  if (len < 1.0e-20) {    // vertical to the center of torus
-    return radius_tube_ - radius_;
+  if (len < 1.0e-20) {    // on the axis: all the points on the ring are equally close
+    dir[0] = 1.0;
+    dir[1] = 0.0;
+    dir[2] = 0.0;
+  } else {
+    const double invlen = 1.0 / len;
+    dir[0] *= invlen;
+    dir[1] *= invlen;
+    dir[2] *= invlen;
   }
-  const double invlen = 1.0 / len;
-  dir[0] *= invlen;
-  dir[1] *= invlen;
-  dir[2] *= invlen;
   double p[3];
   p[0] = cent_[0] + radius_ * dir[0];
   p[1] = cent_[1] + radius_ * dir[1];
-- 
2.43.0


From 3369ec8524f66d7e7b6ecd021cfefbc0f6f7ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 49/86] fix: CBox::Projection returned a normal facing inward

---
 include/delfem2/msh_primitive.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/msh_primitive.h b/include/delfem2/msh_primitive.h
index 596dc82..daff918 100644
--- a/include/delfem2/msh_primitive.h
+++ b/include/delfem2/msh_primitive.h
@@ -273,9 +273,9 @@ class CBox : public CSDF3 {
       z3 = z2;
     }
     {
-      n[0] = x - x3;
-      n[1] = y - y3;
-      n[2] = z - z3;
+      n[0] = x3 - x;
+      n[1] = y3 - y;
+      n[2] = z3 - z;
       double tmp = 1.0 / sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
       n[0] *= tmp;
       n[1] *= tmp;
-- 
2.43.0


From bba1f5a98e75db2576a5bda06e66d747eb7239bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 50/86] fix: Slice_MeshTri3D_Heights walked off the contour
 when a level passes through a vertex

---
 include/delfem2/slice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/slice.cpp b/include/delfem2/slice.cpp
index 11f1188..e06bff9 100644
--- a/include/delfem2/slice.cpp
+++ b/include/delfem2/slice.cpp
@@ -33,7 +33,7 @@ DFM2_INLINE void IndexElement_OverlapLevels_MeshTri3D(
     for(unsigned int ih=0;ih<nH;ih++){
       unsigned int icnt = 0;
       for(double inotri : ah){
-        if( inotri-aH[ih] > 0 ){ icnt++; }
+        if( inotri-aH[ih] >= 0 ){ icnt++; } // same rule as CSegInfo::Initialize
       }
       if( icnt == 1 || icnt == 2 ){
         aCST[ih].push_back(itri);
-- 
2.43.0


From 37ce5e5c4ea0782998b87cc8fcc572a02cad0598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 51/86] fix: MakeReebGraph read out of bounds on meshes with
 boundary

---
 include/delfem2/slice.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/delfem2/slice.h b/include/delfem2/slice.h
index 2ea7d66..461ec7c 100644
--- a/include/delfem2/slice.h
+++ b/include/delfem2/slice.h
@@ -10,6 +10,7 @@
 #define DFM2_SLICE_H
 
 #include <stdio.h>
+#include <climits>
 #include <set>
 #include <stack>
 #include <vector>
@@ -114,6 +115,7 @@ void MakeReebGraph
       unsigned int itri0 = cs0.IndTri_Seg(iseg);
       for(unsigned int iedtri=0;iedtri<3;iedtri++){
         unsigned int jtri0 = aTriSuTri[itri0*3+iedtri];
+        if( jtri0 == UINT_MAX ){ continue; } // boundary
         if( Tri2HCS[jtri0] == -1 ){ continue; }
         unsigned int jhcs = Tri2HCS[jtri0];
         const T& cs1 = aCrossSection[jhcs];
@@ -140,6 +142,7 @@ void MakeReebGraph
       Tri2HCS[jtri0] = -2;
       for(unsigned int jedtri=0;jedtri<3;jedtri++){
         unsigned int ktri0 = aTriSuTri[jtri0*3+jedtri];
+        if( ktri0 == UINT_MAX ){ continue; } // boundary
         if(      Tri2HCS[ktri0] == -2 ) continue; // already studied
         else if( Tri2HCS[ktri0] == -1 ){ stackTri.push(ktri0); }
         else{
-- 
2.43.0


From c15ee014e143c6aed0d28db646a92ac85b517b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 52/86] fix: AABB_CubeGrid used the x range for the upper
 bounds of y and z

---
 include/delfem2/gridcube.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/gridcube.cpp b/include/delfem2/gridcube.cpp
index 044379f..d0f0035 100644
--- a/include/delfem2/gridcube.cpp
+++ b/include/delfem2/gridcube.cpp
@@ -150,8 +150,8 @@ void delfem2::AABB_CubeGrid
     return;
   }
   aabb[0] = aCube[0].ivx;  aabb[1] = aabb[0]+1;
-  aabb[2] = aCube[0].ivy;  aabb[3] = aabb[0]+1;
-  aabb[4] = aCube[0].ivz;  aabb[5] = aabb[0]+1;
+  aabb[2] = aCube[0].ivy;  aabb[3] = aabb[2]+1;
+  aabb[4] = aCube[0].ivz;  aabb[5] = aabb[4]+1;
   
   for(std::size_t ic=1;ic<aCube.size();++ic){
     if( aCube[ic].ivx+0 < aabb[0] ){ aabb[0] = aCube[ic].ivx+0; }
-- 
2.43.0


From b1ecc0d4bd15c225f45e1e10c2ab3cc9abb25a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 53/86] fix: Intersection_VoxelGrid_LinSeg failed for
 axis-aligned and diagonal segments and ends on grid planes

---
 include/delfem2/gridvoxel.cpp | 30 +++++++++++++-----------------
 include/delfem2/gridvoxel.h   |  1 -
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/include/delfem2/gridvoxel.cpp b/include/delfem2/gridvoxel.cpp
index 9da9dd4..ae1561c 100644
--- a/include/delfem2/gridvoxel.cpp
+++ b/include/delfem2/gridvoxel.cpp
@@ -7,6 +7,7 @@
 
 #include "delfem2/gridvoxel.h"
 
+#include <limits>
 #include <queue>
 
 #include "delfem2/vec3.h"
@@ -420,13 +421,15 @@ int signum(double x) {
   return x > 0.0 ? 1 : x < 0.0 ? -1 : 0;
 }
 
-// Find the smallest positive t such that s+t*ds is an integer.
+// Find the smallest t such that s+t*ds leaves the cell floor(s).
+// Very large value if it never leaves
 double intbound(double s, double ds) {
   if (ds < 0) {
-    return intbound(-s, -ds);
-  } else {
-    return (ceil(s) - s) / ds;
+    return (floor(s) - s) / ds;
+  } else if (ds > 0) {
+    return (floor(s) + 1 - s) / ds;
   }
+  return std::numeric_limits<double>::max();
 }
 
 }
@@ -435,7 +438,6 @@ double intbound(double s, double ds) {
 /**
  * @details this is the implementation of the following paper
  * Amanatides, John, and Andrew Woo. "A fast voxel traversal algorithm for ray tracing." In Eurographics, vol. 87, no. 3, pp. 3-10. 1987.
- * TODO: zero division might occur when (ps - pe ) is aligned to axis.
  */
 void delfem2::Intersection_VoxelGrid_LinSeg(
     std::vector<unsigned int> &aIndVox,
@@ -467,18 +469,12 @@ void delfem2::Intersection_VoxelGrid_LinSeg(
   const int stepX = dfm2::gridvoxel::signum(dx);
   const int stepY = dfm2::gridvoxel::signum(dy);
   const int stepZ = dfm2::gridvoxel::signum(dz);
-  const double tDeltaX = stepX / dx;
-  assert(tDeltaX > 0);
-  const double tDeltaY = stepY / dy;
-  assert(tDeltaY > 0);
-  const double tDeltaZ = stepZ / dz;
-  assert(tDeltaZ > 0);
+  const double tDeltaX = (stepX == 0) ? 0. : stepX / dx;
+  const double tDeltaY = (stepY == 0) ? 0. : stepY / dy;
+  const double tDeltaZ = (stepZ == 0) ? 0. : stepZ / dz;
   double tMaxX = dfm2::gridvoxel::intbound(Ps.x, dx);
-  assert(tMaxX > 0);
   double tMaxY = dfm2::gridvoxel::intbound(Ps.y, dy);
-  assert(tMaxY > 0);
   double tMaxZ = dfm2::gridvoxel::intbound(Ps.z, dz);
-  assert(tMaxZ > 0);
   aIndVox.clear();
   for (int itr = 0; itr < 1000; ++itr) {
     if (ic[0] >= 0 && ic[1] >= 0 && ic[2] >= 0 &&
@@ -486,13 +482,13 @@ void delfem2::Intersection_VoxelGrid_LinSeg(
       aIndVox.push_back(ic[2] * ny * nx + ic[1] * nx + ic[0]);
     }
     if (ic[0] == ie[0] && ic[1] == ie[1] && ic[2] == ie[2]) { break; }
-    if (tMaxX < tMaxY && tMaxX < tMaxZ) {
+    if (tMaxX <= tMaxY && tMaxX <= tMaxZ) {
       tMaxX = tMaxX + tDeltaX;
       ic[0] += stepX;
-    } else if (tMaxY < tMaxX && tMaxY < tMaxZ) {
+    } else if (tMaxY <= tMaxZ) {
       tMaxY = tMaxY + tDeltaY;
       ic[1] += stepY;
-    } else if (tMaxZ < tMaxX && tMaxZ < tMaxY) {
+    } else {
       tMaxZ = tMaxZ + tDeltaZ;
       ic[2] += stepZ;
     }
diff --git a/include/delfem2/gridvoxel.h b/include/delfem2/gridvoxel.h
index 9b22b3d..8229709 100644
--- a/include/delfem2/gridvoxel.h
+++ b/include/delfem2/gridvoxel.h
@@ -105,7 +105,6 @@ void VoxelGeodesic(
 /**
  * @details this is the implementation of the following paper
  * Amanatides, John, and Andrew Woo. "A fast voxel traversal algorithm for ray tracing." In Eurographics, vol. 87, no. 3, pp. 3-10. 1987.
- * TODO: zero division might occur when (ps - pe ) is aligned to axis.
  */
 void Intersection_VoxelGrid_LinSeg(
     std::vector<unsigned int> &aIndVox,
-- 
2.43.0


From 615c135c72d80f6d920db904e0db04f4dde168aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 54/86] fix: BinaryClustering dropped every pair whose score
 equals that of another pair

---
 include/delfem2/clusterpoints.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/clusterpoints.cpp b/include/delfem2/clusterpoints.cpp
index 17ae3eb..f0c3155 100644
--- a/include/delfem2/clusterpoints.cpp
+++ b/include/delfem2/clusterpoints.cpp
@@ -80,7 +80,7 @@ DFM2_INLINE void delfem2::BinaryClustering_Points3d(
   const auto np0 = static_cast<unsigned int>(aXYZ0.size()/3);
   assert( aArea0.size() == np0 );
   assert( aNorm0.size() == np0*3 );
-  std::set<clusterpoints::CData> aData;
+  std::multiset<clusterpoints::CData> aData; // different pairs can have the same score
   for (unsigned int ip0 = 0; ip0 < np0; ++ip0) {
     for (unsigned int ipsup0 = psup_ind0[ip0]; ipsup0 < psup_ind0[ip0 + 1]; ++ipsup0) {
       const unsigned int jp0 = psup0[ipsup0];
@@ -163,7 +163,7 @@ delfem2::BinaryClustering_Points2d(
 {
   for(unsigned int ip=0;ip<np0;++ip){ map01[ip] = UINT_MAX; }
   namespace cp = clusterpoints;
-  std::set<clusterpoints::CData> aData;
+  std::multiset<clusterpoints::CData> aData; // different pairs can have the same score
   for (unsigned int ip0 = 0; ip0 < np0; ++ip0) {
     for (unsigned int ipsup0 = psup_ind0[ip0]; ipsup0 < psup_ind0[ip0 + 1]; ++ipsup0) {
       const unsigned int jp0 = psup0[ipsup0];
-- 
2.43.0


From 9913ce9d2b595129bfb64f7be1d1a00a77cd9886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 55/86] fix: DijkstraPoint_MeshTri3D left a wrong distance at
 the source

---
 include/delfem2/dijkstra.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/dijkstra.h b/include/delfem2/dijkstra.h
index 342501a..eb8bb06 100644
--- a/include/delfem2/dijkstra.h
+++ b/include/delfem2/dijkstra.h
@@ -276,6 +276,7 @@ void DijkstraPoint_MeshTri3D(
   const size_t np = aXYZ.size()/3;
   aOrder.assign(np,UINT_MAX);
   aDist.assign(np,-1.);
+  aDist[ip_ker] = 0.;
   std::priority_queue<dijkstra::CNode<double>> que;
   unsigned int icnt = 0;
   que.push(dijkstra::CNode<double>(ip_ker, 0.0));
-- 
2.43.0


From b1c62b2e93d8c48c9e0e1989807b074273ef1459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 56/86] fix: Split_Parentheses and Split_Quote mis-handled a
 trailing delimiter; Get_Parentheses with identical brackets

---
 include/delfem2/str.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index 6a2ccd5..38ea39c 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -117,9 +117,6 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Parentheses(
   unsigned int is=0;
   int ilevel = 0;
   for(unsigned int ie=0;ie<str.size();++ie){
-    if( ie == str.size()-1 ){
-      aToken.emplace_back(str.data()+is,str.data()+ie+1 );
-    }
     if( str[ie] == cs ){ ilevel++; }
     if( str[ie] == ce ){ ilevel--; }
     if( str[ie] == delimiter && ilevel == 0 ){
@@ -127,6 +124,9 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Parentheses(
       is = ie+1;
     }
   }
+  if( !str.empty() ){ // the last token
+    aToken.emplace_back(str.data()+is,str.data()+str.size() );
+  }
   return aToken;
 }
 
@@ -139,9 +139,6 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Quote(
   unsigned int is=0;
   bool is_in = false;
   for(unsigned int ie=0;ie<str.size();++ie){
-    if( ie == str.size()-1 ){
-      aToken.emplace_back(str.data()+is,str.data()+ie+1 );
-    }
     if( str[ie] == quote ){ is_in = !is_in; }
     if( str[ie] == delimiter && !is_in ){
       if( str[is] != delimiter ) { // skip the sequence of the delimiter
@@ -150,6 +147,9 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Quote(
       is = ie+1;
     }
   }
+  if( is < str.size() ){ // the last token
+    aToken.emplace_back(str.data()+is,str.data()+str.size() );
+  }
   return aToken;
 }
 
@@ -260,7 +260,7 @@ DFM2_INLINE std::string delfem2::Get_Parentheses(
   }
   //
   if( iss == -1 ){ return std::string(); }
-  for(int i=int(n-1);i>=iss;--i){
+  for(int i=int(n-1);i>iss;--i){
     if( str[i] == ce ){
       std::string ss(str.begin()+iss+1,str.begin()+i);
       return ss;
-- 
2.43.0


From 3248c5b1d9a77f6dafe2bb27c30253d7bc64f91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 57/86] fix: RemoveBeginning kept the whole string when every
 character is removable

---
 include/delfem2/str.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index 38ea39c..e466998 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -206,7 +206,7 @@ DFM2_INLINE std::string delfem2::RemoveBeginning(
   const size_t n = str.size();
   const size_t ndel = del.size();
   //
-  int istat = 0;
+  size_t istat = n;
   for(unsigned int i=0;i<n;++i){
     bool is_del = false;
     for(unsigned int idel=0;idel<ndel;++idel){
-- 
2.43.0


From 2034da8da64c76a5c8c525c51622ed023263f3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 58/86] fix: ParseAttributes dropped attributes whose value
 contains '='

---
 include/delfem2/str.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index e466998..7c8a08b 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -409,10 +409,10 @@ DFM2_INLINE void delfem2::ParseAttributes
   }
    */
   for(const auto & is : aS){
-    std::vector<std::string> aS1 = Split(is, '=');
-    if( aS1.size() != 2 ) continue;
-    std::string s1 = Remove_Quote(aS1[1], '\"');
-    mapAttr.insert( std::make_pair(aS1[0],s1) );
+    const std::size_t ieq = is.find('='); // the value may contain '='
+    if( ieq == std::string::npos || ieq == 0 || ieq+1 == is.size() ) continue;
+    std::string s1 = Remove_Quote(is.substr(ieq+1), '\"');
+    mapAttr.insert( std::make_pair(is.substr(0,ieq),s1) );
   }
 }
 
-- 
2.43.0


From b0ef5bcf69ad2120284d413c9cce604b38bd5551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 59/86] fix: math expressions: - and / associate to the left, a
 leading sign is accepted

---
 include/delfem2/parse_math_expression.cpp | 56 +++++++++++------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index 531fc4d..9ce1fb2 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -184,6 +184,10 @@ DFM2_INLINE void RemoveExpressionBracket(std::string &exp) {
   RemoveExpressionBracket(exp);
 }
 
+static bool IsOperator(char c) {
+  return c == '+' || c == '-' || c == '*' || c == '/' || c == '^';
+}
+
 /**
  * 引数expの中のもっとも優先順位の低いオペレターを検索する。
  * itypeはオペレターの種類
@@ -228,33 +232,31 @@ int GetLowestPriorityOperator(
     int itype_curr = -1;
     int iopr_curr = -1;
     switch (exp[ipos_curr]) {
-      case '+':ibegin = ipos_curr;
-        iend = ipos_curr + 1;
-        if (ipos_curr == 0) { // sign operator
+      case '+':if (ipos_curr == 0) { // sign operator
           ipriority_curr = 5;
           itype_curr = 2;
           iopr_curr = 0;
           break;
-        } else if (exp[ipos_curr - 1] != '*' && exp[ipos_curr - 1] != '/' && exp[ipos_curr - 1] != '^') {
-          iopr = 0;
-          itype = 3;
-          return 0;  // binary operator
+        } else if (!IsOperator(exp[ipos_curr - 1])) { // binary operator
+          ipriority_curr = 2;
+          itype_curr = 3;
+          iopr_curr = 0;
+          break;
         }
         continue;
-      case '-':ibegin = ipos_curr;
-        iend = ipos_curr + 1;
-        if (ipos_curr == 0) { // sign operator
+      case '-':if (ipos_curr == 0) { // sign operator
           ipriority_curr = 5;
           itype_curr = 2;
           iopr_curr = 1;
           break;
-        } else if (exp[ipos_curr - 1] != '*' && exp[ipos_curr - 1] != '/' && exp[ipos_curr - 1] != '^') {
-          iopr = 1;
-          itype = 3;
-          return 0;  // binary operator
+        } else if (!IsOperator(exp[ipos_curr - 1])) { // binary operator
+          ipriority_curr = 2;
+          itype_curr = 3;
+          iopr_curr = 1;
+          break;
         }
         continue;
-      case '*':ipriority_curr = 3;
+      case '*':ipriority_curr = 4;
         itype_curr = 3;
         iopr_curr = 2;
         break;
@@ -272,7 +274,10 @@ int GetLowestPriorityOperator(
         }
         break;
     }
-    if (ipriority_curr < ipriority_min) {
+    // the operators + - * / are left-associative: the last one splits the expression
+    const bool is_left_associative = (itype_curr == 3 && iopr_curr != 4);
+    if (ipriority_curr < ipriority_min ||
+        (is_left_associative && ipriority_curr == ipriority_min)) {
       ipos_min = ipos_curr;
       ipriority_min = ipriority_curr;
       itype_min = itype_curr;
@@ -284,28 +289,19 @@ int GetLowestPriorityOperator(
     std::cerr << "Error!-->Not corresponding bracket" << std::endl;
     return 2;
   }
-  if ((ipos_min == 0 || ipos_min == exp.size() - 1) && itype_min == 3) {
-    std::cerr << "Error!-->Binary operator misplaced " << std::endl;
+  if (((ipos_min == 0 || ipos_min == exp.size() - 1) && itype_min == 3) ||
+      (itype_min == 2 && exp.size() == 1)) {
+    std::cerr << "Error!-->Operator misplaced " << std::endl;
     return 9;
   }
   if (iFirstBracket == 0 && ipos_min == UINT_MAX) {
     std::cerr << "Error!-->(hoge)foo" << std::endl;
     return 3;
   }
-  // binary operator(+とか-)
+  // binary operator(+とか-) or sign operator( -hoge )
   if (ipos_min != UINT_MAX) {
 //    std::cout << ipos_min << " " << itype_min << std::endl;
-    assert(itype_min == 3);
-    assert(iopr_min != -1);
-    ibegin = ipos_min;
-    iend = ipos_min + 1;
-    itype = itype_min;
-    iopr = iopr_min;
-    return 0;
-  }
-  // sign operator( -hoge )
-  if (ipos_min == 0) {   // this looks always false
-    assert(itype_min == 2);
+    assert(itype_min == 3 || itype_min == 2);
     assert(iopr_min != -1);
     ibegin = ipos_min;
     iend = ipos_min + 1;
-- 
2.43.0


From 7e1b9178b9521c441f5709f91705dacbd7a8983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 60/86] fix: math expressions: number was dropped when errno
 was already set to ERANGE

---
 include/delfem2/parse_math_expression.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index 9ce1fb2..9df96fc 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -434,6 +434,7 @@ bool MakeCmdAry(
     const SExpCompo &compo = exp_node_vec[iexp];
     if (compo.iOpeType == 0) { // numeric
       char *e;
+      errno = 0;
       double val = strtod(compo.sOpe.c_str(), &e);
       if (errno != ERANGE) {
         cmd_vec[iexp] = new COperand(val);
-- 
2.43.0


From aff4d1ae9d6250ff568de9d5909f99cf5f73871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 61/86] fix: Write_WavefrontObj shifted the group names by one
 with respect to the reader

---
 include/delfem2/msh_io_obj.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index f387f97..21f564f 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -229,8 +229,8 @@ DFM2_INLINE void delfem2::Write_WavefrontObj(
     fout << vtx_nrm[ip * 3 + 2] << std::endl;
   }
   for (size_t ig = 0; ig < group_elem_index.size() - 1; ++ig) {
-    if (ig-1 < group_names.size() && ig != 0) {
-      fout << "g " << group_names[ig-1] << std::endl;
+    if (ig < group_names.size() && ig != 0) { // the group 0 is the one before the first "g"
+      fout << "g " << group_names[ig] << std::endl;
     }
     for (size_t itri = group_elem_index[ig]; itri < group_elem_index[ig + 1]; itri++) {
       assert(itri<tri_vtx_xyz.size()/3);
-- 
2.43.0


From a074ef9ee346e8de52f82fd75b45046343a571b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 62/86] fix: obj and mtl readers stopped at the first line
 longer than 255 characters

---
 include/delfem2/msh_io_obj.cpp | 60 +++++++++++++++-------------------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index 21f564f..62d9b8a 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -32,7 +32,7 @@ DFM2_INLINE void ParseVtxObj_(
   int icnt = 0;
   unsigned int aloc[3];
   for (unsigned int i = 0; i < n; ++i) {
-    if (str[i] != '/') { continue; }
+    if (str[i] != '/' || icnt == 3) { continue; }
     str[i] = '\0';
     aloc[icnt] = i;
     icnt++;
@@ -266,12 +266,11 @@ DFM2_INLINE void delfem2::Read_Obj(
   tri_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   tri_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
+      std::string str;
       double x, y, z;
       {
         std::istringstream is(buff);
@@ -283,7 +282,7 @@ DFM2_INLINE void delfem2::Read_Obj(
       vtx_xyz.push_back(z);
     }
     if (buff[0] == 'f') {
-      char str[256];
+      std::string str;
       int i0, i1, i2;
       {
         std::istringstream is(buff);
@@ -311,12 +310,11 @@ DFM2_INLINE void delfem2::Read_Obj_MeshQuad3(
   quad_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   quad_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
+      std::string str;
       double x, y, z;
       std::istringstream is(buff);
       is >> str >> x >> y >> z;
@@ -326,7 +324,7 @@ DFM2_INLINE void delfem2::Read_Obj_MeshQuad3(
       vtx_xyz.push_back(z);
     }
     if (buff[0] == 'f') {
-      char str[256];
+      std::string str;
       int i0, i1, i2, i3;
       std::istringstream is(buff);
       is >> str >> i0 >> i1 >> i2 >> i3;
@@ -353,12 +351,11 @@ DFM2_INLINE void delfem2::Read_Obj2(
   aTri.clear();
   aXYZ.reserve(256 * 16);
   aTri.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
+      std::string str;
       double x, y, z;
       std::istringstream is(buff);
       is >> str >> x >> y >> z;
@@ -368,15 +365,13 @@ DFM2_INLINE void delfem2::Read_Obj2(
       aXYZ.push_back(z);
     }
     if (buff[0] == 'f') {
-      char str[256], str0[256], str1[256], str2[256];
+      std::string str, str0, str1, str2;
       {
         std::istringstream is(buff);
         is >> str >> str0 >> str1 >> str2;
 //        sscanf(buff, "%s %s %s %s", str, str0, str1, str2);
       }
-      for (unsigned int i = 0; i < strlen(str0); ++i) { if (str0[i] == '/') { str0[i] = '\0'; }}
-      for (unsigned int i = 0; i < strlen(str1); ++i) { if (str1[i] == '/') { str1[i] = '\0'; }}
-      for (unsigned int i = 0; i < strlen(str2); ++i) { if (str2[i] == '/') { str2[i] = '\0'; }}
+      // the texture and normal indices after "/" are ignored by stoi
       const int i0 = std::stoi(str0);
       const int i1 = std::stoi(str1);
       const int i2 = std::stoi(str2);
@@ -405,12 +400,11 @@ void delfem2::Read_Obj3(
   tri_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   tri_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
+      std::string str;
       REAL x, y, z;
       std::istringstream is(buff);
       is >> str >> x >> y >> z;
@@ -508,11 +502,10 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
   group_elem_index.clear();
   group_elem_index.push_back(0);
   //
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
+  std::string buff;
   fname_mtl.clear();
   std::string current_material_name;
-  while (fin.getline(buff, BUFF_SIZE)) {
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'm') {
       std::stringstream ss(buff);
@@ -522,7 +515,7 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
       continue;
     }
     if (buff[0] == 'v') {
-      char str[256];
+      std::string str;
       T x, y, z;
       std::istringstream is(buff);
       if (buff[1] == ' ') { // vertex
@@ -575,11 +568,10 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
         }
       }
       for (const auto &str0: vec_str) {
-        char buff1[256];
-        std::strncpy(buff1, str0.c_str(), str0.size());
-        buff1[str0.size()] = '\0';
+        std::vector<char> buff1(str0.begin(), str0.end());
+        buff1.push_back('\0');
         int ip0, it0, in0;
-        msh_ioobj::ParseVtxObj_(ip0, it0, in0, buff1);
+        msh_ioobj::ParseVtxObj_(ip0, it0, in0, buff1.data());
         elem_vtx_xyz.push_back(ip0);
         elem_vtx_tex.push_back(it0);
         elem_vtx_nrm.push_back(in0);
@@ -627,9 +619,8 @@ void delfem2::Read_WavefrontMaterial(
     return;
   }
   materials.clear();
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == '\n') { continue; }
     std::stringstream ss(buff);
@@ -641,6 +632,7 @@ void delfem2::Read_WavefrontMaterial(
       ss >> str1;
       materials[imtl0].name_mtl = str1;
     }
+    if (materials.empty()) { continue; }
     const int imtl0 = static_cast<int>(materials.size()) - 1;
     if (str0 == "Kd") {
       ss >> str1 >> str2 >> str3;
-- 
2.43.0


From f19c77438111b69d2c47fbb79af8d161306628f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 63/86] fix: ply readers failed on header lines longer than 255
 characters

---
 include/delfem2/msh_io_ply.cpp | 38 ++++++++++++++++------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/include/delfem2/msh_io_ply.cpp b/include/delfem2/msh_io_ply.cpp
index 61d0225..fbd1c34 100644
--- a/include/delfem2/msh_io_ply.cpp
+++ b/include/delfem2/msh_io_ply.cpp
@@ -25,14 +25,13 @@ DFM2_INLINE void delfem2::Read_Ply(
     std::cout << "Fail Read Fail" << std::endl;
     return;
   }
-  const unsigned int nbuff = 256;
-  char buff[nbuff], buff1[nbuff], buff2[nbuff];
+  std::string buff, buff1, buff2;
   std::string str1, str2;
-  fin.getline(buff, nbuff);  // ply
-  fin.getline(buff, nbuff);  // format asi 1.0
+  std::getline(fin, buff);  // ply
+  std::getline(fin, buff);  // format asi 1.0
   for (;;) {
-    fin.getline(buff, nbuff);
-    if (strncmp(buff, "comment ", 8) != 0) { break; }
+    std::getline(fin, buff);
+    if (buff.compare(0, 8, "comment ") != 0) { break; }
   }
   // ----
   int nno;
@@ -43,8 +42,8 @@ DFM2_INLINE void delfem2::Read_Ply(
   }
   // ----
   for (;;) {
-    fin.getline(buff, nbuff);
-    if (strncmp(buff, "property ", 9) != 0) { break; }
+    std::getline(fin, buff);
+    if (buff.compare(0, 9, "property ") != 0) { break; }
   }
   int ntri;
   {
@@ -54,8 +53,8 @@ DFM2_INLINE void delfem2::Read_Ply(
   }
   aTri.resize(ntri * 3);
   // ----
-  fin.getline(buff, nbuff);  // property list int int vertex_indices
-  fin.getline(buff, nbuff);  // end header
+  std::getline(fin, buff);  // property list int int vertex_indices
+  std::getline(fin, buff);  // end header
   // ----
   aXYZ.resize(nno * 3);
   for (int ino = 0; ino < nno; ++ino) {
@@ -152,16 +151,15 @@ DFM2_INLINE void delfem2::Read_Ply(
     std::cout << "Fail Read Fail" << std::endl;
     return;
   }
-  const unsigned int nbuff = 256;
-  char buff[nbuff];
+  std::string buff;
   //  char buff1[nbuff], buff2[nbuff];
   std::string sbuff1, sbuff2;
   std::string str1, str2;
-  fin.getline(buff, nbuff);  // ply
-  fin.getline(buff, nbuff);  // format asi 1.0
+  std::getline(fin, buff);  // ply
+  std::getline(fin, buff);  // format asi 1.0
   for (;;) {
-    fin.getline(buff, nbuff);
-    if (strncmp(buff, "comment ", 8) != 0) { break; }
+    std::getline(fin, buff);
+    if (buff.compare(0, 8, "comment ") != 0) { break; }
   }
   /////
   { // read number of points
@@ -172,8 +170,8 @@ DFM2_INLINE void delfem2::Read_Ply(
   }
   ////
   for (;;) {
-    fin.getline(buff, nbuff);
-    if (strncmp(buff, "property ", 9) != 0) { break; }
+    std::getline(fin, buff);
+    if (buff.compare(0, 9, "property ") != 0) { break; }
   }
   { // read number of triangles
     //    sscanf(buff, "%s %s %d", buff1, buff2, &ntri_);
@@ -182,8 +180,8 @@ DFM2_INLINE void delfem2::Read_Ply(
     std::cout << "NTri " << ntri_ << std::endl;
   }
   /////
-  fin.getline(buff, nbuff);  // property list int int vertex_indices
-  fin.getline(buff, nbuff);  // end header
+  std::getline(fin, buff);  // property list int int vertex_indices
+  std::getline(fin, buff);  // end header
   ////
   pXYZs_ = new double[nnode_ * 3];
   for (int ino = 0; ino < (int) nnode_; ++ino) {
-- 
2.43.0


From c30edb9c70496a045873c7e0c903afaff51572a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 64/86] fix: Read_MeshTri3D_Nas hung on long lines and lost the
 last line when it has no newline

---
 include/delfem2/msh_io_misc.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/msh_io_misc.cpp b/include/delfem2/msh_io_misc.cpp
index 5014ea9..9b614b9 100644
--- a/include/delfem2/msh_io_misc.cpp
+++ b/include/delfem2/msh_io_misc.cpp
@@ -660,12 +660,10 @@ DFM2_INLINE void delfem2::Read_MeshTri3D_Nas(
   }
   // -----
   std::vector<int> map01;
-  const int nbuff = 256;
-  std::vector<char> buff(nbuff);
+  std::string buff;
   char buff1[16], buff2[16], buff3[16], buff4[16], buff5[16];
-  while (true) {
-    fin.getline(buff.data(), nbuff);
-    if (fin.eof()) { break; } // eof
+  while (std::getline(fin, buff)) {
+    if (buff.size() < 48) { buff.resize(48, '\0'); } // six columns of eight characters
     if (buff[0] == 'G' && buff[1] == 'R' && buff[2] == 'I' && buff[3] == 'D') {
       for (int i = 0; i < 8; ++i) { buff1[i] = buff[i + 8]; }
       buff1[8] = '\0';
@@ -705,7 +703,7 @@ DFM2_INLINE void delfem2::Read_MeshTri3D_Nas(
       continue;
     }
   }
-  int np1 = map01[0];
+  int np1 = -1;
   for (int ip1 : map01) {
     np1 = (ip1 > np1) ? ip1 : np1;
   }
@@ -713,11 +711,12 @@ DFM2_INLINE void delfem2::Read_MeshTri3D_Nas(
   std::vector<unsigned int> map10(np1, UINT_MAX);
   for (unsigned int ip0 = 0; ip0 < map01.size(); ++ip0) {
     unsigned int ip1 = map01[ip0];
+    if (ip1 >= map10.size()) { continue; }
     map10[ip1] = ip0;
   }
   for (unsigned int &i : aTri) {
     unsigned int j1 = i;
-    i = map10[j1];
+    i = (j1 < map10.size()) ? map10[j1] : UINT_MAX;
   }
 }
 
-- 
2.43.0


From 0bd5cd8b9189b9512c95bccc958f55cb35477fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 65/86] fix: npy reader overflowed its header buffer and went
 on after a failed header

---
 include/delfem2/filenpy_str.cpp | 42 +++++++++++++--------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/include/delfem2/filenpy_str.cpp b/include/delfem2/filenpy_str.cpp
index c882ecf..eabc3e3 100644
--- a/include/delfem2/filenpy_str.cpp
+++ b/include/delfem2/filenpy_str.cpp
@@ -47,12 +47,12 @@ DFM2_INLINE bool LoadNumpy(
   ndim0 = 0;
   ndim1 = 0;
   { // format
-    char buff[256];
+    std::vector<char> buff(npy.header_len);
 //    size_t n1 = fread(buff, 1, npy.header_len, fp);
 //    if( n1 != npy.header_len ){ return false; }
-    fp.read(buff,npy.header_len);
+    fp.read(buff.data(),npy.header_len);
     if( fp.fail() ){ return false; }
-    std::map<std::string, std::string> map0 = ReadDictionary_Python(std::string(buff));
+    std::map<std::string, std::string> map0 = ReadDictionary_Python(std::string(buff.begin(),buff.end()));
     std::string str_shape = map0["'shape'"];
     str_shape = Get_Parentheses(str_shape,"()");
     std::vector<std::string> aToken = Split(str_shape,',');
@@ -88,24 +88,14 @@ DFM2_INLINE delfem2::ReadDictionary_Python(
   std::string skey;
   for(unsigned int i=0;i<n;++i){
     if( buff[i] == ':' ){
-      char str[256];
-//      strncpy(str, pbuff+iend,i-iend);
-      for(unsigned int j=0;j<i-iend;++j){ str[j] = pbuff[iend+j]; }
-      str[i-iend] = '\0';
-      //      std::cout << "key:" << str << "#" << std::endl;
-      skey = std::string(str);
+      if( static_cast<int>(i) < iend ){ return map0; }
+      skey = std::string(pbuff+iend,pbuff+i);
       //      if( buff[i+1] == ' ' ){ i+=1; }
       icolon = i;
     }
     if( buff[i] == ','){
-      assert( icolon != -1 );
-      if( is_parentheses ){ continue; }
-      char str[256];
-//      strncpy(str, pbuff+icolon+1,i-icolon-1);
-      for(unsigned int j=0;j<i-icolon-1;++j){ str[j] = pbuff[icolon+1+j]; }
-      str[i-icolon-1] = '\0';
-      //      std::cout << "val:" << str << "#" << std::endl;
-      std::string svalue(str);
+      if( is_parentheses || icolon == -1 ){ continue; }
+      std::string svalue(pbuff+icolon+1,pbuff+i);
       map0.insert( std::make_pair(skey,svalue) );
       //      if( buff[i+1] == ' ' ){ i+=1; }
       iend = i+1;
@@ -133,12 +123,13 @@ DFM2_INLINE bool delfem2::LoadNumpy_2Dim(
 //  FILE* fp = fopen(path.c_str(),"rb");
   std::ifstream fin(path,std::ios::in | std::ios::binary);
   if( fin.fail() ) { return false; }
-  funcs::LoadNumpy(ndim0, ndim1, fin);
-  int size = ndim0*ndim1;
+  if( !funcs::LoadNumpy(ndim0, ndim1, fin) ){ return false; }
+  if( ndim0 < 0 || ndim1 < 0 ){ return false; }
+  const size_t size = static_cast<size_t>(ndim0)*ndim1;
   aData.resize(size);
 //  size_t n0 = fread(&aData[0], sizeof(float), size, fp);
 //  return (int) n0 == size;
-  fin.read( (char*)&aData[0], sizeof(REAL)*size );
+  fin.read( (char*)aData.data(), sizeof(REAL)*size );
   return !fin.fail();
 }
 #ifdef DFM2_STATIC_LIBRARY
@@ -178,13 +169,13 @@ DFM2_INLINE bool delfem2::LoadNumpy_1DimF(
   
   ndim0 = 0;
   { // format
-    char buff[256];
+    std::vector<char> buff(npy.header_len);
 //    size_t n1 = fread(buff, 1, npy.header_len, fp);
 //    if( n1 != npy.header_len ){ return false; }
-    fin.read(buff,npy.header_len);
+    fin.read(buff.data(),npy.header_len);
     if(fin.fail()){ return false; }
     //    std::cout << buff << "###" << strlen(buff) << std::endl;
-    std::map<std::string, std::string> map0 = ReadDictionary_Python(std::string(buff));
+    std::map<std::string, std::string> map0 = ReadDictionary_Python(std::string(buff.begin(),buff.end()));
     //    for(std::map<std::string, std::string>::iterator itr=map0.begin();itr!=map0.end();++itr){
     //      std::cout << itr->first << " --> " << itr->second << std::endl;
     //    }
@@ -197,11 +188,12 @@ DFM2_INLINE bool delfem2::LoadNumpy_1DimF(
   //    std::cout << ndim0 << " " << ndim1 << std::endl;
   
   //////
-  unsigned int size = ndim0;
+  if( ndim0 < 0 ){ return false; }
+  const size_t size = ndim0;
   aData.resize(size);
   //  double* aRes = (double*)malloc( sizeof(double)*size );
 //  size_t n2 = fread(&aData[0], sizeof(float), size, fp);
 //  return n2 == size;
-  fin.read( (char*)&aData[0], sizeof(float)*size );
+  fin.read( (char*)aData.data(), sizeof(float)*size );
   return !fin.fail();
 }
-- 
2.43.0


From bd9da9c642e7977b6fd4767f6354d6883aaa9271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 66/86] fix: parallel_for ran nothing when
 hardware_concurrency() is not computable (zero)

---
 include/delfem2/thread.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/thread.h b/include/delfem2/thread.h
index 74e2bbf..0e2bdc9 100644
--- a/include/delfem2/thread.h
+++ b/include/delfem2/thread.h
@@ -8,6 +8,8 @@
 #ifndef DFM2_THREAD_H
 #define DFM2_THREAD_H
 
+#include <algorithm>
+#include <atomic>
 #include <functional>
 #include <future>
 #include <mutex>
@@ -25,8 +27,9 @@ inline void parallel_for(
     [[maybe_unused]] unsigned int target_concurrency = 0) {
   auto futures = std::vector<std::future<void>>{};
 
+  // "hardware_concurrency()" is zero if it is not computable
   const unsigned int nthreads = (target_concurrency == 0) ?
-                                std::thread::hardware_concurrency() : target_concurrency;
+                                std::max(1u, std::thread::hardware_concurrency()) : target_concurrency;
   std::atomic<T> next_idx(0);
   std::atomic<bool> has_error(false);
   for (auto thread_id = 0; thread_id < (int) nthreads; thread_id++) {
@@ -55,8 +58,9 @@ inline void parallel_for(
     Func &&func,
     unsigned int target_concurrency = 0) {
   auto futures = std::vector<std::future<void>>{};
+  // "hardware_concurrency()" is zero if it is not computable
   const unsigned int nthreads = (target_concurrency == 0) ?
-                                std::thread::hardware_concurrency() : target_concurrency;
+                                std::max(1u, std::thread::hardware_concurrency()) : target_concurrency;
   std::atomic<T> next_idx(0);
   std::atomic<bool> has_error(false);
   for (auto thread_id = 0; thread_id < (int) nthreads; thread_id++) {
-- 
2.43.0


From 6796feb53095c64d410ae3f18e22bfda85575e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:02 +0000
Subject: [PATCH 67/86] fix: SparsifyMatrixRow left stale entries in the unused
 slots

---
 include/delfem2/rig_geo3.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/rig_geo3.cpp b/include/delfem2/rig_geo3.cpp
index c9cef85..0ca8dbb 100644
--- a/include/delfem2/rig_geo3.cpp
+++ b/include/delfem2/rig_geo3.cpp
@@ -89,8 +89,9 @@ void delfem2::SparsifyMatrixRow(
     }
     if (icnt > nbone_nonzeroweight) { nbone_nonzeroweight = icnt; }
   }
-  aWBone_RigSparse.resize(nbone_nonzeroweight * nrow);
-  aIdBone_RigSparse.resize(nbone_nonzeroweight * nrow);
+  // unused slots have zero weight
+  aWBone_RigSparse.assign(nbone_nonzeroweight * nrow, 0.0);
+  aIdBone_RigSparse.assign(nbone_nonzeroweight * nrow, 0);
   for (unsigned int ip = 0; ip < nrow; ++ip) {
     unsigned icnt = 0;
     double w_sum = 0.0;
-- 
2.43.0


From 0fbedb26dc31551672e77711b08b0310d186479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:02 +0000
Subject: [PATCH 68/86] fix: BVH reader crashed on blank lines

---
 include/delfem2/rig_bvh.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/rig_bvh.cpp b/include/delfem2/rig_bvh.cpp
index 893f1a5..64ee53b 100644
--- a/include/delfem2/rig_bvh.cpp
+++ b/include/delfem2/rig_bvh.cpp
@@ -107,11 +107,11 @@ DFM2_INLINE void delfem2::Read_BioVisionHierarchy(
   std::string line;
   std::vector<int> stackIndBone;
   while (std::getline(fin, line)) {
-    if (line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
-    if (line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line.back() == '\r') { line.pop_back(); } // remove the newline code
     bvh_header += (line + '\n');
     line = rig_bvh::MyReplace(line, '\t', ' ');
     std::vector<std::string> aToken = rig_bvh::MySplit(line, ' ');
+    if (aToken.empty()) { continue; } // blank line
 //    std::cout << aToken[0] << std::endl;
     if (aToken[0] == "HIERARCHY") {
       assert(bones.empty());
@@ -200,8 +200,7 @@ DFM2_INLINE void delfem2::Read_BioVisionHierarchy(
   for (unsigned int iframe = 0; iframe < nframe; ++iframe) {
     std::getline(fin, line);
     line = rig_bvh::MyReplace(line, '\t', ' ');
-    if (line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
-    if (line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line.back() == '\r') { line.pop_back(); } // remove the newline code
     std::vector<std::string> aToken = rig_bvh::MySplit(line, ' ');
 //    std::cout << aToken.size() << " " << aChannelRotTransBone.size() << std::endl;
     assert(aToken.size() == channels.size());
-- 
2.43.0


From 36093f32d944bfa77f7cf156a15d7c1a35a12b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 69/86] fix: Nearest_LineSeg_LineSeg_CCD_Iteration multiplied
 two terms of its Hessian

---
 include/delfem2/geo_ccd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_ccd.cpp b/include/delfem2/geo_ccd.cpp
index b6c8009..518f403 100644
--- a/include/delfem2/geo_ccd.cpp
+++ b/include/delfem2/geo_ccd.cpp
@@ -163,7 +163,7 @@ DFM2_INLINE double delfem2::Nearest_LineSeg_LineSeg_CCD_Iteration(
     double R[3] = {v0.dot(ds), v0.dot(dt), v0.dot(du)};
     double A[9] = {
       ds.dot(ds), ds.dot(dt), ds.dot(du) + v0.dot(dsu),
-      dt.dot(ds), dt.dot(dt), dt.dot(du) * v0.dot(dtu),
+      dt.dot(ds), dt.dot(dt), dt.dot(du) + v0.dot(dtu),
       du.dot(ds) + v0.dot(dsu), du.dot(dt) + v0.dot(dtu), du.dot(du)};
     {
       double eps = (A[0] + A[4] + A[8]) * 1.0e-10 + 1.0e-20;
-- 
2.43.0


From 69afadf3f3c4d97b03b4624e02767d5d2e7656cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 70/86] fix: FindCoplanerInterp missed a touching contact of a
 quadratic motion

---
 include/delfem2/geo_ccd.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/delfem2/geo_ccd.cpp b/include/delfem2/geo_ccd.cpp
index 518f403..b989bd0 100644
--- a/include/delfem2/geo_ccd.cpp
+++ b/include/delfem2/geo_ccd.cpp
@@ -255,6 +255,10 @@ bool delfem2::FindCoplanerInterp(
     const double r2 = -k1 / (2 * k2); // extreme valuse
     if (r2 > 0 && r2 < 1) {
       const double f2 = lcl::EvaluateCubic(r2, k0, k1, k2, k3);
+      if (f2 == 0) {
+        r = r2;
+        return true;
+      }
       if (f0 * f2 < 0) {
         r = lcl::FindRootCubic_Bisect(r0, r2, f0, f2, k0, k1, k2, k3);
         return true;
-- 
2.43.0


From 6e6759f60a44b3c700dc7b7fdd6f4e235c4b41dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 71/86] fix: ApplyRigidImpactZone computed the inertia from
 velocities

---
 include/delfem2/cloth_selfcollision.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/cloth_selfcollision.cpp b/include/delfem2/cloth_selfcollision.cpp
index a2d4a6c..44f3fce 100755
--- a/include/delfem2/cloth_selfcollision.cpp
+++ b/include/delfem2/cloth_selfcollision.cpp
@@ -332,9 +332,9 @@ void ApplyRigidImpactZone
       dfm2::CVec3d v(aUVWm0[ino*3+0],aUVWm0[ino*3+1],aUVWm0[ino*3+2]);
       L += Cross(p-gc,v-av);
       dfm2::CVec3d q = p-gc;
-      I[0] += v.dot(v) - q[0]*q[0];  I[1] +=          - q[0]*q[1];  I[2] +=          - q[0]*q[2];
-      I[3] +=          - q[1]*q[0];  I[4] += v.dot(v) - q[1]*q[1];  I[5] +=          - q[1]*q[2];
-      I[6] +=          - q[2]*q[0];  I[7] +=          - q[2]*q[1];  I[8] += v.dot(v) - q[2]*q[2];
+      I[0] += q.dot(q) - q[0]*q[0];  I[1] +=          - q[0]*q[1];  I[2] +=          - q[0]*q[2];
+      I[3] +=          - q[1]*q[0];  I[4] += q.dot(q) - q[1]*q[1];  I[5] +=          - q[1]*q[2];
+      I[6] +=          - q[2]*q[0];  I[7] +=          - q[2]*q[1];  I[8] += q.dot(q) - q[2]*q[2];
     }
     // 角速度を求める
     double Iinv[9];
-- 
2.43.0


From f14147c03a1f4c8db8886e9a2050a1edcb1968c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 72/86] fix: SelfCollisionImpulse_CCD ignored the time step
 when locating the contact

---
 include/delfem2/cloth_selfcollision.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/cloth_selfcollision.cpp b/include/delfem2/cloth_selfcollision.cpp
index 44f3fce..371a67d 100755
--- a/include/delfem2/cloth_selfcollision.cpp
+++ b/include/delfem2/cloth_selfcollision.cpp
@@ -144,17 +144,17 @@ void SelfCollisionImpulse_CCD(
     {
       bool res = FindCoplanerInterp(
           t,
-          p0,p1,p2,p3, p0+v0,p1+v1,p2+v2,p3+v3);
+          p0,p1,p2,p3, p0+dt*v0,p1+dt*v1,p2+dt*v2,p3+dt*v3);
       if( !res ) continue;
       assert( t >= 0 && t <= 1 );
     }
     if( ce.is_fv ){ // face-vtx
       double w0,w1;
       {        
-        dfm2::CVec3d p0m = p0 + t*v0;
-        dfm2::CVec3d p1m = p1 + t*v1;
-        dfm2::CVec3d p2m = p2 + t*v2;
-        dfm2::CVec3d p3m = p3 + t*v3;
+        dfm2::CVec3d p0m = p0 + (t*dt)*v0;
+        dfm2::CVec3d p1m = p1 + (t*dt)*v1;
+        dfm2::CVec3d p2m = p2 + (t*dt)*v2;
+        dfm2::CVec3d p3m = p3 + (t*dt)*v3;
         double dist = DistanceFaceVertex(p0m, p1m, p2m, p3m, w0,w1);
         if( w0 < 0 || w0 > 1 ) continue;
         if( w1 < 0 || w1 > 1 ) continue;
@@ -185,10 +185,10 @@ void SelfCollisionImpulse_CCD(
     else{ // edge-edge
       double w01,w23;
       {
-        dfm2::CVec3d p0m = p0 + t*v0;
-        dfm2::CVec3d p1m = p1 + t*v1;
-        dfm2::CVec3d p2m = p2 + t*v2;
-        dfm2::CVec3d p3m = p3 + t*v3;
+        dfm2::CVec3d p0m = p0 + (t*dt)*v0;
+        dfm2::CVec3d p1m = p1 + (t*dt)*v1;
+        dfm2::CVec3d p2m = p2 + (t*dt)*v2;
+        dfm2::CVec3d p3m = p3 + (t*dt)*v3;
         double dist = Distance_Edge3_Edge3(p0m, p1m, p2m, p3m, w01, w23);
         if( w01 < 0 || w01 > 1 ) continue;
         if( w23 < 0 || w23 > 1 ) continue;
-- 
2.43.0


From f027ec4ae6ecde7512a20a552972e7f1bcfcb4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 73/86] fix: IsContact_FV_Proximity missed vertices farther
 than half of the clearance

---
 include/delfem2/srch_selfintersection_bvh.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/srch_selfintersection_bvh.h b/include/delfem2/srch_selfintersection_bvh.h
index 9517eb8..8625d74 100644
--- a/include/delfem2/srch_selfintersection_bvh.h
+++ b/include/delfem2/srch_selfintersection_bvh.h
@@ -140,7 +140,11 @@ bool delfem2::IsContact_FV_Proximity
  const double delta)
 {
   if( ino3 == ino0 || ino3 == ino1 || ino3 == ino2 ){ return false; }
-  if( !bb.isInclude_Point(p3.x,p3.y,p3.z) ) return false;
+  { // the leaf box has half of the margin, the other half is for the point
+    BBOX bbp;
+    bbp.AddPoint(p3.data(), delta*0.5);
+    if( !bb.IsIntersect(bbp) ) return false;
+  }
   double height = fabs( Height_Tet(p0,p1,p2,p3) );
   if( height > delta ) return false;
   double w0,w1;
-- 
2.43.0


From 3bbd8c7425390f7610dd6f0ab8b3b7c009f66dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 74/86] fix: FindCoplanerInterp missed roots by cancellation
 when the cubic term is round-off only

---
 include/delfem2/geo_ccd.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/geo_ccd.cpp b/include/delfem2/geo_ccd.cpp
index b989bd0..193d8d6 100644
--- a/include/delfem2/geo_ccd.cpp
+++ b/include/delfem2/geo_ccd.cpp
@@ -224,7 +224,11 @@ bool delfem2::FindCoplanerInterp(
     const double det = k2 * k2 - 3 * k1 * k3; // if det > 0, the cubic function takes extreme value
     if (det < 0) { return false; } // monotonus function
     //
-    const double r3 = (-k2 - sqrt(det)) / (3 * k3); // smaller extreme value
+    // the two extreme points without cancellation, even if k3 is almost zero
+    const double q0 = (k2 > 0) ? -k2 - sqrt(det) : -k2 + sqrt(det);
+    const double ra = q0 / (3 * k3);
+    const double rb = (q0 != 0) ? k1 / q0 : ra;
+    const double r3 = (ra < rb) ? ra : rb; // smaller extreme value
     if (r3 > 0 && r3 < 1) {
       const double f3 = lcl::EvaluateCubic(r3, k0, k1, k2, k3);
       if (f3 == 0) {
@@ -236,7 +240,7 @@ bool delfem2::FindCoplanerInterp(
         return true;
       }
     }
-    const double r4 = (-k2 + sqrt(det)) / (3 * k3); // larger extreme value
+    const double r4 = (ra < rb) ? rb : ra; // larger extreme value
     if (r4 > 0 && r4 < 1) {
       const double f4 = lcl::EvaluateCubic(r4, k0, k1, k2, k3);
       if (f4 == 0) {
-- 
2.43.0


From 12b75e478ccae4a85732e6a723a35473197c095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:22 +0000
Subject: [PATCH 75/86] fix: SearchGrid::PostProcess read past the end of its
 object list

---
 include/delfem2/srchgrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/srchgrid.h b/include/delfem2/srchgrid.h
index 497809b..81a974f 100644
--- a/include/delfem2/srchgrid.h
+++ b/include/delfem2/srchgrid.h
@@ -97,7 +97,7 @@ public:
     {
       unsigned int i0 = 0;
       for (unsigned int ig = 0; ig < ng; ++ig) {
-        while (aGrid2Obj[i0].igrid <= ig && i0 < aGrid2Obj.size()) { i0++; }
+        while (i0 < aGrid2Obj.size() && aGrid2Obj[i0].igrid <= ig) { i0++; }
         aGrid2Obj_ind[ig + 1] = i0;
       }
     }
-- 
2.43.0


From 3f6ebd7c349b619be7d87211b168fef5c0361bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 76/86] fix: GetCenterWidthGroup read the wrong vertices for
 elements that are not triangles

---
 include/delfem2/msh_boundingbox.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_boundingbox.cpp b/include/delfem2/msh_boundingbox.cpp
index 5bf6096..8b51501 100644
--- a/include/delfem2/msh_boundingbox.cpp
+++ b/include/delfem2/msh_boundingbox.cpp
@@ -448,7 +448,7 @@ void delfem2::GetCenterWidthGroup(
   for (unsigned int ielem = 0; ielem < nelem; ielem++) {
     if (elm_groupidx[ielem] != igroup) { continue; }
     for (unsigned int inotri = 0; inotri < nnoel; inotri++) {
-      const unsigned int ip = elm_vtx[ielem * 3 + inotri];
+      const unsigned int ip = elm_vtx[ielem * nnoel + inotri];
       if (is_ini) {
         x_min = x_max = vtx_xyz[ip * 3 + 0];
         y_min = y_max = vtx_xyz[ip * 3 + 1];
-- 
2.43.0


From 4bedfbdf7031f13c40f7594afaa52439b1c62254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 77/86] fix: TangentVector_Points3 multiplied by the length
 instead of normalizing

---
 include/delfem2/msh_affine_transformation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_affine_transformation.cpp b/include/delfem2/msh_affine_transformation.cpp
index c2a8ec7..e13f195 100644
--- a/include/delfem2/msh_affine_transformation.cpp
+++ b/include/delfem2/msh_affine_transformation.cpp
@@ -372,7 +372,7 @@ void delfem2::TangentVector_Points3(
         o0[0] - on * n[0],
         o0[1] - on * n[1],
         o0[2] - on * n[2]};
-    const double leninv = points::Length3(o1);
+    const double leninv = 1 / points::Length3(o1);
     aOdir[ip * 3 + 0] = o1[0] * leninv;
     aOdir[ip * 3 + 1] = o1[1] * leninv;
     aOdir[ip * 3 + 2] = o1[2] * leninv;
-- 
2.43.0


From af7b4039f8824cea303ca4bb2ed5b45aeb587155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:49 +0000
Subject: [PATCH 78/86] fix: Nearst_Origin3_Quad3 never computed the candidate
 position inside the quad

---
 include/delfem2/geo_quad.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_quad.cpp b/include/delfem2/geo_quad.cpp
index b2af965..0f4f51a 100644
--- a/include/delfem2/geo_quad.cpp
+++ b/include/delfem2/geo_quad.cpp
@@ -43,7 +43,6 @@ DFM2_INLINE delfem2::CVec3<T> delfem2::Nearst_Origin3_Quad3(
       t0 = 0.5;
       t1 = 0.5;
     }
-    CVec3<T> q;
     for (int itr = 0; itr < 4; ++itr) {
       CVec3<T> pq = (1 - t0) * (1 - t1) * q0 + t0 * (1 - t1) * q1 + t0 * t1 * q2 + (1 - t0) * t1 * q3;
       CVec3<T> dqt0 = -(1 - t1) * q0 + (1 - t1) * q1 + t1 * q2 - t1 * q3;
@@ -64,6 +63,7 @@ DFM2_INLINE delfem2::CVec3<T> delfem2::Nearst_Origin3_Quad3(
       t0 += d0;
       t1 += d1;
     }
+    const CVec3<T> q = (1 - t0) * (1 - t1) * q0 + t0 * (1 - t1) * q1 + t0 * t1 * q2 + (1 - t0) * t1 * q3;
     double tol = 1.0e-4;
     if (t0 > -tol && t0 < 1.0 + tol && t1 > -tol && t1 < 1.0 + tol) {
       double d0 = q.norm();
-- 
2.43.0


From 363100e9b22881fac3d735926976c284ed59d5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:49 +0000
Subject: [PATCH 79/86] fix: surface samplers failed when the drawn value is
 zero or on the border of a triangle

---
 include/delfem2/sampler_trimesh.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/sampler_trimesh.h b/include/delfem2/sampler_trimesh.h
index b7bcfba..6238eab 100644
--- a/include/delfem2/sampler_trimesh.h
+++ b/include/delfem2/sampler_trimesh.h
@@ -40,14 +40,14 @@ class RandomSamplingOnMeshTri3 {
     double a0 = val01 * cumulative_area_sum[ntri];
     unsigned int itri_l = 0, itri_u = ntri;
     for (;;) {
-      assert(cumulative_area_sum[itri_l] < a0);
+      assert(cumulative_area_sum[itri_l] <= a0);
       assert(a0 < cumulative_area_sum[itri_u]);
       unsigned int itri_h = (itri_u + itri_l) / 2;
       if (itri_u - itri_l == 1) { break; }
-      if (cumulative_area_sum[itri_h] < a0) { itri_l = itri_h; }
+      if (cumulative_area_sum[itri_h] <= a0) { itri_l = itri_h; }
       else { itri_u = itri_h; }
     }
-    assert(cumulative_area_sum[itri_l] < a0);
+    assert(cumulative_area_sum[itri_l] <= a0);
     assert(a0 < cumulative_area_sum[itri_l + 1]);
     double r0 = (a0 - cumulative_area_sum[itri_l]) / (cumulative_area_sum[itri_l + 1] - cumulative_area_sum[itri_l]);
     double r1 = dist_01(rndeng);
@@ -97,14 +97,14 @@ class RandomSamplingOnMeshTri3Selective {
     double a0 = val01 * cumulative_area_sum[num_flaggedtri];
     unsigned int itri_l = 0, itri_u = num_flaggedtri;
     for (;;) {
-      assert(cumulative_area_sum[itri_l] < a0);
+      assert(cumulative_area_sum[itri_l] <= a0);
       assert(a0 < cumulative_area_sum[itri_u]);
       unsigned int itri_h = (itri_u + itri_l) / 2;
       if (itri_u - itri_l == 1) { break; }
-      if (cumulative_area_sum[itri_h] < a0) { itri_l = itri_h; }
+      if (cumulative_area_sum[itri_h] <= a0) { itri_l = itri_h; }
       else { itri_u = itri_h; }
     }
-    assert(cumulative_area_sum[itri_l] < a0);
+    assert(cumulative_area_sum[itri_l] <= a0);
     assert(a0 < cumulative_area_sum[itri_l + 1]);
     double r0 = (a0 - cumulative_area_sum[itri_l]) / (cumulative_area_sum[itri_l + 1] - cumulative_area_sum[itri_l]);
     double r1 = dist_01(rndeng);
-- 
2.43.0


From 429c9ed85e8cefec7712f77c52e6259e5a2ca578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 80/86] fix: Smooth4RotSym_RandomPermutation dropped every
 smoothing step

---
 include/delfem2/4rotsym.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/4rotsym.h b/include/delfem2/4rotsym.h
index b5d5438..5336b29 100644
--- a/include/delfem2/4rotsym.h
+++ b/include/delfem2/4rotsym.h
@@ -129,7 +129,7 @@ void Smooth4RotSym_RandomPermutation(
       const CVec3d n1 = CVec3d(aNorm.data()+jp1*3);
       const CVec3d o1 = CVec3d(aOdir.data()+jp1*3);
       unsigned int idiff;
-      FindNearestOrientation(idiff,
+      o_new = FindNearestOrientation(idiff,
           o_new,n0, o1,n1,weight);
       weight += 1.0;
     }
-- 
2.43.0


From 3d4ece125c54cc1cb7277f8891133c6c4fc2a474 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:59:37 +0000
Subject: [PATCH 81/86] fix: scale the fixed boundary penalty by alpha in the
 deformers' MatVec

---
 include/delfem2/defarap.cpp | 4 ++--
 include/delfem2/deflap.cpp  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/defarap.cpp b/include/delfem2/defarap.cpp
index 0d0c25d..5f7f3f3 100644
--- a/include/delfem2/defarap.cpp
+++ b/include/delfem2/defarap.cpp
@@ -183,7 +183,7 @@ void delfem2::CDef_ArapEdgeLinearDisponly::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += alpha * weight_bc * vec[i];
   }
 }
 
@@ -297,7 +297,7 @@ void delfem2::CDef_ArapEdge::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += alpha * weight_bc * vec[i];
     //      y[np*3+i] += weight_bc*vec[np*3+i];
   }
 }
diff --git a/include/delfem2/deflap.cpp b/include/delfem2/deflap.cpp
index efb93a8..faecc8d 100644
--- a/include/delfem2/deflap.cpp
+++ b/include/delfem2/deflap.cpp
@@ -182,7 +182,7 @@ void delfem2::CDef_LaplacianLinearGram::MatVec
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += alpha * weight_bc * vec[i];
   }
 }
 
@@ -389,7 +389,7 @@ void delfem2::CDef_LaplacianLinear::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += alpha * weight_bc * vec[i];
   }
 }
 
@@ -566,7 +566,7 @@ void delfem2::CDef_LaplacianLinearDegenerate::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += alpha * weight_bc * vec[i];
   }
 }
 
-- 
2.43.0


From 31139fba80333506cc8e2a9d0477763b1aa007f3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:06:30 +0000
Subject: [PATCH 82/86] fix: bounding box of a CAD edge ignored its Bezier
 control points

---
 include/delfem2/cad2.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/cad2.h b/include/delfem2/cad2.h
index 13eca1c..cd4192c 100644
--- a/include/delfem2/cad2.h
+++ b/include/delfem2/cad2.h
@@ -78,7 +78,15 @@ class CCad2D_EdgeGeo {
     CBoundingBox2<double> bb;
     bb.Add(p0.x, p0.y);
     bb.Add(p1.x, p1.y);
-    // for (unsigned int ip = 0; ip < aP.size(); ++ip) { bb.Add(aP[ip].x, aP[ip].y); }
+    if( type_edge == CCad2D_EdgeGeo::BEZIER_CUBIC ){
+      assert( param.size() == 4);
+      bb.Add(p0.x + param[0], p0.y + param[1]);
+      bb.Add(p1.x + param[2], p1.y + param[3]);
+    }
+    if( type_edge == CCad2D_EdgeGeo::BEZIER_QUADRATIC ){
+      assert( param.size() == 2);
+      bb.Add(p0.x + param[0], p0.y + param[1]);
+    }
     return bb;
   }
 
-- 
2.43.0


From 5c620025a887f9e9fe94c345a9740f6b43b0908e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:06:30 +0000
Subject: [PATCH 83/86] fix: loop of an isolated vertex claimed to include
 every vertex

---
 include/delfem2/cadtopo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/cadtopo.h b/include/delfem2/cadtopo.h
index d329f52..886ee62 100644
--- a/include/delfem2/cadtopo.h
+++ b/include/delfem2/cadtopo.h
@@ -59,7 +59,7 @@ class CadTopo_Loop {
       const std::vector<CadTopo_Edge> &edges) const {
     if( iv != UINT_MAX ){
       assert( aIE.empty() );
-      return true;
+      return ivtx == iv;
     }
     for (auto [ie0,dir] : aIE) {
       assert( ie0 < edges.size() );
-- 
2.43.0


From 7ebc70ca11c98dd792722fdc94efe91ba86ecbb6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 84/86] fix: vertices of a CAD face were looked up in the wrong
 loop

---
 include/delfem2/cad2.cpp  | 2 +-
 include/delfem2/cadtopo.h | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index c23121f..3516769 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -437,7 +437,7 @@ DFM2_INLINE void delfem2::Cad2_Ui::DragPicked(
     return;
   }
   if (iface_picked < cad.topo.faces.size()) {
-    std::vector<unsigned int> aIdV = cad.topo.loops[iface_picked].GetArray_IdVertex(cad.topo.edges);
+    std::vector<unsigned int> aIdV = cad.topo.VertexIndexs_Face(iface_picked);
     for (unsigned int iv1: aIdV) {
       cad.aVtx[iv1].pos.p[0] += p1x - p0x;
       cad.aVtx[iv1].pos.p[1] += p1y - p0y;
diff --git a/include/delfem2/cadtopo.h b/include/delfem2/cadtopo.h
index 886ee62..5e5c7e7 100644
--- a/include/delfem2/cadtopo.h
+++ b/include/delfem2/cadtopo.h
@@ -32,6 +32,7 @@ class CadTopo_Loop {
   std::vector<unsigned int> GetArray_IdVertex(
       const std::vector<CadTopo_Edge> &edges) const {
     std::vector<unsigned int> res;
+    if( iv != UINT_MAX ){ res.push_back(iv); }
     for ( auto [ie0,dir] : aIE ) {
       assert( ie0 < edges.size() );
       res.push_back( edges[ie0].IndexVertex(dir) );
@@ -201,7 +202,12 @@ public:
       unsigned int iface) const
   {
     assert(iface < faces.size());
-    return loops[iface].GetArray_IdVertex(this->edges);
+    std::vector<unsigned int> res;
+    for(unsigned int il : faces[iface].aIL) {
+      const std::vector<unsigned int> aIdV = loops[il].GetArray_IdVertex(this->edges);
+      res.insert( res.end(), aIdV.begin(), aIdV.end() );
+    }
+    return res;
   }
 
   std::vector<std::pair<unsigned int,bool> > EdgeIndexes_Face(unsigned int iface) const
-- 
2.43.0


From 7f1789af05802db17f25ea704254eed222a08d65 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 85/86] fix: InvertLoop lost the control point of quadratic
 Bezier edges

---
 include/delfem2/cad2.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index 3516769..369a06e 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -269,6 +269,10 @@ DFM2_INLINE std::vector<delfem2::CCad2D_EdgeGeo> delfem2::InvertLoop(
       eo.param[1] = (pB - eo.p0).y;
       eo.param[2] = (pA - eo.p1).x;
       eo.param[3] = (pA - eo.p1).y;
+    } else if (ei.type_edge == CCad2D_EdgeGeo::BEZIER_QUADRATIC) {
+      CVec2d pA = ei.p0 + CVec2d(ei.param[0], ei.param[1]);
+      eo.param[0] = (pA - eo.p0).x;
+      eo.param[1] = (pA - eo.p0).y;
     }
   }
   return aEdgeOut;
-- 
2.43.0


From 3b70dc7783e5663f7a85313e5c0ba0326947b089 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 86/86] fix: dragged handles of Bezier edges did not follow the
 pointer

---
 include/delfem2/cad2.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index 369a06e..7ad9821 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -426,14 +426,12 @@ DFM2_INLINE void delfem2::Cad2_Ui::DragPicked(
       CCad2D_EdgeGeo &edge = cad.aEdge[iedge_picked];
       if (edge.type_edge == 1) {
         assert(edge.param.size() == 4);
-        const CVec2d lx = (edge.p1 - edge.p0).normalized();
-        const CVec2d ly = CVec2d(lx.y, -lx.x);
         if (ipicked_elem == 1) {
-          edge.param[0] = (CVec2d(p1x, p1y) - edge.p0).dot(lx);
-          edge.param[1] = (CVec2d(p1x, p1y) - edge.p0).dot(ly);
+          edge.param[0] = p1x - edge.p0.x;
+          edge.param[1] = p1y - edge.p0.y;
         } else if (ipicked_elem == 2) {
-          edge.param[2] = (CVec2d(p1x, p1y) - edge.p1).dot(lx);
-          edge.param[3] = (CVec2d(p1x, p1y) - edge.p1).dot(ly);
+          edge.param[2] = p1x - edge.p1.x;
+          edge.param[3] = p1y - edge.p1.y;
         }
       }
     }
-- 
2.43.0

