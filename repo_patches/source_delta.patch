From 12b17847bb134d90caceb65b1f82ba80a672695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:00 +0000
Subject: [PATCH 01/15] fix: keep the cell index of a point inside the grid

fl(1/gr) can be below 1/gr, so floor(x / gl) reached gr for coordinates just
below 1 (gr = 25, 31, 41, ... in float) and the id/offset tables were written
out of range.
---
 src/xyzset.ipp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/xyzset.ipp b/src/xyzset.ipp
index 9bf22a4..def55d3 100644
--- a/src/xyzset.ipp
+++ b/src/xyzset.ipp
@@ -13,6 +13,13 @@ inline T2 get_distance(
   return square(p0 - q0) + square(p1 - q1) + square(p2 - q2);
 }
 
+// gl is 1 / gr rounded, so x / gl can reach gr for x just below 1
+template <typename T1, typename T2>
+inline T1 get_cell(const T2 x, const T2 gl, const T1 gr) {
+  const T1 cell = static_cast<T1>(std::floor(x / gl));
+  return cell < gr ? cell : gr - 1;
+}
+
 template <typename T1, typename T2>
 const std::pair<std::vector<T1>, std::vector<T1>>
 sort(std::vector<std::array<T2,3>>& xyzset, const args::xyzset& args) {
@@ -26,9 +33,9 @@ sort(std::vector<std::array<T2,3>>& xyzset, const args::xyzset& args) {
   
   // init
   for (size_t i = 0; i < xyzset.size(); i++) {
-    id[i] = static_cast<T1>(std::floor(xyzset[i][0] / gl))
-          + static_cast<T1>(std::floor(xyzset[i][1] / gl)) * gr  
-          + static_cast<T1>(std::floor(xyzset[i][2] / gl)) * gr * gr; 
+    id[i] = get_cell<T1,T2>(xyzset[i][0], gl, gr)
+          + get_cell<T1,T2>(xyzset[i][1], gl, gr) * gr
+          + get_cell<T1,T2>(xyzset[i][2], gl, gr) * gr * gr;
   };
   
   // sort
@@ -108,9 +115,9 @@ bool validate_sort(
 ) {
   T2 gl = 1.0f / gr;
   for (size_t i = 0; i < xyzset.size(); ++i) {
-    T1 cid = static_cast<T1>(std::floor(xyzset[i][0] / gl)) +
-             static_cast<T1>(std::floor(xyzset[i][1] / gl) * gr) +
-             static_cast<T1>(std::floor(xyzset[i][2] / gl) * gr * gr);
+    T1 cid = get_cell<T1,T2>(xyzset[i][0], gl, gr) +
+             get_cell<T1,T2>(xyzset[i][1], gl, gr) * gr +
+             get_cell<T1,T2>(xyzset[i][2], gl, gr) * gr * gr;
     if (cid != id[i]) {
       return false;
     }
-- 
2.43.0


From 5905b44f1dcdaa12c9554b1baca3ce8948c10e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:23 +0000
Subject: [PATCH 02/15] fix: do not turn unfilled neighbor slots into neighbor
 0

With fewer than k other points the heap keeps unfilled slots. They carried id 0,
so point 0 was clipped again and listed as an extra neighbor. Mark them
undefined and stop clipping there.
---
 src/cc.ipp     | 3 +++
 src/votess.ipp | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index ad3da13..52c76df 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -64,6 +64,7 @@ void cci::compute(
   for (Ti neighbor = 0; neighbor < k; neighbor++) {
   
     auto& q = knn[k * i + neighbor];
+    if (q == cc::k_undefined) break;
     const Tf qx = xyzset[q][0];
     const Tf qy = xyzset[q][1];
     const Tf qz = xyzset[q][2];
@@ -287,6 +288,7 @@ void cci::compute(
   for (Ti neighbor = 0; neighbor < k; neighbor++) {
   
     auto& q = knn[k * i + neighbor];
+    if (q == cc::k_undefined) break;
     const Tf qx = xyzset[xyzsize * 0 + q];
     const Tf qy = xyzset[xyzsize * 1 + q];
     const Tf qz = xyzset[xyzsize * 2 + q];
@@ -514,6 +516,7 @@ void cci::compute(
   for (Ti neighbor = 0; neighbor < k; neighbor++) {
   
     auto& q = knn[koffs * neighbor + i];
+    if (q == cc::k_undefined) break;
     const Tf qx = xyzset[xyzsize * 0 + q];
     const Tf qy = xyzset[xyzsize * 1 + q];
     const Tf qz = xyzset[xyzsize * 2 + q];
diff --git a/src/votess.ipp b/src/votess.ipp
index e5ccd99..ce90d9e 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -246,7 +246,7 @@ __gpu__tesellate(
       auto a = sycl::accessor(bheap_id, cgh, sycl::write_only, sycl::no_init);
       cgh.parallel_for<class fill_heap_id>
       (sycl::range<1>(bheap_id.size()), [=](sycl::id<1> idx) { 
-        a[idx] = 0; 
+        a[idx] = __INTERNAL__K_UNDEFINED; 
       });
     });
 
@@ -417,7 +417,7 @@ __cpu__tesellate(
   for (int run = 0; run < nruns; run++) {
 
     std::fill(dknn.begin(), dknn.end(), __INTERNAL__K_UNDEFINED);
-    std::fill(heap_id.begin(), heap_id.end(), 0);
+    std::fill(heap_id.begin(), heap_id.end(), __INTERNAL__K_UNDEFINED);
     std::fill(heap_pq.begin(), heap_pq.end(), 
               std::numeric_limits<Tf>::infinity());
 
@@ -526,7 +526,7 @@ __cpu__recompute(
   int p_maxsize = args["cc_p_maxsize"];
   int t_maxsize = args["cc_t_maxsize"];
 
-  std::vector<Ti> heap_id(subsize * k, 0);
+  std::vector<Ti> heap_id(subsize * k, __INTERNAL__K_UNDEFINED);
   std::vector<Tf> heap_pq(subsize * k, std::numeric_limits<Tf>::infinity());
   std::vector<Ti> dknn(subsize * k, __INTERNAL__K_UNDEFINED);
   std::vector<Ti>& knn = heap_id;
@@ -576,7 +576,7 @@ __cpu__recompute(
     T.clear();
     dR.clear();
 
-    heap_id.resize(subsize * k, 0);
+    heap_id.resize(subsize * k, __INTERNAL__K_UNDEFINED);
     heap_pq.resize(subsize * k, std::numeric_limits<Tf>::infinity());
     dknn.resize(subsize * k, __INTERNAL__K_UNDEFINED);
 
-- 
2.43.0


From c4616dcd072221607c8728587cb2e63b4f61da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:23 +0000
Subject: [PATCH 03/15] fix: plane capacities above 255 no longer break every
 cell

The duplicate scan over the boundary used 8 bit counters, which wrap when
cc_p_maxsize >= 256, and plane 255 collides with the undefined marker. Count
with Ti and report running out of plane indices as a p overflow.
---
 src/boundary.ipp | 12 ++++++------
 src/cc.ipp       |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/boundary.ipp b/src/boundary.ipp
index 03432ba..4f3f98f 100644
--- a/src/boundary.ipp
+++ b/src/boundary.ipp
@@ -193,10 +193,10 @@ inline boundary::bstatus boundary::compute(
     }
   
     bool flag = false;
-    for (uint8_t edge_i = 0; edge_i < dr_size; edge_i++) {
+    for (Ti edge_i = 0; edge_i < dr_size; edge_i++) {
       if (cycle[dr_offs + edge_i] == boundary::bstatus::undefined) continue;
 
-      for (uint8_t edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
+      for (Ti edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
         if (cycle[dr_offs + edge_j] == boundary::bstatus::undefined) continue;
 
         const bool cond = cycle[dr_offs + edge_i] == cycle[dr_offs + edge_j];
@@ -251,7 +251,7 @@ inline boundary::bstatus boundary::compute(
     cycle[dr_offs + head] = triangle_edge_1;
   }
   
-  Tu swap_j = r_size;
+  Ti swap_j = r_size;
   for (Ti j = 1; j < r_size; j++) {
   
     struct vstatus stat;
@@ -264,7 +264,7 @@ inline boundary::bstatus boundary::compute(
   
       uint8_t edge = cycle[dr_offs + first];
   
-      Tu counter = 0;
+      Ti counter = 0;
       while (true) {
         head = edge;
   
@@ -331,11 +331,11 @@ inline boundary::bstatus boundary::compute(
   
   
     bool flag = false;
-    for (uint8_t edge_i = 0; edge_i < dr_size; edge_i++) {
+    for (Ti edge_i = 0; edge_i < dr_size; edge_i++) {
       if (cycle[dr_offs + edge_i] == boundary::bstatus::undefined) continue;
 
 
-      for (uint8_t edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
+      for (Ti edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
         if (cycle[dr_offs + edge_j] == boundary::bstatus::undefined) continue;
 
         const bool cond = cycle[dr_offs + edge_i] == cycle[dr_offs + edge_j];
diff --git a/src/cc.ipp b/src/cc.ipp
index 52c76df..2b88ab8 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -136,7 +136,7 @@ void cci::compute(
     
     if (r_size > 0) {
 
-      if (p_size >= p_maxsize) {
+      if (p_size >= p_maxsize || p_size >= boundary::bstatus::undefined) {
         state.set_true(cc::error_p_overflow);
         return;
       }
@@ -360,7 +360,7 @@ void cci::compute(
     
     if (r_size > 0) {
 
-      if (p_size >= p_maxsize) {
+      if (p_size >= p_maxsize || p_size >= boundary::bstatus::undefined) {
         state.set_true(cc::error_p_overflow);
         return;
       }
@@ -588,7 +588,7 @@ void cci::compute(
     
     if (r_size > 0) {
 
-      if (p_size >= p_maxsize) {
+      if (p_size >= p_maxsize || p_size >= boundary::bstatus::undefined) {
         state.set_true(cc::error_p_overflow);
         return;
       }
-- 
2.43.0


From a2b8e014cce275d29f5549ae49e39579cf7017bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:45 +0000
Subject: [PATCH 04/15] fix: device path reads points with their own stride
 when chunking

With chunking the chunk size was passed as the stride of the reference set, so
every chunk but a full one read the wrong coordinates. Pass the set size, and
stride the per-column plane storage by the number of columns.
---
 src/cc.ipp     | 40 ++++++++++++++++++++--------------------
 src/votess.ipp |  4 ++--
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index 2b88ab8..aa28ac6 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -501,10 +501,10 @@ void cci::compute(
   const Tf pz = refset[refsize * 2 + index];
   
   for (Ti j = 0; j < p_initsize; j++) {
-    P[4 * refsize * j + refsize * 0 + i] = p_init[4 * j + 0];
-    P[4 * refsize * j + refsize * 1 + i] = p_init[4 * j + 1];
-    P[4 * refsize * j + refsize * 2 + i] = p_init[4 * j + 2];
-    P[4 * refsize * j + refsize * 3 + i] = p_init[4 * j + 3];
+    P[4 * koffs * j + koffs * 0 + i] = p_init[4 * j + 0];
+    P[4 * koffs * j + koffs * 1 + i] = p_init[4 * j + 1];
+    P[4 * koffs * j + koffs * 2 + i] = p_init[4 * j + 2];
+    P[4 * koffs * j + koffs * 3 + i] = p_init[4 * j + 3];
   }
 
   for (Ti j = 0; j < t_initsize; j++) {
@@ -535,20 +535,20 @@ void cci::compute(
       const Tu& t1 = T[3 * t_maxsize * i + t_index * 3 + 1];
       const Tu& t2 = T[3 * t_maxsize * i + t_index * 3 + 2];
   
-      const Tf& plane_00 = P[4 * refsize * t0 + refsize * 0 + i];
-      const Tf& plane_01 = P[4 * refsize * t0 + refsize * 1 + i];
-      const Tf& plane_02 = P[4 * refsize * t0 + refsize * 2 + i];
-      const Tf& plane_03 = P[4 * refsize * t0 + refsize * 3 + i];
+      const Tf& plane_00 = P[4 * koffs * t0 + koffs * 0 + i];
+      const Tf& plane_01 = P[4 * koffs * t0 + koffs * 1 + i];
+      const Tf& plane_02 = P[4 * koffs * t0 + koffs * 2 + i];
+      const Tf& plane_03 = P[4 * koffs * t0 + koffs * 3 + i];
 
-      const Tf& plane_10 = P[4 * refsize * t1 + refsize * 0 + i];
-      const Tf& plane_11 = P[4 * refsize * t1 + refsize * 1 + i];
-      const Tf& plane_12 = P[4 * refsize * t1 + refsize * 2 + i];
-      const Tf& plane_13 = P[4 * refsize * t1 + refsize * 3 + i];
+      const Tf& plane_10 = P[4 * koffs * t1 + koffs * 0 + i];
+      const Tf& plane_11 = P[4 * koffs * t1 + koffs * 1 + i];
+      const Tf& plane_12 = P[4 * koffs * t1 + koffs * 2 + i];
+      const Tf& plane_13 = P[4 * koffs * t1 + koffs * 3 + i];
 
-      const Tf& plane_20 = P[4 * refsize * t2 + refsize * 0 + i];
-      const Tf& plane_21 = P[4 * refsize * t2 + refsize * 1 + i];
-      const Tf& plane_22 = P[4 * refsize * t2 + refsize * 2 + i];
-      const Tf& plane_23 = P[4 * refsize * t2 + refsize * 3 + i];
+      const Tf& plane_20 = P[4 * koffs * t2 + koffs * 0 + i];
+      const Tf& plane_21 = P[4 * koffs * t2 + koffs * 1 + i];
+      const Tf& plane_22 = P[4 * koffs * t2 + koffs * 2 + i];
+      const Tf& plane_23 = P[4 * koffs * t2 + koffs * 3 + i];
   
       // TODO : implement exception handling
       planes::intersect<Tf>(
@@ -593,10 +593,10 @@ void cci::compute(
         return;
       }
 
-      P[4 * refsize * p_size + refsize * 0 + i] = bisector[0];
-      P[4 * refsize * p_size + refsize * 1 + i] = bisector[1];
-      P[4 * refsize * p_size + refsize * 2 + i] = bisector[2];
-      P[4 * refsize * p_size + refsize * 3 + i] = bisector[3];
+      P[4 * koffs * p_size + koffs * 0 + i] = bisector[0];
+      P[4 * koffs * p_size + koffs * 1 + i] = bisector[1];
+      P[4 * koffs * p_size + koffs * 2 + i] = bisector[2];
+      P[4 * koffs * p_size + koffs * 3 + i] = bisector[3];
       dknn[koffs * neighbor + i] = p_size;
       p_size += 1;
   
diff --git a/src/votess.ipp b/src/votess.ipp
index ce90d9e..b5b17d6 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -313,7 +313,7 @@ __gpu__tesellate(
         knni::compute<Ti, Tf>(
           g_index, aindices[g_index],
           axyzset, xyzsize, aid, aoffset,
-          axyzset, subsize,
+          axyzset, xyzsize,
           aheap_id, aheap_pq, subsize,
           aargs_knn
         );
@@ -326,7 +326,7 @@ __gpu__tesellate(
           aheap_id, subsize,
           adknn,
           axyzset, xyzsize,
-          axyzset, subsize,
+          axyzset, xyzsize,
           aargs_cc
         );
         #endif
-- 
2.43.0


From c8a7dfc37447a41f26c71c828025a8abb4ad90dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:50 +0000
Subject: [PATCH 05/15] fix: start device cell states from a clean value

The state buffer was never initialised and was opened with no_init on every
chunk, so flags were undefined and those of earlier chunks could be dropped.
---
 src/votess.ipp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index b5b17d6..25fc967 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -234,6 +234,14 @@ __gpu__tesellate(
   sycl::buffer<Tf,1>      bP(sycl::range<1>(subsize * p_maxsize * 4));
   sycl::buffer<Tu,1> bT(sycl::range<1>(subsize * t_maxsize * 3));
 
+  queue.submit([&](sycl::handler& cgh) {
+    auto a = sycl::accessor(bstates, cgh, sycl::write_only, sycl::no_init);
+    cgh.parallel_for<class fill_states>
+    (sycl::range<1>(bstates.size()), [=](sycl::id<1> idx) {
+      a[idx].reset();
+    });
+  });
+
   for (int run = 0; run < nruns; run++) {
     
     std::cout << "[chunking] run : " << run << "/" << nruns << std::endl;
@@ -295,7 +303,7 @@ __gpu__tesellate(
 
       auto aP  = sycl::accessor(bP,  cgh, read_write, property::no_init());
       auto aT  = sycl::accessor(bT,  cgh, read_write, property::no_init());
-      auto astates = accessor(bstates, cgh, read_write, property::no_init());
+      auto astates = sycl::accessor(bstates, cgh, read_write);
 
       sycl::local_accessor<Tu, 1> 
       ldR(sycl::range<1>(ndsize * p_maxsize), cgh);
-- 
2.43.0


From 9c0adb03bc13abcf50ff6fc9fb41e42a611a4fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:07 +0000
Subject: [PATCH 06/15] fix: dnn output keeps one line per point when rows are
 empty

print and savetxt advanced a single row at an empty one, so every later row was
misaligned; size() of a default constructed dnn wrapped around.
---
 src/dnn.ipp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index 5121dc0..1e92104 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -76,7 +76,7 @@ votess::dnn<Ti>::operator[](const int i) {
 
 template<typename Ti>
 size_t votess::dnn<Ti>::size() const {
-  return offs.size() - 1;
+  return offs.empty() ? 0 : offs.size() - 1;
 }
 
 template <typename Ti>
@@ -91,16 +91,15 @@ void votess::dnn<Ti>::print() const {
   size_t counter = 1;
   std::cout<<"{\n  {";
   for (auto i : this->list) {
-    if (index == this->offs[counter]) {
-      if (counter < this->offs.size() - 1) {
-        counter += 1;
-      }
+    while (counter < this->offs.size() - 1 && index == this->offs[counter]) {
+      counter += 1;
       std::cout << "}\n  {";
     }
 
     std::cout<<std::setw(1)<<i<<", ";
     index += 1;
   }
+  for (; counter < this->offs.size() - 1; counter++) std::cout << "}\n  {";
   std::cout << "}\n}" << std::endl;
 
 }
@@ -116,16 +115,14 @@ void votess::dnn<Ti>::savetxt(const std::string& fname) const {
   Ti index = 0;
   size_t counter = 1;
   for (auto i : this->list) {
-    if (index == this->offs[counter]) {
-      if (counter < this->offs.size() - 1) {
-        counter += 1;
-      }
+    while (counter < this->offs.size() - 1 && index == this->offs[counter]) {
+      counter += 1;
       fp<<"\n";
     }
     fp<<std::setw(1)<<i<<" ";
     index += 1;
   }
-  fp<<"\n";
+  for (; counter < this->offs.size(); counter++) fp<<"\n";
   fp.close();
 }
 
-- 
2.43.0


From bbd5e807fc8435615c6507b9eb19295f26c1f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:44 +0000
Subject: [PATCH 07/15] fix: recompute keeps growing capacities once every
 point is a candidate

The retry loop stopped as soon as k reached the number of other points, leaving
cells that had run out of plane or triangle storage unresolved, and a lone
point was processed with k = 0.
---
 src/votess.ipp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 25fc967..77f1c79 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -534,6 +534,10 @@ __cpu__recompute(
   int p_maxsize = args["cc_p_maxsize"];
   int t_maxsize = args["cc_t_maxsize"];
 
+  // planes and triangles are indexed with Tu and short
+  const int p_limit = std::numeric_limits<Tu>::max() - 1;
+  const int t_limit = std::numeric_limits<short>::max() / 2;
+
   std::vector<Ti> heap_id(subsize * k, __INTERNAL__K_UNDEFINED);
   std::vector<Tf> heap_pq(subsize * k, std::numeric_limits<Tf>::infinity());
   std::vector<Ti> dknn(subsize * k, __INTERNAL__K_UNDEFINED);
@@ -565,13 +569,13 @@ __cpu__recompute(
     subsize = cur;
     for (Ti i = 0; i < refsize; i++) states[i].reset();
 
-    if (subsize <= 0) {
+    if (subsize <= 0 || refsize <= 1) {
       break;
     }
 
     k = (k * 2) > (refsize - 1) ? refsize - 1 : k * 2;
-    p_maxsize *= update_p_maxsize ? 2 : 1;
-    t_maxsize *= update_t_maxsize ? 2 : 1;
+    p_maxsize *= (update_p_maxsize && p_maxsize <= p_limit) ? 2 : 1;
+    t_maxsize *= (update_t_maxsize && t_maxsize <= t_limit) ? 2 : 1;
 
     args["k"] = k;
     args["cc_p_maxsize"] = p_maxsize;
@@ -630,7 +634,16 @@ __cpu__recompute(
 
     tmpnn_fill(tmpnn, indices, subsize, knn, args);
 
-    if (k >= (refsize - 1)) {
+    bool can_retry = k < (refsize - 1);
+    for (Ti i = 0; i < subsize; i++) {
+      const auto& state = states[indices[i]];
+      if ((state.get(cc::error_p_overflow) && p_maxsize <= p_limit) ||
+          (state.get(cc::error_t_overflow) && t_maxsize <= t_limit)) {
+        can_retry = true;
+      }
+    }
+
+    if (!can_retry) {
       break;
     }
 
-- 
2.43.0


From 0c6e9cacb61cbd71448a1fbcf2d0601d9bc07aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:44 +0000
Subject: [PATCH 08/15] fix: the command line honours --use-device

The parsed device was dropped and the default one used instead. Without the
option the library default (cpu) stays in effect.
---
 src/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 85a3ccb..cb8ca50 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -75,7 +75,7 @@ parse_args(int argc, char* argv[]) {
 
   std::string infile = "";
   struct votess::vtargs vtargs;
-  votess::device device = votess::device::gpu;
+  votess::device device = votess::device::cpu;
 
   int k_init = ARGS_DEFAULT_K;
   int chunksize = ARGS_DEFAULT_CHUNKSIZE;
@@ -222,7 +222,7 @@ main(int argc, char* argv[]) {
 
   }
 
-  auto dnn = votess::tesellate<int, float>(xyzset, vtargs);
+  auto dnn = votess::tesellate<int, float>(xyzset, vtargs, device);
 
   dnn.print();
 
-- 
2.43.0


From f3abbe1f77623b3713fd148796adb2f364e07d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:09 +0000
Subject: [PATCH 09/15] fix: flag capacities too small for the initial cell
 instead of writing past them

---
 src/cc.ipp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cc.ipp b/src/cc.ipp
index aa28ac6..705041d 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -41,6 +41,11 @@ void cci::compute(
 
   cc::state& state = states[index];
 
+  // the unit cube every cell starts from has to fit
+  if (p_maxsize < p_initsize) state.set_true(cc::error_p_overflow);
+  if (t_maxsize < t_initsize) state.set_true(cc::error_t_overflow);
+  if (p_maxsize < p_initsize || t_maxsize < t_initsize) return;
+
   Tf vertex[4];
   Tf bisector[4];
 
@@ -265,6 +270,11 @@ void cci::compute(
 
   cc::state& state = states[index];
 
+  // the unit cube every cell starts from has to fit
+  if (p_maxsize < p_initsize) state.set_true(cc::error_p_overflow);
+  if (t_maxsize < t_initsize) state.set_true(cc::error_t_overflow);
+  if (p_maxsize < p_initsize || t_maxsize < t_initsize) return;
+
   Tf vertex[4];
   Tf bisector[4];
 
@@ -493,6 +503,11 @@ void cci::compute(
 
   cc::state& state = states[index];
 
+  // the unit cube every cell starts from has to fit
+  if (p_maxsize < p_initsize) state.set_true(cc::error_p_overflow);
+  if (t_maxsize < t_initsize) state.set_true(cc::error_t_overflow);
+  if (p_maxsize < p_initsize || t_maxsize < t_initsize) return;
+
   Tf vertex[4];
   Tf bisector[4];
 
-- 
2.43.0


From 0e955b0e27d06b31a1e1c82001e18515428129db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:44 +0000
Subject: [PATCH 10/15] fix: report failure when removed triangles leave no
 boundary

---
 src/boundary.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/boundary.ipp b/src/boundary.ipp
index 4f3f98f..e17fc08 100644
--- a/src/boundary.ipp
+++ b/src/boundary.ipp
@@ -187,8 +187,8 @@ inline boundary::bstatus boundary::compute(
       cycle[dr_offs + triangle_edge_0] = triangle_edge_1;
       head = triangle_edge_0;
   
-    } else if (nshared_edges == 3) {
     } else {
+      // three shared edges close the surface: there is no boundary left
       return boundary::bstatus::unreachable;
     }
   
@@ -324,8 +324,8 @@ inline boundary::bstatus boundary::compute(
       cycle[dr_offs + triangle_edge_0] = triangle_edge_1;
       head = triangle_edge_0;
   
-    } else if (nshared_edges == 3) {
     } else {
+      // three shared edges close the surface: there is no boundary left
       return boundary::bstatus::unreachable;
     }
   
-- 
2.43.0


From 0d68ce315afd0d437887f987de5b07ae100593fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:34 +0000
Subject: [PATCH 11/15] fix: help names the --grid-resolution option as it is
 parsed

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index cb8ca50..4839187 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -41,7 +41,7 @@ print_help(const char* const executable) {
 " -v, --version                Show version\n"
 " -i, --infile   <infile>      Specify input file. Required argument.\n"
 " -k, --k-init   <k_init>      Specify initial k for k-nearest neighbor search.\n"
-" -g, --gridres  <gridres>     Specify grid resolution for k-nearest neighbors.\n"
+" -g, --grid-resolution <n>    Specify grid resolution for k-nearest neighbors.\n"
 " -t, --cpu-nthreads <n>       Specify the number of CPU threads to use.\n"
 " -d, --gpu-ndsize <n>         Specify GPU work size (recommended in multiples of 16).\n"
 " -c, --chunksize  <n>         Specify chunk size for processing.\n"
-- 
2.43.0


From af48e1aa485ce1f0960d608b85aeb6a5a0a4f280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:34 +0000
Subject: [PATCH 12/15] fix: print one row per point when every row is empty

A container whose rows are all empty was printed as {} instead of one
pair of braces per row, unlike savetxt and the mixed case.
---
 src/dnn.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index 1e92104..24acd04 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -82,7 +82,7 @@ size_t votess::dnn<Ti>::size() const {
 template <typename Ti>
 void votess::dnn<Ti>::print() const {
 
-  if (this->list.empty()) {
+  if (this->size() == 0) {
     std::cout<<"{}"<<std::endl;
     return;
   }
-- 
2.43.0


From 35e98673ab20b4a8847522591f706b340dcc9340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:52 +0000
Subject: [PATCH 13/15] fix: keep the container of a row alive in the Python
 binding

---
 src/pybind11/pyvotess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index dff77cc..d5dc521 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -63,7 +63,7 @@ pybind11::class_<votess::dnn<int>>(module, "dnn")
   .def("__getitem__", [](votess::dnn<int> &instance, int i) 
       -> votess::dnn<int>::proxy {
     return instance[i];
-  }, pybind11::return_value_policy::reference_internal)
+  }, pybind11::keep_alive<0, 1>())
   .def("print", &votess::dnn<int>::print)
   .def("savetxt", &votess::dnn<int>::savetxt);
 
-- 
2.43.0


From c5f9ccd93eab8769fab5baa69e0363237bb134dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:52 +0000
Subject: [PATCH 14/15] fix: raise IndexError instead of reading outside the
 container in the Python binding

---
 src/pybind11/pyvotess.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index d5dc521..2b6e8e9 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -52,6 +52,8 @@ pybind11::class_<votess::vtargs>(module, "vtargs")
 
 pybind11::class_<votess::dnn<int>::proxy>(module, "Proxy")
   .def("__getitem__", [](votess::dnn<int>::proxy &self, int i) -> int & {
+    if (i < 0 || static_cast<size_t>(i) >= self.size())
+      throw pybind11::index_error();
     return self[i];
   }, pybind11::return_value_policy::reference_internal)
   .def("size", &votess::dnn<int>::proxy::size);
@@ -62,6 +64,8 @@ pybind11::class_<votess::dnn<int>>(module, "dnn")
   .def("size", &votess::dnn<int>::size)
   .def("__getitem__", [](votess::dnn<int> &instance, int i) 
       -> votess::dnn<int>::proxy {
+    if (i < 0 || static_cast<size_t>(i) >= instance.size())
+      throw pybind11::index_error();
     return instance[i];
   }, pybind11::keep_alive<0, 1>())
   .def("print", &votess::dnn<int>::print)
-- 
2.43.0


From fa1cc72dd5e07991aba8f39bef6b852b5a539467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:52 +0000
Subject: [PATCH 15/15] fix: reading a parameter in Python raised TypeError
 (its type was never registered)

---
 src/pybind11/pyvotess.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index 2b6e8e9..912927c 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -27,9 +27,9 @@ pybind11::enum_<votess::device>(module, "device")
 pybind11::class_<votess::vtargs>(module, "vtargs")
   .def(pybind11::init<>())
   .def("__getitem__", [](votess::vtargs &self, const std::string &key) 
-      -> votess::vtargref & {
-    return self[key];
-  }, pybind11::return_value_policy::reference_internal)
+      -> int {
+    return self[key].get<int>();
+  })
   .def("__setitem__", [](votess::vtargs &self,
                          const std::string &key,
                          pybind11::object value) {
-- 
2.43.0

