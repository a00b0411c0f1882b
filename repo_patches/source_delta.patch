From a7994498a977a05e6acb2f0a89a943c3c76e7d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:31 +0000
Subject: [PATCH 01/22] fix: measure the second corner region of
 Triangle::closestPoint from that corner

---
 src/tinymesh/core/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/triangle.cpp b/src/tinymesh/core/triangle.cpp
index 77c46ca..134f60d 100644
--- a/src/tinymesh/core/triangle.cpp
+++ b/src/tinymesh/core/triangle.cpp
@@ -16,7 +16,7 @@ Vec3 Triangle::closestPoint(const Vec3 &p) const {
     const double d2 = dot(ac, ap);
     if (d1 <= 0.0 && d2 <= 0.0) return p0;  //#1
 
-    const Vec3 bp = p - p2;
+    const Vec3 bp = p - p1;
     const double d3 = dot(ab, bp);
     const double d4 = dot(ac, bp);
     if (d3 >= 0.0 && d4 <= d3) return p1;  //#2
-- 
2.43.0


From 940ba6ea8a8bb1558ba191c936c0c00da1645c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:12 +0000
Subject: [PATCH 02/22] fix: keep the component constructor of two-dimensional
 vectors inside its storage

---
 src/tinymesh/core/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index 76ae2e9..cb8a4cf 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -32,8 +32,8 @@ public:
         std::fill(elems.begin(), elems.end(), w);
 
         elems[0] = x;
-        if (Dims >= 1) elems[1] = y;
-        if (Dims >= 2) elems[2] = z;
+        if (Dims >= 2) elems[1] = y;
+        if (Dims >= 3) elems[2] = z;
     }
 
     explicit Vec(const Vec &other) {
-- 
2.43.0


From 8ab41c7548b52390aeedbf8769450d93169f8e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:12 +0000
Subject: [PATCH 03/22] fix: subtract instead of multiplying when a vector and
 a scalar are subtracted

---
 src/tinymesh/core/vec.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/core/vec.h b/src/tinymesh/core/vec.h
index cb8a4cf..a93d146 100644
--- a/src/tinymesh/core/vec.h
+++ b/src/tinymesh/core/vec.h
@@ -221,14 +221,14 @@ Vec<Float, Dims> operator-(const Vec<Float, Dims> &v1, const Vec<Float, Dims> &v
 template <typename Float, int Dims>
 Vec<Float, Dims> operator-(const Vec<Float, Dims> &v, Float s) {
     auto ret = v;
-    ret *= s;
+    ret -= Vec<Float, Dims>(s);
     return ret;
 }
 
 template <typename Float, int Dims>
 Vec<Float, Dims> operator-(Float s, const Vec<Float, Dims> &v) {
-    auto ret = v;
-    ret *= s;
+    auto ret = Vec<Float, Dims>(s);
+    ret -= v;
     return ret;
 }
 template <typename Float, int Dims>
-- 
2.43.0


From 3d12f97b5a82670130396374c52f9c018a5be4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:27 +0000
Subject: [PATCH 04/22] fix: forget old vertex indices when a mesh is rebuilt

Building or loading a mesh into an existing object kept the previous
index list, so the old triangles were added to the new ones.
---
 src/tinymesh/core/mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index db11b9c..15c55d5 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -71,6 +71,7 @@ void Mesh::load(const std::string &filename) {
     vertices_.clear();
     halfedges_.clear();
     faces_.clear();
+    indices_.clear();
 
     // Load new mesh
     const std::string ext = fs::path(filename.c_str()).extension().string();
@@ -90,6 +91,7 @@ void Mesh::construct(const std::vector<Vec3> &vertices, const std::vector<uint32
     vertices_.clear();
     halfedges_.clear();
     faces_.clear();
+    indices_.clear();
 
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
-- 
2.43.0


From 48ac97d5a7862224a345831483699f570d9991ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:27 +0000
Subject: [PATCH 05/22] fix: check the triangle moved in place of a degenerate
 one

A degenerate triangle is replaced by the last one of the list, which was
then skipped. A second degenerate triangle at the end of the list made
the construction fail.
---
 src/tinymesh/core/mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 15c55d5..5967b96 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -185,7 +185,7 @@ double Mesh::getMeanFaceArea() const {
 }
 
 void Mesh::construct() {
-    for (size_t i = 0; i < indices_.size(); i += 3) {
+    for (size_t i = 0; i < indices_.size();) {
         if (indices_[i + 0] == indices_[i + 1] || indices_[i + 1] == indices_[i + 2] ||
             indices_[i + 2] == indices_[i + 0]) {
             const int size = (int)indices_.size();
@@ -193,6 +193,8 @@ void Mesh::construct() {
             std::swap(indices_[i + 1], indices_[size - 2]);
             std::swap(indices_[i + 2], indices_[size - 1]);
             indices_.resize(size - 3);
+        } else {
+            i += 3;
         }
     }
 
-- 
2.43.0


From 9ae22e2ad9dca1d0c9c24fdb1adf5014b9e921b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:27 +0000
Subject: [PATCH 06/22] fix: report unreferenced vertices before following
 their halfedges

A vertex used only by removed triangles has no halfedge. The check for
this came after the null pointer had already been followed.
---
 src/tinymesh/core/mesh.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 5967b96..6ca2451 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -290,6 +290,10 @@ void Mesh::construct() {
 
     // For convenience, advance halfedge of each boundary vertex to one that is on the boundary
     for (auto v : vertices_) {
+        if (v->halfedge_ == nullptr) {
+            Error("Some vertices are not referenced by any polygon!");
+        }
+
         Halfedge *he = v->halfedge_;
         do {
             if (he->rev_ == nullptr) {
@@ -351,10 +355,6 @@ void Mesh::construct() {
 
     // Check if the mesh is non-manifold
     for (auto v : vertices_) {
-        if (v->halfedge_ == nullptr) {
-            Error("Some vertices are not referenced by any polygon!");
-        }
-
         uint32_t count = v->isBoundary() ? -1 : 0;
         Halfedge *he = v->halfedge_;
         do {
-- 
2.43.0


From cd911fce38a8c9cd125180ed0d34202f9d15560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:27 +0000
Subject: [PATCH 07/22] fix: do not take a triangle with three boundary edges
 for a hole

A face was called a hole when all its edges were boundary edges, which
also holds for an isolated triangle. Such triangles were left out of the
reported indices and of saved files.
---
 src/tinymesh/core/face.cpp | 6 +++++-
 src/tinymesh/core/face.h   | 1 +
 src/tinymesh/core/mesh.cpp | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/face.cpp b/src/tinymesh/core/face.cpp
index c73ba45..c840642 100644
--- a/src/tinymesh/core/face.cpp
+++ b/src/tinymesh/core/face.cpp
@@ -76,7 +76,11 @@ int Face::numCorners() const {
 }
 
 bool Face::isHole() const {
-    // Face is hole if all the vertices are at the boundary.
+    // Face is hole if it closes a boundary loop and all its halfedges are still at the boundary.
+    if (!isHole_) {
+        return false;
+    }
+
     for (auto it = this->he_begin(); it != this->he_end(); ++it) {
         if (!it->isBoundary()) {
             return false;
diff --git a/src/tinymesh/core/face.h b/src/tinymesh/core/face.h
index 0f4ef98..b8fe9a6 100644
--- a/src/tinymesh/core/face.h
+++ b/src/tinymesh/core/face.h
@@ -67,6 +67,7 @@ public:
 private:
     Halfedge *halfedge_ = nullptr;
     int index_ = -1;
+    bool isHole_ = false;
 
     friend class Mesh;
 };
diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 6ca2451..387d84a 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -312,6 +312,7 @@ void Mesh::construct() {
         Assertion(he.get() != nullptr, "Null halfedge detected!");
         if (he->rev_ == nullptr) {
             auto face = new Face();
+            face->isHole_ = true;
             addFace(face);
 
             std::vector<Halfedge *> boundaryHalfedges;
-- 
2.43.0


From be289bfd77e47fdc4cb7136eaaa8706b323c8c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:55 +0000
Subject: [PATCH 08/22] fix: do not keep a reference into the halfedge list
 while it grows

The loop that closes boundary loops held a reference to an element of
the halfedge list and appended to the same list. After a reallocation
the reference pointed to freed memory.
---
 src/tinymesh/core/mesh.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 387d84a..4070d67 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -308,15 +308,15 @@ void Mesh::construct() {
     // Construct new faces (possibly non-triangle) for each boundary components
     const auto numHalfedges = static_cast<int>(halfedges_.size());
     for (int i = 0; i < numHalfedges; i++) {
-        auto &he = halfedges_[i];
-        Assertion(he.get() != nullptr, "Null halfedge detected!");
+        Halfedge *he = halfedges_[i].get();
+        Assertion(he != nullptr, "Null halfedge detected!");
         if (he->rev_ == nullptr) {
             auto face = new Face();
             face->isHole_ = true;
             addFace(face);
 
             std::vector<Halfedge *> boundaryHalfedges;
-            Halfedge *it = he.get();
+            Halfedge *it = he;
             do {
                 auto rev = new Halfedge();
                 addHalfedge(rev);
@@ -333,11 +333,11 @@ void Mesh::construct() {
 
                 // Advance it to the next halfedge along the current boundary loop
                 it = it->next_;
-                while (it != he.get() && it->rev_ != nullptr) {
+                while (it != he && it->rev_ != nullptr) {
                     it = it->rev_;
                     it = it->next_;
                 }
-            } while (it != he.get());
+            } while (it != he);
 
             face->halfedge_ = boundaryHalfedges.front();
 
-- 
2.43.0


From ed5695d064dcf593bcba119f4e60c7f22b454138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:25 +0000
Subject: [PATCH 09/22] fix: refuse to flip boundary edges

Flipping a boundary edge rewired the hole face next to it as if it were
a triangle, which left inconsistent connectivity.
---
 src/tinymesh/core/mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 4070d67..763ce1d 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -876,6 +876,11 @@ bool Mesh::flipHE(Halfedge *he) {
         Error("Flip is called boundary halfedge!");
     }
 
+    // Skip halfedge at the boundary
+    if (he->isBoundary() || rev->isBoundary()) {
+        return false;
+    }
+
     Vertex *u0 = he->src();
     Vertex *u1 = he->prev()->src();
     Vertex *u2 = rev->src();
-- 
2.43.0


From 3d3f5d3fd48c8627ede6a279200f0042e77e9f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:25 +0000
Subject: [PATCH 10/22] fix: refuse to collapse an edge between two boundary
 vertices

Such a collapse joins two boundary loops in one vertex, which makes the
vertex non-manifold.
---
 src/tinymesh/core/mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 763ce1d..25c92bf 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -739,6 +739,11 @@ bool Mesh::collapseHE(Halfedge *he) {
         return false;
     }
 
+    // Check unsafe collapse (two boundary vertices would be pinched together)
+    if (v0->isBoundary() && v2->isBoundary()) {
+        return false;
+    }
+
     // Collect neighboring vertices of the one to be removed
     std::vector<Vertex *> neighbors;
     for (auto it = v2->he_begin(); it != v2->he_end(); ++it) {
-- 
2.43.0


From 3cbde8a2354c25f2f7ee6af46a87052553aaba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:25 +0000
Subject: [PATCH 11/22] fix: detect every flipped face when an edge is
 collapsed

The test compared the orientation of consecutive faces only. The two
faces at the collapsed edge have no area, so a change of orientation
across them was missed.
---
 src/tinymesh/core/mesh.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 25c92bf..b5f8d4e 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -782,16 +782,14 @@ bool Mesh::collapseHE(Halfedge *he) {
     }
     norm = normalize(norm);
 
-    double sign = 0.0;
     for (size_t i = 0; i < neighbors.size(); i++) {
         const size_t j = (i + 1) % neighbors.size();
         const Vec3 e1 = neighbors[i]->pos() - v0->pos();
         const Vec3 e2 = neighbors[j]->pos() - v0->pos();
         const double s = dot(norm, cross(e1, e2));
-        if (sign * s < 0.0) {
+        if (s < 0.0) {
             return false;
         }
-        sign = s;
     }
 
     // Update origins of all outward halfedges
-- 
2.43.0


From 6aef092f175563838b6bd3e188d1f3d077f7764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:03 +0000
Subject: [PATCH 12/22] fix: keep locked vertices in place when the filling
 front is merged

The test looked at the same end of the edge twice. The other end could be
a vertex of the original surface, which was then moved.
---
 src/tinymesh/core/completion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 8219f3a..ec029a8 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -261,7 +261,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
         for (int i = 0; i < N; i++) {
             const int prev = (i - 1 + N) % N;
             const int next = (i + 1) % N;
-            if (!face_vs[i]->isLocked() && !face_vs[i]->isLocked() &&
+            if (!face_vs[i]->isLocked() && !face_vs[next]->isLocked() &&
                 length(face_vs[i]->pos() - face_vs[next]->pos()) < 0.5 * avgEdgeLen) {
                 Halfedge *he = face_hes[i];
                 std::vector<Halfedge *> v_hes;
-- 
2.43.0


From 75ef5326a915cd747168307542f963a51a5c2dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:03 +0000
Subject: [PATCH 13/22] fix: clear the boundary mark on both sides of a filled
 edge

When a hole was filled, the halfedges of the surrounding surface kept
their boundary mark although nothing was open any more.
---
 src/tinymesh/core/completion.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index ec029a8..7f654f0 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -65,9 +65,12 @@ Face *Mesh::addNewTriangle(const std::vector<Vertex *> &boundary, const std::tup
     new_he1->next_ = new_he2;
     new_he2->next_ = new_he0;
 
-    new_he0->isBoundary_ = false;
-    new_he1->isBoundary_ = false;
-    new_he2->isBoundary_ = false;
+    for (Halfedge *he : { new_he0, new_he1, new_he2 }) {
+        he->isBoundary_ = false;
+        if (he->rev_ != nullptr) {
+            he->rev_->isBoundary_ = false;
+        }
+    }
 
     auto new_face = new Face();
     addFace(new_face);
-- 
2.43.0


From 6fdf78471c49a15e35308071231c16cd0a1794a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:31 +0000
Subject: [PATCH 14/22] fix: fan the triangles of a polygonal face from one
 corner when measuring its area

---
 src/tinymesh/core/face.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/face.cpp b/src/tinymesh/core/face.cpp
index c840642..2fbabc3 100644
--- a/src/tinymesh/core/face.cpp
+++ b/src/tinymesh/core/face.cpp
@@ -60,7 +60,7 @@ double Face::area() const {
     double area = 0.0;
     for (int i = 1; i < N - 1; i++) {
         const Vec3 &p0 = vs[i];
-        const Vec3 &p1 = vs[i - 1];
+        const Vec3 &p1 = vs[0];
         const Vec3 &p2 = vs[i + 1];
         area += 0.5 * length(cross(p1 - p0, p2 - p0));
     }
-- 
2.43.0


From 1cac17c45b263fc0beb100dca0a457582c10d603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:31 +0000
Subject: [PATCH 15/22] fix: return each principal direction with its own
 curvature

---
 src/tinymesh/ops/features.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 39c8372..9c76460 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -60,10 +60,10 @@ void getPrincipalCurvaturesFromTensors(std::vector<double> &ks_max, std::vector<
         double k_max = M(1, 1) + tt * M(0, 1);
         Vec3 t_min, t_max;
         if (k_max > k_min) {
-            t_max = c * up - s * vp;
+            t_max = s * up + c * vp;
         } else {
             std::swap(k_min, k_max);
-            t_max = s * up + c * vp;
+            t_max = c * up - s * vp;
         }
         t_min = normalize(cross(np, t_max));
 
-- 
2.43.0


From 4199228a660ff9bc6d6351f96c830b5e7513dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:31 +0000
Subject: [PATCH 16/22] fix: keep the frame of a vertex in its tangent plane

---
 src/tinymesh/ops/features.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 9c76460..2c7f7c1 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -272,6 +272,7 @@ void getCurvatureTensors(const Mesh &mesh, std::vector<EigenMatrix2> &tensors, s
             break;
         }
         vp = normalize(cross(np, up));
+        up = cross(vp, np);
 
         EigenMatrix2 M = EigenMatrix2::Zero();
         double sumWgt = 0.0;
-- 
2.43.0


From 00d359a56a3cc44208d3dafc39cf46f82f00b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:31 +0000
Subject: [PATCH 17/22] fix: declare the curvature tensor function as it is
 defined

---
 src/tinymesh/ops/ops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/ops/ops.h b/src/tinymesh/ops/ops.h
index 1878f22..57ac025 100644
--- a/src/tinymesh/ops/ops.h
+++ b/src/tinymesh/ops/ops.h
@@ -45,7 +45,7 @@ TINYMESH_API EigenMatrix getHeatKernelSignatures(const EigenSparseMatrix &L, int
  * Compute per-vertex curvature tensor (i.e., the 2nd fundamental form)
  */
 TINYMESH_API void getCurvatureTensors(const Mesh &mesh, std::vector<EigenMatrix2> &tensors,
-                                      const std::vector<LocalFrame> &frames);
+                                      std::vector<LocalFrame> &frames);
 
 /**
  * Compute principal curvatures and their directions [Rusinkiewicz 2004]
-- 
2.43.0


From fd815f93d0ea3f427ef58f15f40849a24356916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:15:17 +0000
Subject: [PATCH 18/22] fix: keep the progress bar within its total

Stepping past the total asked for a string of negative length, so a verbose
simplification to an odd number of removed faces ended with an exception.
---
 src/tinymesh/core/progress.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/progress.h b/src/tinymesh/core/progress.h
index 830eacf..4e88a2e 100644
--- a/src/tinymesh/core/progress.h
+++ b/src/tinymesh/core/progress.h
@@ -5,6 +5,7 @@
 #ifndef PROGRESS_H
 #define PROGRESS_H
 
+#include <algorithm>
 #include <iostream>
 #include <iomanip>
 #include <string>
@@ -34,7 +35,7 @@ public:
     }
 
     void step(int n = 1) {
-        m_step += n;
+        m_step = std::min(m_step + n, m_total);
         auto now = std::chrono::system_clock::now();
 
         const double percent = 100.0 * m_step / m_total;
-- 
2.43.0


From db66f2749574b75e1b13bb691477a622892f39c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:15:17 +0000
Subject: [PATCH 19/22] fix: write OBJ coordinates with full precision

The default of six digits moves vertices and can make distinct vertices
coincide, so that the saved mesh cannot be loaded again.
---
 src/tinymesh/core/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index b5f8d4e..c313d1e 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -4,6 +4,8 @@
 #include <cstring>
 #include <iostream>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 #include <set>
 #include <map>
 #include <queue>
@@ -490,6 +492,7 @@ void Mesh::saveOBJ(const std::string &filename) const {
         Error("Failed to open file: %s", filename.c_str());
     }
 
+    writer << std::setprecision(std::numeric_limits<double>::max_digits10);
     for (const auto &v : vertices_) {
         writer << "v " << v->pos().x() << " " << v->pos().y() << " " << v->pos().z() << std::endl;
     }
-- 
2.43.0


From 53065353949a8db0aa4afa1a03aefd8b5d2c568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:15:17 +0000
Subject: [PATCH 20/22] fix: report files that cannot be written when saving

A PLY file that could not be opened, and any file that could not be written
in full, was silently accepted.
---
 src/tinymesh/core/mesh.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index c313d1e..9a12573 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -512,19 +512,21 @@ void Mesh::saveOBJ(const std::string &filename) const {
     }
 
     writer.close();
+    if (writer.fail()) {
+        Error("Failed to write file: %s", filename.c_str());
+    }
 }
 
 void Mesh::savePLY(const std::string &filename) const {
     using namespace tinyply;
 
     std::filebuf buffer;
-    buffer.open(filename.c_str(), std::ios::out | std::ios::binary);
-
-    std::ostream outstream(&buffer);
-    if (outstream.fail()) {
+    if (!buffer.open(filename.c_str(), std::ios::out | std::ios::binary)) {
         Error("Failed to open file: %s", filename.c_str());
     }
 
+    std::ostream outstream(&buffer);
+
     std::vector<float> vertexData(vertices_.size() * 3);
     for (size_t i = 0; i < vertices_.size(); i++) {
         const Vec3 v = vertices_[i]->pos();
@@ -565,6 +567,9 @@ void Mesh::savePLY(const std::string &filename) const {
     plyfile.get_comments().push_back("generated by tinyply 2.2");
 
     plyfile.write(outstream, true);
+    if (outstream.fail() || !buffer.close()) {
+        Error("Failed to write file: %s", filename.c_str());
+    }
 }
 
 bool Mesh::splitHE(Halfedge *he) {
-- 
2.43.0


From 0d56fb8b0a32aac44f5ff94624d56936323e7e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:15:17 +0000
Subject: [PATCH 21/22] fix: reject PLY files without vertices or faces

A missing table led to a null pointer being dereferenced.
---
 src/tinymesh/core/mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 9a12573..73ae4e4 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -450,6 +450,10 @@ void Mesh::loadPLY(const std::string &filename) {
         std::cerr << "tinyply exception: " << e.what() << std::endl;
     }
 
+    if (!vert_data || !face_data) {
+        Error("Vertices or faces are missing in file: %s", filename.c_str());
+    }
+
     // Read vertex data
     file.read(reader);
 
-- 
2.43.0


From 2f5b570abb75346a39b7a3291481d5b128fba5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:15:17 +0000
Subject: [PATCH 22/22] fix: reject files whose faces refer to missing vertices

The loaders read beyond the vertex table.
---
 src/tinymesh/core/mesh.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 73ae4e4..b6b90a6 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -395,6 +395,9 @@ void Mesh::loadOBJ(const std::string &filename) {
         for (const auto &index : shape.mesh.indices) {
             Vec3 v;
             if (index.vertex_index >= 0) {
+                if (index.vertex_index >= (int)(attrib.vertices.size() / 3)) {
+                    Error("Vertex index is out of range: %d", index.vertex_index);
+                }
                 v = Vec3(attrib.vertices[index.vertex_index * 3 + 0], attrib.vertices[index.vertex_index * 3 + 1],
                          attrib.vertices[index.vertex_index * 3 + 2]);
             }
@@ -469,6 +472,9 @@ void Mesh::loadPLY(const std::string &filename) {
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
     for (uint32_t i : raw_indices) {
+        if (i >= numVerts) {
+            Error("Vertex index is out of range: %u", i);
+        }
         const Vec3 pos = Vec3(raw_vertices[i * 3 + 0], raw_vertices[i * 3 + 1], raw_vertices[i * 3 + 2]);
         if (uniqueVertices.count(pos) == 0) {
             uniqueVertices[pos] = static_cast<uint32_t>(vertices_.size());
-- 
2.43.0

