From 079ed5c9f1e397b9e9bc26c2b93e08c352a794e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 01/39] fix: Gaussian elimination (elgs/legs) eliminated the
 pivot row itself

---
 include/ftk/numeric/linear_solver.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ftk/numeric/linear_solver.hh b/include/ftk/numeric/linear_solver.hh
index 619a40a..2db2f4e 100644
--- a/include/ftk/numeric/linear_solver.hh
+++ b/include/ftk/numeric/linear_solver.hh
@@ -161,11 +161,11 @@ void elgs(int n, T **A, int *indx)
     
     // interchange rows
     std::swap(indx[j], indx[k]);
-    for (int i = j; i < n; i ++) {
+    for (int i = j+1; i < n; i ++) {
       pj = A[indx[i]][j] / A[indx[j]][j];
       A[indx[i]][j] = pj;
 
-      for (int k = j; k < n; k ++) 
+      for (int k = j+1; k < n; k ++) 
         A[indx[i]][k] = A[indx[i]][k] - pj * A[indx[j]][k];
     }
   }
@@ -178,13 +178,13 @@ void legs(int n, T **A, T *b, T *x, int *indx)
   elgs(n, A, indx);
 
   for (int i = 0; i < n-1; i ++)
-    for (int j = i; j < n; j ++)
+    for (int j = i+1; j < n; j ++)
       b[indx[j]] = b[indx[j]] - A[indx[j]][i] * b[indx[i]];
 
   x[n-1] = b[indx[n-1]] / A[indx[n-1]][n-1];
   for (int i = n-2; i >= 0; i --) {
     x[i] = b[indx[i]];
-    for (int j = i; j < n; j ++)
+    for (int j = i+1; j < n; j ++)
       x[i] = x[i] - A[indx[i]][j] * x[j];
     x[i] = x[i] / A[indx[i]][i];
   }
-- 
2.43.0


From 0e8d62f48059b49db52c49a0f776e81e10998e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:08 +0000
Subject: [PATCH 02/39] fix: solve_quadratic_real wrote the zero root past the
 announced result

---
 include/ftk/numeric/quadratic_solver.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/quadratic_solver.hh b/include/ftk/numeric/quadratic_solver.hh
index ac42f0e..04e0844 100644
--- a/include/ftk/numeric/quadratic_solver.hh
+++ b/include/ftk/numeric/quadratic_solver.hh
@@ -67,7 +67,7 @@ int solve_quadratic_real(const T P[3], T x[2], const T epsilon)
     return solve_linear_real1(P, x);
   else if (std::abs(P[0]) <= epsilon || std::isinf(P[0]) || std::isnan(P[0])) {
     const int n = solve_linear_real1(P+1, x);
-    x[n+1] = T(0);
+    x[n] = T(0);
     return n+1;
   }
   else {
-- 
2.43.0


From 2b760fa66749fd3b74007addd1d4d8e7c0011dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:08 +0000
Subject: [PATCH 03/39] fix: polynomial_subtraction returned the negated
 difference when deg P < deg Q

---
 include/ftk/numeric/polynomial.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ftk/numeric/polynomial.hh b/include/ftk/numeric/polynomial.hh
index 3a0ec80..cbbeaf0 100644
--- a/include/ftk/numeric/polynomial.hh
+++ b/include/ftk/numeric/polynomial.hh
@@ -82,7 +82,9 @@ void polynomial_subtraction(const T P[], int m, const T Q[], int n, T R[])
       if (i <= n) R[i] = P[i] - Q[i];
       else R[i] = P[i];
   else 
-    polynomial_subtraction(Q, n, P, m, R);
+    for (int i = 0; i <= n; i ++)
+      if (i <= m) R[i] = P[i] - Q[i];
+      else R[i] = -Q[i];
 }
 
 template <typename T>
-- 
2.43.0


From f1f9ead06f8f93ef3e74e64a2cd724e2f29b7299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 04/39] fix: quadratic_interpolation_hessian lacked the factor
 two on the diagonal

---
 include/ftk/numeric/quadratic_interpolation.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/numeric/quadratic_interpolation.hh b/include/ftk/numeric/quadratic_interpolation.hh
index f7e7f9c..d44db84 100644
--- a/include/ftk/numeric/quadratic_interpolation.hh
+++ b/include/ftk/numeric/quadratic_interpolation.hh
@@ -116,8 +116,8 @@ bool quadratic_interpolation_gradient(const T Q[3][3], const T x[3][2], T grad[3
 
 template <typename T>
 bool quadratic_interpolation_hessian(const T Q[3][3], T H[2][2]){
-	H[0][0] = Q[0][0];
-	H[1][1] = Q[1][1];
+	H[0][0] = 2 * Q[0][0];
+	H[1][1] = 2 * Q[1][1];
 	H[0][1] = H[1][0] = Q[0][1] + Q[1][0];
 	return true;
 }
-- 
2.43.0


From a74b2a0aec9e4a0d23523c3ac5113765e00e9067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 05/39] fix: complex_sqrt of a negative real number had a
 spurious real part, so centers were classified as foci

---
 include/ftk/numeric/sqrt.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/sqrt.hh b/include/ftk/numeric/sqrt.hh
index dbd5040..1f41cbc 100644
--- a/include/ftk/numeric/sqrt.hh
+++ b/include/ftk/numeric/sqrt.hh
@@ -10,7 +10,7 @@ template <typename T>
 __device__ __host__
 static std::complex<T> complex_sqrt(const std::complex<T> z)
 {
-  return pow(z, T(1)/T(2));
+  return std::sqrt(z);
 }
 
 }
-- 
2.43.0


From d732d5499729ff5343f58a71871d5df968bfff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:26 +0000
Subject: [PATCH 06/39] fix: solve_eigenvectors2x2 returned NaN for
 eigenvectors along (1, -1)

---
 include/ftk/numeric/eigen_solver2.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ftk/numeric/eigen_solver2.hh b/include/ftk/numeric/eigen_solver2.hh
index 6517d38..2337c80 100644
--- a/include/ftk/numeric/eigen_solver2.hh
+++ b/include/ftk/numeric/eigen_solver2.hh
@@ -77,8 +77,13 @@ inline void solve_eigenvectors2x2(const T M[2][2], int n, const T eig[2], T eigv
     };
     const T b[2] = {-M[0][1], -M[1][1] + eig[i]};
 
-    solve_least_square2x1(a, b, eigvecs[i][0]);
-    eigvecs[i][1] = T(1) - eigvecs[i][0];
+    if (a[0] == T(0) && a[1] == T(0)) { // eigenvector (1, -1), whose components cannot sum up to one
+      eigvecs[i][0] = T(1);
+      eigvecs[i][1] = T(-1);
+    } else {
+      solve_least_square2x1(a, b, eigvecs[i][0]);
+      eigvecs[i][1] = T(1) - eigvecs[i][0];
+    }
     vector_normalization2_2(eigvecs[i]);
   }
 }
-- 
2.43.0


From 5ebebb8a5dc36ccbbab07ffe88aab18ffa41fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:02 +0000
Subject: [PATCH 07/39] fix: basic_interval::set_lower_inf changed the upper
 end of integer intervals

---
 include/ftk/numeric/basic_interval.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/basic_interval.hh b/include/ftk/numeric/basic_interval.hh
index 25a8bc8..93a5b45 100644
--- a/include/ftk/numeric/basic_interval.hh
+++ b/include/ftk/numeric/basic_interval.hh
@@ -36,7 +36,7 @@ struct basic_interval {
     if (std::numeric_limits<T>::has_infinity)
       _lower = -std::numeric_limits<T>::infinity();
     else 
-      _upper = std::numeric_limits<T>::min();
+      _lower = std::numeric_limits<T>::min();
   }
   void set_upper_inf() {
     if (std::numeric_limits<T>::has_infinity)
-- 
2.43.0


From 3b50cab93a0c162a378954f04e643fe5d478b1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:02 +0000
Subject: [PATCH 08/39] fix: basic_interval::contains accepted end points of
 empty intervals

---
 include/ftk/numeric/basic_interval.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ftk/numeric/basic_interval.hh b/include/ftk/numeric/basic_interval.hh
index 93a5b45..6bb020b 100644
--- a/include/ftk/numeric/basic_interval.hh
+++ b/include/ftk/numeric/basic_interval.hh
@@ -136,10 +136,10 @@ struct basic_interval {
   }
 
   bool contains(T x) const {
-    if (singleton()) return x == lower();
-    else if (x == lower() && lower_closed()) return true;
-    else if (x == upper() && upper_closed()) return true;
-    else return x > lower() && x < upper();
+    if (x < lower() || x > upper()) return false;
+    else if (x == lower() && lower_open()) return false;
+    else if (x == upper() && upper_open()) return false;
+    else return true;
     // return x >= lower() && x <= upper();
   }
 
-- 
2.43.0


From 57e58919f8c23b721d2b7e72f67f76bc4696bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:02 +0000
Subject: [PATCH 09/39] fix: basic_interval::join ignored open and closed ends
 of the other interval

---
 include/ftk/numeric/basic_interval.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ftk/numeric/basic_interval.hh b/include/ftk/numeric/basic_interval.hh
index 6bb020b..4465749 100644
--- a/include/ftk/numeric/basic_interval.hh
+++ b/include/ftk/numeric/basic_interval.hh
@@ -163,6 +163,12 @@ struct basic_interval {
     else if (upper() == i.lower() && upper_open() && i.lower_open()) return false;
     else if (lower() == i.upper() && lower_open() && i.upper_open()) return false;
     else {
+      // the joined interval is open at an end only if no operand contains that end
+      if (lower() == i.lower()) _lower_open = lower_open() && i.lower_open();
+      else if (lower() > i.lower()) _lower_open = i.lower_open();
+      if (upper() == i.upper()) _upper_open = upper_open() && i.upper_open();
+      else if (upper() < i.upper()) _upper_open = i.upper_open();
+
       _lower = std::min(lower(), i.lower());
       _upper = std::max(upper(), i.upper());
       return true;
-- 
2.43.0


From 2313b9f61c4756d9d92a7a8229b336e4437b2eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:02 +0000
Subject: [PATCH 10/39] fix: disjoint_intervals::join dropped an adjacent
 interval with the same lower end

---
 include/ftk/numeric/disjoint_intervals.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/ftk/numeric/disjoint_intervals.hh b/include/ftk/numeric/disjoint_intervals.hh
index 88bbc3a..28a210c 100644
--- a/include/ftk/numeric/disjoint_intervals.hh
+++ b/include/ftk/numeric/disjoint_intervals.hh
@@ -93,10 +93,8 @@ struct disjoint_intervals {
 
     for (typename std::set<basic_interval<T> >::iterator it = _subintervals.begin(); 
         it != _subintervals.end(); it ++) {
-      if (it->overlaps(ii)) {
-        ii.join(*it);
+      if (ii.join(*it)) // overlapping or adjacent
         to_erase.push_back(it);
-      }
     }
 
     for (auto it : to_erase)
-- 
2.43.0


From d6b0070efa851020d2af156afd39a4ec8d0e6a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:02 +0000
Subject: [PATCH 11/39] fix: solve_quadratic_rational_inequality_quantized read
 past the denominator's coefficients

---
 include/ftk/numeric/quadratic_rational_inequality_solver.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/quadratic_rational_inequality_solver.hh b/include/ftk/numeric/quadratic_rational_inequality_solver.hh
index 2e386a2..cdd9c3c 100644
--- a/include/ftk/numeric/quadratic_rational_inequality_solver.hh
+++ b/include/ftk/numeric/quadratic_rational_inequality_solver.hh
@@ -20,7 +20,7 @@ solve_quadratic_rational_inequality_quantized(
   if (polynomial_equals_to_zero(P, 2)) {
     I.set_to_complete();
     return std::make_tuple(I, quantized_roots);
-  } else if (polynomial_equals_to_zero(Q, 3)) {
+  } else if (polynomial_equals_to_zero(Q, 2)) {
     I.set_to_empty();
     return std::make_tuple(I, quantized_roots);
   }
-- 
2.43.0


From 9267e3f4f6b4c33a00a9c35300d034aa8576fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:53 +0000
Subject: [PATCH 12/39] fix: regular mesh element numbering overflowed 32 bits
 for more than 2^31 points

---
 include/ftk/mesh/simplicial_regular_mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_regular_mesh.hh b/include/ftk/mesh/simplicial_regular_mesh.hh
index b92d54f..e3edcfe 100644
--- a/include/ftk/mesh/simplicial_regular_mesh.hh
+++ b/include/ftk/mesh/simplicial_regular_mesh.hh
@@ -238,7 +238,7 @@ private:
   const int nd_;
   std::vector<int> lb_, ub_; // lower and upper bounds of each dimension
   std::vector<int> ntypes_, ntypes_ordinal_, ntypes_interval_; // number of types for k-simplex
-  std::vector<int> dimprod_;
+  std::vector<size_t> dimprod_; // products of extents; may exceed 32 bits
 
   struct lattice lattice_; 
 
-- 
2.43.0


From 5b7f13f93de32813949b79a0dce9290b77d5bd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 13/39] fix: extruded meshes computed wrong element and vertex
 numbers for negative time slabs

---
 include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh | 4 ++--
 include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh
index bdfdacc..c748dfa 100644
--- a/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh
@@ -20,7 +20,7 @@ struct simplicial_unstructured_extruded_2d_mesh : public object {
   }
 
   I flat_vertex_id(I i, bool part=false) const { return mod(i, m2->n(0, part)); }
-  I flat_vertex_time(I i, bool part=false) const { return i / m2->n(0, part); }
+  I flat_vertex_time(I i, bool part=false) const { return std::floor((double)i / m2->n(0, part)); }
   I extruded_vertex_id(I i, bool t=true, bool part=false) { return t ? i + m2->n(0, part) : i; }
 
   virtual int get_triangle_chi(I i) const;
@@ -64,7 +64,7 @@ template <typename I, typename F>
 I simplicial_unstructured_extruded_2d_mesh<I, F>::mod(I v, I m)
 {
   I mod = v % m;
-  if (v < 0) mod += m;
+  if (mod < 0) mod += m;
   return mod;
 }
 
diff --git a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
index 0e2041a..261862f 100644
--- a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
@@ -67,7 +67,7 @@ template <typename I, typename F>
 I simplicial_unstructured_extruded_3d_mesh<I, F>::mod(I v, I m)
 {
   I mod = v % m;
-  if (v < 0) mod += m;
+  if (mod < 0) mod += m;
   return mod;
 }
 
-- 
2.43.0


From eb02b015a84a037e7c38062e6de20cbf45e553c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:02 +0000
Subject: [PATCH 14/39] fix: triangle meshes built from vectors had no edges

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index ed5ffb3..8757e0e 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -270,6 +270,8 @@ simplicial_unstructured_2d_mesh<I, F>::simplicial_unstructured_2d_mesh(const std
   triangles.reshape({3, triangles_.size()/3});
 
   build_triangles();
+  build_edges();
+  build_partition();
 }
 
 template <typename I, typename F>
-- 
2.43.0


From 6952cac307aa84e0d2c710f3b786191b4b33e81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 15/39] fix: ndarray::from_index used an empty lattice

---
 include/ftk/ndarray/ndarray_base.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray/ndarray_base.hh b/include/ftk/ndarray/ndarray_base.hh
index 26780f9..d37a34b 100644
--- a/include/ftk/ndarray/ndarray_base.hh
+++ b/include/ftk/ndarray/ndarray_base.hh
@@ -95,7 +95,7 @@ struct ndarray_base {
   size_t index(const size_t idx[]) const;
   
   template <typename uint=size_t>
-  std::vector<uint> from_index(uint i) const {return lattice().from_integer(i);}
+  std::vector<uint> from_index(uint i) const {const auto idx = get_lattice().from_integer(i); return std::vector<uint>(idx.begin(), idx.end());}
 
   lattice get_lattice() const;
 
-- 
2.43.0


From d1e45e9ff401263a44a8c737375272bbd221f779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 16/39] fix: ndarray::nelem overflowed for 2^31 elements or
 more

---
 include/ftk/ndarray/ndarray_base.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray/ndarray_base.hh b/include/ftk/ndarray/ndarray_base.hh
index d37a34b..e371360 100644
--- a/include/ftk/ndarray/ndarray_base.hh
+++ b/include/ftk/ndarray/ndarray_base.hh
@@ -78,7 +78,7 @@ struct ndarray_base {
   size_t dim(size_t i) const {return dims[i];}
   size_t shape(size_t i) const {return dim(i);}
   const std::vector<size_t> &shape() const {return dims;}
-  size_t nelem() const { if (empty()) return 0; else return std::accumulate(dims.begin(), dims.end(), 1, std::multiplies<size_t>()); }
+  size_t nelem() const { if (empty()) return 0; else return std::accumulate(dims.begin(), dims.end(), size_t(1), std::multiplies<size_t>()); }
   virtual size_t elem_size() const = 0;
  
   virtual const void* pdata() const = 0;
-- 
2.43.0


From 25a555d631763cbc48f3aee9e309f19a801a9547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 17/39] fix: ndarray::min_max returned a wrong maximum for
 negative floating-point arrays

---
 include/ftk/ndarray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 2049a03..647ee8f 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -746,7 +746,7 @@ void ndarray<T>::reshape(const std::vector<size_t> &dims, T val)
 template <typename T>
 std::tuple<T, T> ndarray<T>::min_max() const {
   T min = std::numeric_limits<T>::max(), 
-    max = std::numeric_limits<T>::min();
+    max = std::numeric_limits<T>::lowest();
 
   for (size_t i = 0; i < nelem(); i ++) {
     min = std::min(min, at(i));
-- 
2.43.0


From 95d9460bda49fe8370b9266fd57f09d9fee2a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 18/39] fix: ndarray::subarray of multicomponent arrays mixed
 up two vectors

---
 include/ftk/ndarray.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 647ee8f..020108a 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -454,11 +454,11 @@ template <typename T>
 ndarray<T> ndarray<T>::subarray(const lattice& l0) const
 {
   lattice l(l0);
-  if (l0.nd_cuttable() < nd()) {
-    for (int i = 0; i < ncd; i ++) {
-      l.starts_.insert(l.starts_.begin(), 0);
-      l.sizes_.insert(l.starts_.begin(), this->shape(i));
-    }
+  if (l0.nd() < nd()) { // prepend the component dimensions
+    std::vector<size_t> starts(ncd, 0), sizes(dims.begin(), dims.begin() + ncd);
+    starts.insert(starts.end(), l0.starts().begin(), l0.starts().end());
+    sizes.insert(sizes.end(), l0.sizes().begin(), l0.sizes().end());
+    l.reshape(starts, sizes);
   }
 
   ndarray<T> arr(l.sizes());
-- 
2.43.0


From 27c47817f8b6a24f2d331bc9f2e3679f3ca96dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 19/39] fix: jacobian2D computed wrong differences and
 misplaced the off-diagonal entries

---
 include/ftk/ndarray/grad.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ftk/ndarray/grad.hh b/include/ftk/ndarray/grad.hh
index dfe5235..06682db 100644
--- a/include/ftk/ndarray/grad.hh
+++ b/include/ftk/ndarray/grad.hh
@@ -67,18 +67,18 @@ ndarray<T> jacobian2D(const ndarray<T>& vec)
 #pragma omp parallel for collapse(2)
   for (int j = 0; j < DH; j ++) {
     for (int i = 0; i < DW; i ++) {
-      const T H00 = f(0, i+1, j) - f(0, i-1, j) * (DW-1),
-              H01 = f(0, i, j+1) - f(0, i, j-1) * (DH-1),
-              H10 = f(1, i+1, j) - f(1, i-1, j) * (DW-1), 
-              H11 = f(1, i, j+1) - f(1, i, j-1) * (DH-1);
+      const T H00 = (f(0, i+1, j) - f(0, i-1, j)) * (DW-1),
+              H01 = (f(0, i, j+1) - f(0, i, j-1)) * (DH-1),
+              H10 = (f(1, i+1, j) - f(1, i-1, j)) * (DW-1), 
+              H11 = (f(1, i, j+1) - f(1, i, j-1)) * (DH-1);
 
       grad(0, 0, i, j) = H00;
       grad(1, 1, i, j) = H11;
       if (symmetric)
         grad(0, 1, i, j) = grad(1, 0, i, j) = (H01 + H10) * 0.5;
       else {
-        grad(0, 1) = H01;
-        grad(1, 0) = H10;
+        grad(0, 1, i, j) = H01;
+        grad(1, 0, i, j) = H10;
       }
     }
   }
-- 
2.43.0


From 60a6605aa8b624e79e5955e88a793d110115291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 20/39] fix: jacobian3Dt ignored the time index and read
 outside the array

---
 include/ftk/ndarray/grad.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ftk/ndarray/grad.hh b/include/ftk/ndarray/grad.hh
index 06682db..70bf429 100644
--- a/include/ftk/ndarray/grad.hh
+++ b/include/ftk/ndarray/grad.hh
@@ -221,14 +221,14 @@ ndarray<T> jacobian3Dt(const ndarray<T>& V)
 
 #pragma omp parallel for collapse(4)
   for (int t = 0; t < DT; t ++) {
-    for (int k = 0; k < DD-2; k ++) {
+    for (int k = 2; k < DD-2; k ++) {
       for (int j = 2; j < DH-2; j ++) {
         for (int i = 2; i < DW-2; i ++) {
           const float H00 = J(0, 0, i, j, k, t) = // ddf/dx2
             0.5 * (V(0, i+1, j, k, t) - V(0, i-1, j, k, t));
-          const float H01 = J(0, 1, i, j, k) = // ddf/dxdy
+          const float H01 = J(0, 1, i, j, k, t) = // ddf/dxdy
             0.5 * (V(0, i, j+1, k, t) - V(0, i, j-1, k, t));
-          const float H02 = J(0, 2, i, j, k) = // ddf/dxdz
+          const float H02 = J(0, 2, i, j, k, t) = // ddf/dxdz
             0.5 * (V(0, i, j, k+1, t) - V(0, i, j, k-1, t));
 
           const float H10 = J(1, 0, i, j, k, t) = // ddf/dydx
-- 
2.43.0


From 6a0ab23f6992903affa25ccd66fbaf751bf437af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 21/39] fix: vector_gradient of triangle meshes overwrote the
 second component

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index 8757e0e..33d9515 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -671,7 +671,7 @@ ndarray<F> simplicial_unstructured_2d_mesh<I, F>::vector_gradient(const ndarray<
 
     for (int c = 0; c < vector.dim(0); c ++) {
       grad(0, c, i) = grad(0, c, i) / ntris;
-      grad(1, c, i) = grad(0, c, i) / ntris;
+      grad(1, c, i) = grad(1, c, i) / ntris;
     }
   }
   
-- 
2.43.0


From 551a20be829c78ff70c63ab0755992214e19a826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:24 +0000
Subject: [PATCH 22/39] fix: division of an array by a scalar was declared as a
 friend template that is never defined, so it did not link

---
 include/ftk/ndarray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 020108a..b24732a 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -158,7 +158,7 @@ struct ndarray : public ndarray_base {
 
   // template <typename T1> friend ndarray<T> operator*(const ndarray<T>& lhs, const T1& rhs);
   template <typename T1> friend ndarray<T> operator*(const T1& lhs, const ndarray<T>& rhs) {return rhs * lhs;}
-  template <typename T1> friend ndarray<T> operator/(const ndarray<T>& lhs, const T1& rhs);
+  // template <typename T1> friend ndarray<T> operator/(const ndarray<T>& lhs, const T1& rhs);
 
   // element access
   T& operator[](size_t i) {return p[i];}
-- 
2.43.0


From c799daa46bd9266233cc0028e29e9cd4fe9137f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:07 +0000
Subject: [PATCH 23/39] fix: gcd returned a negative divisor for some negative
 operands, leaving rational numbers with a negative denominator

---
 include/ftk/numeric/gcd.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/numeric/gcd.hh b/include/ftk/numeric/gcd.hh
index 590b917..e8ea4a8 100644
--- a/include/ftk/numeric/gcd.hh
+++ b/include/ftk/numeric/gcd.hh
@@ -8,9 +8,9 @@ namespace ftk {
 template <typename I>
 __device__ __host__ I gcd(I a, I b) {
   while (true) {
-    if (a == I(0)) return b;
+    if (a == I(0)) return b < I(0) ? -b : b;
     b %= a;
-    if (b == I(0)) return a;
+    if (b == I(0)) return a < I(0) ? -a : a;
     a %= b;
   }
 }
-- 
2.43.0


From 83b6701f5ddfce8046a09e01abe9418de6b6ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:07 +0000
Subject: [PATCH 24/39] fix: sum and difference of rational numbers ignored the
 first operand

---
 include/ftk/numeric/rational_number.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/numeric/rational_number.hh b/include/ftk/numeric/rational_number.hh
index 2a3917c..d81a01d 100644
--- a/include/ftk/numeric/rational_number.hh
+++ b/include/ftk/numeric/rational_number.hh
@@ -165,12 +165,12 @@ private:
 // Unary operators
 template <typename I> __device__ __host__ rational<I> 
 operator+ (const rational<I>& a, const rational<I> &b) {
-  rational<I> t(b);
+  rational<I> t(a);
   return t += b;
 }
 template <typename I> __device__ __host__ rational<I> 
 operator- (const rational<I>& a, const rational<I> &b) {
-  rational<I> t(b);
+  rational<I> t(a);
   return t -= b;
 }
 
-- 
2.43.0


From 0410a8a20698e377152785c9445adb8ba7ad4102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:07 +0000
Subject: [PATCH 25/39] fix: rational numbers were not reduced on construction,
 and assignments returned nothing

---
 include/ftk/numeric/rational_number.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ftk/numeric/rational_number.hh b/include/ftk/numeric/rational_number.hh
index d81a01d..5089e90 100644
--- a/include/ftk/numeric/rational_number.hh
+++ b/include/ftk/numeric/rational_number.hh
@@ -16,12 +16,12 @@ class rational
 public:
   __device__ __host__ rational() : num(0), den(1) {} // zero
   __device__ __host__ rational(I n) : num(n), den(1) {} // n/1
-  __device__ __host__ rational(I n, I d) : num(n), den(d) {} // n/d
+  __device__ __host__ rational(I n, I d) : num(n), den(d) {normalize();} // n/d
   template <typename J> __device__ __host__
   rational(const rational<J>& r);
 
-  __device__ __host__ rational& operator=(I n) {num = n; den = 1;}
-  __device__ __host__ rational& assign(I n, I d) {num = n; den = d;}
+  __device__ __host__ rational& operator=(I n) {num = n; den = 1; return *this;}
+  __device__ __host__ rational& assign(I n, I d) {num = n; den = d; normalize(); return *this;}
 
   __device__ __host__ I numerator() const {return num;}
   __device__ __host__ I denominator() const {return den;}
-- 
2.43.0


From 3a679abf54bfe34d85fd07c9fc46fa2f734fa4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:07 +0000
Subject: [PATCH 26/39] fix: fixed-point quotient was divided by the scale
 twice

---
 include/ftk/numeric/fixed_point.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/fixed_point.hh b/include/ftk/numeric/fixed_point.hh
index 9d1a0c0..c4a110b 100644
--- a/include/ftk/numeric/fixed_point.hh
+++ b/include/ftk/numeric/fixed_point.hh
@@ -38,7 +38,7 @@ struct fixed_point {
     return *this;
   }
   fixed_point& __device__ __host__ operator/=(const fixed_point& x) {
-    num = num / x.num / factor;
+    num = (num * factor) / x.num;
     return *this;
   }
 
-- 
2.43.0


From 5ca23d908aac81a673a578a747bbbfb9321ed980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:07 +0000
Subject: [PATCH 27/39] fix: spherical stepping of a particle at rest gave NaN

---
 include/ftk/numeric/quaternion.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ftk/numeric/quaternion.hh b/include/ftk/numeric/quaternion.hh
index a6f3cbb..603e1fc 100644
--- a/include/ftk/numeric/quaternion.hh
+++ b/include/ftk/numeric/quaternion.hh
@@ -33,7 +33,10 @@ void axis_rotate_vector(
     T x1[3])
 {
   T axis[3];
-  vector_normalization2<3, T>(axis_, axis);
+  if (vector_normalization2<3, T>(axis_, axis) == T(0)) { // no axis, no rotation
+    x1[0] = x[0]; x1[1] = x[1]; x1[2] = x[2];
+    return;
+  }
 
   const T c = std::cos(theta / 2), 
           s = std::sin(theta / 2);
-- 
2.43.0


From b13987b4aa5498f0744796f4ef86dc4d718e48a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:38 +0000
Subject: [PATCH 28/39] fix: layer bisection did not terminate for a depth that
 is not a number

---
 include/ftk/numeric/mpas.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/mpas.hh b/include/ftk/numeric/mpas.hh
index ec720b5..59162a0 100644
--- a/include/ftk/numeric/mpas.hh
+++ b/include/ftk/numeric/mpas.hh
@@ -52,7 +52,7 @@ inline int locate_mpas_layer_bisection(const int nlayers, const F zTop[], const
   int i0 = 0, i1 = nlayers-1;
   // fprintf(stderr, "z=%f, zTop_i0=%f, zTop_i1=%f\n", z, zTop[i0], zTop[i1]);
 
-  if (z > zTop[i0] || z <= zTop[i1])
+  if (!(z <= zTop[i0] && z > zTop[i1])) // also if z is not a number
     return -1;
 
 #if 0
-- 
2.43.0


From 4411f4a42ea1ed5edfbe142ec3c3edaf2ee6ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:31 +0000
Subject: [PATCH 29/39] fix: raster labelling wrote behind the label table for
 images with many components

---
 include/ftk/algorithms/hoshen_kopelman.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/algorithms/hoshen_kopelman.hh b/include/ftk/algorithms/hoshen_kopelman.hh
index 727308b..5be75bd 100644
--- a/include/ftk/algorithms/hoshen_kopelman.hh
+++ b/include/ftk/algorithms/hoshen_kopelman.hh
@@ -12,7 +12,7 @@ LabelIdType hoshen_kopelman_2d(ndarray<LabelIdType>& matrix)
   LabelIdType largest_label = 0;
 
   if (matrix.nd() != 2) return 0;
-  std::vector<LabelIdType> labels(matrix.nelem() / 2);
+  std::vector<LabelIdType> labels(matrix.nelem() / 2 + 2); // at most ceil(n/2) labels, plus the counter labels[0]
 
   auto make_set = [&]() {
     labels[0] ++;
-- 
2.43.0


From 27f37fdc2ff3c5ea6c1120e103ac6e89196bfee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:31 +0000
Subject: [PATCH 30/39] fix: a curve of two nodes was flagged as a loop

---
 include/ftk/geometry/cc2curves.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/geometry/cc2curves.hh b/include/ftk/geometry/cc2curves.hh
index 40c9bf4..ebf1d2b 100644
--- a/include/ftk/geometry/cc2curves.hh
+++ b/include/ftk/geometry/cc2curves.hh
@@ -114,7 +114,7 @@ template <typename NodeType>
 bool is_loop(const std::vector<NodeType>& linear_graph, std::function<std::set<NodeType>(NodeType)> neighbors)
 {
   if (linear_graph.size() == 0) return false;
-  else if (linear_graph.size() == 1) return false; // true;
+  else if (linear_graph.size() <= 2) return false; // two linked nodes are a path
   else {
     const auto front_neighbors = neighbors(linear_graph.front());
     return front_neighbors.find(linear_graph.back()) != front_neighbors.end();
-- 
2.43.0


From 6e7aa8284ff1402c5f7344d0df5d97b8e0142b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:31 +0000
Subject: [PATCH 31/39] fix: shortest-path search did not terminate if the
 destination is unreachable

---
 include/ftk/algorithms/dijkstra.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ftk/algorithms/dijkstra.hh b/include/ftk/algorithms/dijkstra.hh
index bf812dd..696f687 100644
--- a/include/ftk/algorithms/dijkstra.hh
+++ b/include/ftk/algorithms/dijkstra.hh
@@ -25,13 +25,17 @@ dijkstra(
 
   while (1) {
     Node u; // vertex in Q w/ min dist[u]
+    bool found = false;
     T mindist = std::numeric_limits<T>::max();
     for (const auto &kv : dist)
       if (visited.find(kv.first) == visited.end() && kv.second < mindist) {
         mindist = kv.second;
         u = kv.first;
+        found = true;
       }
 
+    if (!found) return std::vector<Node>(); // dst is not reachable
+
     visited.insert(u);
     // fprintf(stderr, "erasing %d, mindist=%f, #Q=%zu\n", u, mindist, Q.size());
     if (u == dst) break;
-- 
2.43.0


From 4bf182ec4283151277bade78b14ec5b95d0d8375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:31 +0000
Subject: [PATCH 32/39] fix: concurrent unions could drop each other: the roots
 were looked up before taking the lock

---
 include/ftk/basic/duf.hh | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/ftk/basic/duf.hh b/include/ftk/basic/duf.hh
index e3c4359..936039c 100644
--- a/include/ftk/basic/duf.hh
+++ b/include/ftk/basic/duf.hh
@@ -23,6 +23,9 @@ struct duf {
 
   std::set<T, Compare> get_roots() const;
 
+private:
+  T find_unlocked(T) const; // the caller holds the mutex
+
 private:
   mutable std::map<T, T, Compare> parents; // parents in the local process
   mutable std::mutex mutex;
@@ -41,24 +44,28 @@ bool duf<T, Compare>::has(T i) const
 template <typename T, class Compare>
 void duf<T, Compare>::unite(T i, T j)
 {
-  i = find(i); // i <-- root(i)
-  j = find(j); // j <-- root(j)
+  // the roots must not change before they are linked
+  std::lock_guard<std::mutex> guard(mutex);
+
+  i = find_unlocked(i); // i <-- root(i)
+  j = find_unlocked(j); // j <-- root(j)
   
   if (i == j) return;
   if (i > j) std::swap(i, j); // ensure i<j
 
-  // critical section
-  {
-    std::lock_guard<std::mutex> guard(mutex);
-    parents[j] = i; 
-  }
+  parents[j] = i; 
 }
 
 template <typename T, class Compare>
 T duf<T, Compare>::find(T i) const
 {
   std::lock_guard<std::mutex> guard(mutex);
-  
+  return find_unlocked(i);
+}
+
+template <typename T, class Compare>
+T duf<T, Compare>::find_unlocked(T i) const
+{
   if (parents.find(i) == parents.end()) { // if i does not exist, insert i to the graph and return i as the root
     parents.insert({i, i}); // parents[i] = i;
     return i;
-- 
2.43.0


From 5d2068c7d63ce50b87bb5cd12ddc883438320b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:00 +0000
Subject: [PATCH 33/39] fix: splitting a trajectory by type dropped the first
 point of every new type

---
 include/ftk/features/feature_curve.hh | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index 57b395c..5fdbca0 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -221,16 +221,12 @@ inline std::vector<feature_curve_t> feature_curve_t::split() const
 {
   std::vector<feature_curve_t> results;
   feature_curve_t subtraj;
-  unsigned int current_type;
+  subtraj.id = this->id;
 
   for (auto i = 0; i < size(); i ++) {
-    if (subtraj.empty())
-      current_type = at(i).type;
-
-    if (at(i).type == current_type)
-      subtraj.push_back(at(i));
+    subtraj.push_back(at(i));
 
-    if (at(i).type != current_type || i == size() - 1) {
+    if (i == size() - 1 || at(i).type != at(i+1).type) {
       if (subtraj.size() > 0) {
         subtraj.update_statistics();
         results.push_back(subtraj);
-- 
2.43.0


From 99ff84fbb4e6c03834527f0efd018e793b5e2db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:00 +0000
Subject: [PATCH 34/39] fix: serialized trajectories lost their id, loop flag
 and speed range

---
 include/ftk/features/feature_curve.hh | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index 5fdbca0..8fc0f14 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -434,6 +434,8 @@ namespace nlohmann
     static void to_json(json &j, const feature_curve_t& t) {
       j = {
         {"id", t.id},
+        {"complete", t.complete},
+        {"loop", t.loop},
         {"max", t.max},
         {"min", t.min},
         {"persistence", t.persistence},
@@ -441,6 +443,8 @@ namespace nlohmann
         {"bbmax", t.bbmax},
         {"tmin", t.tmin},
         {"tmax", t.tmax},
+        {"vmmin", t.vmmin},
+        {"vmmax", t.vmmax},
         {"consistent_type", t.consistent_type},
         {"traj", static_cast<std::vector<feature_point_t>>(t)}
       };
@@ -448,6 +452,8 @@ namespace nlohmann
 
     static void from_json(const json&j, feature_curve_t& t) {
       t.id = j["id"];
+      if (j.contains("complete")) t.complete = j["complete"];
+      if (j.contains("loop")) t.loop = j["loop"];
       t.max = j["max"];
       t.min = j["min"];
       t.persistence = j["persistence"];
@@ -455,6 +461,8 @@ namespace nlohmann
       t.bbmax = j["bbmax"];
       t.tmin = j["tmin"];
       t.tmax = j["tmax"];
+      if (j.contains("vmmin")) t.vmmin = j["vmmin"];
+      if (j.contains("vmmax")) t.vmmax = j["vmmax"];
       t.consistent_type = j["consistent_type"];
       std::vector<feature_point_t> traj = j["traj"];
       t.clear();
@@ -467,7 +475,9 @@ namespace nlohmann
 namespace diy {
   template <> struct Serialization<ftk::feature_curve_t> {
     static void save(diy::BinaryBuffer& bb, const ftk::feature_curve_t &t) {
+      diy::save(bb, t.id);
       diy::save(bb, t.complete);
+      diy::save(bb, t.loop);
       diy::save(bb, t.max);
       diy::save(bb, t.min);
       diy::save(bb, t.persistence);
@@ -475,6 +485,8 @@ namespace diy {
       diy::save(bb, t.bbmax);
       diy::save(bb, t.tmin);
       diy::save(bb, t.tmax);
+      diy::save(bb, t.vmmin);
+      diy::save(bb, t.vmmax);
       diy::save(bb, t.consistent_type);
       diy::save(bb, t.size());
       for (auto i = 0; i < t.size(); i ++)
@@ -483,7 +495,9 @@ namespace diy {
     }
     
     static void load(diy::BinaryBuffer& bb, ftk::feature_curve_t &t) {
+      diy::load(bb, t.id);
       diy::load(bb, t.complete);
+      diy::load(bb, t.loop);
       diy::load(bb, t.max);
       diy::load(bb, t.min);
       diy::load(bb, t.persistence);
@@ -491,6 +505,8 @@ namespace diy {
       diy::load(bb, t.bbmax);
       diy::load(bb, t.tmin);
       diy::load(bb, t.tmax);
+      diy::load(bb, t.vmmin);
+      diy::load(bb, t.vmmax);
       diy::load(bb, t.consistent_type);
       size_t s;
       diy::load(bb, s);
-- 
2.43.0


From edaef3cffbda8f37c9929cf05985039b0bb3484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:00 +0000
Subject: [PATCH 35/39] fix: unwrapping an empty trajectory threw an exception

---
 include/ftk/features/feature_curve.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index 8fc0f14..350f70f 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -368,6 +368,8 @@ inline feature_curve_t feature_curve_t::intercept(int t0, int t1) const //! assu
   
 template <int k> void feature_curve_t::unwrap(const double period)
 {
+  if (empty()) return;
+
   for (int i = 0; i < size()-1; i ++) {
     const double delta = at(i+1).x[k] - at(i).x[k];
     if (delta >= period/2) {
-- 
2.43.0


From 4a1dbdc346eb033f6e23b50653e17d96e6dfa320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 36/39] fix: has_node and has_edge of tracking graphs did not
 compile

---
 include/ftk/tracking_graph/tracking_graph.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ftk/tracking_graph/tracking_graph.hh b/include/ftk/tracking_graph/tracking_graph.hh
index 0d65859..afce440 100644
--- a/include/ftk/tracking_graph/tracking_graph.hh
+++ b/include/ftk/tracking_graph/tracking_graph.hh
@@ -94,7 +94,8 @@ template <class TimeIndexType, class LabelIdType, class GlobalLabelIdType, class
 bool tracking_graph<TimeIndexType, LabelIdType, GlobalLabelIdType, WeightType>::has_node(TimeIndexType t, LabelIdType l) const 
 {
   std::unique_lock<std::mutex> lock(mutex);
-  return nodes.find(std::make_pair(t, l)) != nodes.end();
+  auto it = nodes.find(t);
+  return it != nodes.end() && it->second.find(std::make_pair(t, l)) != it->second.end();
 }
   
 template <class TimeIndexType, class LabelIdType, class GlobalLabelIdType, class WeightType>
@@ -105,7 +106,7 @@ bool tracking_graph<TimeIndexType, LabelIdType, GlobalLabelIdType, WeightType>::
   auto it = right_links.find(std::make_pair(t0, l0)); 
   if (it == right_links.end()) 
     return false;
-  else if (it->find(std::make_pair(t1, l1)) == it->end())
+  else if (it->second.find(std::make_pair(t1, l1)) == it->second.end())
     return false;
   else return true;
 }
-- 
2.43.0


From 874d4ded663b2a2ce0062e05a116303b8db00d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 37/39] fix: relabelling joined the branches of merges and
 splits

---
 include/ftk/tracking_graph/tracking_graph.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ftk/tracking_graph/tracking_graph.hh b/include/ftk/tracking_graph/tracking_graph.hh
index afce440..7a2c503 100644
--- a/include/ftk/tracking_graph/tracking_graph.hh
+++ b/include/ftk/tracking_graph/tracking_graph.hh
@@ -144,9 +144,10 @@ void tracking_graph<TimeIndexType, LabelIdType, GlobalLabelIdType, WeightType>::
   auto components = extract_connected_components<Node, std::set<Node> >(
       [this](Node n) {
         std::set<Node> neighbors;
-        if (left_links[n].size() == 1) // nodes need to be simply connected
+        // nodes need to be simply connected, seen from both sides
+        if (left_links[n].size() == 1 && right_links[*left_links[n].begin()].size() == 1)
           neighbors.insert(left_links[n].begin(), left_links[n].end());
-        if (right_links[n].size() == 1)
+        if (right_links[n].size() == 1 && left_links[*right_links[n].begin()].size() == 1)
           neighbors.insert(right_links[n].begin(), right_links[n].end());
         return neighbors;
       }, allNodes);
-- 
2.43.0


From 20a30a2b57f8c12dd1df8990a70d38d4d65346df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:40 +0000
Subject: [PATCH 38/39] fix: all-to-all exchange received everything at wrong
 offsets

---
 include/ftk/utils/all2all.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/utils/all2all.hh b/include/ftk/utils/all2all.hh
index b765a60..8f52811 100644
--- a/include/ftk/utils/all2all.hh
+++ b/include/ftk/utils/all2all.hh
@@ -37,7 +37,7 @@ inline void all2all(const communicator& comm, const std::vector<Map>& ins, Map &
 
   std::vector<int> recvcounts(np), rdispls(np);
   for (int i = 0; i < np; i ++) {
-    rdispls[i] = recvcounts[i];
+    rdispls[i] = (i == 0) ? 0 : (rdispls[i-1] + recvcounts[i-1]);
     recvcounts[i] = allcounts[i*np+rank];
   }
 
-- 
2.43.0


From 02b469cb81ccaa0ec29f33d6dca2f89865f3c4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:40 +0000
Subject: [PATCH 39/39] fix: all-to-all exchange delivered nothing in builds
 without MPI

---
 include/ftk/utils/all2all.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ftk/utils/all2all.hh b/include/ftk/utils/all2all.hh
index 8f52811..2fd5efb 100644
--- a/include/ftk/utils/all2all.hh
+++ b/include/ftk/utils/all2all.hh
@@ -57,6 +57,8 @@ inline void all2all(const communicator& comm, const std::vector<Map>& ins, Map &
     for (const auto &kv : map)
       out.insert(kv);
   }
+#else
+  out = ins[0];
 #endif
 }
 
-- 
2.43.0

