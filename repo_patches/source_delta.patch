From 62b11cae314ddf34926ae520f12e19554ba23917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 01/71] fix: MLPPVector::cos() computed the square root

---
 core/mlpp_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 195479d..90e2435 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -1029,7 +1029,7 @@ void MLPPVector::cos() {
 	real_t *out_ptr = ptrw();
 
 	for (int i = 0; i < _size; ++i) {
-		out_ptr[i] = Math::sqrt(out_ptr[i]);
+		out_ptr[i] = Math::cos(out_ptr[i]);
 	}
 }
 Ref<MLPPVector> MLPPVector::cosn() const {
-- 
2.43.0


From 9103e37e0837b2c6e84a2d952bb33d35453578e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 02/71] fix: MLPPVector::division_element_wise() wrote through
 an empty temporary

---
 core/mlpp_vector.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 90e2435..c87084b 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -419,17 +419,13 @@ void MLPPVector::hadamard_productb(const Ref<MLPPVector> &a, const Ref<MLPPVecto
 void MLPPVector::division_element_wise(const Ref<MLPPVector> &b) {
 	ERR_FAIL_COND(!b.is_valid());
 
-	Ref<MLPPVector> out;
-	out.instance();
-
 	ERR_FAIL_COND(_size != b->size());
 
-	const real_t *a_ptr = ptr();
 	const real_t *b_ptr = b->ptr();
-	real_t *out_ptr = out->ptrw();
+	real_t *out_ptr = ptrw();
 
 	for (int i = 0; i < _size; ++i) {
-		out_ptr[i] = a_ptr[i] / b_ptr[i];
+		out_ptr[i] = out_ptr[i] / b_ptr[i];
 	}
 }
 
-- 
2.43.0


From 83dd4ad714343ae33dcf6faaf5b82b4a8f15e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 03/71] fix: MLPPVector::scalar_multiplyb() dereferenced a null
 operand

---
 core/mlpp_vector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index c87084b..1615609 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -490,6 +490,8 @@ Ref<MLPPVector> MLPPVector::scalar_multiplyn(real_t scalar) const {
 	return out;
 }
 void MLPPVector::scalar_multiplyb(real_t scalar, const Ref<MLPPVector> &a) {
+	ERR_FAIL_COND(!a.is_valid());
+
 	int s = a->size();
 
 	if (unlikely(size() != s)) {
-- 
2.43.0


From 6024864c6c521d37f2266828012b936219bf7a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 04/71] fix: MLPPMatrix::scalar_multiplyb()/scalar_addb()
 ignored their operand

---
 core/mlpp_matrix.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 31ac48b..3708285 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1194,10 +1194,10 @@ void MLPPMatrix::scalar_multiplyb(const real_t scalar, const Ref<MLPPMatrix> &A)
 	}
 
 	int ds = data_size();
-	real_t *an_ptr = ptrw();
+	const real_t *a_ptr = A->ptr();
 
 	for (int i = 0; i < ds; ++i) {
-		_data[i] = an_ptr[i] * scalar;
+		_data[i] = a_ptr[i] * scalar;
 	}
 }
 
@@ -1227,10 +1227,10 @@ void MLPPMatrix::scalar_addb(const real_t scalar, const Ref<MLPPMatrix> &A) {
 	}
 
 	int ds = data_size();
-	real_t *an_ptr = ptrw();
+	const real_t *a_ptr = A->ptr();
 
 	for (int i = 0; i < ds; ++i) {
-		_data[i] = an_ptr[i] + scalar;
+		_data[i] = a_ptr[i] + scalar;
 	}
 }
 
-- 
2.43.0


From cabb489ae3173e9dfec2c16506bf33acd5071ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 05/71] fix: MLPPMatrix::mult()/multb() zeroed an operand that
 is also the target

---
 core/mlpp_matrix.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 3708285..cb62dd2 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -778,6 +778,11 @@ void MLPPMatrix::subb(const Ref<MLPPMatrix> &A, const Ref<MLPPMatrix> &B) {
 void MLPPMatrix::mult(const Ref<MLPPMatrix> &B) {
 	ERR_FAIL_COND(!B.is_valid());
 
+	if (unlikely(B.ptr() == this)) {
+		set_from_mlpp_matrix(multn(B));
+		return;
+	}
+
 	Size2i b_size = B->size();
 
 	ERR_FAIL_COND(_size.x != b_size.y);
@@ -846,6 +851,11 @@ Ref<MLPPMatrix> MLPPMatrix::multn(const Ref<MLPPMatrix> &B) const {
 void MLPPMatrix::multb(const Ref<MLPPMatrix> &A, const Ref<MLPPMatrix> &B) {
 	ERR_FAIL_COND(!A.is_valid() || !B.is_valid());
 
+	if (unlikely(A.ptr() == this || B.ptr() == this)) {
+		set_from_mlpp_matrix(A->multn(B));
+		return;
+	}
+
 	Size2i a_size = A->size();
 	Size2i b_size = B->size();
 
-- 
2.43.0


From 2f5b8994f5174e71585bc830449eb605ddac2d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 06/71] fix: MLPPMatrix::transposeb() overwrote its operand
 while reading it when it is the target

---
 core/mlpp_matrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index cb62dd2..cc0c3a3 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1160,6 +1160,11 @@ Ref<MLPPMatrix> MLPPMatrix::transposen() const {
 void MLPPMatrix::transposeb(const Ref<MLPPMatrix> &A) {
 	ERR_FAIL_COND(!A.is_valid());
 
+	if (unlikely(A.ptr() == this)) {
+		transpose();
+		return;
+	}
+
 	Size2i a_size = A->size();
 
 	Size2i s = Size2i(a_size.y, a_size.x);
-- 
2.43.0


From 640d88faea973cabfa9c492ed0c43d14da99ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 07/71] fix: MLPPMatrix::set_from_ptr() dropped its storage
 while keeping its size

---
 core/mlpp_matrix.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index cc0c3a3..d333a38 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -592,8 +592,6 @@ void MLPPMatrix::set_from_arrays(const Array &p_from) {
 }
 
 void MLPPMatrix::set_from_ptr(const real_t *p_from, const int p_size_y, const int p_size_x) {
-	_data = NULL;
-
 	ERR_FAIL_COND(!p_from);
 
 	resize(Size2i(p_size_x, p_size_y));
-- 
2.43.0


From 51cb488d9d894066f7e8a4ae7c0ab448cc7349ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 08/71] fix: MLPPMatrix::kronecker_product() ran over the
 resized extents, reading past its operand

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index d333a38..4bb0396 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -967,12 +967,12 @@ void MLPPMatrix::kronecker_product(const Ref<MLPPMatrix> &B) {
 	row_tmp.instance();
 	row_tmp->resize(b_size.x);
 
-	for (int i = 0; i < _size.y; ++i) {
+	for (int i = 0; i < a_size.y; ++i) {
 		for (int j = 0; j < b_size.y; ++j) {
 			B->row_get_into_mlpp_vector(j, row_tmp);
 
 			Vector<Ref<MLPPVector>> row;
-			for (int k = 0; k < _size.x; ++k) {
+			for (int k = 0; k < a_size.x; ++k) {
 				row.push_back(row_tmp->scalar_multiplyn(a_ptr[A->calculate_index(i, k)]));
 			}
 
-- 
2.43.0


From c59b148185ad760cd438a32a4081ee7033dd4191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 09/71] fix:
 MLPPMatrix::kronecker_product()/kronecker_productb() resized an operand that
 is also the target

---
 core/mlpp_matrix.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 4bb0396..d979cfa 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -954,6 +954,12 @@ void MLPPMatrix::kronecker_product(const Ref<MLPPMatrix> &B) {
 	//                   A[0].size() * B[0].size()
 
 	ERR_FAIL_COND(!B.is_valid());
+
+	if (unlikely(B.ptr() == this)) {
+		set_from_mlpp_matrix(kronecker_productn(B));
+		return;
+	}
+
 	Size2i a_size = size();
 	Size2i b_size = B->size();
 
@@ -1044,6 +1050,12 @@ void MLPPMatrix::kronecker_productb(const Ref<MLPPMatrix> &A, const Ref<MLPPMatr
 	//                   A[0].size() * B[0].size()
 
 	ERR_FAIL_COND(!A.is_valid() || !B.is_valid());
+
+	if (unlikely(A.ptr() == this || B.ptr() == this)) {
+		set_from_mlpp_matrix(A->kronecker_productn(B));
+		return;
+	}
+
 	Size2i a_size = A->size();
 	Size2i b_size = B->size();
 
-- 
2.43.0


From ad2d359e6decf50b46eeb69ed5eae266a64c126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 10/71] fix: MLPPMatrix::diagonal_zeroed() cleared the matrix
 before rejecting a null operand

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index d979cfa..1e7e2f1 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2998,10 +2998,10 @@ Ref<MLPPMatrix> MLPPMatrix::diagonal_setn(const Ref<MLPPVector> &a) const {
 }
 
 void MLPPMatrix::diagonal_zeroed(const Ref<MLPPVector> &a) {
-	fill(0);
-
 	ERR_FAIL_COND(!a.is_valid());
 
+	fill(0);
+
 	int a_size = a->size();
 	int ms = MIN(_size.x, _size.y);
 	ms = MIN(ms, a_size);
-- 
2.43.0


From 6c38e8c7de74b80c08499764a2c267f1d4711521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 11/71] fix: MLPPMatrix::create_rotation_matrix() did not
 return rotations for axis -1 and 2

---
 core/mlpp_matrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 1e7e2f1..ff4b47c 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1936,7 +1936,7 @@ Ref<MLPPMatrix> MLPPMatrix::create_rotation_matrix(real_t theta, int axis) {
 		rptr[rotation_matrix->calculate_index(0, 0)] = Math::cos(theta);
 		rptr[rotation_matrix->calculate_index(0, 1)] = -Math::sin(theta);
 
-		rptr[rotation_matrix->calculate_index(1, 0)] = Math::cos(theta);
+		rptr[rotation_matrix->calculate_index(1, 0)] = Math::sin(theta);
 		rptr[rotation_matrix->calculate_index(1, 1)] = Math::cos(theta);
 	} else if (axis == 0) {
 		rotation_matrix->resize(Size2(3, 3));
@@ -1981,9 +1981,9 @@ Ref<MLPPMatrix> MLPPMatrix::create_rotation_matrix(real_t theta, int axis) {
 		rptr[rotation_matrix->calculate_index(1, 1)] = Math::cos(theta);
 		rptr[rotation_matrix->calculate_index(1, 2)] = 0;
 
-		rptr[rotation_matrix->calculate_index(2, 0)] = 1;
+		rptr[rotation_matrix->calculate_index(2, 0)] = 0;
 		rptr[rotation_matrix->calculate_index(2, 1)] = 0;
-		rptr[rotation_matrix->calculate_index(2, 2)] = 0;
+		rptr[rotation_matrix->calculate_index(2, 2)] = 1;
 	}
 
 	return rotation_matrix;
-- 
2.43.0


From 12a551f831583e50e5f50b2973c1239013710c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 12/71] fix: MLPPMatrix::mult_veco() cleared an operand that is
 also the output

---
 core/mlpp_matrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index ff4b47c..b7e92ea 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2834,6 +2834,11 @@ void MLPPMatrix::mult_veco(const Ref<MLPPVector> &b, Ref<MLPPVector> out) {
 
 	ERR_FAIL_COND(_size.x < b->size());
 
+	if (unlikely(out.ptr() == b.ptr())) {
+		out->set_from_mlpp_vector(mult_vec(b));
+		return;
+	}
+
 	if (unlikely(out->size() != _size.y)) {
 		out->resize(_size.y);
 	}
-- 
2.43.0


From 067de9a4c992f0992cc18022ef84fea40aabdc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 13/71] fix: MLPPTensor3::scalar_multiplyb()/scalar_addb()
 ignored their operand

---
 core/mlpp_tensor3.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 87a6e71..121df67 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -1679,10 +1679,10 @@ void MLPPTensor3::scalar_multiplyb(const real_t scalar,
   }
 
   int ds = data_size();
-  real_t *an_ptr = ptrw();
+  const real_t *a_ptr = A->ptr();
 
   for (int i = 0; i < ds; ++i) {
-    _data[i] = an_ptr[i] * scalar;
+    _data[i] = a_ptr[i] * scalar;
   }
 }
 
@@ -1712,10 +1712,10 @@ void MLPPTensor3::scalar_addb(const real_t scalar, const Ref<MLPPTensor3> &A) {
   }
 
   int ds = data_size();
-  real_t *an_ptr = ptrw();
+  const real_t *a_ptr = A->ptr();
 
   for (int i = 0; i < ds; ++i) {
-    _data[i] = an_ptr[i] + scalar;
+    _data[i] = a_ptr[i] + scalar;
   }
 }
 
-- 
2.43.0


From 594fa6bb82a25b71fcd9f331ae99029beb63e3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 14/71] fix: MLPPTensor3::row_get_vector() ignored the slice
 index

---
 core/mlpp_tensor3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 121df67..a9e7d20 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -287,7 +287,7 @@ Vector<real_t> MLPPTensor3::row_get_vector(int p_index_z, int p_index_y) const {
 
   ret.resize(_size.x);
 
-  int ind_start = p_index_y * _size.x;
+  int ind_start = p_index_y * _size.x + _size.x * _size.y * p_index_z;
 
   real_t *row_ptr = ret.ptrw();
 
-- 
2.43.0


From c1ed1ddf936dcf04916c94aac6f35149d60e6922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 15/71] fix: MLPPTensor3::z_slice_remove_unordered() read past
 the last slice

---
 core/mlpp_tensor3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index a9e7d20..f1b6e0e 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -225,7 +225,7 @@ void MLPPTensor3::z_slice_remove_unordered(int p_index) {
   int end_ind = calculate_z_slice_index(p_index + 1);
 
   for (int i = start_ind; i < end_ind; ++i) {
-    _data[i] = _data[ds + i];
+    _data[i] = _data[ds + i - start_ind];
   }
 
   _data = (real_t *)memrealloc(_data, data_size() * sizeof(real_t));
-- 
2.43.0


From 1c270d3150f54ca501cfc1abde298aaca7334a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 16/71] fix: MLPPTensor3::x_slice_*()/y_slice_*() swapped the
 row and column index

---
 core/mlpp_tensor3.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index f1b6e0e..064559e 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -634,7 +634,7 @@ void MLPPTensor3::x_slice_get_into(int p_index_x,
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      target->element_set(z, y, element_get(z, p_index_x, y));
+      target->element_set(z, y, element_get(z, y, p_index_x));
     }
   }
 }
@@ -655,7 +655,7 @@ void MLPPTensor3::x_slice_set(int p_index_x, const Ref<MLPPMatrix> &p_mat) {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      element_set(z, p_index_x, y, p_mat->element_get(z, y));
+      element_set(z, y, p_index_x, p_mat->element_get(z, y));
     }
   }
 }
@@ -665,13 +665,13 @@ void MLPPTensor3::y_slice_get_into(int p_index_y,
   ERR_FAIL_INDEX(p_index_y, _size.y);
   ERR_FAIL_COND(!target.is_valid());
 
-  if (unlikely(target->size() != Size2i(_size.y, _size.z))) {
+  if (unlikely(target->size() != Size2i(_size.x, _size.z))) {
     target->resize(Size2i(_size.x, _size.z));
   }
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      target->element_set(z, x, element_get(z, x, p_index_y));
+      target->element_set(z, x, element_get(z, p_index_y, x));
     }
   }
 }
@@ -688,11 +688,11 @@ Ref<MLPPMatrix> MLPPTensor3::y_slice_get(int p_index_y) const {
 void MLPPTensor3::y_slice_set(int p_index_y, const Ref<MLPPMatrix> &p_mat) {
   ERR_FAIL_INDEX(p_index_y, _size.y);
   ERR_FAIL_COND(!p_mat.is_valid());
-  ERR_FAIL_COND(p_mat->size() != Size2i(_size.y, _size.z));
+  ERR_FAIL_COND(p_mat->size() != Size2i(_size.x, _size.z));
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      element_set(z, x, p_index_y, p_mat->element_get(z, x));
+      element_set(z, p_index_y, x, p_mat->element_get(z, x));
     }
   }
 }
-- 
2.43.0


From 79df443dd5ecc5c6a9b7d92e0cd6ac9d8cc89e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 17/71] fix: MLPPActivation selected the value where the
 derivative is asked for and the other way round

---
 core/activation.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 4b6efab..6e0d3eb 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -37,23 +37,23 @@
 
 MLPPActivation::RealActivationFunctionPointer MLPPActivation::get_activation_function_ptr_real(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_real(func);
-	} else {
 		return get_activation_function_ptr_deriv_real(func);
+	} else {
+		return get_activation_function_ptr_normal_real(func);
 	}
 }
 MLPPActivation::VectorActivationFunctionPointer MLPPActivation::get_activation_function_ptr_vector(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_vector(func);
-	} else {
 		return get_activation_function_ptr_deriv_vector(func);
+	} else {
+		return get_activation_function_ptr_normal_vector(func);
 	}
 }
 MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_function_ptr_matrix(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_matrix(func);
-	} else {
 		return get_activation_function_ptr_deriv_matrix(func);
+	} else {
+		return get_activation_function_ptr_normal_matrix(func);
 	}
 }
 
@@ -433,23 +433,23 @@ MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_f
 
 real_t MLPPActivation::run_activation_real(const ActivationFunction func, const real_t z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_real(func, z);
-	} else {
 		return run_activation_deriv_real(func, z);
+	} else {
+		return run_activation_norm_real(func, z);
 	}
 }
 Ref<MLPPVector> MLPPActivation::run_activation_vector(const ActivationFunction func, const Ref<MLPPVector> &z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_vector(func, z);
-	} else {
 		return run_activation_deriv_vector(func, z);
+	} else {
+		return run_activation_norm_vector(func, z);
 	}
 }
 Ref<MLPPMatrix> MLPPActivation::run_activation_matrix(const ActivationFunction func, const Ref<MLPPMatrix> &z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_matrix(func, z);
-	} else {
 		return run_activation_deriv_matrix(func, z);
+	} else {
+		return run_activation_norm_matrix(func, z);
 	}
 }
 
-- 
2.43.0


From c060a528b5c67dceed3769edb0bab3e176af1e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 18/71] fix: MLPPActivation scalar derivative selection
 returned the values

---
 core/activation.cpp | 112 ++++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 6e0d3eb..7269429 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -247,61 +247,61 @@ MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_f
 MLPPActivation::RealActivationFunctionPointer MLPPActivation::get_activation_function_ptr_deriv_real(const ActivationFunction func) {
 	switch (func) {
 		case ACTIVATION_FUNCTION_LINEAR:
-			return &MLPPActivation::linear_normr;
+			return &MLPPActivation::linear_derivr;
 		case ACTIVATION_FUNCTION_SIGMOID:
-			return &MLPPActivation::sigmoid_normr;
+			return &MLPPActivation::sigmoid_derivr;
 		case ACTIVATION_FUNCTION_SWISH:
-			return &MLPPActivation::swish_normr;
+			return &MLPPActivation::swish_derivr;
 		case ACTIVATION_FUNCTION_MISH:
-			return &MLPPActivation::mish_normr;
+			return &MLPPActivation::mish_derivr;
 		case ACTIVATION_FUNCTION_SIN_C:
-			return &MLPPActivation::sinc_normr;
+			return &MLPPActivation::sinc_derivr;
 		case ACTIVATION_FUNCTION_SOFTMAX:
-			return &MLPPActivation::softmax_normr;
+			return &MLPPActivation::softmax_derivr;
 		case ACTIVATION_FUNCTION_SOFTPLUS:
-			return &MLPPActivation::softplus_normr;
+			return &MLPPActivation::softplus_derivr;
 		case ACTIVATION_FUNCTION_SOFTSIGN:
-			return &MLPPActivation::softsign_normr;
+			return &MLPPActivation::softsign_derivr;
 		case ACTIVATION_FUNCTION_ADJ_SOFTMAX:
-			return &MLPPActivation::adj_softmax_normr;
+			return &MLPPActivation::adj_softmax_derivr;
 		case ACTIVATION_FUNCTION_C_LOG_LOG:
-			return &MLPPActivation::cloglog_normr;
+			return &MLPPActivation::cloglog_derivr;
 		case ACTIVATION_FUNCTION_LOGIT:
-			return &MLPPActivation::logit_normr;
+			return &MLPPActivation::logit_derivr;
 		case ACTIVATION_FUNCTION_GAUSSIAN_CDF:
-			return &MLPPActivation::gaussian_cdf_normr;
+			return &MLPPActivation::gaussian_cdf_derivr;
 		case ACTIVATION_FUNCTION_RELU:
-			return &MLPPActivation::relu_normr;
+			return &MLPPActivation::relu_derivr;
 		case ACTIVATION_FUNCTION_GELU:
-			return &MLPPActivation::gelu_normr;
+			return &MLPPActivation::gelu_derivr;
 		case ACTIVATION_FUNCTION_SIGN:
-			return &MLPPActivation::sign_normr;
+			return &MLPPActivation::sign_derivr;
 		case ACTIVATION_FUNCTION_UNIT_STEP:
-			return &MLPPActivation::unit_step_normr;
+			return &MLPPActivation::unit_step_derivr;
 		case ACTIVATION_FUNCTION_SINH:
-			return &MLPPActivation::sinh_normr;
+			return &MLPPActivation::sinh_derivr;
 		case ACTIVATION_FUNCTION_COSH:
-			return &MLPPActivation::cosh_normr;
+			return &MLPPActivation::cosh_derivr;
 		case ACTIVATION_FUNCTION_TANH:
-			return &MLPPActivation::tanh_normr;
+			return &MLPPActivation::tanh_derivr;
 		case ACTIVATION_FUNCTION_CSCH:
-			return &MLPPActivation::csch_normr;
+			return &MLPPActivation::csch_derivr;
 		case ACTIVATION_FUNCTION_SECH:
-			return &MLPPActivation::sech_normr;
+			return &MLPPActivation::sech_derivr;
 		case ACTIVATION_FUNCTION_COTH:
-			return &MLPPActivation::coth_normr;
+			return &MLPPActivation::coth_derivr;
 		case ACTIVATION_FUNCTION_ARSINH:
-			return &MLPPActivation::arsinh_normr;
+			return &MLPPActivation::arsinh_derivr;
 		case ACTIVATION_FUNCTION_ARCOSH:
-			return &MLPPActivation::arcosh_normr;
+			return &MLPPActivation::arcosh_derivr;
 		case ACTIVATION_FUNCTION_ARTANH:
-			return &MLPPActivation::artanh_normr;
+			return &MLPPActivation::artanh_derivr;
 		case ACTIVATION_FUNCTION_ARCSCH:
-			return &MLPPActivation::arcsch_normr;
+			return &MLPPActivation::arcsch_derivr;
 		case ACTIVATION_FUNCTION_ARSECH:
-			return &MLPPActivation::arsech_normr;
+			return &MLPPActivation::arsech_derivr;
 		case ACTIVATION_FUNCTION_ARCOTH:
-			return &MLPPActivation::arcoth_normr;
+			return &MLPPActivation::arcoth_derivr;
 		default:
 			return NULL;
 	}
@@ -643,61 +643,61 @@ Ref<MLPPMatrix> MLPPActivation::run_activation_norm_matrix(const ActivationFunct
 real_t MLPPActivation::run_activation_deriv_real(const ActivationFunction func, const real_t z) {
 	switch (func) {
 		case ACTIVATION_FUNCTION_LINEAR:
-			return linear_normr(z);
+			return linear_derivr(z);
 		case ACTIVATION_FUNCTION_SIGMOID:
-			return sigmoid_normr(z);
+			return sigmoid_derivr(z);
 		case ACTIVATION_FUNCTION_SWISH:
-			return swish_normr(z);
+			return swish_derivr(z);
 		case ACTIVATION_FUNCTION_MISH:
-			return mish_normr(z);
+			return mish_derivr(z);
 		case ACTIVATION_FUNCTION_SIN_C:
-			return sinc_normr(z);
+			return sinc_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTMAX:
-			return softmax_normr(z);
+			return softmax_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTPLUS:
-			return softplus_normr(z);
+			return softplus_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTSIGN:
-			return softsign_normr(z);
+			return softsign_derivr(z);
 		case ACTIVATION_FUNCTION_ADJ_SOFTMAX:
-			return adj_softmax_normr(z);
+			return adj_softmax_derivr(z);
 		case ACTIVATION_FUNCTION_C_LOG_LOG:
-			return cloglog_normr(z);
+			return cloglog_derivr(z);
 		case ACTIVATION_FUNCTION_LOGIT:
-			return logit_normr(z);
+			return logit_derivr(z);
 		case ACTIVATION_FUNCTION_GAUSSIAN_CDF:
-			return gaussian_cdf_normr(z);
+			return gaussian_cdf_derivr(z);
 		case ACTIVATION_FUNCTION_RELU:
-			return relu_normr(z);
+			return relu_derivr(z);
 		case ACTIVATION_FUNCTION_GELU:
-			return gelu_normr(z);
+			return gelu_derivr(z);
 		case ACTIVATION_FUNCTION_SIGN:
-			return sign_normr(z);
+			return sign_derivr(z);
 		case ACTIVATION_FUNCTION_UNIT_STEP:
-			return unit_step_normr(z);
+			return unit_step_derivr(z);
 		case ACTIVATION_FUNCTION_SINH:
-			return sinh_normr(z);
+			return sinh_derivr(z);
 		case ACTIVATION_FUNCTION_COSH:
-			return cosh_normr(z);
+			return cosh_derivr(z);
 		case ACTIVATION_FUNCTION_TANH:
-			return tanh_normr(z);
+			return tanh_derivr(z);
 		case ACTIVATION_FUNCTION_CSCH:
-			return csch_normr(z);
+			return csch_derivr(z);
 		case ACTIVATION_FUNCTION_SECH:
-			return sech_normr(z);
+			return sech_derivr(z);
 		case ACTIVATION_FUNCTION_COTH:
-			return coth_normr(z);
+			return coth_derivr(z);
 		case ACTIVATION_FUNCTION_ARSINH:
-			return arsinh_normr(z);
+			return arsinh_derivr(z);
 		case ACTIVATION_FUNCTION_ARCOSH:
-			return arcosh_normr(z);
+			return arcosh_derivr(z);
 		case ACTIVATION_FUNCTION_ARTANH:
-			return artanh_normr(z);
+			return artanh_derivr(z);
 		case ACTIVATION_FUNCTION_ARCSCH:
-			return arcsch_normr(z);
+			return arcsch_derivr(z);
 		case ACTIVATION_FUNCTION_ARSECH:
-			return arsech_normr(z);
+			return arsech_derivr(z);
 		case ACTIVATION_FUNCTION_ARCOTH:
-			return arcoth_normr(z);
+			return arcoth_derivr(z);
 		default:
 			ERR_FAIL_V(0);
 	}
-- 
2.43.0


From 270bfbfbf2c0e6cd2df64f6a62595100e8d5df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 19/71] fix: MLPPActivation::softmax_derivm() recursed without
 end

---
 core/activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 7269429..860496f 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -998,7 +998,7 @@ Ref<MLPPMatrix> MLPPActivation::softmax_derivm(const Ref<MLPPMatrix> &z) {
 	for (int i = 0; i < z_size.y; ++i) {
 		z->row_get_into_mlpp_vector(i, row_tmp);
 
-		Ref<MLPPVector> sfn = softmax_derivm(z);
+		Ref<MLPPVector> sfn = softmax_derivv(row_tmp);
 
 		a->row_set_mlpp_vector(i, sfn);
 	}
-- 
2.43.0


From 1533db86288c28dd686b0ed2b76d0fffbb5fe80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 20/71] fix: MLPPActivation::adj_softmax_*v() converted the
 elements to int when taking their maximum

---
 core/activation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 860496f..7da20b9 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1020,7 +1020,7 @@ Ref<MLPPVector> MLPPActivation::adj_softmax_normv(const Ref<MLPPVector> &z) {
 	real_t c = -Math_INF;
 
 	for (int i = 0; i < size; ++i) {
-		int zpi = z_ptr[i];
+		real_t zpi = z_ptr[i];
 
 		if (c < zpi) {
 			c = zpi;
@@ -1065,7 +1065,7 @@ Ref<MLPPVector> MLPPActivation::adj_softmax_derivv(const Ref<MLPPVector> &z) {
 	real_t c = -Math_INF;
 
 	for (int i = 0; i < size; ++i) {
-		int zpi = z_ptr[i];
+		real_t zpi = z_ptr[i];
 
 		if (c < zpi) {
 			c = zpi;
-- 
2.43.0


From 74934a6774c1b07836718a4b8dc543c13068b9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 21/71] fix: MLPPActivation called vector operations on
 matrices and a matrix operation on vectors

---
 core/activation.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 7da20b9..9765e87 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1249,7 +1249,7 @@ Ref<MLPPVector> MLPPActivation::softplus_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softplus_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.lognv(alg.additionnv(alg.onematnm(z->size().y, z->size().x), alg.expnv(z)));
+	return alg.lognm(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.expnm(z)));
 }
 
 real_t MLPPActivation::softplus_derivr(real_t z) {
@@ -1275,7 +1275,7 @@ Ref<MLPPVector> MLPPActivation::softsign_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softsign_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(z, alg.additionnv(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)));
+	return alg.division_element_wisenvnm(z, alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)));
 }
 
 real_t MLPPActivation::softsign_derivr(real_t z) {
@@ -1289,7 +1289,7 @@ Ref<MLPPVector> MLPPActivation::softsign_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softsign_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.exponentiatenv(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)), 2));
+	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.exponentiatenm(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)), 2));
 }
 
 //GAUSSIANCDF
@@ -1463,7 +1463,7 @@ Ref<MLPPVector> MLPPActivation::swish_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::swish_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.hadamard_productnv(z, sigmoid_normm(z));
+	return alg.hadamard_productnm(z, sigmoid_normm(z));
 }
 
 real_t MLPPActivation::swish_derivr(real_t z) {
@@ -1477,7 +1477,7 @@ Ref<MLPPVector> MLPPActivation::swish_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::swish_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.additionnv(swish_normm(z), alg.subtractionnv(sigmoid_normm(z), alg.hadamard_productnm(sigmoid_normm(z), swish_normm(z))));
+	return alg.additionnm(swish_normm(z), alg.subtractionnm(sigmoid_normm(z), alg.hadamard_productnm(sigmoid_normm(z), swish_normm(z))));
 }
 
 //MISH
@@ -1514,7 +1514,7 @@ Ref<MLPPVector> MLPPActivation::mish_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::mish_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.additionnv(
+	return alg.additionnm(
 			alg.hadamard_productnm(
 					alg.hadamard_productnm(
 							alg.hadamard_productnm(
@@ -2291,7 +2291,7 @@ Ref<MLPPVector> MLPPActivation::artanh_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::artanh_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.subtractionnv(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)));
+	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.subtractionnm(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)));
 }
 
 //ARCSCH
@@ -2329,7 +2329,7 @@ Ref<MLPPVector> MLPPActivation::arcsch_derivv(const Ref<MLPPVector> &z) {
 
 	return alg.division_element_wisenv(
 			alg.fullnv(z->size(), -1),
-			alg.hadamard_productnm(
+			alg.hadamard_productnv(
 					alg.hadamard_productnv(z, z),
 					alg.sqrtnv(alg.additionnv(alg.onevecnv(z->size()), alg.division_element_wisenv(alg.onevecnv(z->size()), alg.hadamard_productnv(z, z))))));
 }
-- 
2.43.0


From 4c660fc2b39807d50d9bcc1ef2ac92361c7e4c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 22/71] fix: MLPPActivation::cloglog_deriv[vm]() missed the
 factor exp(z)

---
 core/activation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 9765e87..d071d64 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1347,13 +1347,13 @@ real_t MLPPActivation::cloglog_derivr(real_t z) {
 Ref<MLPPVector> MLPPActivation::cloglog_derivv(const Ref<MLPPVector> &z) {
 	MLPPLinAlg alg;
 
-	return alg.expnv(alg.scalar_multiplynv(-1, alg.expnv(z)));
+	return alg.expnv(alg.subtractionnv(z, alg.expnv(z)));
 }
 
 Ref<MLPPMatrix> MLPPActivation::cloglog_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.expnm(alg.scalar_multiplynm(-1, alg.expnm(z)));
+	return alg.expnm(alg.subtractionnm(z, alg.expnm(z)));
 }
 
 //LOGIT
-- 
2.43.0


From b1e4add20df90ca58d2372ef8abe45ed3c88fc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 23/71] fix: MLPPActivation::selu_deriv*() ignored lambda

---
 core/activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index d071d64..0cf4cb3 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1831,7 +1831,7 @@ Ref<MLPPMatrix> MLPPActivation::selu_normm(const Ref<MLPPMatrix> &z, real_t lamb
 }
 
 real_t MLPPActivation::selu_derivr(real_t z, real_t lambda, real_t c) {
-	return elu_derivr(z, c);
+	return lambda * elu_derivr(z, c);
 }
 Ref<MLPPVector> MLPPActivation::selu_derivv(const Ref<MLPPVector> &z, real_t lambda, real_t c) {
 	Ref<MLPPVector> a;
-- 
2.43.0


From 35d3b608f43139164e2201857a4e10c09ced07df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 24/71] fix: MLPPActivation::arsech_norm*() missed the square
 roots

---
 core/activation.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 0cf4cb3..3de9f6b 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -2346,7 +2346,7 @@ Ref<MLPPMatrix> MLPPActivation::arcsch_derivm(const Ref<MLPPMatrix> &z) {
 //ARSECH
 
 real_t MLPPActivation::arsech_normr(real_t z) {
-	return Math::log((1 / z) + ((1 / z) + 1) * ((1 / z) - 1));
+	return Math::log((1 / z) + sqrt((1 / z) + 1) * sqrt((1 / z) - 1));
 }
 
 Ref<MLPPVector> MLPPActivation::arsech_normv(const Ref<MLPPVector> &z) {
@@ -2357,8 +2357,8 @@ Ref<MLPPVector> MLPPActivation::arsech_normv(const Ref<MLPPVector> &z) {
 					alg.division_element_wisenv(
 							alg.onevecnv(z->size()), z),
 					alg.hadamard_productnv(
-							alg.additionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size())),
-							alg.subtractionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size())))));
+							alg.sqrtnv(alg.additionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size()))),
+							alg.sqrtnv(alg.subtractionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size()))))));
 }
 
 Ref<MLPPMatrix> MLPPActivation::arsech_normm(const Ref<MLPPMatrix> &z) {
@@ -2369,14 +2369,14 @@ Ref<MLPPMatrix> MLPPActivation::arsech_normm(const Ref<MLPPMatrix> &z) {
 					alg.division_element_wisenvnm(
 							alg.onematnm(z->size().y, z->size().x), z),
 					alg.hadamard_productnm(
-							alg.additionnm(
+							alg.sqrtnm(alg.additionnm(
 									alg.division_element_wisenvnm(
 											alg.onematnm(z->size().y, z->size().x), z),
-									alg.onematnm(z->size().y, z->size().x)),
-							alg.subtractionnm(
+									alg.onematnm(z->size().y, z->size().x))),
+							alg.sqrtnm(alg.subtractionnm(
 									alg.division_element_wisenvnm(
 											alg.onematnm(z->size().y, z->size().x), z),
-									alg.onematnm(z->size().y, z->size().x)))));
+									alg.onematnm(z->size().y, z->size().x))))));
 }
 
 real_t MLPPActivation::arsech_derivr(real_t z) {
-- 
2.43.0


From 2e6a06ce14c72527c3e29d38a8472cb5d54b2dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 25/71] fix: MLPPCost::mse[vm]() multiplied by the number of
 elements instead of dividing by it

---
 core/cost.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 2d6ce84..b5c7f23 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -47,7 +47,7 @@ real_t MLPPCost::msev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return sum / 2 * y_hat_size;
+	return sum / (2 * static_cast<real_t>(y_hat_size));
 }
 real_t MLPPCost::msem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
@@ -62,7 +62,7 @@ real_t MLPPCost::msem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return sum / 2.0 * static_cast<real_t>(y_hat_data_size);
+	return sum / (2 * static_cast<real_t>(y_hat_data_size));
 }
 
 Ref<MLPPVector> MLPPCost::mse_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From 811f278574be209f4630b445a63b0483ce277326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 26/71] fix: MLPPCost::rmsem() averaged over the rows instead
 of the elements

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index b5c7f23..de780b4 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -103,7 +103,7 @@ real_t MLPPCost::rmsem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return Math::sqrt(sum / static_cast<real_t>(y_hat->size().y));
+	return Math::sqrt(sum / static_cast<real_t>(y_hat_data_size));
 }
 
 Ref<MLPPVector> MLPPCost::rmse_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From 797821e5a33eb0fccb7fceb78823d624577f9b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 27/71] fix: MLPPCost::rmse_derivm() divided where it has to
 multiply

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index de780b4..cdddd20 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -114,7 +114,7 @@ Ref<MLPPVector> MLPPCost::rmse_derivv(const Ref<MLPPVector> &y_hat, const Ref<ML
 Ref<MLPPMatrix> MLPPCost::rmse_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	MLPPLinAlg alg;
 
-	return alg.scalar_multiplynm(1 / (2.0 / Math::sqrt(msem(y_hat, y))), mse_derivm(y_hat, y));
+	return alg.scalar_multiplynm(1 / (2.0 * Math::sqrt(msem(y_hat, y))), mse_derivm(y_hat, y));
 }
 
 real_t MLPPCost::maev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From ff78d7f774d6d98e6e764c38f7bd7b63b8a27bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 28/71] fix: MLPPCost::mae_deriv[vm]() ignored the targets and
 truncated to integers

---
 core/cost.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index cdddd20..c9cc212 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -150,7 +150,10 @@ real_t MLPPCost::maem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	int y_hat_size = y_hat->size();
 
+	ERR_FAIL_COND_V(y_hat_size != y->size(), Ref<MLPPVector>());
+
 	const real_t *y_hat_ptr = y_hat->ptr();
+	const real_t *y_ptr = y->ptr();
 
 	Ref<MLPPVector> deriv;
 	deriv.instance();
@@ -158,11 +161,11 @@ Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 	real_t *deriv_ptr = deriv->ptrw();
 
 	for (int i = 0; i < y_hat_size; ++i) {
-		int y_hat_ptr_i = y_hat_ptr[i];
+		real_t diff = y_hat_ptr[i] - y_ptr[i];
 
-		if (y_hat_ptr_i < 0) {
+		if (diff < 0) {
 			deriv_ptr[i] = -1;
-		} else if (y_hat_ptr_i == 0) {
+		} else if (diff == 0) {
 			deriv_ptr[i] = 0;
 		} else {
 			deriv_ptr[i] = 1;
@@ -174,7 +177,10 @@ Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 Ref<MLPPMatrix> MLPPCost::mae_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
+	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), Ref<MLPPMatrix>());
+
 	const real_t *y_hat_ptr = y_hat->ptr();
+	const real_t *y_ptr = y->ptr();
 
 	Ref<MLPPMatrix> deriv;
 	deriv.instance();
@@ -182,11 +188,11 @@ Ref<MLPPMatrix> MLPPCost::mae_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLP
 	real_t *deriv_ptr = deriv->ptrw();
 
 	for (int i = 0; i < y_hat_data_size; ++i) {
-		int y_hat_ptr_i = y_hat_ptr[i];
+		real_t diff = y_hat_ptr[i] - y_ptr[i];
 
-		if (y_hat_ptr_i < 0) {
+		if (diff < 0) {
 			deriv_ptr[i] = -1;
-		} else if (y_hat_ptr_i == 0) {
+		} else if (diff == 0) {
 			deriv_ptr[i] = 0;
 		} else {
 			deriv_ptr[i] = 1;
-- 
2.43.0


From 8b25cc1f6c1e8a884dbcedbf72410f36cf8a0ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 29/71] fix: MLPPCost::mbe_derivm() returned the transposed
 shape

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index c9cc212..98b158f 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -239,7 +239,7 @@ Ref<MLPPVector> MLPPCost::mbe_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 }
 Ref<MLPPMatrix> MLPPCost::mbe_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	MLPPLinAlg alg;
-	return alg.onematnm(y_hat->size().x, y_hat->size().y);
+	return alg.onematnm(y_hat->size().y, y_hat->size().x);
 }
 
 // Classification Costs
-- 
2.43.0


From 6bf07956e86c9ab6def14099efff97a137f68906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 30/71] fix: MLPPCost::huber_loss_deriv[vm]() is the gradient
 of huber_loss[vm]()

---
 core/cost.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 98b158f..2d795ca 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -390,12 +390,12 @@ Ref<MLPPVector> MLPPCost::huber_loss_derivv(const Ref<MLPPVector> &y_hat, const
 
 	for (int i = 0; i < y_hat_size; ++i) {
 		if (ABS(y_ptr[i] - y_hat_ptr[i]) <= delta) {
-			deriv_ptr[i] = (-(y_ptr[i] - y_hat_ptr[i]));
+			deriv_ptr[i] = (-2 * (y_ptr[i] - y_hat_ptr[i]));
 		} else {
-			if (y_hat_ptr[i] > 0 || y_hat_ptr[i] < 0) {
-				deriv_ptr[i] = (2 * delta * (y_hat_ptr[i] / ABS(y_hat_ptr[i])));
+			if (y_hat_ptr[i] > y_ptr[i]) {
+				deriv_ptr[i] = 2 * delta;
 			} else {
-				deriv_ptr[i] = (0);
+				deriv_ptr[i] = -2 * delta;
 			}
 		}
 	}
@@ -420,12 +420,12 @@ Ref<MLPPMatrix> MLPPCost::huber_loss_derivm(const Ref<MLPPMatrix> &y_hat, const
 
 	for (int i = 0; i < y_hat_data_size; ++i) {
 		if (ABS(y_ptr[i] - y_hat_ptr[i]) <= delta) {
-			deriv_ptr[i] = (-(y_ptr[i] - y_hat_ptr[i]));
+			deriv_ptr[i] = (-2 * (y_ptr[i] - y_hat_ptr[i]));
 		} else {
-			if (y_hat_ptr[i] > 0 || y_hat_ptr[i] < 0) {
-				deriv_ptr[i] = (2 * delta * (y_hat_ptr[i] / ABS(y_hat_ptr[i])));
+			if (y_hat_ptr[i] > y_ptr[i]) {
+				deriv_ptr[i] = 2 * delta;
 			} else {
-				deriv_ptr[i] = (0);
+				deriv_ptr[i] = -2 * delta;
 			}
 		}
 	}
-- 
2.43.0


From ac8e1f104ebe72fbc16ae0493ec09ad3d4ce2d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 31/71] fix: MLPPCost::hinge_losswm() passed its weight matrix
 as a vector

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 2d795ca..d5915d8 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -523,7 +523,7 @@ real_t MLPPCost::hinge_losswm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix
 	MLPPLinAlg alg;
 	MLPPReg regularization;
 
-	return C * hinge_lossm(y_hat, y) + regularization.reg_termv(weights, 1, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
+	return C * hinge_lossm(y_hat, y) + regularization.reg_termm(weights, 1, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 }
 
 Ref<MLPPVector> MLPPCost::hinge_loss_derivwv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y, real_t C) {
-- 
2.43.0


From 220fa20ac55c20b3eb330465b2d374e0635145ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 32/71] fix: MLPPCost matrix costs accepted different shapes of
 the same volume

---
 core/cost.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index d5915d8..f485a58 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -52,7 +52,7 @@ real_t MLPPCost::msev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 real_t MLPPCost::msem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
-	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), 0);
+	ERR_FAIL_COND_V(y_hat->size() != y->size(), 0);
 
 	const real_t *y_hat_ptr = y_hat->ptr();
 	const real_t *y_ptr = y->ptr();
@@ -93,7 +93,7 @@ real_t MLPPCost::rmsev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 real_t MLPPCost::rmsem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
-	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), 0);
+	ERR_FAIL_COND_V(y_hat->size() != y->size(), 0);
 
 	const real_t *y_hat_ptr = y_hat->ptr();
 	const real_t *y_ptr = y->ptr();
@@ -134,7 +134,7 @@ real_t MLPPCost::maev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 real_t MLPPCost::maem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
-	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), 0);
+	ERR_FAIL_COND_V(y_hat->size() != y->size(), 0);
 
 	const real_t *y_hat_ptr = y_hat->ptr();
 	const real_t *y_ptr = y->ptr();
@@ -177,7 +177,7 @@ Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 Ref<MLPPMatrix> MLPPCost::mae_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
-	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), Ref<MLPPMatrix>());
+	ERR_FAIL_COND_V(y_hat->size() != y->size(), Ref<MLPPMatrix>());
 
 	const real_t *y_hat_ptr = y_hat->ptr();
 	const real_t *y_ptr = y->ptr();
@@ -220,7 +220,7 @@ real_t MLPPCost::mbev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 real_t MLPPCost::mbem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
-	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), 0);
+	ERR_FAIL_COND_V(y_hat->size() != y->size(), 0);
 
 	const real_t *y_hat_ptr = y_hat->ptr();
 	const real_t *y_ptr = y->ptr();
@@ -263,7 +263,7 @@ real_t MLPPCost::log_lossv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &
 real_t MLPPCost::log_lossm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
-	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), 0);
+	ERR_FAIL_COND_V(y_hat->size() != y->size(), 0);
 
 	const real_t *y_hat_ptr = y_hat->ptr();
 	const real_t *y_ptr = y->ptr();
@@ -309,7 +309,7 @@ real_t MLPPCost::cross_entropyv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVect
 real_t MLPPCost::cross_entropym(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
-	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), 0);
+	ERR_FAIL_COND_V(y_hat->size() != y->size(), 0);
 
 	const real_t *y_hat_ptr = y_hat->ptr();
 	const real_t *y_ptr = y->ptr();
@@ -354,7 +354,7 @@ real_t MLPPCost::huber_lossv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector>
 real_t MLPPCost::huber_lossm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y, real_t delta) {
 	int y_hat_data_size = y_hat->data_size();
 
-	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), 0);
+	ERR_FAIL_COND_V(y_hat->size() != y->size(), 0);
 
 	const real_t *y_hat_ptr = y_hat->ptr();
 	const real_t *y_ptr = y->ptr();
@@ -405,7 +405,7 @@ Ref<MLPPVector> MLPPCost::huber_loss_derivv(const Ref<MLPPVector> &y_hat, const
 Ref<MLPPMatrix> MLPPCost::huber_loss_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y, real_t delta) {
 	int y_hat_data_size = y_hat->data_size();
 
-	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), 0);
+	ERR_FAIL_COND_V(y_hat->size() != y->size(), 0);
 
 	const real_t *y_hat_ptr = y_hat->ptr();
 	const real_t *y_ptr = y->ptr();
@@ -451,7 +451,7 @@ real_t MLPPCost::hinge_lossv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector>
 real_t MLPPCost::hinge_lossm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
-	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), 0);
+	ERR_FAIL_COND_V(y_hat->size() != y->size(), 0);
 
 	const real_t *y_hat_ptr = y_hat->ptr();
 	const real_t *y_ptr = y->ptr();
@@ -491,7 +491,7 @@ Ref<MLPPVector> MLPPCost::hinge_loss_derivv(const Ref<MLPPVector> &y_hat, const
 Ref<MLPPMatrix> MLPPCost::hinge_loss_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
-	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), 0);
+	ERR_FAIL_COND_V(y_hat->size() != y->size(), 0);
 
 	const real_t *y_hat_ptr = y_hat->ptr();
 	const real_t *y_ptr = y->ptr();
@@ -557,7 +557,7 @@ real_t MLPPCost::wasserstein_lossv(const Ref<MLPPVector> &y_hat, const Ref<MLPPV
 real_t MLPPCost::wasserstein_lossm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
-	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), 0);
+	ERR_FAIL_COND_V(y_hat->size() != y->size(), 0);
 
 	const real_t *y_hat_ptr = y_hat->ptr();
 	const real_t *y_ptr = y->ptr();
-- 
2.43.0


From 6368cc2331f50601b87c3be6ab4d7b574e86607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 33/71] fix: MLPPLinAlg::scalar_multiplynm(), scalar_addnm()
 dereferenced a null operand

---
 core/lin_alg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index e72ea1b..cec087c 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -260,6 +260,8 @@ Ref<MLPPMatrix> MLPPLinAlg::transposenm(const Ref<MLPPMatrix> &A) {
 	return AT;
 }
 Ref<MLPPMatrix> MLPPLinAlg::scalar_multiplynm(real_t scalar, const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+
 	Ref<MLPPMatrix> AN = A->duplicate_fast();
 	Size2i a_size = AN->size();
 	real_t *an_ptr = AN->ptrw();
@@ -274,6 +276,8 @@ Ref<MLPPMatrix> MLPPLinAlg::scalar_multiplynm(real_t scalar, const Ref<MLPPMatri
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::scalar_addnm(real_t scalar, const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+
 	Ref<MLPPMatrix> AN = A->duplicate_fast();
 	Size2i a_size = AN->size();
 	real_t *an_ptr = AN->ptrw();
-- 
2.43.0


From 39775575f31c12b87cc377922047e6a22e91aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 34/71] fix: MLPPStat::median() returned the element before the
 middle for odd lengths

---
 core/stat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/stat.cpp b/core/stat.cpp
index 5376076..0b0f9a3 100644
--- a/core/stat.cpp
+++ b/core/stat.cpp
@@ -68,7 +68,7 @@ real_t MLPPStat::median(const Ref<MLPPVector> &p_x) {
 	if (x->size() % 2 == 0) {
 		return (x->element_get(center - 1) + x->element_get(center)) / 2.0;
 	} else {
-		return x->element_get(center - 1);
+		return x->element_get(center);
 	}
 }
 
-- 
2.43.0


From 56b3353ae168a46d6af99fda06838466f4ea8ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 35/71] fix: MLPPConvolutions convolve/pool did not honour
 strides above two positions

---
 core/convolutions.cpp | 36 +++---------------------------------
 1 file changed, 3 insertions(+), 33 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index a06f422..9de9f13 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -88,17 +88,7 @@ Ref<MLPPMatrix> MLPPConvolutions::convolve_2d(const Ref<MLPPMatrix> &p_input, co
 
 			for (int k = 0; k < F; k++) {
 				for (int p = 0; p < F; p++) {
-					real_t val;
-
-					if (i == 0 && j == 0) {
-						val = input->element_get(i + k, j + p);
-					} else if (i == 0) {
-						val = input->element_get(i + k, j + (S - 1) + p);
-					} else if (j == 0) {
-						val = input->element_get(i + (S - 1) + k, j + p);
-					} else {
-						val = input->element_get(i + (S - 1) + k, j + (S - 1) + p);
-					}
+					real_t val = input->element_get(i * S + k, j * S + p);
 
 					convolving_input->element_set(current_index, val);
 					++current_index;
@@ -172,17 +162,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 				for (int t = 0; t < input_size.z; t++) {
 					for (int k = 0; k < F; k++) {
 						for (int p = 0; p < F; p++) {
-							real_t val;
-
-							if (i == 0 && j == 0) {
-								val = input->element_get(i + k, j + p, t);
-							} else if (i == 0) {
-								val = input->element_get(i + k, j + (S - 1) + p, t);
-							} else if (j == 0) {
-								val = input->element_get(i + (S - 1) + k, j + p, t);
-							} else {
-								val = input->element_get(i + (S - 1) + k, j + (S - 1) + p, t);
-							}
+							real_t val = input->element_get(i * S + k, j * S + p, t);
 
 							convolving_input->element_set(current_index, val);
 							++current_index;
@@ -219,17 +199,7 @@ Ref<MLPPMatrix> MLPPConvolutions::pool_2d(const Ref<MLPPMatrix> &input, const in
 
 			for (int k = 0; k < F; k++) {
 				for (int p = 0; p < F; p++) {
-					real_t val;
-
-					if (i == 0 && j == 0) {
-						val = input->element_get(i + k, j + p);
-					} else if (i == 0) {
-						val = input->element_get(i + k, j + (S - 1) + p);
-					} else if (j == 0) {
-						val = input->element_get(i + (S - 1) + k, j + p);
-					} else {
-						val = input->element_get(i + (S - 1) + k, j + (S - 1) + p);
-					}
+					real_t val = input->element_get(i * S + k, j * S + p);
 
 					pooling_input->element_set(current_index, val);
 					++current_index;
-- 
2.43.0


From ed9979104fd0f21715231632c755016ab9d396a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 36/71] fix: MLPPConvolutions::convolve_3d() passed the tensor
 indices in the wrong order

---
 core/convolutions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 9de9f13..1014372 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -133,7 +133,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 					if (i - P < 0 || j - P < 0 || i - P > input_size.y - 1 || j - P > input_size.x - 1) {
 						padded_input_slice->element_set(i, j, 0);
 					} else {
-						padded_input_slice->element_set(i, j, input->element_get(i - P, j - P, c));
+						padded_input_slice->element_set(i, j, input->element_get(c, i - P, j - P));
 					}
 				}
 			}
@@ -162,7 +162,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 				for (int t = 0; t < input_size.z; t++) {
 					for (int k = 0; k < F; k++) {
 						for (int p = 0; p < F; p++) {
-							real_t val = input->element_get(i * S + k, j * S + p, t);
+							real_t val = input->element_get(t, i * S + k, j * S + p);
 
 							convolving_input->element_set(current_index, val);
 							++current_index;
-- 
2.43.0


From 7f4077cf1deafbcfdfe850e2d21c8960cae9840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 37/71] fix: MLPPConvolutions::convolve_3d() could not apply
 more than one filter

---
 core/convolutions.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 1014372..cd8b040 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -155,6 +155,8 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 	convolving_input->resize(input_size.z * F * F);
 
 	for (int c = 0; c < C; c++) {
+		int filter_offset = c * convolving_input->size();
+
 		for (int i = 0; i < map_size; i++) {
 			for (int j = 0; j < map_size; j++) {
 				int current_index = 0;
@@ -170,7 +172,12 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 					}
 				}
 
-				feature_map->element_set(c, i, j, convolving_input->dot(filter_flattened));
+				real_t sum = 0;
+				for (int k = 0; k < current_index; k++) {
+					sum += convolving_input->element_get(k) * filter_flattened->element_get(filter_offset + k);
+				}
+
+				feature_map->element_set(c, i, j, sum);
 			}
 		}
 	}
-- 
2.43.0


From dea109480b3d59c277bda0f09071c02286f62dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 38/71] fix: MLPPConvolutions::gaussian_2d() multiplied by the
 variance in the exponent

---
 core/convolutions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index cd8b040..7b7471a 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -289,7 +289,7 @@ Ref<MLPPVector> MLPPConvolutions::global_pool_3d(const Ref<MLPPTensor3> &input,
 
 real_t MLPPConvolutions::gaussian_2d(const real_t x, const real_t y, const real_t std) {
 	real_t std_sq = std * std;
-	return 1 / (2 * Math_PI * std_sq) * Math::exp(-(x * x + y * y) / 2 * std_sq);
+	return 1 / (2 * Math_PI * std_sq) * Math::exp(-(x * x + y * y) / (2 * std_sq));
 }
 
 Ref<MLPPMatrix> MLPPConvolutions::gaussian_filter_2d(const int size, const real_t std) {
-- 
2.43.0


From f412cb9f45cf24eb1e9e73253ba41ee57811f79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 39/71] fix: MLPPConvolutions::dx() took the height for the
 width

---
 core/convolutions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 7b7471a..52a539b 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -322,7 +322,7 @@ Ref<MLPPMatrix> MLPPConvolutions::dx(const Ref<MLPPMatrix> &input) {
 
 	for (int i = 0; i < input_size.y; i++) {
 		for (int j = 0; j < input_size.x; j++) {
-			if (j != 0 && j != input_size.y - 1) {
+			if (j != 0 && j != input_size.x - 1) {
 				deriv->element_set(i, j, input->element_get(i, j + 1) - input->element_get(i, j - 1));
 			} else if (j == 0) {
 				deriv->element_set(i, j, input->element_get(i, j + 1)); // E0 - 0 = Implicit zero-padding
-- 
2.43.0


From de04733fd709ade7cf864db1e0565116607f8af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 40/71] fix: the determinant of a one by one matrix came out as
 zero

---
 core/lin_alg.cpp     | 4 +++-
 core/mlpp_matrix.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index cec087c..3f604c2 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -449,7 +449,9 @@ real_t MLPPLinAlg::detm(const Ref<MLPPMatrix> &A, int d) {
 	/* This is the base case in which the input is a 2x2 square matrix.
 	Recursion is performed unless and until we reach this base case,
 	such that we recieve a scalar as the result. */
-	if (d == 2) {
+	if (d == 1) {
+		return A->element_get(0, 0);
+	} else if (d == 2) {
 		return A->element_get(0, 0) * A->element_get(1, 1) - A->element_get(0, 1) * A->element_get(1, 0);
 	} else {
 		for (int i = 0; i < d; i++) {
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index b7e92ea..a0b781b 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1629,7 +1629,9 @@ real_t MLPPMatrix::detb(const Ref<MLPPMatrix> &A, int d) const {
 	/* This is the base case in which the input is a 2x2 square matrix.
 	Recursion is performed unless and until we reach this base case,
 	such that we recieve a scalar as the result. */
-	if (d == 2) {
+	if (d == 1) {
+		return A->element_get(0, 0);
+	} else if (d == 2) {
 		return A->element_get(0, 0) * A->element_get(1, 1) - A->element_get(0, 1) * A->element_get(1, 0);
 	} else {
 		Ref<MLPPMatrix> B;
-- 
2.43.0


From a3f4c346079026cac30bdf66f62c91b3ea51acad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 41/71] fix: inverse() of a matrix that is not square
 dereferenced a null adjoint

---
 core/lin_alg.cpp     | 3 +++
 core/mlpp_matrix.cpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 3f604c2..ffd5444 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -550,6 +550,9 @@ Ref<MLPPMatrix> MLPPLinAlg::adjointnm(const Ref<MLPPMatrix> &A) {
 	return adj;
 }
 Ref<MLPPMatrix> MLPPLinAlg::inversenm(const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+	ERR_FAIL_COND_V(A->size().x != A->size().y, Ref<MLPPMatrix>());
+
 	return scalar_multiplynm(1 / detm(A, int(A->size().y)), adjointnm(A));
 }
 Ref<MLPPMatrix> MLPPLinAlg::pinversenm(const Ref<MLPPMatrix> &A) {
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index a0b781b..4a7ec79 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1798,11 +1798,15 @@ void MLPPMatrix::adjointo(Ref<MLPPMatrix> out) const {
 }
 
 Ref<MLPPMatrix> MLPPMatrix::inverse() const {
+	ERR_FAIL_COND_V(_size.x != _size.y, Ref<MLPPMatrix>());
+
 	return adjoint()->scalar_multiplyn(1 / det());
 }
 void MLPPMatrix::inverseo(Ref<MLPPMatrix> out) const {
 	ERR_FAIL_COND(!out.is_valid());
 
+	ERR_FAIL_COND(_size.x != _size.y);
+
 	out->set_from_mlpp_matrix(adjoint()->scalar_multiplyn(1 / det()));
 }
 
-- 
2.43.0


From f1b40e871cc4586e5258226cc2b667472edc2e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 42/71] fix: MLPPMatrix::pinverse() multiplied the matrix by
 itself instead of by its transpose

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 4a7ec79..e7fe53a 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1811,12 +1811,12 @@ void MLPPMatrix::inverseo(Ref<MLPPMatrix> out) const {
 }
 
 Ref<MLPPMatrix> MLPPMatrix::pinverse() const {
-	return multn(Ref<MLPPMatrix>(this))->transposen()->inverse()->multn(transposen());
+	return transposen()->multn(Ref<MLPPMatrix>(this))->inverse()->multn(transposen());
 }
 void MLPPMatrix::pinverseo(Ref<MLPPMatrix> out) const {
 	ERR_FAIL_COND(!out.is_valid());
 
-	out->set_from_mlpp_matrix(multn(Ref<MLPPMatrix>(this))->transposen()->inverse()->multn(transposen()));
+	out->set_from_mlpp_matrix(transposen()->multn(Ref<MLPPMatrix>(this))->inverse()->multn(transposen()));
 }
 
 Ref<MLPPMatrix> MLPPMatrix::matn_zero(int n, int m) const {
-- 
2.43.0


From c85a2852fc05e1bb4487d684847545855efeb6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 43/71] fix: linear_independence_checker() took the determinant
 of the wrong order

---
 core/lin_alg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index ffd5444..076dae6 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -47,7 +47,7 @@ Ref<MLPPMatrix> MLPPLinAlg::gram_matrix(const Ref<MLPPMatrix> &A) {
 }
 
 bool MLPPLinAlg::linear_independence_checker(const Ref<MLPPMatrix> &A) {
-	if (gram_matrix(A)->det(A->size().y) == 0) {
+	if (gram_matrix(A)->det(A->size().x) == 0) {
 		return false;
 	}
 
-- 
2.43.0


From 19831b20aa14772c221fcbabc9edf7e7d405bfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 44/71] fix: cov() compared rows against column indices and
 sized the result wrongly

---
 core/lin_alg.cpp     |  4 ++--
 core/mlpp_matrix.cpp | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 076dae6..217c5de 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -712,7 +712,7 @@ Ref<MLPPMatrix> MLPPLinAlg::covnm(const Ref<MLPPMatrix> &A) {
 
 	Size2i a_size = A->size();
 
-	cov_mat->resize(a_size);
+	cov_mat->resize(Size2i(a_size.y, a_size.y));
 
 	Ref<MLPPVector> a_i_row_tmp;
 	a_i_row_tmp.instance();
@@ -725,7 +725,7 @@ Ref<MLPPMatrix> MLPPLinAlg::covnm(const Ref<MLPPMatrix> &A) {
 	for (int i = 0; i < a_size.y; ++i) {
 		A->row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < a_size.x; ++j) {
+		for (int j = 0; j < a_size.y; ++j) {
 			A->row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			cov_mat->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index e7fe53a..9328483 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2208,7 +2208,7 @@ Ref<MLPPMatrix> MLPPMatrix::cov() const {
 	Ref<MLPPMatrix> cov_mat;
 	cov_mat.instance();
 
-	cov_mat->resize(_size);
+	cov_mat->resize(Size2i(_size.y, _size.y));
 
 	Ref<MLPPVector> a_i_row_tmp;
 	a_i_row_tmp.instance();
@@ -2221,7 +2221,7 @@ Ref<MLPPMatrix> MLPPMatrix::cov() const {
 	for (int i = 0; i < _size.y; ++i) {
 		row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < _size.x; ++j) {
+		for (int j = 0; j < _size.y; ++j) {
 			row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			cov_mat->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
@@ -2235,8 +2235,10 @@ void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 
 	MLPPStat stat;
 
-	if (unlikely(out->size() != _size)) {
-		out->resize(_size);
+	Size2i out_size = Size2i(_size.y, _size.y);
+
+	if (unlikely(out->size() != out_size)) {
+		out->resize(out_size);
 	}
 
 	Ref<MLPPVector> a_i_row_tmp;
@@ -2250,7 +2252,7 @@ void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 	for (int i = 0; i < _size.y; ++i) {
 		row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < _size.x; ++j) {
+		for (int j = 0; j < _size.y; ++j) {
 			row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			out->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
-- 
2.43.0


From 088fcfcb985d9f665fb980c762f6d30d421d0a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 45/71] fix: MLPPLinReg kept its regularisation parameters as
 integers

---
 modules/lin_reg/lin_reg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/lin_reg/lin_reg.h b/modules/lin_reg/lin_reg.h
index 5390364..d755bfd 100644
--- a/modules/lin_reg/lin_reg.h
+++ b/modules/lin_reg/lin_reg.h
@@ -115,8 +115,8 @@ protected:
 
 	// Regularization Params
 	MLPPReg::RegularizationType _reg;
-	int _lambda;
-	int _alpha; /* This is the controlling param for Elastic Net*/
+	real_t _lambda;
+	real_t _alpha; /* This is the controlling param for Elastic Net*/
 
 	bool _initialized;
 };
-- 
2.43.0


From 592f3bc81c04fea23067b48146568018b5a2ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 46/71] fix: the momentum-based optimisers of MLPPLinReg
 divided the gradient by the batch size in integers

---
 modules/lin_reg/lin_reg.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 73a1243..52dd5bb 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -310,7 +310,7 @@ void MLPPLinReg::momentum(real_t learning_rate, int max_epoch, int mini_batch_si
 
 			// Calculating the weight gradients
 
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
@@ -366,7 +366,7 @@ void MLPPLinReg::nag(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 			// Calculating the weight gradients
 
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -419,7 +419,7 @@ void MLPPLinReg::adagrad(real_t learning_rate, int max_epoch, int mini_batch_siz
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -472,7 +472,7 @@ void MLPPLinReg::adadelta(real_t learning_rate, int max_epoch, int mini_batch_si
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -525,7 +525,7 @@ void MLPPLinReg::adam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -582,7 +582,7 @@ void MLPPLinReg::adamax(real_t learning_rate, int max_epoch, int mini_batch_size
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -639,7 +639,7 @@ void MLPPLinReg::nadam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
-- 
2.43.0


From e08ead28621600b37de8af1bfd10d56213589808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 47/71] fix: MLPPCLogLogReg::mle() moved the parameters away
 from the maximum

---
 modules/c_log_log_reg/c_log_log_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/c_log_log_reg/c_log_log_reg.cpp b/modules/c_log_log_reg/c_log_log_reg.cpp
index eef50ca..5d831b8 100644
--- a/modules/c_log_log_reg/c_log_log_reg.cpp
+++ b/modules/c_log_log_reg/c_log_log_reg.cpp
@@ -93,7 +93,7 @@ void MLPPCLogLogReg::mle(real_t learning_rate, int max_epoch, bool ui) {
 	while (true) {
 		cost_prev = cost(_y_hat, _output_set);
 
-		Ref<MLPPVector> error = _y_hat->subn(_output_set);
+		Ref<MLPPVector> error = _output_set->subn(_y_hat);
 
 		_weights->add(_input_set->transposen()->mult_vec(error->hadamard_productn(avn.cloglog_derivv(_z)))->scalar_multiplyn(learning_rate / _n));
 		_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
-- 
2.43.0


From 83f9296393bdcb0ac27ed308a7ffdd031a7a6707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 48/71] fix: MLPPTanhReg::train_sgd() threw the weight update
 away

---
 modules/tanh_reg/tanh_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 623b632..02ec3e1 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -245,7 +245,7 @@ void MLPPTanhReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		real_t error = y_hat - output_set_entry;
 
 		// Weight Updation
-		_weights->subn(input_set_row_tmp->scalar_multiplyn(learning_rate * error * (1 - y_hat * y_hat)));
+		_weights->sub(input_set_row_tmp->scalar_multiplyn(learning_rate * error * (1 - y_hat * y_hat)));
 		_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 		// Bias updation
-- 
2.43.0


From 42cd8a1672a318b8fe3413e031d4837e444440af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 49/71] fix: MLPPTanhReg::train_mbgd() used the predictions of
 the whole data set for the bias of a batch

---
 modules/tanh_reg/tanh_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 02ec3e1..f87c7c1 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -301,7 +301,7 @@ void MLPPTanhReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(_z))->sum_elements() / n;
+			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(z))->sum_elements() / n;
 
 			forward_pass();
 
-- 
2.43.0


From 331c883fb9974d5b94f2f96e79ae59dedb39621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 50/71] fix: MLPPSVC::train_gradient_descent() moved the bias
 up the gradient of another loss

---
 modules/svc/svc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index edda1df..1fe322d 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -121,7 +121,7 @@ void MLPPSVC::train_gradient_descent(real_t learning_rate, int max_epoch, bool u
 		_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 		// Calculating the bias gradients
-		_bias += learning_rate * mlpp_cost.hinge_loss_derivwv(_y_hat, _output_set, _c)->sum_elements() / n;
+		_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(_z, _output_set, _c)->sum_elements() / n;
 
 		forward_pass();
 
-- 
2.43.0


From 160acdb8f098600a568dc4847722ac36f71196e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 51/71] fix: MLPPSVC::train_mbgd() threw the weight update away

---
 modules/svc/svc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index 1fe322d..d651a11 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -242,11 +242,11 @@ void MLPPSVC::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_siz
 			cost_prev = cost(z, current_output_batch_entry, _weights, _c);
 
 			// Calculating the weight gradients
-			_weights->subn(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
+			_weights->sub(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
 			_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(y_hat, current_output_batch_entry, _c)->sum_elements() / n;
+			_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c)->sum_elements() / n;
 
 			forward_pass();
 
-- 
2.43.0


From e358ccd1270b89c8bf1c8c6d7e1c10468d099953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 52/71] fix: MLPPExpReg::mbgd() updated the parameter with the
 index of the batch

---
 modules/exp_reg/exp_reg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 5ca6a13..a13da03 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -211,8 +211,8 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 				real_t i_gradient = sum2 / current_output_batch->size();
 
 				// Weight/initial updation
-				_weights->element_set(i, _weights->element_get(i) - learning_rate * w_gradient);
-				_initial->element_set(i, _initial->element_get(i) - learning_rate * i_gradient);
+				_weights->element_set(j, _weights->element_get(j) - learning_rate * w_gradient);
+				_initial->element_set(j, _initial->element_get(j) - learning_rate * i_gradient);
 			}
 
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
-- 
2.43.0


From 01fe911faa375291706e9e83dced0d8221260053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 53/71] fix: MLPPProbitReg::train_mbgd() propagated the labels
 instead of the samples

---
 modules/probit_reg/probit_reg.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/modules/probit_reg/probit_reg.cpp b/modules/probit_reg/probit_reg.cpp
index 56aab86..1c3b645 100644
--- a/modules/probit_reg/probit_reg.cpp
+++ b/modules/probit_reg/probit_reg.cpp
@@ -275,10 +275,6 @@ void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_bat
 	int epoch = 1;
 	int n = _input_set->size().y;
 
-	Ref<MLPPVector> z_tmp;
-	z_tmp.instance();
-	z_tmp->resize(1);
-
 	// Creating the mini-batches
 	int n_mini_batch = n / mini_batch_size;
 
@@ -290,22 +286,20 @@ void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_bat
 			Ref<MLPPVector> current_output = batches.output_sets[i];
 
 			Ref<MLPPVector> y_hat = evaluatem(current_input);
-			real_t z = propagatev(current_output);
-
-			z_tmp->element_set(0, z);
+			Ref<MLPPVector> z = propagatem(current_input);
 
 			cost_prev = cost(y_hat, current_output);
 
 			Ref<MLPPVector> error = y_hat->subn(current_output);
 
 			// Calculating the weight gradients
-			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z_tmp)))->scalar_multiplyn(learning_rate / batches.input_sets.size()));
+			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z)))->scalar_multiplyn(learning_rate / batches.input_sets.size()));
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
 
-			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z_tmp))->sum_elements() / batches.input_sets.size();
-			y_hat = evaluatev(current_input);
+			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z))->sum_elements() / batches.input_sets.size();
+			y_hat = evaluatem(current_input);
 
 			if (ui) {
 				MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat, current_output));
-- 
2.43.0


From debfc3226e5567c430a356bdbab2bf289d68b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 54/71] fix: MLPPSoftmaxReg::train_sgd() evaluated the labels

---
 modules/softmax_reg/softmax_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/softmax_reg/softmax_reg.cpp b/modules/softmax_reg/softmax_reg.cpp
index 5109514..b267ddf 100644
--- a/modules/softmax_reg/softmax_reg.cpp
+++ b/modules/softmax_reg/softmax_reg.cpp
@@ -208,7 +208,7 @@ void MLPPSoftmaxReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		// Bias updation
 		_bias->sub(b_gradient->scalar_multiplyn(learning_rate));
 
-		y_hat = evaluatev(output_set_row_tmp);
+		y_hat = evaluatev(input_set_row_tmp);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_matrix_tmp, output_set_row_matrix_tmp));
-- 
2.43.0


From bba693b035d3c391e5959f9b8621c1dbd01b7842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:53 +0000
Subject: [PATCH 55/71] fix: MLPPUtilities::weight_initializationm() divided in
 integers, so most distributions had no width

---
 core/utilities.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 288ba48..9b31da7 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -233,42 +233,42 @@ void MLPPUtilities::weight_initializationm(Ref<MLPPMatrix> weights, WeightDistri
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_XAVIER_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + m)));
+			std::normal_distribution<real_t> distribution(0, Math::sqrt(2.0 / (n + m)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_XAVIER_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + m)), sqrt(6 / (n + m)));
+			std::uniform_real_distribution<real_t> distribution(-Math::sqrt(6.0 / (n + m)), Math::sqrt(6.0 / (n + m)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_HE_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+			std::normal_distribution<real_t> distribution(0, Math::sqrt(2.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_HE_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+			std::uniform_real_distribution<real_t> distribution(-Math::sqrt(6.0 / n), Math::sqrt(6.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_LE_CUN_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+			std::normal_distribution<real_t> distribution(0, Math::sqrt(1.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_LE_CUN_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+			std::uniform_real_distribution<real_t> distribution(-Math::sqrt(3.0 / n), Math::sqrt(3.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
-- 
2.43.0


From 09ba4d0b81a46ceb9a1ae39887125e3cbaabfe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 56/71] fix: MLPPUtilities::bias_initializationv() did not
 write the biases

---
 core/utilities.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 9b31da7..f9d3770 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -295,7 +295,6 @@ real_t MLPPUtilities::bias_initializationr() {
 void MLPPUtilities::bias_initializationv(Ref<MLPPVector> z) {
 	ERR_FAIL_COND(!z.is_valid());
 
-	std::vector<real_t> bias;
 	std::random_device rd;
 	std::default_random_engine generator(rd());
 	std::uniform_real_distribution<real_t> distribution(0, 1);
@@ -303,7 +302,7 @@ void MLPPUtilities::bias_initializationv(Ref<MLPPVector> z) {
 	int n = z->size();
 
 	for (int i = 0; i < n; i++) {
-		bias.push_back(distribution(generator));
+		z->element_set(i, distribution(generator));
 	}
 }
 
-- 
2.43.0


From a5e0c73154abcd383c25865fe2b50165e451651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 57/71] fix: MLPPUtilities::create_mini_batchesm() started
 batches at the wrong sample

---
 core/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index f9d3770..b845a43 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -639,7 +639,7 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 
 	// Creating the mini-batches
 	for (int i = 0; i < n_mini_batch; i++) {
-		int mini_batch_start_offset = n_mini_batch * i;
+		int mini_batch_start_offset = mini_batch_element_count * i;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
 		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
-- 
2.43.0


From 747929884be1edb2d54d93ff7851043bb1c34215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 58/71] fix: MLPPUtilities::create_mini_batchesmm() started
 batches at the wrong sample

---
 core/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index b845a43..9082a53 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -726,7 +726,7 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 	CreateMiniBatchMMBatch ret;
 
 	for (int i = 0; i < n_mini_batch; i++) {
-		int mini_batch_start_offset = n_mini_batch * i;
+		int mini_batch_start_offset = mini_batch_element_count * i;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
 		current_input_set->resize(Size2i(input_set_size.x, mini_batch_element_count));
-- 
2.43.0


From 09eb86b54b8752a5b99e022176ded270fe029ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 59/71] fix: MLPPUtilities::create_mini_batchesmv() gave every
 batch the labels of the first

---
 core/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 9082a53..001518a 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -690,7 +690,7 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 			input_set->row_get_into_mlpp_vector(main_indx, row_tmp);
 			current_input_set->row_set_mlpp_vector(j, row_tmp);
 
-			current_output_set->element_set(j, output_set->element_get(j));
+			current_output_set->element_set(j, output_set->element_get(main_indx));
 		}
 
 		ret.input_sets.push_back(current_input_set);
-- 
2.43.0


From 5ad3a270da543f62e191528abd2095f3ff5261a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 60/71] fix: MLPPExpReg left the initial values out of the
 gradient of its weights

---
 modules/exp_reg/exp_reg.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index a13da03..327868a 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -62,7 +62,7 @@ void MLPPExpReg::gradient_descent(real_t learning_rate, int max_epoch, bool ui)
 			// Calculating the weight gradient
 			real_t sum = 0;
 			for (int j = 0; j < _n; j++) {
-				sum += error->element_get(j) * _input_set->element_get(j, i) * Math::pow(_weights->element_get(i), _input_set->element_get(j, i) - 1);
+				sum += error->element_get(j) * _initial->element_get(i) * _input_set->element_get(j, i) * Math::pow(_weights->element_get(i), _input_set->element_get(j, i) - 1);
 			}
 			real_t w_gradient = sum / _n;
 
@@ -143,7 +143,7 @@ void MLPPExpReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		for (int i = 0; i < _k; i++) {
 			// Calculating the weight gradients
 
-			real_t w_gradient = (y_hat - output_element_set) * input_set_row_tmp->element_get(i) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i) - 1);
+			real_t w_gradient = (y_hat - output_element_set) * _initial->element_get(i) * input_set_row_tmp->element_get(i) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i) - 1);
 			real_t i_gradient = (y_hat - output_element_set) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i));
 
 			// Weight/initial updation
@@ -198,7 +198,7 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 				// Calculating the weight gradient
 				real_t sum = 0;
 				for (int k = 0; k < current_output_batch->size(); k++) {
-					sum += error->element_get(k) * current_input_batch->element_get(k, j) * Math::pow(_weights->element_get(j), current_input_batch->element_get(k, j) - 1);
+					sum += error->element_get(k) * _initial->element_get(j) * current_input_batch->element_get(k, j) * Math::pow(_weights->element_get(j), current_input_batch->element_get(k, j) - 1);
 				}
 				real_t w_gradient = sum / current_output_batch->size();
 
-- 
2.43.0


From c00218b6b7af3cf2c70c25072115f87e9b2449bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 61/71] fix: MLPPLinAlg::absnvt() returned its argument

---
 core/lin_alg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 217c5de..ead48bd 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1954,7 +1954,7 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::absnvt(const Vector<Ref<MLPPMatrix>> &A) {
 		res.write[i] = absnm(A[i]);
 	}
 
-	return A;
+	return res;
 }
 
 /*
-- 
2.43.0


From e61c8a0dfc9810fdf3916c66e2cdfcbd4957ad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 62/71] fix: MLPPNumericalAnalysis::cubic_approximationr() lost
 its cubic term to an integer division

---
 core/numerical_analysis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index 5252378..b9e8984 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -66,7 +66,7 @@ real_t MLPPNumericalAnalysis::quadratic_approximationr(real_t (*function)(real_t
 }
 
 real_t MLPPNumericalAnalysis::cubic_approximationr(real_t (*function)(real_t), real_t c, real_t x) {
-	return quadratic_approximationr(function, c, x) + (1 / 6) * num_diff_3r(function, c) * (x - c) * (x - c) * (x - c);
+	return quadratic_approximationr(function, c, x) + (1.0 / 6.0) * num_diff_3r(function, c) * (x - c) * (x - c) * (x - c);
 }
 
 real_t MLPPNumericalAnalysis::num_diffv(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x, int axis) {
-- 
2.43.0


From 11086c2839f620f4f4ff62c20cd8fbfb95e7b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 63/71] fix: MLPPNumericalAnalysis::cubic_approximationv() lost
 its cubic term to an integer division

---
 core/numerical_analysis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index b9e8984..af531a9 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -341,7 +341,7 @@ real_t MLPPNumericalAnalysis::cubic_approximationv(real_t (*function)(const Ref<
 	Ref<MLPPMatrix> result_mat = third_order_tensor(function, c)->tensor_vec_mult(xsc);
 	real_t result_scalar = mxsc->multn(result_mat->multn(mxsc->transposen()))->element_get(0, 0);
 
-	return quadratic_approximationv(function, c, x) + (1 / 6) * result_scalar;
+	return quadratic_approximationv(function, c, x) + (1.0 / 6.0) * result_scalar;
 }
 
 real_t MLPPNumericalAnalysis::laplacian(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x) {
-- 
2.43.0


From fdd04da841852f97dd0c98aab312c13fd50eb56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 64/71] fix: MLPPNumericalAnalysis::linear_approximationv()
 used only the first component of the gradient

---
 core/numerical_analysis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index af531a9..f0acc4c 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -302,7 +302,7 @@ real_t MLPPNumericalAnalysis::linear_approximationv(real_t (*function)(const Ref
 	mxsc.instance();
 	mxsc->row_add_mlpp_vector(xsc);
 
-	Ref<MLPPMatrix> m = mj->transposen()->multn(mxsc);
+	Ref<MLPPMatrix> m = mj->multn(mxsc->transposen());
 
 	return constant_approximationv(function, c) + m->element_get(0, 0);
 }
-- 
2.43.0


From a3ee62f1eb507149da7b9026e31ed031d2a71298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 65/71] fix: MLPPKNN::nearest_neighbors() stopped short when
 the first sample was taken

---
 modules/knn/knn.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/knn/knn.cpp b/modules/knn/knn.cpp
index 33c5ef1..42f761d 100644
--- a/modules/knn/knn.cpp
+++ b/modules/knn/knn.cpp
@@ -113,13 +113,18 @@ PoolIntArray MLPPKNN::nearest_neighbors(const Ref<MLPPVector> &x) {
 
 	//Perfom this loop unless and until all k nearest neighbors are found, appended, and returned
 	for (int i = 0; i < _k; ++i) {
-		int neighbor = 0;
+		int neighbor = -1;
 
 		for (int j = 0; j < iuss; j++) {
 			if (skip_map.has(j)) {
 				continue;
 			}
 
+			if (neighbor < 0) {
+				neighbor = j;
+				continue;
+			}
+
 			_input_set->row_get_into_mlpp_vector(j, tmpv1);
 			_input_set->row_get_into_mlpp_vector(neighbor, tmpv2);
 
@@ -130,7 +135,7 @@ PoolIntArray MLPPKNN::nearest_neighbors(const Ref<MLPPVector> &x) {
 			}
 		}
 
-		if (!skip_map.has(neighbor)) {
+		if (neighbor >= 0) {
 			knn.push_back(neighbor);
 			skip_map.set(neighbor, true);
 		}
-- 
2.43.0


From 1b6254f255ba5985f0a540c63f816d4e16ae63bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 66/71] fix: MLPPKNN::determine_class() compared sample indices
 with class labels

---
 modules/knn/knn.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modules/knn/knn.cpp b/modules/knn/knn.cpp
index 42f761d..d338409 100644
--- a/modules/knn/knn.cpp
+++ b/modules/knn/knn.cpp
@@ -164,12 +164,9 @@ int MLPPKNN::determine_class(const PoolIntArray &knn) {
 	int knn_size = knn.size();
 
 	for (int i = 0; i < knn_size; ++i) {
-		for (int j = 0; j < output_set_size; j++) {
-			int opj = static_cast<int>(os_ptr[j]);
-			if (knn_ptr[i] == opj) {
-				class_nums[opj]++;
-			}
-		}
+		ERR_CONTINUE(knn_ptr[i] >= output_set_size);
+
+		class_nums[static_cast<int>(os_ptr[knn_ptr[i]])]++;
 	}
 
 	int final_class = static_cast<int>(os_ptr[0]);
-- 
2.43.0


From 87525dfb451259c56e109e97a034af3244673b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:32 +0000
Subject: [PATCH 67/71] fix: MLPPKMeans::_evaluate() kept the previous sample's
 cluster for samples nearest to the first centroid

---
 modules/kmeans/kmeans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index f658e1b..6ea4b58 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -346,7 +346,6 @@ void MLPPKMeans::_evaluate() {
 	mu_j_tempv->resize(_mu->size().x);
 
 	real_t closest_centroid_current_dist = 0;
-	int closest_centroid_index = 0;
 
 	_r->fill(0);
 
@@ -354,6 +353,7 @@ void MLPPKMeans::_evaluate() {
 		_mu->row_get_into_mlpp_vector(0, closest_centroid);
 		_input_set->row_get_into_mlpp_vector(i, input_set_i_tempv);
 
+		int closest_centroid_index = 0;
 		closest_centroid_current_dist = input_set_i_tempv->euclidean_distance(closest_centroid);
 
 		for (int j = 0; j < r_size_x; ++j) {
-- 
2.43.0


From bfeabbee8e1769f19c72a46384a4c763b7571d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:32 +0000
Subject: [PATCH 68/71] fix: MLPPKMeans::_compute_mu() summed the samples in a
 vector of one element per cluster

---
 modules/kmeans/kmeans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index 6ea4b58..8184a71 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -379,7 +379,7 @@ void MLPPKMeans::_compute_mu() {
 
 	Ref<MLPPVector> num;
 	num.instance();
-	num->resize(_r->size().x);
+	num->resize(_input_set->size().x);
 
 	Ref<MLPPVector> input_set_j_tempv;
 	input_set_j_tempv.instance();
-- 
2.43.0


From cbcb2215d80bf9f231671e24d4660127be9fe251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:32 +0000
Subject: [PATCH 69/71] fix: MLPPKMeans::model_set_test() used the number of
 training samples instead of the number of given samples

---
 modules/kmeans/kmeans.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index 8184a71..7f0a1b3 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -81,11 +81,11 @@ Ref<MLPPMatrix> MLPPKMeans::model_set_test(const Ref<MLPPMatrix> &X) {
 	ERR_FAIL_COND_V(!X.is_valid(), Ref<MLPPMatrix>());
 	ERR_FAIL_COND_V(!_initialized, Ref<MLPPMatrix>());
 
-	int input_set_size_y = _input_set->size().y;
+	int x_size_y = X->size().y;
 
 	Ref<MLPPMatrix> closest_centroids;
 	closest_centroids.instance();
-	closest_centroids->resize(Size2i(_mu->size().x, input_set_size_y));
+	closest_centroids->resize(Size2i(_mu->size().x, x_size_y));
 
 	Ref<MLPPVector> closest_centroid;
 	closest_centroid.instance();
@@ -101,7 +101,7 @@ Ref<MLPPMatrix> MLPPKMeans::model_set_test(const Ref<MLPPMatrix> &X) {
 
 	int r0_size = _r->size().x;
 
-	for (int i = 0; i < input_set_size_y; ++i) {
+	for (int i = 0; i < x_size_y; ++i) {
 		_mu->row_get_into_mlpp_vector(0, closest_centroid);
 		X->row_get_into_mlpp_vector(i, tmp_xiv);
 
-- 
2.43.0


From 4f6feb4d4ae31ec8b851dec86d9051f7440bd422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:32 +0000
Subject: [PATCH 70/71] fix: MLPPKMeans::_kmeanspp_initialization() did not
 choose the farthest sample and left the last centroid unset

---
 modules/kmeans/kmeans.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index 7f0a1b3..c9e8ad3 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -465,11 +465,12 @@ void MLPPKMeans::_kmeanspp_initialization() {
 	farthest_centroid.instance();
 	farthest_centroid->resize(_input_set->size().x);
 
-	for (int i = 1; i < _k - 1; ++i) {
+	for (int i = 1; i < _k; ++i) {
+		real_t max_dist = -1;
+
 		for (int j = 0; j < input_set_size_y; ++j) {
 			_input_set->row_get_into_mlpp_vector(j, input_set_j_tempv);
 
-			real_t max_dist = 0;
 			// SUM ALL THE SQUARED DISTANCES, CHOOSE THE ONE THAT'S FARTHEST
 			// AS TO SPREAD OUT THE CLUSTER CENTROIDS.
 			real_t sum = 0;
-- 
2.43.0


From 9d292afc695c8ea07d76e1ee683771a0d64dd5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 71/71] fix: MLPPKMeans::model_set_test() considered only the
 first centroid before the first training

---
 modules/kmeans/kmeans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index c9e8ad3..8ae1b89 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -99,7 +99,7 @@ Ref<MLPPMatrix> MLPPKMeans::model_set_test(const Ref<MLPPMatrix> &X) {
 	tmp_mujv.instance();
 	tmp_mujv->resize(_mu->size().x);
 
-	int r0_size = _r->size().x;
+	int r0_size = _mu->size().y;
 
 	for (int i = 0; i < x_size_y; ++i) {
 		_mu->row_get_into_mlpp_vector(0, closest_centroid);
-- 
2.43.0

