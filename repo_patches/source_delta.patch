From cb818a6309b51856532c1c2ebc9d7d831dcd2c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:35 +0000
Subject: [PATCH 01/53] fix: zero degree Legendre functions written past the
 end of the arrays

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 2a79476..919a134 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -104,10 +104,15 @@ static void shc_legendre_low(double *lp, double *ldp, int degree, double sin_elv
     // with respect to the elevation (latitude) instead of the
     // inclination (co-latitude).
     lp[0] = 1.0;
+    ldp[0] = 0.0 ;
+
+    // the zero degree arrays have just one element
+    if (degree < 1)
+        return;
+
     lp[1] = sin_elv ;
     lp[2] = cos_elv;
 
-    ldp[0] = 0.0 ;
     ldp[1] = cos_elv;
     ldp[2] = -sin_elv;
 
-- 
2.43.0


From 74252279d07cb5c8fc7ded9575ad024548933297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:35 +0000
Subject: [PATCH 02/53] fix: sheval did not check the last dimension of the
 coordinates array

---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 545a245..8b7dee9 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -228,6 +228,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
             degree = max_degree;
     }
 
+    // check the last dimension of the position array
+    if (_check_array_dim_eq(arr_x, -1, 3, keywords[0]))
+        goto exit;
+
     // check array dimensions and allocate the output array
     {
         const int narr = 2;
-- 
2.43.0


From 6148108989d9df75bee9161ff58d35d105806f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:35 +0000
Subject: [PATCH 03/53] fix: sheval* misread coordinates arrays with a
 non-contiguous last dimension

---
 eoxmagmod/eoxmagmod/pymm_sheval.h     | 2 +-
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 2 +-
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 8b7dee9..e89a732 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -189,7 +189,7 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     // cast the objects to arrays
-    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[0])))
+    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_ALIGNED, keywords[0])))
         goto exit;
 
     if (NULL == (arr_coef = _get_as_double_array(obj_coef, 2, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_IN_ARRAY, keywords[1])))
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index fb330da..a7b11f1 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -204,7 +204,7 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_t2 = _get_as_double_array(obj_t2, 0, 0, NPY_ARRAY_ALIGNED, keywords[1])))
         goto exit;
 
-    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[2])))
+    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_ALIGNED, keywords[2])))
         goto exit;
 
     // check the arrays' dimensions
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 3c16fdd..be1a55e 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -250,7 +250,7 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_t = _get_as_double_array(obj_t, 0, 0, NPY_ARRAY_ALIGNED, keywords[0])))
         goto exit;
 
-    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[1])))
+    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_ALIGNED, keywords[1])))
         goto exit;
 
     if (degree < 0)
-- 
2.43.0


From da3902b3811bf469d611a0880df4d0814e0f96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:35 +0000
Subject: [PATCH 04/53] fix: sheval crashed on a scale_gradient array of an
 invalid shape

---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index e89a732..9d0852c 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -299,10 +299,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     // handle the gradient scale factors
     if (NULL != obj_scale)
     {
-        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[9])))
+        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[8])))
             goto exit;
 
-        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[9]))
+        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[8]))
             goto exit;
     }
 
-- 
2.43.0


From 23248a142643ac47cc5b306ba25c5f4c2d689ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:46 +0000
Subject: [PATCH 05/53] fix: fourier2d buffer overflow for min_degree2
 exceeding the other degrees

---
 eoxmagmod/eoxmagmod/pymm_fourier2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_fourier2d.h b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
index a8b7a6d..b0b1e9b 100644
--- a/eoxmagmod/eoxmagmod/pymm_fourier2d.h
+++ b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
@@ -347,7 +347,7 @@ static int _fourier2d_init(
     max_abs_degree = 1;
     max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
     max_abs_degree = MAX(max_abs_degree, abs(max_degree1));
-    max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
+    max_abs_degree = MAX(max_abs_degree, abs(min_degree2));
     max_abs_degree = MAX(max_abs_degree, abs(max_degree2));
     f2d->max_abs_degree = max_abs_degree;
 
-- 
2.43.0


From 204bfe8597ce0eeb9ec1b001301b0f921b684eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:49 +0000
Subject: [PATCH 06/53] fix: sheval2dfs crashed on an invalid coefficient set

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index a7b11f1..063f839 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -244,7 +244,8 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     // parse coefficient set
-    _f2d_coefset_parse(&coefset, keywords[3], obj_coef_set);
+    if (_f2d_coefset_parse(&coefset, keywords[3], obj_coef_set))
+        goto exit;
 
     degree = coefset.degree;
 
-- 
2.43.0


From c7c8126d020f9baa013235034fb2614b41965c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:49 +0000
Subject: [PATCH 07/53] fix: sheval2dfs memory leak

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 063f839..3b5970b 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -591,6 +591,8 @@ static void _f2d_coefset_reset(FOURIER_2D_COEF_SET *coefset)
 
 static void _f2d_coefset_destroy(FOURIER_2D_COEF_SET *coefset)
 {
+    if (coefset->offset) free(coefset->offset);
+
     if (coefset->arr_ab) Py_DECREF(coefset->arr_ab);
     if (coefset->arr_cm) Py_DECREF(coefset->arr_cm);
 
-- 
2.43.0


From a5ba0f837138071c2e567f1a1159ddbf00c5b682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:12 +0000
Subject: [PATCH 08/53] fix: integer overflow of the array indices for too
 large degrees

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 5 +++--
 eoxmagmod/eoxmagmod/pymm_legendre.h               | 7 +++++++
 eoxmagmod/eoxmagmod/pymm_sheval.h                 | 2 +-
 eoxmagmod/eoxmagmod/pymm_sphar_common.h           | 3 ++-
 eoxmagmod/eoxmagmod/pymm_sphargrd.h               | 2 +-
 eoxmagmod/eoxmagmod/pymm_spharpot.h               | 2 +-
 6 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 919a134..bd8a1e3 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -33,6 +33,7 @@
 #define FDIV(a,b) ((double)(a)/(double)(b))
 
 #include <math.h>
+#include <stddef.h>
 
 /**
  * @brief Allocate and evaluate pre-calculated square-root series
@@ -299,7 +300,7 @@ static void shc_legendre(double *lp, double *ldp, int degree, double elv, const
 
 static void shc_relradpow_internal(double *rrp, int degree, double relrad)
 {
-    int i;
+    ptrdiff_t i;
     double rr = 1.0/relrad;
     double rrp_last = rr;
 
@@ -323,7 +324,7 @@ static void shc_relradpow_internal(double *rrp, int degree, double relrad)
 
 static void shc_relradpow_external(double *rrp, int degree, double relrad)
 {
-    int i;
+    ptrdiff_t i;
     double rrp_val = 1.0;
 
     if (0 <= degree)
diff --git a/eoxmagmod/eoxmagmod/pymm_legendre.h b/eoxmagmod/eoxmagmod/pymm_legendre.h
index 131e65f..200c49b 100644
--- a/eoxmagmod/eoxmagmod/pymm_legendre.h
+++ b/eoxmagmod/eoxmagmod/pymm_legendre.h
@@ -34,6 +34,7 @@
 #include "spherical_harmonics.h"
 #include "pymm_aux.h"
 #include "pymm_cconv.h"
+#include "pymm_sphar_common.h"
 
 /* Python function definition */
 
@@ -87,6 +88,12 @@ static PyObject* legendre(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
     }
 
+    if (degree > MAX_DEGREE)
+    {
+        PyErr_Format(PyExc_ValueError, "%s is larger than %d!", keywords[1], MAX_DEGREE);
+        goto exit;
+    }
+
     // cast the input object to an array
     if (NULL == (arr_lat = _get_as_double_array(obj_lat, 0, 0, NPY_ARRAY_ALIGNED, keywords[0])))
         goto exit;
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 9d0852c..4f90bb2 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -219,7 +219,7 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
 
         if ((max_degree > MAX_DEGREE)&&(degree < 0))
         {
-            PyErr_Format(PyExc_ValueError, "Degree is larger than %g!", MAX_DEGREE);
+            PyErr_Format(PyExc_ValueError, "Degree is larger than %d!", MAX_DEGREE);
             goto exit;
         }
 
diff --git a/eoxmagmod/eoxmagmod/pymm_sphar_common.h b/eoxmagmod/eoxmagmod/pymm_sphar_common.h
index 4f59be7..bedaad7 100644
--- a/eoxmagmod/eoxmagmod/pymm_sphar_common.h
+++ b/eoxmagmod/eoxmagmod/pymm_sphar_common.h
@@ -33,8 +33,9 @@
 
 #include "pymm_aux.h"
 
+// the largest degree for which the coefficient indices fit the int type
 #ifndef MAX_DEGREE
-#define MAX_DEGREE 2147483647
+#define MAX_DEGREE 46339
 #endif
 
 
diff --git a/eoxmagmod/eoxmagmod/pymm_sphargrd.h b/eoxmagmod/eoxmagmod/pymm_sphargrd.h
index 7cdba3d..48b9e05 100644
--- a/eoxmagmod/eoxmagmod/pymm_sphargrd.h
+++ b/eoxmagmod/eoxmagmod/pymm_sphargrd.h
@@ -149,7 +149,7 @@ static PyObject* sphargrd(PyObject *self, PyObject *args, PyObject *kwdict)
 
         if ((max_degree > MAX_DEGREE)&&(degree < 0))
         {
-            PyErr_Format(PyExc_ValueError, "Degree is larger than %g!", MAX_DEGREE);
+            PyErr_Format(PyExc_ValueError, "Degree is larger than %d!", MAX_DEGREE);
             goto exit;
         }
 
diff --git a/eoxmagmod/eoxmagmod/pymm_spharpot.h b/eoxmagmod/eoxmagmod/pymm_spharpot.h
index 0b1a286..dbb590d 100644
--- a/eoxmagmod/eoxmagmod/pymm_spharpot.h
+++ b/eoxmagmod/eoxmagmod/pymm_spharpot.h
@@ -134,7 +134,7 @@ static PyObject* spharpot(PyObject *self, PyObject *args, PyObject *kwdict)
 
         if ((max_degree > MAX_DEGREE)&&(degree < 0))
         {
-            PyErr_Format(PyExc_ValueError, "Degree is larger than %g!", MAX_DEGREE);
+            PyErr_Format(PyExc_ValueError, "Degree is larger than %d!", MAX_DEGREE);
             goto exit;
         }
 
-- 
2.43.0


From 6170ed77f58b03b7aa85fb2542bef1f3e51af9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:12 +0000
Subject: [PATCH 09/53] fix: shevaltemp and sheval2dfs memory corruption by
 invalid coefficient degree and order

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h   |  4 ++++
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h   |  4 ++++
 eoxmagmod/eoxmagmod/pymm_sphar_common.h | 17 +++++++++++++++++
 3 files changed, 25 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 3b5970b..65f7201 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -636,6 +636,10 @@ static int _f2d_coefset_init(
         for (i = 0; i < coefset->ncoef; ++i) {
             int degree = coefset->cm[i*2];
             int order = coefset->cm[i*2+1];
+
+            if (_check_degree_and_order(degree, order))
+                goto error;
+
             ptrdiff_t offset = ((ptrdiff_t)degree)*((ptrdiff_t)degree+1)/2 + ABS(order);
             ptrdiff_t sign = order < 0 ? -1 : 1;
 
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index be1a55e..fd6d10c 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -696,6 +696,10 @@ static int _coefset_init(
         for (i = 0; i < coefset->ncoef; ++i) {
             int degree = coefset->cm[i*2];
             int order = coefset->cm[i*2+1];
+
+            if (_check_degree_and_order(degree, order))
+                goto error;
+
             ptrdiff_t offset = ((ptrdiff_t)degree)*((ptrdiff_t)degree+1)/2 + ABS(order);
             ptrdiff_t sign = order < 0 ? -1 : 1;
 
diff --git a/eoxmagmod/eoxmagmod/pymm_sphar_common.h b/eoxmagmod/eoxmagmod/pymm_sphar_common.h
index bedaad7..26d3172 100644
--- a/eoxmagmod/eoxmagmod/pymm_sphar_common.h
+++ b/eoxmagmod/eoxmagmod/pymm_sphar_common.h
@@ -129,4 +129,21 @@ npy_intp _size_to_degree(npy_intp size)
     return degree;
 }
 
+
+
+// check degree and order of a coefficient - return 1 and set error if not valid
+int _check_degree_and_order(int degree, int order)
+{
+    if ((degree < 0)||(degree > MAX_DEGREE)||(order < -degree)||(order > degree))
+    {
+        PyErr_Format(
+            PyExc_ValueError, "Invalid coefficient degree and order (%d, %d)!",
+            degree, order
+        );
+        return 1;
+    }
+
+    return 0;
+}
+
 #endif /*PYMM_SPHAR_COMMON_H*/
-- 
2.43.0


From 297182472065f088abca204379fc5b11b35db6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:12 +0000
Subject: [PATCH 10/53] fix: shevaltemp read past the end of too short
 time-series

---
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index fd6d10c..2837fb8 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -448,6 +448,12 @@ static int parse_coefset(COEF_SET *coefset, const char *label, size_t idx, PyObj
     if (_check_array_dim_eq(arr_cm, 1, 2, buffer))
         goto error;
 
+    // the interpolation requires at least as many nodes as the spline order
+    snprintf(buffer, buffer_size, "%s[%ld].%s", label, idx, keywords[0]);
+
+    if (_check_array_dim_le(arr_ct, 0, spline_order, buffer))
+        goto error;
+
     return _coefset_init(coefset, arr_ct, arr_cv, arr_cm, spline_order);
 
   error:
-- 
2.43.0


From 0958f3aa5dd68e847ffaa4e8c28b36d56cb8a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 11/53] fix: shevaltemp dropped contributions of terms shared
 by multiple coefficient sets

---
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 54 +++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 2837fb8..e0c10b3 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -97,6 +97,7 @@ typedef struct ModelTS {
     const COEF_SET *coefsets;
     double time_last;
     size_t ncoefset;
+    int has_shared_terms; // set if there is a term shared by multiple sets
 } MODEL_TS;
 
 static void _model_ts_reset(MODEL_TS *model);
@@ -471,6 +472,10 @@ static void _coeff_interp(double time, MODEL_TS *model) {
 
     size_t i, n = model->ncoefset;
 
+    // terms shared by multiple sets are sums of the sets' contributions
+    if (model->has_shared_terms)
+        memset(model->coef, 0, model->sh_model.nterm*sizeof(double[2]));
+
     for (i = 0; i < n; ++i) {
         const COEF_SET *coefset = model->coefsets + i;
         coefset->coeff_set_interp(time, model, coefset);
@@ -610,6 +615,43 @@ static void _model_ts_destroy(MODEL_TS *model)
 }
 
 
+/* model structure - detect terms shared by multiple coefficient sets */
+
+static int _model_ts_find_shared_terms(MODEL_TS *model)
+{
+    size_t i, j;
+    size_t (*owner)[2] = calloc(model->sh_model.nterm, sizeof(size_t[2]));
+
+    if (NULL == owner)
+    {
+        PyErr_Format(PyExc_MemoryError, "_model_ts_find_shared_terms: owner");
+        return 1;
+    }
+
+    model->has_shared_terms = 0;
+
+    for (i = 0; i < model->ncoefset; ++i)
+    {
+        const COEF_SET *coefset = model->coefsets + i;
+
+        for (j = 0; j < coefset->ncoef; ++j)
+        {
+            const size_t offset = abs(coefset->offset[j]);
+            const size_t kind = coefset->offset[j] < 0;
+
+            if ((owner[offset][kind] != 0)&&(owner[offset][kind] != i + 1))
+                model->has_shared_terms = 1;
+
+            owner[offset][kind] = i + 1;
+        }
+    }
+
+    free(owner);
+
+    return 0;
+}
+
+
 /* model structure - initialization */
 
 static int _model_ts_init(
@@ -639,7 +681,7 @@ static int _model_ts_init(
     model->ncoefset = ncoefset;
     model->time_last = NAN;
 
-    return 0;
+    return _model_ts_find_shared_terms(model);
 
   error:
     _model_ts_destroy(model);
@@ -739,7 +781,7 @@ static int _coefset_init(
 static void _coeff_set_interp0(double time, MODEL_TS *model, const COEF_SET *coefset) {
     INTERP_BASIS basis = get_interp0_basis(time, coefset->ct, coefset->ntime);
 
-    if (coefset->idx_last == basis.i) {
+    if ((coefset->idx_last == basis.i)&&(!model->has_shared_terms)) {
         return;
     }
 
@@ -751,7 +793,9 @@ static void _coeff_set_interp0(double time, MODEL_TS *model, const COEF_SET *coe
     {
         size_t offset = abs(coefset->offset[i]);
         size_t kind = coefset->offset[i] < 0;
-        coef[offset][kind] = interp0_eval(&basis, coefset->cv + i*coefset->ntime);
+        const double value = interp0_eval(&basis, coefset->cv + i*coefset->ntime);
+
+        coef[offset][kind] = model->has_shared_terms ? coef[offset][kind] + value : value;
     }
 
      ((COEF_SET*)coefset)->idx_last = basis.i;
@@ -771,7 +815,9 @@ static void _coeff_set_interp1(double time, MODEL_TS *model, const COEF_SET *coe
     {
         size_t offset = abs(coefset->offset[i]);
         size_t kind = coefset->offset[i] < 0;
-        coef[offset][kind] = interp1_eval(&basis, coefset->cv + i*coefset->ntime);
+        const double value = interp1_eval(&basis, coefset->cv + i*coefset->ntime);
+
+        coef[offset][kind] = model->has_shared_terms ? coef[offset][kind] + value : value;
     }
 }
 
-- 
2.43.0


From 91b97b372bb54a898192541ae37ea2a95723f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 12/53] fix: inaccurate eastward field component in the
 vicinity of the poles

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index bd8a1e3..b697b26 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -276,8 +276,7 @@ static void shc_legendre_high(double *lp, double *ldp, int degree, double sin_el
 static void shc_legendre(double *lp, double *ldp, int degree, double elv, const double *psqrt, const double *prsqrt)
 {
     const double sin_elv = sin(elv);
-    //const double cos_elv = cos(elv);
-    const double cos_elv = sqrt((1.0-sin_elv)*(1.0+sin_elv));
+    const double cos_elv = cos(elv);
 
     if ((degree <= 16)||(fabs(cos_elv) < 1e-10))
         // low degree model + poles
-- 
2.43.0


From 8f79cdd33e0f2fc9cd8e955e332dee305809feea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:53 +0000
Subject: [PATCH 13/53] fix: MLT and sub-solar point of an unsupported time
 terminated the process

---
 qdipole/eval_mlt.f90    | 13 ++++++++++++-
 qdipole/eval_subsol.f90 | 14 +++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index e3924c7..781efc6 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -9,6 +9,9 @@
 !      Evaluate magnetic local time.
 !      Wrapper around the low-level subroutines.
 !      For more details see MAGLOCTM in apex.f90
+!      The MLT is defined only for the times covered by both the COFRM and
+!      SUBSOL subroutines (years 1900 to 2100). The MLT of any other time is
+!      set to NaN.
 !
 ! Latest changes:
 ! 09-06-2016: First version of the subroutine.
@@ -34,10 +37,11 @@
 
       subroutine eval_mlt(t_mlt, qdlon, t_mjd2k, n_data)
 
+      use, intrinsic :: ieee_arithmetic, only: ieee_value, ieee_quiet_nan
       implicit none
 
       real*8  qdlon(*), t_mjd2k(*), t_mlt(*)
-      real*8  t_0, sec
+      real*8  t_0, sec, t_min, t_max
       real*4  t_mlt4, qdlon4
       real*4  dp_colat, dp_elon, dp_vp
       real*4  sbsllat, sbsllon, ssec
@@ -45,10 +49,17 @@
       integer  n_data, i
       integer  iyr, imon, iday, idoy, ihour, imin
       parameter(epoch_limit = 1./365.25)
+!     MJD2000 of epoch 1900.0 and 2101-01-01
+      parameter(t_min = -36525.d0, t_max = 36890.d0)
 
       epoch_old = -9999.9
 
       do i = 1, n_data
+!        Times not supported by COFRM or SUBSOL (including NaN)
+         if (.not. (t_mjd2k(i) .ge. t_min .and. t_mjd2k(i) .lt. t_max)) then
+            t_mlt(i) = ieee_value(t_mlt(i), ieee_quiet_nan)
+            cycle
+         endif
 !        The epoch is approximated by neglecting the leap years
          epoch = t_mjd2k(i) / 365.25 + 2000
 !        Reload coefficients and evaluate the dipole pole location.
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index e8a8e2b..ada07c5 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -16,6 +16,9 @@
 !      an approx. 0.15 dg longitude offset for the currently accumulated
 !      36 leap seconds.
 !
+!      The SUBSOL subroutine is defined only for the years 1601 to 2100.
+!      The sub-solar point of any other time is set to NaN.
+!
 !  References: n/a
 !
 ! Latest changes:
@@ -42,15 +45,24 @@
 !***********************************************************************
 
       subroutine eval_subsol(sbsllat, sbsllon, t_mjd2k, n_data)
+      use, intrinsic :: ieee_arithmetic, only: ieee_value, ieee_quiet_nan
       implicit none
 
       real*8        sbsllat(*), sbsllon(*), t_mjd2k(*)
-      real*8        t_0, sec
+      real*8        t_0, sec, t_min, t_max
       real*4        lat, lon, ssec
       integer       n_data, i
       integer       iyr, imon, iday, idoy, ihour, imin
+!     MJD2000 of 1601-01-01 and 2101-01-01
+      parameter(t_min = -145731.d0, t_max = 36890.d0)
 
       do i = 1, n_data
+!        Times not supported by SUBSOL (including NaN)
+         if (.not. (t_mjd2k(i) .ge. t_min .and. t_mjd2k(i) .lt. t_max)) then
+            sbsllat(i) = ieee_value(sbsllat(i), ieee_quiet_nan)
+            sbsllon(i) = ieee_value(sbsllon(i), ieee_quiet_nan)
+            cycle
+         endif
 !        1. Calculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
-- 
2.43.0


From 0a95eaec9be936627e78cc1c3be6e30e09e6433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:55 +0000
Subject: [PATCH 14/53] fix: day of year of the times before 2000 off by one in
 the MLT and sub-solar point evaluation

---
 qdipole/eval_mlt.f90    | 6 ++++--
 qdipole/eval_subsol.f90 | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index 781efc6..6d555fc 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -41,7 +41,7 @@
       implicit none
 
       real*8  qdlon(*), t_mjd2k(*), t_mlt(*)
-      real*8  t_0, sec, t_min, t_max
+      real*8  t_0, t_1, sec, t_min, t_max
       real*4  t_mlt4, qdlon4
       real*4  dp_colat, dp_elon, dp_vp
       real*4  sbsllat, sbsllon, ssec
@@ -73,9 +73,11 @@
 !        1. Ccalculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
+!           and mjd = nint(t_1) of the date
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
+         call tmjd(iyr, imon, iday, 0, 0, 0.d0, t_1, 1)
 !        3. Get day of year (doy)
-         idoy = int(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = nint(t_1) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, sbsllat, sbsllon)
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index ada07c5..718e625 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -49,7 +49,7 @@
       implicit none
 
       real*8        sbsllat(*), sbsllon(*), t_mjd2k(*)
-      real*8        t_0, sec, t_min, t_max
+      real*8        t_0, t_1, sec, t_min, t_max
       real*4        lat, lon, ssec
       integer       n_data, i
       integer       iyr, imon, iday, idoy, ihour, imin
@@ -66,9 +66,11 @@
 !        1. Calculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
+!           and mjd = nint(t_1) of the date
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
+         call tmjd(iyr, imon, iday, 0, 0, 0.d0, t_1, 1)
 !        3. Get day of year (doy)
-         idoy = int(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = nint(t_1) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, lat, lon)
-- 
2.43.0


From 2d58189d8edc80333161e4041fedf7997f744121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 15/53] fix: unreadable QD coefficients file or NaN time
 terminated or crashed the process

---
 qdipole/apexsh.f90        | 39 +++++++++++++++++++++++++-------
 qdipole/cqdipole.c        | 17 +++++++++-----
 qdipole/eval_qdlatlon.f90 | 47 ++++++++++++++++++++++++++++++++-------
 3 files changed, 81 insertions(+), 22 deletions(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index 09099df..ad3c2e3 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -18,12 +18,15 @@
 !  Loads spherical harmonic coefficients (created by MAKEAPXSH) for coordinate conversions. Must be
 !  run before calling the conversion routines.
 !
-!  CALL LOADAPXSH (DATAFILE, EPOCH)
+!  CALL LOADAPXSH (DATAFILE, EPOCH, IERR)
 !
 !  INPUT ARGUMENTS
 !    DATAFILE  Name of data file, generated by MAKEAPXSH, containing the conversion coefficients
 !    EPOCH     Date for which coordinates are desired (decimal years, yyyy.y, single precision)
 !
+!  OUTPUT ARGUMENTS
+!    IERR      Set to zero on success or to a non-zero value if the file cannot be read.
+!
 !***************************************************************************************************
 !
 !  APXG2Q
@@ -158,7 +161,7 @@
 
 !***************************************************************************************************
 
-     subroutine loadapxsh(datafilenew,epochnew)
+     subroutine loadapxsh(datafilenew,epochnew,ierr)
 
     use apxshmodule
 
@@ -167,18 +170,38 @@
     character(1023)             :: datafilenew, datafilelast=''
     real(4)                     :: epochnew, epochlast=-999.0
     real(8)                     :: we0, we1
-    integer(4)                  :: iepoch0, iepoch1, iterm, icoord
+    integer(4)                  :: iepoch0, iepoch1, iterm, icoord, ierr
+
+    ierr = 0
 
     !CHECK FILE, GET DIMENSIONS, AND ALLOCATE ARRAYS
     if ((datafilenew .ne. datafilelast) .or. (loadflag)) then
+      loadflag = .true.
       datafile = datafilenew
-      open(unit=23,file=trim(datafile),status='old',form='formatted')
-      read(23,*) nepoch, nmax, mmax, lmax, nterm
-      call allocatearrays
-      read(23,*) epochgrid, coeff0
+      open(unit=23,file=trim(datafile),status='old',form='formatted',iostat=ierr)
+      if (ierr .ne. 0) return
+      read(23,*,iostat=ierr) nepoch, nmax, mmax, lmax, nterm
+      if (ierr .eq. 0) then
+        !CHECK CONSISTENCY OF THE DIMENSIONS
+        if ((nepoch .lt. 1) .or. (nepoch .gt. 999) &
+            .or. (nmax .lt. 1) .or. (nmax .gt. 99) &
+            .or. (mmax .lt. 0) .or. (mmax .gt. nmax) &
+            .or. (lmax .lt. 0) .or. (lmax .gt. 99)) then
+          ierr = 1
+        else
+          ntermsh = mmax*(2*nmax-mmax+1) + nmax + 1
+          if (nterm .ne. ntermsh*(lmax+1)) ierr = 1
+          if (nterm*nepoch .gt. 100000000) ierr = 1
+        endif
+      endif
+      if (ierr .eq. 0) then
+        call allocatearrays
+        read(23,*,iostat=ierr) epochgrid, coeff0
+      endif
       close(23)
+      if (ierr .ne. 0) return
     endif
-    
+
     !LOAD COEFFICIENTS AND INTEPOLATE TO SELECTED EPOCH
     if ((epochnew .ne. epochlast) .or. (datafilenew .ne. datafilelast) .or.(loadflag)) then
       epoch = epochnew
diff --git a/qdipole/cqdipole.c b/qdipole/cqdipole.c
index b723669..50649ce 100644
--- a/qdipole/cqdipole.c
+++ b/qdipole/cqdipole.c
@@ -91,7 +91,8 @@ int c_eval_subsol(double *sbsllat, double *sbsllon, const double *time_mjd2k,
 
 
 void eval_qdlatlon_(double*, double*, const double*, const double*,
-                    const double*, const double*, const int*, const char*);
+                    const double*, const double*, const int*, const char*,
+                    int*);
 
 int c_eval_qdlatlon(
      double *qdlat, double *qdlon, const double *time_dy, const double *gcrad,
@@ -99,20 +100,22 @@ int c_eval_qdlatlon(
      const char *coeff_file)
 {
     /* NOTE: Fortran code expects the file name as a sized size string. */
+    int status = 0;
     char filename[MAX_PATH_LENGTH + 1];
     if (check_string_lenght(coeff_file, MAX_PATH_LENGTH)) return 1;
     copy_string(filename, coeff_file, MAX_PATH_LENGTH + 1);
 
     /* call the Fortran subroutine */
-    eval_qdlatlon_(qdlat, qdlon, time_dy, gcrad, gclat, gclon, &n_data, filename);
+    eval_qdlatlon_(qdlat, qdlon, time_dy, gcrad, gclat, gclon, &n_data, filename,
+                   &status);
 
-    return 0;
+    return status != 0;
 }
 
 
 void eval_qdlatlonvb_(double*, double*, double*, double*, double*, double*,
                       double*, const double*, const double*, const double*,
-                      const double*, const int*, const char*);
+                      const double*, const int*, const char*, int*);
 
 int c_eval_qdlatlonvb(
      double *qdlat, double *qdlon, double *f11, double *f12, double *f21,
@@ -121,13 +124,15 @@ int c_eval_qdlatlonvb(
      const int n_data, const char *coeff_file)
 {
     /* NOTE: Fortran code expects the file name as a sized size string. */
+    int status = 0;
     char filename[MAX_PATH_LENGTH + 1];
     if (check_string_lenght(coeff_file, MAX_PATH_LENGTH)) return 1;
     copy_string(filename, coeff_file, MAX_PATH_LENGTH + 1);
 
     /* call the Fortran subroutine */
     eval_qdlatlonvb_(qdlat, qdlon, f11, f12, f21, f22, f,
-                     time_dy, gcrad, gclat, gclon, &n_data, filename);
+                     time_dy, gcrad, gclat, gclon, &n_data, filename,
+                     &status);
 
-    return 0;
+    return status != 0;
 }
diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index 0a6dbef..901b25b 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -21,7 +21,8 @@
 !  Evaluate quasi-dipole latitude and longitude for given points
 !  in the geocentric polar coordinates and dates (decimal year).
 !
-!  call eval_qdlatlon(sbslat, sbslon, t_mjd2k, n_data)
+!  call eval_qdlatlon(qdlat, qdlon, t_dy, gcrad, gclat, gclon, &
+!                     n_data, coeff_file, ierr)
 !
 !  INPUT ARGUMENTS
 !    t_dy     vector of times (decimal year)
@@ -34,6 +35,10 @@
 !  OUTPUT ARGUMENTS
 !    qdlat     array of Quasi-Dipole latitudes
 !    qdlon     array of Quasi-Dipole longitudes
+!    ierr      set to a non-zero value if the coefficients file cannot
+!              be read
+!
+!  Results for times set to NaN are set to NaN.
 !
 !***********************************************************************
 !
@@ -42,7 +47,8 @@
 !  Evaluate quasi-dipole latitude, longitude and base vectors for given
 !  points in the geocentric polar coordinates and dates (decimal year).
 !
-!  call eval_qdlatlon(sbslat, sbslon, t_mjd2k, n_data)
+!  call eval_qdlatlonvb(qdlat, qdlon, f11, f12, f21, f22, f, t_dy, &
+!                       gcrad, gclat, gclon, n_data, coeff_file, ierr)
 !
 !  INPUT ARGUMENTS
 !    t_dy     vector of times (decimal year)
@@ -60,28 +66,40 @@
 !    f21,f22   arrays of components of the Quasi-Dipole coordinate
 !               base vectors F2 (northward).
 !    f         array of F = |F1 x F2| (see apexsh.f90)
+!    ierr      set to a non-zero value if the coefficients file cannot
+!              be read
+!
+!  Results for times set to NaN are set to NaN.
 !
 !***********************************************************************
 
       subroutine eval_qdlatlon(qdlat, qdlon, t_dy, gcrad, gclat, gclon,&
-                               n_data, coeff_file)
+                               n_data, coeff_file, ierr)
+      use, intrinsic :: ieee_arithmetic, only: ieee_value, ieee_quiet_nan
       implicit none
 
       real*8  qdlon(*), qdlat(*)
       real*8  t_dy(*), gcrad(*), gclat(*), gclon(*)
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
-      integer*4  vecflag, n_data, i
+      integer*4  vecflag, n_data, ierr, i
       character*1023 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 0)
 
+      ierr = 0
       epoch_old = -9999.9
 
       do i = 1, n_data
 !        Reload coefficients if time has changed by more than epoch_limit
          epoch = t_dy(i)
+         if (epoch .ne. epoch) then
+            qdlat(i) = ieee_value(qdlat(i), ieee_quiet_nan)
+            qdlon(i) = ieee_value(qdlon(i), ieee_quiet_nan)
+            cycle
+         endif
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
-            call loadapxsh(coeff_file, epoch)
+            call loadapxsh(coeff_file, epoch, ierr)
+            if (ierr .ne. 0) return
             epoch_old = epoch
          endif
 !        Convert geocentric coordinates to geodetic coordinates
@@ -100,24 +118,37 @@
 !***********************************************************************
 
       subroutine eval_qdlatlonvb(qdlat, qdlon, f11, f12, f21, f22, f, &
-        t_dy, gcrad, gclat, gclon, n_data, coeff_file)
+        t_dy, gcrad, gclat, gclon, n_data, coeff_file, ierr)
+      use, intrinsic :: ieee_arithmetic, only: ieee_value, ieee_quiet_nan
       implicit none
 
       real*8  qdlon(*), qdlat(*), f11(*), f12(*), f21(*), f22(*), f(*)
       real*8  t_dy(*), gcrad(*), gclat(*), gclon(*)
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
-      integer*4  vecflag, n_data, i
+      integer*4  vecflag, n_data, ierr, i
       character*256 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 1)
 
+      ierr = 0
       epoch_old = -9999.9
 
       do i = 1, n_data
 !        Reload coefficients if time has changed by more than epoch_limit
          epoch = t_dy(i)
+         if (epoch .ne. epoch) then
+            qdlat(i) = ieee_value(qdlat(i), ieee_quiet_nan)
+            qdlon(i) = ieee_value(qdlon(i), ieee_quiet_nan)
+            f11(i) = ieee_value(f11(i), ieee_quiet_nan)
+            f12(i) = ieee_value(f12(i), ieee_quiet_nan)
+            f21(i) = ieee_value(f21(i), ieee_quiet_nan)
+            f22(i) = ieee_value(f22(i), ieee_quiet_nan)
+            f(i) = ieee_value(f(i), ieee_quiet_nan)
+            cycle
+         endif
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
-            call loadapxsh(coeff_file, epoch)
+            call loadapxsh(coeff_file, epoch, ierr)
+            if (ierr .ne. 0) return
             epoch_old = epoch
          endif
 !        Convert geocentric coordinates to geodetic coordinates
-- 
2.43.0


From 4e48f8bef0cd487527bd4f36d591c36350263256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:16 +0000
Subject: [PATCH 16/53] fix: 2D Fourier series memory corruption by a too large
 degree

---
 eoxmagmod/eoxmagmod/pymm_fourier2d.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_fourier2d.h b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
index b0b1e9b..c11f301 100644
--- a/eoxmagmod/eoxmagmod/pymm_fourier2d.h
+++ b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
@@ -42,6 +42,11 @@
 #define MAX(a,b) ((b)>(a)?(b):(a))
 #endif
 
+/* 2D Fourier series - max. allowed absolute value of the degree */
+#ifndef FOURIER2D_MAX_DEGREE
+#define FOURIER2D_MAX_DEGREE 0xFFFFF
+#endif
+
 
 /* 2D Fourier series - auxiliary structure */
 typedef struct Fourier2D {
@@ -331,12 +336,24 @@ static int _fourier2d_init(
     const double scale2
 )
 {
-    ptrdiff_t max_degree1 = min_degree1 + size1 - 1;
-    ptrdiff_t max_degree2 = min_degree2 + size2 - 1;
-    ptrdiff_t max_abs_degree;
+    ptrdiff_t max_degree1, max_degree2, max_abs_degree;
 
     _fourier2d_reset(f2d);
 
+    if (
+        (min_degree1 < -FOURIER2D_MAX_DEGREE) ||
+        (min_degree2 < -FOURIER2D_MAX_DEGREE) ||
+        (min_degree1 > FOURIER2D_MAX_DEGREE - size1) ||
+        (min_degree2 > FOURIER2D_MAX_DEGREE - size2)
+    )
+    {
+        PyErr_Format(PyExc_ValueError, "The 2D Fourier series degree is out of the allowed range!");
+        return 1;
+    }
+
+    max_degree1 = min_degree1 + size1 - 1;
+    max_degree2 = min_degree2 + size2 - 1;
+
     f2d->min_degree1 = min_degree1;
     f2d->max_degree1 = max_degree1;
     f2d->min_degree2 = min_degree2;
-- 
2.43.0


From c05830582ecd236a06ce01989b7f2b4d78fcbaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:09 +0000
Subject: [PATCH 17/53] fix: time conversion failed for huge, non-finite and
 ancient (before 4716 BC) times

---
 eoxmagmod/eoxmagmod/include/time_conversion.h | 83 +++++++++++++------
 1 file changed, 56 insertions(+), 27 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/time_conversion.h b/eoxmagmod/eoxmagmod/include/time_conversion.h
index 56dc9c1..dbc58be 100644
--- a/eoxmagmod/eoxmagmod/include/time_conversion.h
+++ b/eoxmagmod/eoxmagmod/include/time_conversion.h
@@ -29,6 +29,27 @@
 #define TIME_CONVERSION_H
 
 #include <math.h>
+#include <stdint.h>
+
+/**
+ * MJD2000 and decimal year values which can be safely processed by the integer
+ * calendar calculations.
+ */
+#define MAX_DATE_MJD2K 5e8
+#define MAX_CALENDAR_MJD2K 1e16
+#define MAX_CALENDAR_YEAR 1e13
+
+/* mean length of the Gregorian year */
+#define MEAN_DAYS_PER_YEAR 365.2425
+
+
+/**
+ * @brief Integer division rounded towards the negative infinity.
+ */
+
+static int64_t floor_div(int64_t a, int64_t b) {
+    return a/b - (a%b < 0);
+}
 
 /**
  * @brief Convert MJD2000 to year, month, day and day fraction
@@ -41,15 +62,16 @@
  */
 
 static void mjd2k_to_date(int *year, int *month, int *day, double *hours, double mjd2k) {
-    const int day2k = (int)floor(mjd2k);
-    const int d__ = day2k + 2451545;
-    const int f0_ = d__ + 1401 ;
-    const int f__ = f0_ + (d__ > 2299160 ? (((4*d__ + 274277)/146097)*3)/4 - 38: 0);
-    const int e__ = 4*f__ + 3;
-    const int h__ = 5*((e__ % 1461)/4) + 2;
+    const int64_t day2k = fabs(mjd2k) <= MAX_DATE_MJD2K ? (int64_t)floor(mjd2k) : 0;
+    const int64_t d__ = day2k + 2451545;
+    const int64_t f0_ = d__ + 1401 ;
+    const int64_t f__ = f0_ + (d__ > 2299160 ? (((4*d__ + 274277)/146097)*3)/4 - 38: 0);
+    const int64_t e__ = 4*f__ + 3;
+    const int64_t y__ = floor_div(e__, 1461);
+    const int64_t h__ = 5*((e__ - 1461*y__)/4) + 2;
     *day = (h__%153)/5 + 1;
     *month = (h__/153 + 2)%12 + 1;
-    *year = e__/1461 - 4716 + (14 - *month)/12;
+    *year = y__ - 4716 + (14 - *month)/12;
     *hours = 24.0 * (mjd2k - day2k);
 }
 
@@ -62,15 +84,16 @@ static void mjd2k_to_date(int *year, int *month, int *day, double *hours, double
  * Julian date formula applied until 1582-10-04
  */
 
-static int mjd2k_to_year(double mjd2k) {
-    const int day2k = (int)floor(mjd2k);
-    const int d__ = day2k + 2451545;
-    const int f0_ = d__ + 1401 ;
-    const int f__ = f0_ + (d__ > 2299160 ? (((4*d__ + 274277)/146097)*3)/4 - 38: 0);
-    const int e__ = 4*f__ + 3;
-    const int h__ = 5*((e__ % 1461)/4) + 2;
-    const int month = (h__/153 + 2)%12 + 1;
-    return e__/1461 - 4716 + (14 - month)/12;
+static int64_t mjd2k_to_year(double mjd2k) {
+    const int64_t day2k = (int64_t)floor(mjd2k);
+    const int64_t d__ = day2k + 2451545;
+    const int64_t f0_ = d__ + 1401 ;
+    const int64_t f__ = f0_ + (d__ > 2299160 ? (((4*d__ + 274277)/146097)*3)/4 - 38: 0);
+    const int64_t e__ = 4*f__ + 3;
+    const int64_t y__ = floor_div(e__, 1461);
+    const int64_t h__ = 5*((e__ - 1461*y__)/4) + 2;
+    const int64_t month = (h__/153 + 2)%12 + 1;
+    return y__ - 4716 + (14 - month)/12;
 }
 
 
@@ -86,9 +109,9 @@ static int mjd2k_to_year(double mjd2k) {
  * Julian date formula applied until 1582
  */
 
-static int mjd2k_year_start(int year) {
-    const int y__ = year + 4799;
-    return (365*y__ + y__/4 - 2483321 + (year > 1582)*(y__/400 - y__/100 + 38));
+static int64_t mjd2k_year_start(int64_t year) {
+    const int64_t y__ = year + 4799;
+    return (365*y__ + floor_div(y__, 4) - 2483321 + (year > 1582)*(y__/400 - y__/100 + 38));
 }
 
 
@@ -98,7 +121,7 @@ static int mjd2k_year_start(int year) {
  * Gregorian date formula applied since 1583
  * Julian date formula applied until 1582
  */
-static int is_leap_year(int year) {
+static int is_leap_year(int64_t year) {
     return ((year%4 == 0)&&((year%100 != 0)||(year%400 == 0)||(year <= 1582)));
 }
 
@@ -110,7 +133,7 @@ static int is_leap_year(int year) {
  * Gregorian date formula applied since 1583
  * Julian date formula applied until 1582
  */
-static int days_per_year(int year) {
+static int days_per_year(int64_t year) {
     return 365 + is_leap_year(year);
 }
 
@@ -122,7 +145,7 @@ static int days_per_year(int year) {
  * Gregorian date formula applied since 1583
  * Julian date formula applied until 1582
  */
-static double years_per_day(int year) {
+static double years_per_day(int64_t year) {
     return is_leap_year(year) ? 1./366. : 1./365.;
 }
 
@@ -134,7 +157,10 @@ static double years_per_day(int year) {
  */
 
 static double mjd2k_to_decimal_year(double mjd2k) {
-    const int year = mjd2k_to_year(mjd2k);
+    if (!(fabs(mjd2k) <= MAX_CALENDAR_MJD2K))
+        return 2000.0 + mjd2k/MEAN_DAYS_PER_YEAR;
+
+    const int64_t year = mjd2k_to_year(mjd2k);
     return year + (mjd2k - mjd2k_year_start(year))*years_per_day(year);
 }
 
@@ -147,7 +173,10 @@ static double mjd2k_to_decimal_year(double mjd2k) {
  */
 
 static double mjd2k_to_year_fraction(double mjd2k) {
-    const int year = mjd2k_to_year(mjd2k);
+    if (!(fabs(mjd2k) <= MAX_CALENDAR_MJD2K))
+        return isfinite(mjd2k) ? 0.0 : mjd2k;
+
+    const int64_t year = mjd2k_to_year(mjd2k);
     return (mjd2k - mjd2k_year_start(year))*years_per_day(year);
 }
 
@@ -159,12 +188,12 @@ static double mjd2k_to_year_fraction(double mjd2k) {
  */
 
 static double decimal_year_to_mjd2k(double decimal_year) {
-    if (isfinite(decimal_year)) {
+    if (fabs(decimal_year) <= MAX_CALENDAR_YEAR) {
         const double whole_year = floor(decimal_year);
-        const int year = (int)whole_year;
+        const int64_t year = (int64_t)whole_year;
         return mjd2k_year_start(year) + (decimal_year - whole_year)*days_per_year(year);
     } else {
-        return decimal_year;
+        return (decimal_year - 2000.0)*MEAN_DAYS_PER_YEAR;
     }
 }
 
-- 
2.43.0


From b8e57927460631a003d70a5f3454b704d42236df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:50 +0000
Subject: [PATCH 18/53] fix: invalid boolean option raised SystemError

---
 eoxmagmod/eoxmagmod/pymm_interp.h        | 2 ++
 eoxmagmod/eoxmagmod/pymm_relradpow.h     | 2 ++
 eoxmagmod/eoxmagmod/pymm_sheval.h        | 2 ++
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h    | 2 ++
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h    | 2 ++
 eoxmagmod/eoxmagmod/pymm_sphargrd.h      | 2 ++
 eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h | 2 ++
 7 files changed, 14 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_interp.h b/eoxmagmod/eoxmagmod/pymm_interp.h
index 624cf86..1e1f296 100644
--- a/eoxmagmod/eoxmagmod/pymm_interp.h
+++ b/eoxmagmod/eoxmagmod/pymm_interp.h
@@ -100,6 +100,8 @@ static PyObject* interp(PyObject *self, PyObject *args, PyObject *kwdict)
 
     if (obj_extrapolate != NULL) {
         extrapolate = PyObject_IsTrue(obj_extrapolate);
+        if (NULL != PyErr_Occurred())
+            goto exit;
     }
 
     switch (kind) {
diff --git a/eoxmagmod/eoxmagmod/pymm_relradpow.h b/eoxmagmod/eoxmagmod/pymm_relradpow.h
index 2e12bdb..1bbae70 100644
--- a/eoxmagmod/eoxmagmod/pymm_relradpow.h
+++ b/eoxmagmod/eoxmagmod/pymm_relradpow.h
@@ -89,6 +89,8 @@ static PyObject* relradpow(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    if (NULL != PyErr_Occurred())
+        goto exit;
 
     if (degree < 0)
     {
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 4f90bb2..70aefd9 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -176,6 +176,8 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    if (NULL != PyErr_Occurred())
+        goto exit;
 
     // check the type of the coordinate transformation
     if (CT_INVALID == _check_coord_type(ct_in, keywords[2]))
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 65f7201..ace32af 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -185,6 +185,8 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    if (NULL != PyErr_Occurred())
+        goto exit;
 
     // check the type of the coordinate transformation
     if (CT_INVALID == _check_coord_type(ct_in, keywords[4]))
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index e0c10b3..6edfa44 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -201,6 +201,8 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    if (NULL != PyErr_Occurred())
+        goto exit;
 
     // check the type of the coordinate transformation
     if (CT_INVALID == _check_coord_type(ct_in, keywords[3]))
diff --git a/eoxmagmod/eoxmagmod/pymm_sphargrd.h b/eoxmagmod/eoxmagmod/pymm_sphargrd.h
index 48b9e05..0f62017 100644
--- a/eoxmagmod/eoxmagmod/pymm_sphargrd.h
+++ b/eoxmagmod/eoxmagmod/pymm_sphargrd.h
@@ -101,6 +101,8 @@ static PyObject* sphargrd(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    if (NULL != PyErr_Occurred())
+        goto exit;
 
     // cast the objects to arrays
     if (NULL == (arr_lat = _get_as_double_array(obj_lat, 0, 0, NPY_ARRAY_ALIGNED, keywords[0])))
diff --git a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
index d7470a3..5d30f4c 100644
--- a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
+++ b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
@@ -102,6 +102,8 @@ static PyObject* eval_qdlatlon(PyObject *self, PyObject *args, PyObject *kwdict)
     }
 
     eval_base = obj_flag ? (1 == PyObject_IsTrue(obj_flag)) : 0;
+    if (NULL != PyErr_Occurred())
+        goto exit;
 
     #define NPY_REQ (NPY_ARRAY_ALIGNED|NPY_ARRAY_C_CONTIGUOUS)
 
-- 
2.43.0


From 027896e990f29e966837cd2a1a71c00fc6b9e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:20 +0000
Subject: [PATCH 19/53] fix: times with more dimensions than coordinates could
 not be evaluated

---
 eoxmagmod/eoxmagmod/magnetic_model/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/util.py b/eoxmagmod/eoxmagmod/magnetic_model/util.py
index 2c93a9b..27467e0 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/util.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/util.py
@@ -80,7 +80,7 @@ def reshape_times_and_coordinates(time, coords):
             strides=(
                 *coords.strides[:-1],
                 *((0,) * (ndim_result - ndim_common)),
-                coords.ndim[-1]
+                coords.strides[-1]
             )
         )
 
-- 
2.43.0


From 2ab273616048a2ee139742a8a372075ac5a2b47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 20/53] fix: wrong interpolation of combined coefficients with
 mixed time scales

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index be96cda..f23c3dc 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -481,7 +481,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
 
 class SparseSHCoefficientsConstant(SparseSHCoefficientsTimeDependent):
     """ Time invariant sparse spherical harmonic coefficients. """
-    time_scale = ()
+    time_scales = ()
 
     def __init__(self, indices, coefficients, **kwargs):
         indices = asarray(indices)
@@ -515,7 +515,7 @@ class SparseSHCoefficientsTimeDependentDecimalYear(SparseSHCoefficientsTimeDepen
     by spine interpolation of a time series of coefficients snapshots.
     with time in decimal year interpolated in the decimal years time domain.
     """
-    time_scales = ("MJD2000",)
+    time_scales = ("DecimalYear",)
 
     def __init__(self, indices, coefficients, times,
                  to_mjd2000=decimal_year_to_mjd2000,
-- 
2.43.0


From 67e6d1d53beb61f0a2ffe945127200434f1a8e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:48 +0000
Subject: [PATCH 21/53] fix: invalid coefficients indices were not rejected

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index f23c3dc..750d971 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -421,7 +421,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
         if coefficients.ndim != 2:
             raise ValueError(f"Invalid coefficients array dimension {coefficients.shape}!")
 
-        if indices.ndim != 2 and indices.shape[1] != 2:
+        if indices.ndim != 2 or indices.shape[1] != 2:
             raise ValueError(f"Invalid indices array dimension {indices.shape}!")
 
         if indices.shape[0] != coefficients.shape[0]:
@@ -456,7 +456,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
                 2: {"kind": INTERP_C1},
             }[spline_order]
         except KeyError:
-            raise ValueError("Unsupported spline order {spline_order}!") from None
+            raise ValueError(f"Unsupported spline order {spline_order}!") from None
 
     def get_coefficient_sets(self, **parameters):
         """ Extract coefficients sets which can be passed to C evaluation. """
@@ -491,7 +491,7 @@ class SparseSHCoefficientsConstant(SparseSHCoefficientsTimeDependent):
         if coefficients.ndim != 1:
             raise ValueError(f"Invalid coefficients array dimension {coefficients.shape}!")
 
-        if indices.ndim != 2 and indices.shape[1] != 2:
+        if indices.ndim != 2 or indices.shape[1] != 2:
             raise ValueError(f"Invalid indices array dimension {indices.shape}!")
 
         if indices.shape[0] != coefficients.shape[0]:
-- 
2.43.0


From 63acefb680c9b31b708ebcd2d09aefe679fb4b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 22/53] fix: invalid degree and order of the coefficients were
 not rejected

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 750d971..2e629b4 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -349,6 +349,8 @@ class SparseSHCoefficients(SHCoefficients):
     def __init__(self, indices, coefficients, **kwargs):
         SHCoefficients.__init__(self, **kwargs)
         n_idx, m_idx = indices[..., 0], indices[..., 1]
+        if ((n_idx < 0) | (aabs(m_idx) > n_idx)).any():
+            raise ValueError("Invalid degree or order of the coefficients!")
         self._degree = n_idx.max()
         self._min_degree = n_idx.min()
         self._nm = indices.astype('int32')
-- 
2.43.0


From 18b6190313de389bc922532e327adb0a5977a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:57 +0000
Subject: [PATCH 23/53] fix: overlapping and unsorted composed coefficients
 evaluated inconsistently

---
 .../eoxmagmod/magnetic_model/coefficients.py  | 35 ++++++++++---------
 eoxmagmod/eoxmagmod/magnetic_model/model.py   |  5 ++-
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 2e629b4..28e55d2 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -32,10 +32,7 @@ from numpy import (
 )
 from ..time_util import decimal_year_to_mjd2000, mjd2000_to_decimal_year
 from .._pymm import interp, INTERP_C0, INTERP_C1
-from .util import (
-    get_nonoverlapping_intervals, aggregate_intersected_intervals,
-    coeff_size, convert_value,
-)
+from .util import coeff_size, convert_value
 
 __all__ = [
     "SHCoefficients",
@@ -112,9 +109,10 @@ class ComposedSHCoefficients(SHCoefficients):
     """
 
     def decompose(self):
+        # Note that the order of the items defines their priority.
         result = []
         for item in self:
-            result.extend(get_nonoverlapping_intervals(item.decompose()))
+            result.extend(item.decompose())
         return result
 
     @property
@@ -141,7 +139,7 @@ class ComposedSHCoefficients(SHCoefficients):
             )
 
         validity_start, validity_end = inf, -inf
-        last_item_validity_end = inf
+        last_validity_end = inf
         degree = -inf
         min_degree = inf
         is_internal = items[0].is_internal
@@ -149,17 +147,16 @@ class ComposedSHCoefficients(SHCoefficients):
         for item in sorted(items, key=lambda item: item.validity):
             item_validity_start, item_validity_end = item.validity
 
-            if item_validity_start > last_item_validity_end:
+            if item_validity_start > last_validity_end:
                 # time-gaps between the models are not allowed
                 raise ValueError(
                     "The composed model does not allow time-gaps between "
                     "the sets of coefficients!"
                 )
 
-            last_item_validity_end = item_validity_end
-
             validity_start = min(validity_start, item_validity_start)
             validity_end = max(validity_end, item_validity_end)
+            last_validity_end = validity_end
 
             degree = max(degree, item.degree)
             min_degree = min(min_degree, item.min_degree)
@@ -235,15 +232,19 @@ class CombinedSHCoefficients(SHCoefficients):
     """
 
     def decompose(self):
-        aggergates = None
+        # Note that the order of the decomposed items defines their priority.
+        aggregates = [((-inf, inf), ())]
         for item in self:
-            aggergates = aggregate_intersected_intervals(
-                item.decompose(), aggergates
-            )
-        result = []
-        for validity, items in aggergates:
-            result.append((validity, CombinedSHCoefficients(*items)))
-        return result
+            aggregates = [
+                ((max(start0, start), min(end0, end)), (*items, subitem))
+                for (start0, end0), items in aggregates
+                for (start, end), subitem in item.decompose()
+                if start0 <= end and start <= end0
+            ]
+        return [
+            (validity, CombinedSHCoefficients(*items))
+            for validity, items in aggregates
+        ]
 
     @property
     def time_scales(self):
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index ac40063..07ea628 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -149,8 +149,11 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
 
         # time is an array
         result = _get_nans()
+        remaining = full(time.shape, True)
         for (start, end), method, coefficients in self._components:
-            mask = _is_valid(start, end)
+            # the first component matching the time is evaluated
+            mask = _is_valid(start, end) & remaining
+            remaining &= ~mask
             result[mask, :] = _call_eval(
                 method, coefficients, time[mask], location[mask, :]
             )
-- 
2.43.0


From 6dcf12a0046dc7de31c86805790fdae965ce0f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:40 +0000
Subject: [PATCH 24/53] fix: infinite recursion of a composed or combined set
 of a single such set

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 28e55d2..ac433fc 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -133,6 +133,9 @@ class ComposedSHCoefficients(SHCoefficients):
 
     def __init__(self, *items):
 
+        if len(items) == 1 and items[0] is self:
+            return # single already initialized item returned by __new__()
+
         if len(items) < 1:
             raise ValueError(
                 "The composed model requires at least one set of coefficients!"
@@ -264,6 +267,9 @@ class CombinedSHCoefficients(SHCoefficients):
 
     def __init__(self, *items):
 
+        if len(items) == 1 and items[0] is self:
+            return # single already initialized item returned by __new__()
+
         if len(items) < 1:
             raise ValueError(
                 "The combined model requires at least one set of coefficients!"
-- 
2.43.0


From f52780756573dc782e699499176a3baa07db7a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:55 +0000
Subject: [PATCH 25/53] fix: spline order of the SHC files was ignored

---
 eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py b/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
index 53a7f1c..3e75b48 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
@@ -113,13 +113,14 @@ def load_coeff_shc(path, interpolate_in_decimal_years=False, **kwargs):
 
     times = data["t"]
 
-    kwargs["spline_oder"] = kwargs.get("spline_oder", min(data["spline_order"], 2))
-
     if len(times) == 1:
         return SparseSHCoefficientsConstant(
             data["nm"], data["gh"][:, 0], **options
         )
 
+    if "spline_order" not in options:
+        options["spline_order"] = min(data["spline_order"], 2)
+
     if interpolate_in_decimal_years:
         coeff_class = SparseSHCoefficientsTimeDependentDecimalYear
     else:
-- 
2.43.0


From caf50a894c45f0846af171581d936d3077b9afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 26/53] fix: wrong minimum degree of the MIO primary field
 model

---
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index d7d22ee..7c1ab50 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -58,7 +58,7 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
     @property
     def min_degree(self):
         """ Get minimum degree of the model. """
-        return max(
+        return min(
             self.model_below_ionosphere.min_degree,
             self.model_above_ionosphere.min_degree
         )
-- 
2.43.0


From 9ecf5b537fec20699ba53f424672d029f44a0413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 27/53] fix: ionospheric models rejected valid combinations of
 time, location and F10.7

---
 .../eoxmagmod/magnetic_model/model_mio.py     | 44 +++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index 7c1ab50..afef48e 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -74,9 +74,9 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
              input_coordinate_system=GEOCENTRIC_SPHERICAL,
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
-        time = asarray(time)
-        location = convert(
-            location, input_coordinate_system, GEOCENTRIC_SPHERICAL
+        time, location = reshape_times_and_coordinates(
+            asarray(time),
+            convert(location, input_coordinate_system, GEOCENTRIC_SPHERICAL)
         )
 
         radius_ionosphere = self.height + self.earth_radius
@@ -90,7 +90,10 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
             def _mask_option(key):
                 data = options.get(key)
                 if data is not None:
-                    options[key] = mask_array(asarray(data), mask)
+                    data = asarray(data)
+                    if data.ndim > 0:
+                        data = reshape_array(mask.shape, data)
+                    options[key] = mask_array(data, mask)
 
             _mask_option('f107')
             _mask_option('lat_sol')
@@ -156,11 +159,16 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
              **options):
 
         def _subset(data, mask):
-            if data is None:
-                return None
-            data = asarray(data)
-            if data.ndim > 0:
-                return data[mask]
+            if data is None or data.ndim == 0:
+                return data
+            return data[mask]
+
+        def _pop_option(key):
+            data = options.pop(key, None)
+            if data is not None:
+                data = asarray(data)
+                if data.ndim > 0:
+                    data = reshape_array(location.shape[:-1], data)
             return data
 
         # reshape time and location to a compatible shape
@@ -168,11 +176,21 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
             asarray(time), asarray(location)
         )
 
+        # scalar or multi-value parameters matching the shape of the locations
+        mio_scale = _pop_option('f107')
+        lat_sol = _pop_option('lat_sol')
+        lon_sol = _pop_option('lon_sol')
+
+        if time.ndim == 0 and any(
+            data is not None and data.ndim > 0
+            for data in (mio_scale, lat_sol, lon_sol)
+        ):
+            time = full(location.shape[:-1], time)
+
         # MIO scaling factor
         mask = True
-        mio_scale = options.pop('f107', None)
         if mio_scale is not None:
-            mio_scale = 1.0 + self.wolf_ratio * asarray(mio_scale)
+            mio_scale = 1.0 + self.wolf_ratio * mio_scale
             mask = ~isnan(mio_scale)
 
         start, end = self.validity
@@ -182,8 +200,8 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
             self._eval_fourier2d, self.coefficients,
             time[mask], location[mask, :],
             input_coordinate_system, output_coordinate_system,
-            lat_sol=_subset(options.pop('lat_sol', None), mask),
-            lon_sol=_subset(options.pop('lon_sol', None), mask),
+            lat_sol=_subset(lat_sol, mask),
+            lon_sol=_subset(lon_sol, mask),
             **options,
         )
 
-- 
2.43.0


From a4a19577cc7506d4696831f49535c02df8681fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:58 +0000
Subject: [PATCH 28/53] fix: composed model failed for times with more
 dimensions than locations

---
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 479e6a8..8630c37 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -33,6 +33,7 @@ from .._pymm import (
     convert, vrot_sph2geod, vrot_sph2cart,
 )
 from .model import GeomagneticModel
+from .util import reshape_times_and_coordinates
 
 __all__ = ["ComposedGeomagneticModel"]
 
@@ -81,8 +82,10 @@ class ComposedGeomagneticModel(GeomagneticModel):
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
 
-        time = asarray(time)
-        location = asarray(location)
+        # reshape time and location to a compatible shape
+        time, location = reshape_times_and_coordinates(
+            asarray(time), asarray(location)
+        )
 
         # convert input coordinates to spherical coordinates
         coord_sph = convert(
@@ -102,10 +105,7 @@ class ComposedGeomagneticModel(GeomagneticModel):
                 args.update(params)
                 result += model.eval(time, coord_sph, scale=scale, **args)
         else:
-            result = zeros(
-                (*time.shape, 3) if time.ndim > (location.ndim - 1) else
-                location.shape
-            )
+            result = zeros(location.shape)
             result[isnan(time), :] = nan
 
         # rotate result to the desired coordinate frame
-- 
2.43.0


From a2bc2112f5ba459da24dd1cc12b2d8ebc3cc07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 29/53] fix: combination of more than 16 coefficient sets could
 not be evaluated

---
 eoxmagmod/eoxmagmod/magnetic_model/model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index 07ea628..7fc30dd 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -44,6 +44,9 @@ __all__ = [
     "DipoleSphericalHarmomicGeomagneticModel",
 ]
 
+# maximum number of coefficient sets accepted by the shevaltemp() function
+MAX_COEFFICIENT_SETS = 16
+
 
 class GeomagneticModel:
     """ Abstract base class of the Earth magnetic field model. """
@@ -94,11 +97,15 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
                 return self._eval_default
 
             try:
-                coefficients.get_coefficient_sets()
+                coefficient_sets = coefficients.get_coefficient_sets()
             except AttributeError:
                 # coefficient cannot be extracted - falling back to the default
                 return self._eval_default
 
+            if len(coefficient_sets) > MAX_COEFFICIENT_SETS:
+                # too many coefficient sets - falling back to the default
+                return self._eval_default
+
             return self._eval_interpolated
 
         # default evaluation method
-- 
2.43.0


From f6f31afbbcc9416e0142a038a38ae8a7ee651885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 30/53] fix: incompatible EMM coefficients were not rejected

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
index a8c26d3..7304551 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
@@ -54,8 +54,12 @@ def combine_emm_variable(data_static, data_secvar):
     nm_secvar, gh_secvar = data_secvar["nm"], data_secvar["gh"]
     size = nm_secvar.shape[0]
 
-    if epoch_static != epoch_secvar or (nm_secvar != nm_static[:size]).any():
-        ValueError("Incompatible sets of the static and variation coefficients!")
+    if (
+        epoch_static != epoch_secvar
+        or size > nm_static.shape[0]
+        or (nm_secvar != nm_static[:size]).any()
+    ):
+        raise ValueError("Incompatible sets of the static and variation coefficients!")
 
     return {
         "epoch": epoch_secvar,
-- 
2.43.0


From 9d04d3430dd9d4f79b68de737f5b7e8c984f58bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:12 +0000
Subject: [PATCH 31/53] fix: SHC, IGRF and MIO files with blank lines were
 rejected

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py | 3 ++-
 eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py
index f71bbd4..553fefd 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py
@@ -85,4 +85,5 @@ def strip_igrf_comments(file_in):
             break
     for line in file_in:
         line = line.strip()
-        yield line
+        if line:
+            yield line
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
index dc89fd8..8a66372 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
@@ -99,4 +99,5 @@ def _strip_shc_comments(file_in):
             break
     for line in file_in:
         line = line.strip()
-        yield line
+        if line:
+            yield line
-- 
2.43.0


From 04a3c01783adccf52f9545dd707f2b02462a17a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 32/53] fix: Cartesian to spherical conversion inaccurate near
 the poles and NaN for a zero vector

---
 eoxmagmod/eoxmagmod/include/geo_conversion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/include/geo_conversion.h b/eoxmagmod/eoxmagmod/include/geo_conversion.h
index 7268b6e..a387f38 100644
--- a/eoxmagmod/eoxmagmod/include/geo_conversion.h
+++ b/eoxmagmod/eoxmagmod/include/geo_conversion.h
@@ -255,7 +255,7 @@ static void cart2sph(
     double x, double y, double z)
 {
     *r = norm3d(x, y, z);
-    *th = asin(z/(*r));
+    *th = atan2(z, norm2d(x, y));
     *ph = atan2(y, x);
 }
 
-- 
2.43.0


From 3dab347e217001a44bba99b5e716acfa691f4569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:09 +0000
Subject: [PATCH 33/53] fix: inaccurate or NaN Legendre functions of high
 degree models in the vicinity of the poles

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index b697b26..8688dae 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -190,7 +190,6 @@ static void shc_legendre_high(double *lp, double *ldp, int degree, double sin_el
     int i, j, idx, idx0;
     const double scale = SHC_LEG_HIGH_SCALE;
     const double rscale = 1.0/SHC_LEG_HIGH_SCALE;
-    const double rcos_elv = 1.0/cos_elv ;
     double pm2, pm1, pm0, pmm;
     double pow_cos_elv;
 
@@ -207,7 +206,6 @@ static void shc_legendre_high(double *lp, double *ldp, int degree, double sin_el
         const double f2 = FDIV(i-1,i);
 
         lp[idx] = pm0 = f1*sin_elv*pm1 - f2*pm2;
-        ldp[idx] = i*rcos_elv*(pm1 - sin_elv*pm0);
 
         pm2 = pm1;
         pm1 = pm0;
@@ -255,6 +253,12 @@ static void shc_legendre_high(double *lp, double *ldp, int degree, double sin_el
 
     lp[idx0] = pow_cos_elv*cos_elv*pm2;
     ldp[idx0] = -pow_cos_elv*(j*sin_elv*pm2);
+
+    // zero order derivatives - proportional to the first order functions
+    for (i = 2, idx = 3; i <= degree; idx += ++i)
+    {
+        ldp[idx] = sqrt(0.5)*psqrt[i]*psqrt[i+1]*lp[idx+1];
+    }
 }
 
 
@@ -278,8 +282,8 @@ static void shc_legendre(double *lp, double *ldp, int degree, double elv, const
     const double sin_elv = sin(elv);
     const double cos_elv = cos(elv);
 
-    if ((degree <= 16)||(fabs(cos_elv) < 1e-10))
-        // low degree model + poles
+    if (degree <= 16)
+        // low degree model
         shc_legendre_low(lp, ldp, degree, sin_elv, cos_elv, psqrt, prsqrt);
     else
         // high degree model
-- 
2.43.0


From 669c6d179bc3b3f15cc32995278897cd060c6751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 34/53] fix: NaN solar zenith angle for the Sun exactly in the
 zenith or nadir

---
 eoxmagmod/eoxmagmod/include/sun_ephemeris.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/sun_ephemeris.h b/eoxmagmod/eoxmagmod/include/sun_ephemeris.h
index 4c4d6b4..ba464ba 100644
--- a/eoxmagmod/eoxmagmod/include/sun_ephemeris.h
+++ b/eoxmagmod/eoxmagmod/include/sun_ephemeris.h
@@ -171,7 +171,9 @@ void sunpos5original(
     const double cd = sqrt(1-sd*sd);
     const double sh = sin(*hang);
     const double ch = cos(*hang);
-    const double se0 = sp*sd + cp*cd*ch;
+    const double se00 = sp*sd + cp*cd*ch;
+    // sine is limited to avoid NaN for Sun exactly in the zenith or nadir
+    const double se0 = se00 > 1.0 ? 1.0 : (se00 < -1.0 ? -1.0 : se00);
 
     // elevation including parallax correction with radius in km
     const double ep = asin(se0) - sqrt(1.0-se0*se0)*rad*(1.0/149597871.0);
@@ -298,7 +300,9 @@ void sunpos5eq2hor(
     const double cd = sqrt(1-sd*sd);
     const double sh = sin(hang);
     const double ch = cos(hang);
-    const double se0 = sp*sd + cp*cd*ch;
+    const double se00 = sp*sd + cp*cd*ch;
+    // sine is limited to avoid NaN for Sun exactly in the zenith or nadir
+    const double se0 = se00 > 1.0 ? 1.0 : (se00 < -1.0 ? -1.0 : se00);
 
     // elevation including parallax correction with radius in km
     const double ep = asin(se0) - sqrt(1.0-se0*se0)*rad*(1.0/149597871.0);
-- 
2.43.0


From b207c889678ed52cbff2ae7c599b68af8512d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 35/53] fix: reject invalid requests also for scalar times out
 of the model validity

---
 eoxmagmod/eoxmagmod/magnetic_model/model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index 7fc30dd..175b7a9 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -152,17 +152,16 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
             for (start, end), method, coefficients in self._components:
                 if _is_valid(start, end):
                     return _call_eval(method, coefficients, time, location)
-            return _get_nans()
 
-        # time is an array
+        # time is an array or a scalar out of the validity range
         result = _get_nans()
         remaining = full(time.shape, True)
         for (start, end), method, coefficients in self._components:
             # the first component matching the time is evaluated
             mask = _is_valid(start, end) & remaining
             remaining &= ~mask
-            result[mask, :] = _call_eval(
-                method, coefficients, time[mask], location[mask, :]
+            result[mask, ...] = _call_eval(
+                method, coefficients, time[mask], location[mask, ...]
             )
         return result
 
-- 
2.43.0


From 03efe52723fc5f90de0398557f4309047b825c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:50 +0000
Subject: [PATCH 36/53] fix: reject unsupported output coordinates in the
 composed model

---
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 8630c37..db21df3 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -119,6 +119,8 @@ class ComposedGeomagneticModel(GeomagneticModel):
             result = vrot_sph2geod(result, coord_out[..., 0] - coord_sph[..., 0])
         elif output_coordinate_system == GEOCENTRIC_CARTESIAN:
             result = vrot_sph2cart(result, coord_sph[..., 0], coord_sph[..., 1])
+        elif output_coordinate_system != GEOCENTRIC_SPHERICAL:
+            raise ValueError("Unsupported output coordinate system!")
 
         # apply the final scale
         if final_scale is not None:
-- 
2.43.0


From e7ffa8c7a058b7194a7452025c2ce6cc11254a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:32 +0000
Subject: [PATCH 37/53] fix: reject unsupported coordinate types in vrotate
 also when they are equal

---
 eoxmagmod/eoxmagmod/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/util.py b/eoxmagmod/eoxmagmod/util.py
index aee6e8f..0ae5393 100644
--- a/eoxmagmod/eoxmagmod/util.py
+++ b/eoxmagmod/eoxmagmod/util.py
@@ -34,6 +34,7 @@ from ._pymm import (
 )
 
 SPHERICAL_COORD_TYPES = (GEODETIC_ABOVE_WGS84, GEOCENTRIC_SPHERICAL)
+COORD_TYPES = (*SPHERICAL_COORD_TYPES, GEOCENTRIC_CARTESIAN)
 
 __all__ = [
     "vrotate",
@@ -54,7 +55,7 @@ def vrotate(arr, coord_in, coord_out, coord_type_in, coord_type_out):
             arr_out - array of the rotated vectors
     """
     # pylint: disable=too-many-return-statements
-    if coord_type_in == coord_type_out:
+    if coord_type_in == coord_type_out and coord_type_in in COORD_TYPES:
         return arr
 
     coord_out = None if coord_out is None else asarray(coord_out)
-- 
2.43.0


From 585ef8b9c4728a41c4daa9d297a5f8b732f263c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 38/53] fix: reject invalid coordinates also if a model has
 nothing to evaluate

---
 eoxmagmod/eoxmagmod/magnetic_model/model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index 175b7a9..49047c3 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -29,7 +29,9 @@
 
 
 from numpy import asarray, empty, full, nan, nditer
-from .._pymm import GRADIENT, GEOCENTRIC_SPHERICAL, sheval, shevaltemp
+from .._pymm import (
+    GRADIENT, GEOCENTRIC_SPHERICAL, convert, sheval, shevaltemp,
+)
 from ..dipole import rotate_vectors_from_dipole
 from ..dipole_coords import convert_to_dipole
 from .util import reshape_times_and_coordinates
@@ -135,6 +137,12 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
             asarray(time), asarray(location)
         )
 
+        # reject invalid coordinates even if there is nothing to be evaluated
+        convert(
+            empty((0, *location.shape[-1:])),
+            input_coordinate_system, output_coordinate_system
+        )
+
         def _is_valid(start, end):
             return (time >= start) & (time <= end)
 
-- 
2.43.0


From d5ee48d4d39bdb73ad2d2afbfb5a16e1cb0c47d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:38 +0000
Subject: [PATCH 39/53] fix: reject unsupported output coordinates in
 vrot_from_dipole

---
 eoxmagmod/eoxmagmod/dipole_coords.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/dipole_coords.py b/eoxmagmod/eoxmagmod/dipole_coords.py
index ad22b73..d5aa10e 100644
--- a/eoxmagmod/eoxmagmod/dipole_coords.py
+++ b/eoxmagmod/eoxmagmod/dipole_coords.py
@@ -30,7 +30,7 @@ from math import pi, sin, cos
 from numpy import array, dot
 from eoxmagmod._pymm import (
     convert, vrot_sph2cart, vrot_cart2sph,
-    GEOCENTRIC_SPHERICAL, GEOCENTRIC_CARTESIAN,
+    GEODETIC_ABOVE_WGS84, GEOCENTRIC_SPHERICAL, GEOCENTRIC_CARTESIAN,
 )
 
 __all__ = [
@@ -84,4 +84,6 @@ def vrot_from_dipole(vectors, lat_ngp, lon_ngp, lat_dipole, lon_dipole,
     if coord_type_out == GEOCENTRIC_CARTESIAN:
         # coordinates are already in the Cartesian coordinates
         return vectors
-    return vrot_cart2sph(vectors, lat_out, lon_out)
+    if coord_type_out in (GEODETIC_ABOVE_WGS84, GEOCENTRIC_SPHERICAL):
+        return vrot_cart2sph(vectors, lat_out, lon_out)
+    raise ValueError("Unsupported output coordinate system type!")
-- 
2.43.0


From 66ec81aec4f7c2a2368d5312b5bcb90594bffab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:47 +0000
Subject: [PATCH 40/53] fix: SHC file with one time and more coefficients per
 row accepted

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
index 8a66372..4b67660 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
@@ -37,6 +37,8 @@ def parse_shc_file(file_in):
     lines = _strip_shc_comments(file_in)
     data = _parse_shc_header(lines)
     data["nm"], data["gh"] = _parse_shc_coefficients(lines)
+    if data["gh"].shape[1:] != data["t"].shape:
+        raise ValueError("Mismatch between the SHC times and coefficients!")
     return data
 
 
-- 
2.43.0


From 8f8fafa7a5ecdf3021abfa6ca5ca42a125b4c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:51 +0000
Subject: [PATCH 41/53] fix: out-of-bounds access for QD coefficients file with
 no order or unsorted epochs

---
 qdipole/apexsh.f90 | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index ad3c2e3..dccae2f 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -185,7 +185,7 @@
         !CHECK CONSISTENCY OF THE DIMENSIONS
         if ((nepoch .lt. 1) .or. (nepoch .gt. 999) &
             .or. (nmax .lt. 1) .or. (nmax .gt. 99) &
-            .or. (mmax .lt. 0) .or. (mmax .gt. nmax) &
+            .or. (mmax .lt. 1) .or. (mmax .gt. nmax) &
             .or. (lmax .lt. 0) .or. (lmax .gt. 99)) then
           ierr = 1
         else
@@ -198,6 +198,10 @@
         call allocatearrays
         read(23,*,iostat=ierr) epochgrid, coeff0
       endif
+      if (ierr .eq. 0) then
+        !EPOCHS MUST BE SORTED
+        if (.not. all(epochgrid(1:) .gt. epochgrid(:nepoch-2))) ierr = 1
+      endif
       close(23)
       if (ierr .ne. 0) return
     endif
-- 
2.43.0


From dee172b7c66ec7079b3b8a82601cca832407092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:51 +0000
Subject: [PATCH 42/53] fix: declare the true length of the coefficients file
 name in eval_qdlatlonvb

---
 qdipole/eval_qdlatlon.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index 901b25b..269f471 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -127,7 +127,7 @@
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
       integer*4  vecflag, n_data, ierr, i
-      character*256 coeff_file
+      character*1023 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 1)
 
       ierr = 0
-- 
2.43.0


From ed8594628bc47ba99877c729c3b8fbcae1bb1cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:51 +0000
Subject: [PATCH 43/53] fix: MLT and sub-solar point of a time rounded to the
 year 2101 terminated the process

---
 qdipole/eval_mlt.f90    | 2 +-
 qdipole/eval_subsol.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index 6d555fc..5ba1243 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -50,7 +50,7 @@
       integer  iyr, imon, iday, idoy, ihour, imin
       parameter(epoch_limit = 1./365.25)
 !     MJD2000 of epoch 1900.0 and 2101-01-01
-      parameter(t_min = -36525.d0, t_max = 36890.d0)
+      parameter(t_min = -36525.d0, t_max = 36889.999999999d0)
 
       epoch_old = -9999.9
 
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index 718e625..ef0c0b0 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -54,7 +54,7 @@
       integer       n_data, i
       integer       iyr, imon, iday, idoy, ihour, imin
 !     MJD2000 of 1601-01-01 and 2101-01-01
-      parameter(t_min = -145731.d0, t_max = 36890.d0)
+      parameter(t_min = -145731.d0, t_max = 36889.999999999d0)
 
       do i = 1, n_data
 !        Times not supported by SUBSOL (including NaN)
-- 
2.43.0


From 8feafbcd96249e1dde8d4827b75e4bd044227d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:09 +0000
Subject: [PATCH 44/53] fix: QD coefficients not fitting into memory terminated
 the process

---
 qdipole/apexsh.f90     | 85 +++++++++++++++++++++++++-----------------
 qdipole/makeapexsh.f90 |  5 ++-
 2 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index dccae2f..2054738 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -195,7 +195,9 @@
         endif
       endif
       if (ierr .eq. 0) then
-        call allocatearrays
+        call allocatearrays(ierr)
+      endif
+      if (ierr .eq. 0) then
         read(23,*,iostat=ierr) epochgrid, coeff0
       endif
       if (ierr .eq. 0) then
@@ -246,12 +248,14 @@ end subroutine loadapxsh
 
 !***************************************************************************************************
 
-subroutine allocatearrays
+subroutine allocatearrays(ierr)
 
     use apxshmodule
 
     implicit none
 
+    integer(4)                  :: ierr
+
     external alfbasisinit
 
     !RESET ARRAYS
@@ -280,35 +284,38 @@ subroutine allocatearrays
 
     !ALLOCATE ARRAYS
     ntermsh = mmax*(2*nmax - mmax + 1) + nmax + 1
-    allocate(    epochgrid(0:nepoch-1) )
-    allocate(       coeff0(0:nterm-1, 0:nepoch-1, 0:5) )
-    allocate(      qcoeff0(0:nterm-1, 0:2) )
-    allocate(      gcoeff0(0:nterm-1, 0:2) )
-    allocate(      xqcoeff(0:ntermsh-1) )
-    allocate(      yqcoeff(0:ntermsh-1) )
-    allocate(      zqcoeff(0:ntermsh-1) )
-    allocate( dxqdrhocoeff(0:ntermsh-1) )
-    allocate( dyqdrhocoeff(0:ntermsh-1) )
-    allocate( dzqdrhocoeff(0:ntermsh-1) )
-    allocate(      xgcoeff(0:ntermsh-1) )
-    allocate(      ygcoeff(0:ntermsh-1) )
-    allocate(      zgcoeff(0:ntermsh-1) )
-    allocate(           sh(0:ntermsh-1) )
-    allocate(  shgradtheta(0:ntermsh-1) )
-    allocate(    shgradphi(0:ntermsh-1) )
-    allocate(     polynomq(0:lmax) )
-    allocate(    dpolynomq(0:lmax) )
-    allocate(     polynomg(0:lmax) )
-    allocate(         pbar(0:nmax, 0:mmax) )
-    allocate(         vbar(0:nmax, 0:mmax) )
-    allocate(         wbar(0:nmax, 0:mmax) )
+    allocate( &
+          epochgrid(0:nepoch-1), &
+             coeff0(0:nterm-1, 0:nepoch-1, 0:5), &
+            qcoeff0(0:nterm-1, 0:2), &
+            gcoeff0(0:nterm-1, 0:2), &
+            xqcoeff(0:ntermsh-1), &
+            yqcoeff(0:ntermsh-1), &
+            zqcoeff(0:ntermsh-1), &
+       dxqdrhocoeff(0:ntermsh-1), &
+       dyqdrhocoeff(0:ntermsh-1), &
+       dzqdrhocoeff(0:ntermsh-1), &
+            xgcoeff(0:ntermsh-1), &
+            ygcoeff(0:ntermsh-1), &
+            zgcoeff(0:ntermsh-1), &
+                 sh(0:ntermsh-1), &
+        shgradtheta(0:ntermsh-1), &
+          shgradphi(0:ntermsh-1), &
+           polynomq(0:lmax), &
+          dpolynomq(0:lmax), &
+           polynomg(0:lmax), &
+               pbar(0:nmax, 0:mmax), &
+               vbar(0:nmax, 0:mmax), &
+               wbar(0:nmax, 0:mmax), &
+      stat=ierr )
+    if (ierr .ne. 0) return
     polynomq(0) = 1D0
     dpolynomq(0) = 0D0
     polynomg(0) = 1D0
     pbar = 0
     vbar = 0
     wbar = 0
-    call alfbasisinit(nmax,mmax)
+    call alfbasisinit(nmax,mmax,ierr)
 
     return
 
@@ -714,25 +721,35 @@ end module alfbasismodule
 
 !***************************************************************************************************
 
-subroutine alfbasisinit(nmax0in,mmax0in)
+subroutine alfbasisinit(nmax0in,mmax0in,ierr)
 
     use alfbasismodule
 
     implicit none
 
     integer(4), intent(in) :: nmax0in, mmax0in
+    integer(4)             :: ierr
     integer(8)             :: n, m
 
     nmax0 = nmax0in
     mmax0 = mmax0in
-    if (allocated(anm)) deallocate(anm, bnm, cm, dnm, en, marr, narr)
-    allocate( anm(0:nmax0, 0:mmax0) )
-    allocate( bnm(0:nmax0, 0:mmax0) )
-    allocate( cm(0:mmax0) )
-    allocate( dnm(0:nmax0, 0:mmax0) )
-    allocate( en(0:nmax0) )
-    allocate( marr(0:mmax0) )
-    allocate( narr(0:nmax0) )
+    if (allocated(anm)) deallocate(anm)
+    if (allocated(bnm)) deallocate(bnm)
+    if (allocated(cm)) deallocate(cm)
+    if (allocated(dnm)) deallocate(dnm)
+    if (allocated(en)) deallocate(en)
+    if (allocated(marr)) deallocate(marr)
+    if (allocated(narr)) deallocate(narr)
+    allocate( &
+      anm(0:nmax0, 0:mmax0), &
+      bnm(0:nmax0, 0:mmax0), &
+      cm(0:mmax0), &
+      dnm(0:nmax0, 0:mmax0), &
+      en(0:nmax0), &
+      marr(0:mmax0), &
+      narr(0:nmax0), &
+      stat=ierr )
+    if (ierr .ne. 0) return
 
     do n = 1, nmax0
       narr(n) = dble(n)
diff --git a/qdipole/makeapexsh.f90 b/qdipole/makeapexsh.f90
index 1181168..73122e3 100644
--- a/qdipole/makeapexsh.f90
+++ b/qdipole/makeapexsh.f90
@@ -50,7 +50,7 @@ subroutine makeapxsh(datafilein,epochgridin,nepochin,lmaxin,mmaxin,nmaxin)
     integer(4), parameter       :: sampfact=4, iun=12
     integer(4)                  :: nterm1, nlon, nlat, nalt
     integer(4)                  :: iepoch, iterm, ilon, ilat, ialt
-    integer(4)                  :: l, ish, i, j, Rpt(0:2)
+    integer(4)                  :: l, ish, i, j, Rpt(0:2), ierr
     real(4)                     :: glon, glat, alt, lonspace, latspace, lat0
     real(8)                     :: rhospace
     real(8)                     :: norm1, norm2, cosmplat, sinmplat, cosmplon, sinmplon
@@ -79,7 +79,8 @@ subroutine makeapxsh(datafilein,epochgridin,nepochin,lmaxin,mmaxin,nmaxin)
     nlon = sampfact*mmax
     nlat = sampfact*nmax
     nalt = sampfact*lmax
-    call allocatearrays
+    call allocatearrays(ierr)
+    if (ierr .ne. 0) stop 'makeapexsh: failed to allocate memory'
     coeff0 = 0
     do iepoch = 0, nepoch-1
       epochgrid(iepoch) = epochgridin(iepoch)
-- 
2.43.0


From 1719010c60eea17cce7994da41c64890ebcefdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:15 +0000
Subject: [PATCH 45/53] fix: results released twice when the result tuple could
 not be allocated

---
 eoxmagmod/eoxmagmod/pymm_legendre.h      | 3 +++
 eoxmagmod/eoxmagmod/pymm_sheval.h        | 3 +++
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h    | 3 +++
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h    | 3 +++
 eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h | 7 +++++++
 eoxmagmod/eoxmagmod/pyqd_eval_subsol.h   | 3 +++
 6 files changed, 22 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_legendre.h b/eoxmagmod/eoxmagmod/pymm_legendre.h
index 200c49b..5cd79d7 100644
--- a/eoxmagmod/eoxmagmod/pymm_legendre.h
+++ b/eoxmagmod/eoxmagmod/pymm_legendre.h
@@ -134,7 +134,10 @@ static PyObject* legendre(PyObject *self, PyObject *args, PyObject *kwdict)
 
 
     if (NULL == (retval = Py_BuildValue("NN", arr_p, arr_dp)))
+    {
+        arr_p = arr_dp = NULL; // released by Py_BuildValue
         goto exit;
+    }
 
 
     // evaluate associated Legendre functions and their derivatives
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 70aefd9..4539290 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -347,7 +347,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
                 &model
             );
             if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd)))
+            {
+                arr_pot = arr_grd = NULL; // released by Py_BuildValue
                 goto exit;
+            }
             break;
     }
 
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index ace32af..d207d74 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -344,7 +344,10 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
                  &model
             );
             if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd)))
+            {
+                arr_pot = arr_grd = NULL; // released by Py_BuildValue
                 goto exit;
+            }
             break;
     }
 
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 6edfa44..7d3f490 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -346,7 +346,10 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
                  &model
             );
             if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd)))
+            {
+                arr_pot = arr_grd = NULL; // released by Py_BuildValue
                 goto exit;
+            }
             break;
     }
 
diff --git a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
index 5d30f4c..09cfd4f 100644
--- a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
+++ b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
@@ -219,6 +219,13 @@ static PyObject* eval_qdlatlon(PyObject *self, PyObject *args, PyObject *kwdict)
         );
     }
 
+    if (!retval)
+    {
+        // released by Py_BuildValue
+        arr_qdlat = arr_qdlon = NULL;
+        arr_f11 = arr_f12 = arr_f21 = arr_f22 = arr_f = NULL;
+    }
+
     if (NULL == retval) goto exit;
 
   exit:
diff --git a/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h b/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h
index ff9a56d..fe016ab 100644
--- a/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h
+++ b/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h
@@ -95,7 +95,10 @@ static PyObject* eval_subsol(PyObject *self, PyObject *args, PyObject *kwdict)
     }
 
     if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_gdlat, (PyObject*) arr_gdlon)))
+    {
+        arr_gdlat = arr_gdlon = NULL; // released by Py_BuildValue
         goto exit;
+    }
 
   exit:
 
-- 
2.43.0


From 0587fdff4d72a3cf7d3b35b36314471f5b12912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:38 +0000
Subject: [PATCH 46/53] fix: vnorm overflow of integer vectors

---
 eoxmagmod/eoxmagmod/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/util.py b/eoxmagmod/eoxmagmod/util.py
index 0ae5393..87659f4 100644
--- a/eoxmagmod/eoxmagmod/util.py
+++ b/eoxmagmod/eoxmagmod/util.py
@@ -87,6 +87,9 @@ def vnorm(arr):
         |v| = sqrt(dot(v, v))
     """
     arr = asarray(arr)
+    if arr.dtype.kind in "biu":
+        # prevent overflow of the squared integers
+        arr = arr.astype("float64")
     return sqrt((arr*arr).sum(axis=arr.ndim-1))
 
 
-- 
2.43.0


From f81f9c056f22b09c8a859b7d0d15fa53025ef347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:37 +0000
Subject: [PATCH 47/53] fix: evaluate combined models with different decimal
 year conversions

---
 .../eoxmagmod/magnetic_model/coefficients.py      | 15 +++++++++++++++
 eoxmagmod/eoxmagmod/magnetic_model/model.py       |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index ac433fc..6655bdf 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -319,6 +319,21 @@ class CombinedSHCoefficients(SHCoefficients):
             coeff_sets.extend(item.get_coefficient_sets(**parameters))
         return coeff_sets
 
+    @property
+    def time_conversions(self):
+        """ Extract the distinct time-conversion functions. """
+        time_conversions = []
+        for item in self._items:
+            if isinstance(item, CombinedSHCoefficients):
+                item_conversions = item.time_conversions
+            else:
+                convert_time = getattr(item, "convert_time", None)
+                item_conversions = [convert_time] if convert_time else []
+            for convert_time in item_conversions:
+                if convert_time not in time_conversions:
+                    time_conversions.append(convert_time)
+        return time_conversions
+
     @property
     def convert_time(self):
         """ Extract time-conversion function, if available. """
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index 49047c3..c0090a8 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -104,6 +104,10 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
                 # coefficient cannot be extracted - falling back to the default
                 return self._eval_default
 
+            if len(coefficients.time_conversions) > 1:
+                # mixed time conversions - falling back to the default
+                return self._eval_default
+
             if len(coefficient_sets) > MAX_COEFFICIENT_SETS:
                 # too many coefficient sets - falling back to the default
                 return self._eval_default
-- 
2.43.0


From a84ca50d73775eb96a57f05d97272dc5da1bdc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:16 +0000
Subject: [PATCH 48/53] fix: reject MIO coefficients of inconsistent dimensions

---
 .../magnetic_model/coefficients_mio.py         | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py
index b32ed65..9d167a8 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py
@@ -69,10 +69,26 @@ class SparseSHCoefficientsMIO(SparseSHCoefficients):
     def __init__(self, indices, coefficients, ps_extent,
                  mjd2000_to_year_fraction=mjd2000_to_year_fraction_default,
                  **kwargs):
-        SparseSHCoefficients.__init__(self, indices, coefficients, **kwargs)
+        indices = asarray(indices)
+        coefficients = asarray(coefficients)
+
         pmin, pmax, smin, smax = ps_extent
         if pmin > pmax or smin > smax:
             raise Exception(f"Invalid ps_extent {ps_extent}!")
+
+        # check array dimensions
+        if indices.ndim != 2 or indices.shape[1] != 2:
+            raise ValueError(f"Invalid indices array dimension {indices.shape}!")
+
+        if coefficients.shape != (
+            indices.shape[0], smax - smin + 1, pmax - pmin + 1, 2
+        ):
+            raise ValueError(
+                "Shape mismatch of the indices, ps_extent and coefficients "
+                f"({indices.shape}, {ps_extent} vs. {coefficients.shape})!"
+            )
+
+        SparseSHCoefficients.__init__(self, indices, coefficients, **kwargs)
         self.ps_extent = DegreeRanges(pmin, pmax, smin, smax)
         self.mjd2000_to_year_fraction = mjd2000_to_year_fraction
 
-- 
2.43.0


From 3fd20596fdc83178dcd229a9e9d46252dbe693d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:54 +0000
Subject: [PATCH 49/53] fix: composed models could not be pickled

---
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index db21df3..278e00c 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -37,7 +37,7 @@ from .util import reshape_times_and_coordinates
 
 __all__ = ["ComposedGeomagneticModel"]
 
-Component = namedtuple("_Component", ["model", "scale", "parameters"])
+Component = namedtuple("Component", ["model", "scale", "parameters"])
 
 
 def _validity_overlap(validity1, validity2):
-- 
2.43.0


From 592e9b5374e4ad63b72455e0ec1c99ea7e219f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:10 +0000
Subject: [PATCH 50/53] fix: wrong positions of coefficients given by indices
 of narrow integer types

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 6655bdf..14c19e9 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -373,6 +373,8 @@ class SparseSHCoefficients(SHCoefficients):
         n_idx, m_idx = indices[..., 0], indices[..., 1]
         if ((n_idx < 0) | (aabs(m_idx) > n_idx)).any():
             raise ValueError("Invalid degree or order of the coefficients!")
+        # avoid overflow of the narrow integer types
+        n_idx, m_idx = n_idx.astype('int64'), m_idx.astype('int64')
         self._degree = n_idx.max()
         self._min_degree = n_idx.min()
         self._nm = indices.astype('int32')
-- 
2.43.0


From f2bd129f5a9baaad2febfafdcb4ef59923347a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:31 +0000
Subject: [PATCH 51/53] fix: wrong sign of the model field scaled by unsigned
 integers

---
 eoxmagmod/eoxmagmod/magnetic_model/model.py     | 4 ++--
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index c0090a8..20676e5 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -199,7 +199,7 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
             coord_type_out=output_coordinate_system,
             mode=GRADIENT,
             is_internal=coefficients.is_internal,
-            scale_gradient=-asarray(options.get("scale", 1.0)),
+            scale_gradient=-1.0*asarray(options.get("scale", 1.0)),
         )
 
     def _eval_default(self, coefficients, time, location,
@@ -250,7 +250,7 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
             mode=GRADIENT, degree=degree, is_internal=coefficients.is_internal,
             coord_type_in=input_coordinate_system,
             coord_type_out=output_coordinate_system,
-            scale_gradient=-asarray(options.get("scale", 1.0))
+            scale_gradient=-1.0*asarray(options.get("scale", 1.0))
         )
 
 
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index afef48e..e3ad667 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -232,5 +232,5 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
             coord_type_out=output_coordinate_system,
             mode=GRADIENT,
             is_internal=coefficients.is_internal,
-            scale_gradient=-asarray(options.get("scale", 1.0)),
+            scale_gradient=-1.0*asarray(options.get("scale", 1.0)),
         )
-- 
2.43.0


From e1283c5c5141c4b1bd2d1736289601dcfafbbbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:34 +0000
Subject: [PATCH 52/53] fix: wrong rotation of vectors with unsigned integer
 coordinates

---
 eoxmagmod/eoxmagmod/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/util.py b/eoxmagmod/eoxmagmod/util.py
index 87659f4..27bff4f 100644
--- a/eoxmagmod/eoxmagmod/util.py
+++ b/eoxmagmod/eoxmagmod/util.py
@@ -65,13 +65,13 @@ def vrotate(arr, coord_in, coord_out, coord_type_in, coord_type_out):
         if coord_type_out == GEODETIC_ABOVE_WGS84:
             return arr
         if coord_type_out == GEOCENTRIC_SPHERICAL:
-            return vrot_sph2geod(arr, coord_out[..., 0] - coord_in[..., 0])
+            return vrot_sph2geod(arr, 1.0*coord_out[..., 0] - coord_in[..., 0])
         if coord_type_out == GEOCENTRIC_CARTESIAN:
             return vrot_sph2cart(arr, coord_in[..., 0], coord_in[..., 1])
 
     elif coord_type_in == GEOCENTRIC_SPHERICAL:
         if coord_type_out == GEODETIC_ABOVE_WGS84:
-            return vrot_sph2geod(arr, coord_out[..., 0] - coord_in[..., 0])
+            return vrot_sph2geod(arr, 1.0*coord_out[..., 0] - coord_in[..., 0])
         if coord_type_out == GEOCENTRIC_CARTESIAN:
             return vrot_sph2cart(arr, coord_in[..., 0], coord_in[..., 1])
 
-- 
2.43.0


From 386d2f9041b0d979d2a09d63554b853448d33c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:49 +0000
Subject: [PATCH 53/53] fix: wrong magnetic universal time of narrow integer
 longitudes

---
 eoxmagmod/eoxmagmod/magnetic_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_time.py b/eoxmagmod/eoxmagmod/magnetic_time.py
index 967297f..4660be6 100644
--- a/eoxmagmod/eoxmagmod/magnetic_time.py
+++ b/eoxmagmod/eoxmagmod/magnetic_time.py
@@ -66,7 +66,7 @@ def _mjd2000_to_magnetic_universal_time(mjd2000, lat_ngp, lon_ngp,
                                         lat_sol, lon_sol):
     latr_sol = DEG2RAD * lat_sol
     latr_ngp = DEG2RAD * lat_ngp
-    dif_lonr = DEG2RAD * (lon_sol - lon_ngp)
+    dif_lonr = DEG2RAD * (1.0*lon_sol - lon_ngp)
 
     tmp_y = cos(latr_sol)
     tmp_x = sin(latr_ngp)*tmp_y*cos(dif_lonr) - cos(latr_ngp)*sin(latr_sol)
-- 
2.43.0

