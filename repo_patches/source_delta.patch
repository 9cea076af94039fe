From de4ccee85698c7368a3225fc395a65cf470fedea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 01/34] fix: reject a named zero in vec_as_location2() and
 num_as_location2()

`identical(i, 0L)` missed zeros that carry names, which then resolved to
an empty location vector instead of the documented error.
---
 R/subscript-loc.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/subscript-loc.R b/R/subscript-loc.R
index 3e529f0..ac52f62 100644
--- a/R/subscript-loc.R
+++ b/R/subscript-loc.R
@@ -241,7 +241,7 @@ vec_as_location2_result <- function(i,
     return(result)
   }
 
-  if (identical(i, 0L)) {
+  if (is_integer(i) && i == 0L) {
     return(result(err = new_error_location2_type(
       i = i,
       subscript_arg = arg,
-- 
2.43.0


From aff1546a90824cf7b7a31c96c6b15234c46fcc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 02/34] fix: vec_as_location2() returns an integer for a
 missing name

`vec_as_location2(NA_character_, n, names, missing = "propagate")` returned
the character subscript instead of an integer location.
---
 R/subscript-loc.R | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/R/subscript-loc.R b/R/subscript-loc.R
index ac52f62..fec2a92 100644
--- a/R/subscript-loc.R
+++ b/R/subscript-loc.R
@@ -236,6 +236,10 @@ vec_as_location2_result <- function(i,
         call = call
       ))
     } else {
+      # A missing name resolves to a missing location
+      if (is_character(i)) {
+        i <- set_names(NA_integer_, names(i))
+      }
       result <- result(i)
     }
     return(result)
-- 
2.43.0


From 8387102d65542bfff03ce9b32d27fc72ec6d041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 03/34] fix: restore the type under AsIs when slicing

vec_restore.AsIs() only put the AsIs class back, so the attributes of the
underlying type were lost: vec_slice(I(factor("a")), 1) was I(1L).
---
 R/type-asis.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/R/type-asis.R b/R/type-asis.R
index 8ba2b96..2e2729b 100644
--- a/R/type-asis.R
+++ b/R/type-asis.R
@@ -35,6 +35,7 @@ vec_proxy.AsIs <- function(x, ...) {
 
 #' @export
 vec_restore.AsIs <- function(x, to, ...) {
+  x <- vec_restore(x, asis_strip(to))
   asis_restore(x)
 }
 
-- 
2.43.0


From dd864245b57d0a2182ef3da8f8e6ea51eb6ed44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 04/34] fix: integer64 casts fail instead of losing values

Casts from integer64 to integer or double and from double to integer64
returned missing, rounded or truncated values. They now throw a lossy cast
error like every other cast.
---
 R/type-integer64.R | 58 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 6 deletions(-)

diff --git a/R/type-integer64.R b/R/type-integer64.R
index 765c856..72dd3ac 100644
--- a/R/type-integer64.R
+++ b/R/type-integer64.R
@@ -88,8 +88,23 @@ vec_cast.integer64.integer <- function(x, to, ...) {
 
 #' @export
 #' @method vec_cast.integer integer64
-vec_cast.integer.integer64 <- function(x, to, ...) {
-  as.integer(x)
+vec_cast.integer.integer64 <- function(x,
+                                       to,
+                                       ...,
+                                       x_arg = "",
+                                       to_arg = "",
+                                       call = caller_env()) {
+  out <- suppressWarnings(as.integer(x))
+  lossy <- is.na(out) & !is.na(x)
+  maybe_lossy_cast(
+    out,
+    x,
+    to,
+    lossy,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 #' @export
@@ -106,14 +121,45 @@ vec_cast.logical.integer64 <- function(x, to, ...) {
 
 #' @export
 #' @method vec_cast.integer64 double
-vec_cast.integer64.double <- function(x, to, ...) {
-  bit64::as.integer64(x)
+vec_cast.integer64.double <- function(x,
+                                      to,
+                                      ...,
+                                      x_arg = "",
+                                      to_arg = "",
+                                      call = caller_env()) {
+  out <- suppressWarnings(bit64::as.integer64(x))
+  lossy <- !is.na(x) & (is.na(out) | x != trunc(x))
+  maybe_lossy_cast(
+    out,
+    x,
+    to,
+    lossy,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 #' @export
 #' @method vec_cast.double integer64
-vec_cast.double.integer64 <- function(x, to, ...) {
-  as.double(x)
+vec_cast.double.integer64 <- function(x,
+                                      to,
+                                      ...,
+                                      x_arg = "",
+                                      to_arg = "",
+                                      call = caller_env()) {
+  out <- suppressWarnings(as.double(x))
+  back <- suppressWarnings(bit64::as.integer64(out))
+  lossy <- !is.na(x) & (is.na(back) | back != x)
+  maybe_lossy_cast(
+    out,
+    x,
+    to,
+    lossy,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From c9e26106b174cbf63f6ef71b24a1351728162b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 05/34] fix: NaN is not a lossy location when casting to
 logical

vec_cast(NaN, logical()) is NA, but NaN was reported among the lossy
locations when another element was not castable.
---
 R/type-bare.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/type-bare.R b/R/type-bare.R
index 84cf6e4..ba786c9 100644
--- a/R/type-bare.R
+++ b/R/type-bare.R
@@ -218,7 +218,7 @@ vec_cast.logical.double <- function(x,
     to_arg = to_arg,
     call = call
   )
-  lossy <- !x %in% c(0, 1, NA_real_)
+  lossy <- !x %in% c(0, 1, NA_real_, NaN)
   maybe_lossy_cast(
     out,
     x,
-- 
2.43.0


From fc33eac1cc188b4b502752eb0e476288e810acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 06/34] fix: compare attributes of list elements by name and
 number

The tag of the second attribute list was never read, and additional
attributes of the second element were ignored.
---
 src/equal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equal.c b/src/equal.c
index 359bbb4..ecbef81 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -396,7 +396,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     }
 
     SEXP x_tag = TAG(x_attrs);
-    SEXP y_tag = TAG(x_attrs);
+    SEXP y_tag = TAG(y_attrs);
 
     if (x_tag != y_tag) {
       return false;
@@ -410,7 +410,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     y_attrs = CDR(y_attrs);
   }
 
-  return true;
+  return y_attrs == R_NilValue;
 }
 
 
-- 
2.43.0


From a9cb8810c0b335cea78505c500006e459235a0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 07/34] fix: compare argument names of calls and functions in
 lists

quote(f(a = 1)) and quote(f(b = 1)) were equal list elements.
---
 src/equal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/equal.c b/src/equal.c
index ecbef81..b903b1e 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -312,6 +312,10 @@ bool equal_object_normalized(SEXP x, SEXP y) {
       return false;
     }
 
+    if (TAG(x) != TAG(y)) {
+      return false;
+    }
+
     if (!equal_object_normalized(CAR(x), CAR(y))) {
       return false;
     }
-- 
2.43.0


From 05387d1e612d53b5fb1bd97ac1a26bcfd877dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 08/34] fix: hash complex and raw vectors inside lists

vec_unique(list(1i)) failed with an unsupported type error although
equality is defined for these elements.
---
 src/hash.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index 154c9fb..fa01e6b 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -108,6 +108,8 @@ static uint32_t lgl_hash(SEXP x);
 static uint32_t int_hash(SEXP x);
 static uint32_t dbl_hash(SEXP x);
 static uint32_t chr_hash(SEXP x);
+static uint32_t cpl_hash(SEXP x);
+static uint32_t raw_hash(SEXP x);
 static uint32_t list_hash(SEXP x);
 static uint32_t node_hash(SEXP x);
 static uint32_t fn_hash(SEXP x);
@@ -142,6 +144,8 @@ static uint32_t sexp_hash(SEXP x) {
   case INTSXP: return int_hash(x);
   case REALSXP: return dbl_hash(x);
   case STRSXP: return chr_hash(x);
+  case CPLXSXP: return cpl_hash(x);
+  case RAWSXP: return raw_hash(x);
   case EXPRSXP:
   case VECSXP: return list_hash(x);
   case DOTSXP:
@@ -181,6 +185,12 @@ static uint32_t dbl_hash(SEXP x) {
 static uint32_t chr_hash(SEXP x) {
   HASH(SEXP, STRING_PTR_RO, chr_hash_scalar);
 }
+static uint32_t cpl_hash(SEXP x) {
+  HASH(Rcomplex, COMPLEX_RO, cpl_hash_scalar);
+}
+static uint32_t raw_hash(SEXP x) {
+  HASH(Rbyte, RAW_RO, raw_hash_scalar);
+}
 
 #undef HASH
 
-- 
2.43.0


From f754e2ded4f457a0f45d933aad1219657c230698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 09/34] fix: prototype of integer-backed difftime vectors is
 double, like their casts

---
 NAMESPACE          |  1 +
 R/type-date-time.R | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/NAMESPACE b/NAMESPACE
index 8d02a50..1e2689b 100644
--- a/NAMESPACE
+++ b/NAMESPACE
@@ -327,6 +327,7 @@ S3method(vec_proxy_order,array)
 S3method(vec_proxy_order,default)
 S3method(vec_proxy_order,list)
 S3method(vec_proxy_order,raw)
+S3method(vec_ptype,difftime)
 S3method(vec_ptype2,AsIs)
 S3method(vec_ptype2,Date)
 S3method(vec_ptype2,POSIXct)
diff --git a/R/type-date-time.R b/R/type-date-time.R
index 1369b67..bfbf62b 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -86,6 +86,19 @@ vec_restore.POSIXlt <- function(x, to, ...) {
   NextMethod()
 }
 
+#' @export
+vec_ptype.difftime <- function(x, ...) {
+  x <- vec_slice(x, integer())
+
+  if (is.integer(x)) {
+    # Casts always return double durations, even with corrupt difftime
+    # objects (#1602), so their prototype must be double as well
+    storage.mode(x) <- "double"
+  }
+
+  x
+}
+
 # Print ------------------------------------------------------------------
 
 #' @export
-- 
2.43.0


From ddc97621aeaa2fc63ed83f893e64ad43fce8c796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 10/34] fix: keep rows missing when hashing raw columns with
 na_equal = FALSE

---
 src/hash.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hash.c b/src/hash.c
index fa01e6b..11c121d 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -365,7 +365,14 @@ static inline void raw_hash_fill_na_equal(uint32_t* p, R_len_t size, SEXP x) {
   HASH_FILL(Rbyte, RAW_RO, raw_hash_scalar);
 }
 static inline void raw_hash_fill_na_propagate(uint32_t* p, R_len_t size, SEXP x) {
-  HASH_FILL(Rbyte, RAW_RO, raw_hash_scalar);
+  // Raw vectors don't have missing values, but the row might already be missing
+  const Rbyte* xp = RAW_RO(x);
+
+  for (R_len_t i = 0; i < size; ++i, ++xp) {
+    if (p[i] != HASH_MISSING) {
+      p[i] = hash_combine(p[i], raw_hash_scalar(xp));
+    }
+  }
 }
 
 #undef HASH_FILL_NA_PROPAGATE_CMP
-- 
2.43.0


From 8bdbe64a97850d0d382e571cf9165db7ba453eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 11/34] fix: don't replace missing rows that have nothing to be
 filled with in vec_fill_missing()

---
 src/fill.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/fill.c b/src/fill.c
index 7bc37ca..171da98 100644
--- a/src/fill.c
+++ b/src/fill.c
@@ -73,12 +73,16 @@ void vec_fill_missing_down(const int* p_na, r_ssize size, bool leading, int* p_l
     }
   }
 
+  // Locations before the first non-missing value have nothing to be filled with
+  bool any = false;
+
   for (r_ssize i = loc; i < size; ++i) {
     if (!p_na[i]) {
       loc = i;
+      any = true;
     }
 
-    p_loc[i] = loc + 1;
+    p_loc[i] = any ? loc + 1 : i + 1;
   }
 }
 
@@ -110,15 +114,19 @@ void vec_fill_missing_down_with_max_fill(const int* p_na, r_ssize size, bool lea
 
   r_ssize n_fill = 0;
 
+  // Locations before the first non-missing value have nothing to be filled with
+  bool any = false;
+
   for (r_ssize i = loc; i < size; ++i) {
     if (!p_na[i]) {
       loc = i;
+      any = true;
       n_fill = 0;
       p_loc[i] = i + 1;
       continue;
     }
 
-    if (n_fill == max_fill) {
+    if (!any || n_fill == max_fill) {
       p_loc[i] = i + 1;
     } else {
       p_loc[i] = loc + 1;
@@ -146,12 +154,16 @@ void vec_fill_missing_up(const int* p_na, r_ssize size, bool leading, int* p_loc
     }
   }
 
+  // Locations before the first non-missing value have nothing to be filled with
+  bool any = false;
+
   for (r_ssize i = loc; i >= 0; --i) {
     if (!p_na[i]) {
       loc = i;
+      any = true;
     }
 
-    p_loc[i] = loc + 1;
+    p_loc[i] = any ? loc + 1 : i + 1;
   }
 }
 
@@ -183,15 +195,19 @@ void vec_fill_missing_up_with_max_fill(const int* p_na, r_ssize size, bool leadi
 
   r_ssize n_fill = 0;
 
+  // Locations before the first non-missing value have nothing to be filled with
+  bool any = false;
+
   for (r_ssize i = loc; i >= 0; --i) {
     if (!p_na[i]) {
       loc = i;
+      any = true;
       n_fill = 0;
       p_loc[i] = i + 1;
       continue;
     }
 
-    if (n_fill == max_fill) {
+    if (!any || n_fill == max_fill) {
       p_loc[i] = i + 1;
     } else {
       p_loc[i] = loc + 1;
-- 
2.43.0


From be481e1e9d8790ac4ad494668b53f058c37c7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:29 +0000
Subject: [PATCH 12/34] fix: out of bounds write in vec_locate_run_bounds()

---
 src/runs.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runs.c b/src/runs.c
index 5328406..e88e8e3 100644
--- a/src/runs.c
+++ b/src/runs.c
@@ -63,11 +63,13 @@ r_obj* vec_locate_run_bounds(r_obj* x, enum vctrs_run_bound which, struct r_lazy
   r_ssize loc = compute_iter_loc(size, which);
   const r_ssize step = compute_iter_step(which);
 
-  // First/last value are always the final bound locations
-  // (depending on `which`), so `j` won't ever write to OOB locations
+  // Only write at bound locations. The last bound is generally not the last
+  // location visited, so an unconditional write would be out of bounds.
   for (r_ssize i = 0; i < size; ++i) {
-    v_out[j] = loc + 1;
-    j += step * v_where[loc];
+    if (v_where[loc]) {
+      v_out[j] = loc + 1;
+      j += step;
+    }
     loc += step;
   }
 
-- 
2.43.0


From fc7eaab95239cee524e88883f84905fe7c5a6b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:53 +0000
Subject: [PATCH 13/34] fix: order data frames with complex columns and several
 tie groups

The column index was decremented once per group chunk rather than once per
column, so two or more groups of ties reread earlier columns or read out of bounds.
---
 src/order.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/order.c b/src/order.c
index 51d0615..1cc1e04 100644
--- a/src/order.c
+++ b/src/order.c
@@ -3905,9 +3905,6 @@ static void vec_order_chunk_switch(bool decreasing,
       const int loc = p_o_col[j] - 1;                          \
       p_x_chunk_col[j] = cpl_normalise_missing(p_col[loc]).r;  \
     }                                                          \
-                                                               \
-    /* Decrement `i` to rerun column */                        \
-    --i;                                                       \
   } else {                                                     \
     /* Second pass - imaginary */                              \
     for (r_ssize j = 0; j < group_size; ++j) {                 \
@@ -4109,6 +4106,12 @@ void df_order_internal(SEXP x,
       p_o_col += group_size;
     }
 
+    // Decrement `i` to rerun the column on the imaginary part. This must happen
+    // once per column, not once per group chunk.
+    if (rerun_complex) {
+      --i;
+    }
+
     // Reset TRUELENGTHs between columns if ordering character vectors.
     // When ordering by appearance, `chr_appearance_counting()` resets the
     // TRUELENGTHs between chunks.
-- 
2.43.0


From e2bec4a7fea7ff76e40637b1b8ca67efd05e678c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:38 +0000
Subject: [PATCH 14/34] fix: list_unchop() fallback placed rows after a NULL
 element at the wrong locations

---
 src/c-unchop.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/c-unchop.c b/src/c-unchop.c
index 7fc6504..fd393ea 100644
--- a/src/c-unchop.c
+++ b/src/c-unchop.c
@@ -256,6 +256,15 @@ r_obj* list_unchop_fallback(r_obj* ptype,
 
   indices = KEEP(list_as_locations(indices, out_size, r_null));
 
+  // `NULL` elements don't contribute any row to the concatenated vector, so
+  // their locations must not consume any either
+  indices = KEEP(r_clone_referenced(indices));
+  for (r_ssize j = 0; j < xs_size; ++j) {
+    if (r_list_get(xs, j) == r_null) {
+      r_list_poke(indices, j, r_globals.empty_int);
+    }
+  }
+
   r_obj* out = r_null;
   if (homogeneous) {
     out = KEEP(vec_c_fallback_invoke(xs, name_spec, error_call));
@@ -279,6 +288,7 @@ r_obj* list_unchop_fallback(r_obj* ptype,
   ));
 
   const int* p_indices = r_int_cbegin(indices);
+  const r_ssize n_indices = r_length(indices);
 
   r_obj* locations = KEEP(r_alloc_integer(out_size));
   int* p_locations = r_int_begin(locations);
@@ -288,7 +298,7 @@ r_obj* list_unchop_fallback(r_obj* ptype,
     p_locations[i] = r_globals.na_int;
   }
 
-  for (r_ssize i = 0; i < out_size; ++i) {
+  for (r_ssize i = 0; i < n_indices; ++i) {
     const int index = p_indices[i];
 
     if (index == r_globals.na_int) {
@@ -300,6 +310,6 @@ r_obj* list_unchop_fallback(r_obj* ptype,
 
   out = KEEP(vec_slice_fallback(out, locations));
 
-  FREE(7);
+  FREE(8);
   return out;
 }
-- 
2.43.0


From 7a4d3f270fdf6a733887f5e3a38a58c437ecf60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:36 +0000
Subject: [PATCH 15/34] fix: assigning into an integer difftime failed with an
 internal error

---
 src/slice-assign.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/slice-assign.c b/src/slice-assign.c
index 9508f0a..33b86a4 100644
--- a/src/slice-assign.c
+++ b/src/slice-assign.c
@@ -158,7 +158,11 @@ r_obj* vec_proxy_assign_opts(r_obj* proxy,
   struct vctrs_proxy_info value_info = vec_proxy_info(value);
   KEEP_N(value_info.shelter, &n_protect);
 
-  if (r_typeof(proxy) != r_typeof(value_info.proxy)) {
+  const bool requires_fallback = vec_requires_fallback(value, value_info);
+
+  // The fallback method is in charge of reconciling storage types, e.g. with
+  // an integer `difftime`
+  if (!requires_fallback && r_typeof(proxy) != r_typeof(value_info.proxy)) {
     r_stop_internal("`proxy` of type `%s` incompatible with `value` proxy of type `%s`.",
                     r_type_as_c_string(r_typeof(proxy)),
                     r_type_as_c_string(r_typeof(value_info.proxy)));
@@ -168,7 +172,7 @@ r_obj* vec_proxy_assign_opts(r_obj* proxy,
   // because no proxy method was called
   r_obj* out = r_null;
 
-  if (vec_requires_fallback(value, value_info)) {
+  if (requires_fallback) {
     index = KEEP_N(compact_materialize(index), &n_protect);
     out = KEEP_N(vec_assign_fallback(proxy, index, value), &n_protect);
   } else if (has_dim(proxy)) {
-- 
2.43.0


From 1a297e148fce21a0bcd7a15925f0aabf6ce2e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 16/34] fix: list_unchop() kept the name of an overwritten row
 when the later element has none

---
 src/c-unchop.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/c-unchop.c b/src/c-unchop.c
index fd393ea..9e9646b 100644
--- a/src/c-unchop.c
+++ b/src/c-unchop.c
@@ -141,13 +141,19 @@ r_obj* list_unchop(r_obj* xs,
 
       if (x_nms != r_null) {
         R_LAZY_ALLOC(out_names, out_names_pi, R_TYPE_character, out_size);
+      }
 
-        // If there is no name to assign, skip the assignment since
-        // `out_names` already contains empty strings
-        if (x_nms != chrs_empty) {
-          out_names = chr_assign(out_names, loc, x_nms, VCTRS_OWNED_true);
-          KEEP_AT(out_names, out_names_pi);
+      if (out_names != r_null) {
+        // Elements without names clear the names of the rows they overwrite
+        if (x_nms == r_null || x_nms == chrs_empty) {
+          x_nms = r_alloc_character(loc_size);
         }
+        KEEP(x_nms);
+
+        out_names = chr_assign(out_names, loc, x_nms, VCTRS_OWNED_true);
+        KEEP_AT(out_names, out_names_pi);
+
+        FREE(1);
       }
 
       FREE(2);
-- 
2.43.0


From 0b5db45873e5a8845979f33ff0ea2e0918f31c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:25 +0000
Subject: [PATCH 17/34] fix: vec_assign() modified the fields of a record in
 place

---
 src/slice-assign.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/slice-assign.c b/src/slice-assign.c
index 33b86a4..4a64de7 100644
--- a/src/slice-assign.c
+++ b/src/slice-assign.c
@@ -2,6 +2,15 @@
 #include "decl/slice-assign-decl.h"
 
 
+// Ownership of a proxy must be recursive. The proxy method of a record returns
+// a fresh data frame whose columns are the fields of the original vector, so
+// being the only owner of a data frame proxy doesn't imply that we own its
+// columns.
+static inline
+enum vctrs_owned vec_proxy_owned(r_obj* proxy) {
+  return is_data_frame(proxy) ? VCTRS_OWNED_false : vec_owned(proxy);
+}
+
 // [[ include("slice-assign.h") ]]
 r_obj* vec_assign_opts(r_obj* x,
                        r_obj* index,
@@ -32,7 +41,7 @@ r_obj* vec_assign_opts(r_obj* x,
   value = KEEP(vec_check_recycle(value, vec_size(index), opts.value_arg, opts.call));
 
   r_obj* proxy = KEEP(vec_proxy(x));
-  const enum vctrs_owned owned = vec_owned(proxy);
+  const enum vctrs_owned owned = vec_proxy_owned(proxy);
   proxy = KEEP(vec_proxy_assign_opts(proxy, index, value, owned, &opts));
 
   r_obj* out = vec_restore(proxy, x, owned);
@@ -438,9 +447,16 @@ r_obj* ffi_assign_seq(r_obj* x,
   value = KEEP(vec_cast(value, x, vec_args.value, vec_args.x, call));
   value = KEEP(vec_check_recycle(value, vec_subscript_size(index), vec_args.value, call));
 
+  const struct vec_assign_opts opts = {
+    .assign_names = false,
+    .x_arg = vec_args.x,
+    .value_arg = vec_args.value,
+    .call = call
+  };
+
   r_obj* proxy = KEEP(vec_proxy(x));
-  const enum vctrs_owned owned = vec_owned(proxy);
-  proxy = KEEP(vec_proxy_check_assign(proxy, index, value, vec_args.x, vec_args.value, call));
+  const enum vctrs_owned owned = vec_proxy_owned(proxy);
+  proxy = KEEP(vec_proxy_assign_opts(proxy, index, value, owned, &opts));
 
   r_obj* out = vec_restore(proxy, x, owned);
 
-- 
2.43.0


From 2a575ac29529f49408fb441db972a93f633e7691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:17 +0000
Subject: [PATCH 18/34] fix: common type and casts of integer64 and list_of
 with arrays kept no shape (out of bounds read when combining)

---
 R/type-integer64.R | 64 +++++++++++++++++++++++++++++++++++++++-------
 R/type-list-of.R   | 11 ++++----
 2 files changed, 61 insertions(+), 14 deletions(-)

diff --git a/R/type-integer64.R b/R/type-integer64.R
index 72dd3ac..c8336d4 100644
--- a/R/type-integer64.R
+++ b/R/type-integer64.R
@@ -47,21 +47,31 @@ vec_ptype2.integer64 <- function(x, y, ...) {
 
 #' @method vec_ptype2.integer64 integer64
 #' @export
-vec_ptype2.integer64.integer64 <- function(x, y, ...) bit64::integer64()
+vec_ptype2.integer64.integer64 <- function(x, y, ...) {
+  integer64_ptype2(x, y, ...)
+}
 
 #' @method vec_ptype2.integer64 integer
 #' @export
-vec_ptype2.integer64.integer <- function(x, y, ...) bit64::integer64()
+vec_ptype2.integer64.integer <- function(x, y, ...) {
+  integer64_ptype2(x, y, ...)
+}
 #' @method vec_ptype2.integer integer64
 #' @export
-vec_ptype2.integer.integer64 <- function(x, y, ...) bit64::integer64()
+vec_ptype2.integer.integer64 <- function(x, y, ...) {
+  integer64_ptype2(x, y, ...)
+}
 
 #' @method vec_ptype2.integer64 logical
 #' @export
-vec_ptype2.integer64.logical <- function(x, y, ...) bit64::integer64()
+vec_ptype2.integer64.logical <- function(x, y, ...) {
+  integer64_ptype2(x, y, ...)
+}
 #' @method vec_ptype2.logical integer64
 #' @export
-vec_ptype2.logical.integer64 <- function(x, y, ...) bit64::integer64()
+vec_ptype2.logical.integer64 <- function(x, y, ...) {
+  integer64_ptype2(x, y, ...)
+}
 
 
 # Cast --------------------------------------------------------------------
@@ -77,13 +87,13 @@ vec_cast.integer64 <- function(x, to, ...) {
 #' @export
 #' @method vec_cast.integer64 integer64
 vec_cast.integer64.integer64 <- function(x, to, ...) {
-  x
+  shape_broadcast(x, to, ...)
 }
 
 #' @export
 #' @method vec_cast.integer64 integer
 vec_cast.integer64.integer <- function(x, to, ...) {
-  bit64::as.integer64(x)
+  integer64_shape(bit64::as.integer64(x), x, to, ...)
 }
 
 #' @export
@@ -96,6 +106,14 @@ vec_cast.integer.integer64 <- function(x,
                                        call = caller_env()) {
   out <- suppressWarnings(as.integer(x))
   lossy <- is.na(out) & !is.na(x)
+  out <- integer64_shape(
+    out,
+    x,
+    to,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
   maybe_lossy_cast(
     out,
     x,
@@ -110,13 +128,13 @@ vec_cast.integer.integer64 <- function(x,
 #' @export
 #' @method vec_cast.integer64 logical
 vec_cast.integer64.logical <- function(x, to, ...) {
-  bit64::as.integer64(x)
+  integer64_shape(bit64::as.integer64(x), x, to, ...)
 }
 
 #' @export
 #' @method vec_cast.logical integer64
 vec_cast.logical.integer64 <- function(x, to, ...) {
-  as.logical(x)
+  integer64_shape(as.logical(x), x, to, ...)
 }
 
 #' @export
@@ -129,6 +147,14 @@ vec_cast.integer64.double <- function(x,
                                       call = caller_env()) {
   out <- suppressWarnings(bit64::as.integer64(x))
   lossy <- !is.na(x) & (is.na(out) | x != trunc(x))
+  out <- integer64_shape(
+    out,
+    x,
+    to,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
   maybe_lossy_cast(
     out,
     x,
@@ -151,6 +177,14 @@ vec_cast.double.integer64 <- function(x,
   out <- suppressWarnings(as.double(x))
   back <- suppressWarnings(bit64::as.integer64(out))
   lossy <- !is.na(x) & (is.na(back) | back != x)
+  out <- integer64_shape(
+    out,
+    x,
+    to,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
   maybe_lossy_cast(
     out,
     x,
@@ -164,6 +198,18 @@ vec_cast.double.integer64 <- function(x,
 
 # ------------------------------------------------------------------------------
 
+integer64_ptype2 <- function(x, y, ..., x_arg = "", y_arg = "") {
+  vec_shaped_ptype(bit64::integer64(), x, y, x_arg = x_arg, y_arg = y_arg)
+}
+
+# The conversion functions of bit64 and base R drop the dimensions of `x`
+integer64_shape <- function(out, x, to, ...) {
+  if (has_dim(x)) {
+    dim(out) <- dim(x)
+  }
+  shape_broadcast(out, to, ...)
+}
+
 integer64_proxy <- function(x) {
   .Call(vctrs_integer64_proxy, x)
 }
diff --git a/R/type-list-of.R b/R/type-list-of.R
index 72db01c..a14e166 100644
--- a/R/type-list-of.R
+++ b/R/type-list-of.R
@@ -194,12 +194,12 @@ vec_ptype2.vctrs_list_of.vctrs_list_of <- function(x, y, ..., x_arg = "", y_arg
 }
 
 #' @export
-vec_ptype2.list.vctrs_list_of <- function(x, y, ...) {
-  list()
+vec_ptype2.list.vctrs_list_of <- function(x, y, ..., x_arg = "", y_arg = "") {
+  vec_shaped_ptype(list(), x, y, x_arg = x_arg, y_arg = y_arg)
 }
 #' @export
-vec_ptype2.vctrs_list_of.list <- function(x, y, ...) {
-  list()
+vec_ptype2.vctrs_list_of.list <- function(x, y, ..., x_arg = "", y_arg = "") {
+  vec_shaped_ptype(list(), x, y, x_arg = x_arg, y_arg = y_arg)
 }
 
 #' @rdname list_of
@@ -229,10 +229,11 @@ vec_cast.vctrs_list_of.vctrs_list_of <- function(x, to, ..., call = caller_env()
 
 #' @export
 vec_cast.list.vctrs_list_of <-function(x, to, ...) {
- list_of_unstructure(x)
+  shape_broadcast(list_of_unstructure(x), to, ...)
 }
 #' @export
 vec_cast.vctrs_list_of.list <-function(x, to, ..., call = caller_env()) {
+  x <- shape_broadcast(x, to, ..., call = call)
   list_as_list_of(
     x,
     attr(to, "ptype"),
-- 
2.43.0


From 345fb18e917fd316421fcc82f44e8d863921e819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:45 +0000
Subject: [PATCH 19/34] fix: vec_locate_matches() missed incomplete needles
 once the haystack was exhausted

With an `==` condition, the recursion stopped as soon as no haystack values
were left on one side, so needles with missing values on that side were
reported as unmatched rather than incomplete.
---
 src/match.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/match.c b/src/match.c
index 61faff2..b2f4784 100644
--- a/src/match.c
+++ b/src/match.c
@@ -919,12 +919,19 @@ void df_locate_matches_recurse(r_ssize col,
 
   switch (op) {
   case VCTRS_OPS_eq: {
+    // If we are tracking incomplete needles, then we have to visit all of them
+    // even if there is nothing left to match against in the haystack
+    const bool track_incomplete =
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_value ||
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_drop ||
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_error;
+
     do_lhs =
       (loc_lower_duplicate_o_needles > loc_lower_bound_o_needles) &&
-      (loc_lower_match_o_haystack > loc_lower_bound_o_haystack);
+      (track_incomplete || loc_lower_match_o_haystack > loc_lower_bound_o_haystack);
     do_rhs =
       (loc_upper_duplicate_o_needles < loc_upper_bound_o_needles) &&
-      (loc_upper_match_o_haystack < loc_upper_bound_o_haystack);
+      (track_incomplete || loc_upper_match_o_haystack < loc_upper_bound_o_haystack);
 
     // Limit bounds of both needle and haystack using existing info
     if (do_lhs) {
-- 
2.43.0


From ddcf50f03887d6dc505172f1768e0f1315218a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:09 +0000
Subject: [PATCH 20/34] fix: vec_locate_matches() filtered matches before
 checking all columns

Each column's `filter` was applied to the rows that matched on the columns so
far, so a row selected by the filter could fail the conditions of the remaining
columns, and the needle was reported as unmatched although other rows match it.
---
 src/decl/match-decl.h |   7 +++
 src/match.c           | 125 +++++++++++++++++++++++-------------------
 2 files changed, 75 insertions(+), 57 deletions(-)

diff --git a/src/decl/match-decl.h b/src/decl/match-decl.h
index 51d8979..a25b7bf 100644
--- a/src/decl/match-decl.h
+++ b/src/decl/match-decl.h
@@ -66,6 +66,13 @@ void df_locate_matches_recurse(r_ssize col,
                                struct r_dyn_array* p_loc_needles,
                                int* v_loc_filter_match_o_haystack);
 
+static inline
+void filter_match_bounds(enum vctrs_filter filter,
+                         const int* v_haystack,
+                         const int* v_o_haystack,
+                         r_ssize* p_loc_lower_match_o_haystack,
+                         r_ssize* p_loc_upper_match_o_haystack);
+
 static
 void df_locate_matches_with_containers(int n_containers,
                                        const int* v_container_ids,
diff --git a/src/match.c b/src/match.c
index b2f4784..3505450 100644
--- a/src/match.c
+++ b/src/match.c
@@ -506,7 +506,6 @@ void df_locate_matches_recurse(r_ssize col,
                                struct r_dyn_array* p_loc_needles,
                                int* v_loc_filter_match_o_haystack) {
   const enum vctrs_ops op = v_ops[col];
-  const enum vctrs_filter filter = v_filters[col];
   const r_ssize n_col = p_needles->n_col;
 
   const int* v_needles = (const int*) p_needles->v_col_ptr[col];
@@ -697,62 +696,6 @@ void df_locate_matches_recurse(r_ssize col,
   if (loc_lower_match_o_haystack <= loc_upper_match_o_haystack) {
     // Hit!
 
-    switch (filter) {
-    case VCTRS_FILTER_max: {
-      if (!needle_is_complete || op == VCTRS_OPS_eq) {
-        // Lower match value will already equal upper match value
-        break;
-      }
-
-      // We want the max values of this group. That's the upper match of the
-      // haystack and its corresponding lower duplicate.
-      const int loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
-      const int loc_upper_match_haystack = v_o_haystack[loc_upper_match_o_haystack] - 1;
-      const int val_lower_match_haystack = v_haystack[loc_lower_match_haystack];
-      const int val_upper_match_haystack = v_haystack[loc_upper_match_haystack];
-
-      if (val_lower_match_haystack != val_upper_match_haystack) {
-        loc_lower_match_o_haystack = int_locate_lower_duplicate(
-          val_upper_match_haystack,
-          v_haystack,
-          v_o_haystack,
-          loc_lower_match_o_haystack,
-          loc_upper_match_o_haystack
-        );
-      }
-
-      break;
-    }
-    case VCTRS_FILTER_min: {
-      if (!needle_is_complete || op == VCTRS_OPS_eq) {
-        // Lower match value will already equal upper match value
-        break;
-      }
-
-      // We want the min values of this group. That's the lower match of the
-      // haystack and its corresponding upper duplicate.
-      const int loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
-      const int loc_upper_match_haystack = v_o_haystack[loc_upper_match_o_haystack] - 1;
-      const int val_lower_match_haystack = v_haystack[loc_lower_match_haystack];
-      const int val_upper_match_haystack = v_haystack[loc_upper_match_haystack];
-
-      if (val_lower_match_haystack != val_upper_match_haystack) {
-        loc_upper_match_o_haystack = int_locate_upper_duplicate(
-          val_lower_match_haystack,
-          v_haystack,
-          v_o_haystack,
-          loc_lower_match_o_haystack,
-          loc_upper_match_o_haystack
-        );
-      }
-
-      break;
-    }
-    case VCTRS_FILTER_none: {
-      break;
-    }
-    }
-
     if (col < n_col - 1) {
       // For this column, we've bounded the needles locations to the upper/lower
       // duplicates of the current needle, and the haystack locations to the
@@ -784,6 +727,21 @@ void df_locate_matches_recurse(r_ssize col,
       // We just finished locating matches for the last column,
       // and we still have at least 1 hit, so record it
 
+      if (any_filters) {
+        // Filters apply to the rows that satisfy the conditions of all columns,
+        // so we can only use them now. Within a nesting container, every column
+        // of the matched rows is in increasing order.
+        for (r_ssize i = 0; i < n_col; ++i) {
+          filter_match_bounds(
+            v_filters[i],
+            (const int*) p_haystack->v_col_ptr[i],
+            v_o_haystack,
+            &loc_lower_match_o_haystack,
+            &loc_upper_match_o_haystack
+          );
+        }
+      }
+
       for (r_ssize i = loc_lower_duplicate_o_needles; i <= loc_upper_duplicate_o_needles; ++i) {
         const int loc_needles = v_o_needles[i] - 1;
         const int loc_first_match_o_haystack = r_dyn_int_get(p_loc_first_match_o_haystack, loc_needles);
@@ -1014,6 +972,59 @@ void df_locate_matches_recurse(r_ssize col,
   }
 }
 
+// Restrict a range of matches in increasing order to its minimum or maximum
+// values
+static inline
+void filter_match_bounds(enum vctrs_filter filter,
+                         const int* v_haystack,
+                         const int* v_o_haystack,
+                         r_ssize* p_loc_lower_match_o_haystack,
+                         r_ssize* p_loc_upper_match_o_haystack) {
+  if (filter == VCTRS_FILTER_none) {
+    return;
+  }
+
+  const r_ssize loc_lower_match_o_haystack = *p_loc_lower_match_o_haystack;
+  const r_ssize loc_upper_match_o_haystack = *p_loc_upper_match_o_haystack;
+
+  const int val_lower_match_haystack = v_haystack[v_o_haystack[loc_lower_match_o_haystack] - 1];
+  const int val_upper_match_haystack = v_haystack[v_o_haystack[loc_upper_match_o_haystack] - 1];
+
+  if (val_lower_match_haystack == val_upper_match_haystack) {
+    return;
+  }
+
+  switch (filter) {
+  case VCTRS_FILTER_max: {
+    // We want the max values of this group. That's the upper match of the
+    // haystack and its corresponding lower duplicate.
+    *p_loc_lower_match_o_haystack = int_locate_lower_duplicate(
+      val_upper_match_haystack,
+      v_haystack,
+      v_o_haystack,
+      loc_lower_match_o_haystack,
+      loc_upper_match_o_haystack
+    );
+    break;
+  }
+  case VCTRS_FILTER_min: {
+    // We want the min values of this group. That's the lower match of the
+    // haystack and its corresponding upper duplicate.
+    *p_loc_upper_match_o_haystack = int_locate_upper_duplicate(
+      val_lower_match_haystack,
+      v_haystack,
+      v_o_haystack,
+      loc_lower_match_o_haystack,
+      loc_upper_match_o_haystack
+    );
+    break;
+  }
+  case VCTRS_FILTER_none: {
+    break;
+  }
+  }
+}
+
 // -----------------------------------------------------------------------------
 
 static
-- 
2.43.0


From 2f31353cb71c99173106a8ac3106082e535b6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:59 +0000
Subject: [PATCH 21/34] fix: vec_rbind() assigns empty row names to an unnamed
 input of several rows

With named inputs assigned as row names, an input with an empty outer name and
no row names failed with an internal error unless it had exactly one row.
---
 src/bind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bind.c b/src/bind.c
index e13cb4b..57787b9 100644
--- a/src/bind.c
+++ b/src/bind.c
@@ -219,7 +219,7 @@ r_obj* vec_rbind(r_obj* xs,
 
         // If there is no name to assign, skip the assignment since
         // `out_names` already contains empty strings
-        if (inner != chrs_empty) {
+        if (x_nms != chrs_empty) {
           row_names = chr_assign(row_names, loc, x_nms, VCTRS_OWNED_true);
           KEEP_AT(row_names, rownames_pi);
         }
-- 
2.43.0


From 8d2a3a665a5eaa9c3a6954a060b7f8a1743399a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:59 +0000
Subject: [PATCH 22/34] fix: only .. followed by digits is a reserved name

Unique repair took any name that starts with .. and a number (..1abc, ..-1) for
a reserved one and renamed it, and neither unique repair nor checking found that
..0 and ..01 are reserved.
---
 R/names.R   |  2 +-
 src/names.c | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/R/names.R b/R/names.R
index 6a5755f..6f33b25 100644
--- a/R/names.R
+++ b/R/names.R
@@ -207,7 +207,7 @@ detect_empty_names <- function(names) {
   which(names == "")
 }
 detect_dot_dot <- function(names) {
-  grep("^[.][.](?:[.]|[1-9][0-9]*)$", names)
+  grep("^[.][.](?:[.]|[0-9]+)$", names)
 }
 
 #' Get or set the names of a vector
diff --git a/src/names.c b/src/names.c
index 5f08908..383f48a 100644
--- a/src/names.c
+++ b/src/names.c
@@ -370,7 +370,16 @@ bool is_dotdotint(const char* name) {
     name += 2;
   }
 
-  return (bool) strtol(name, NULL, 10);
+  if (*name == '\0') {
+    return false;
+  }
+  for (; *name != '\0'; ++name) {
+    if (*name < '0' || *name > '9') {
+      return false;
+    }
+  }
+
+  return true;
 }
 
 static
-- 
2.43.0


From 9e0362933baed31bd043a6064e41cc984c1a4f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:04 +0000
Subject: [PATCH 23/34] fix: universal names are unique

Making names syntactic can create a position suffix ('1' becomes '...1') that
was the same as the suffix of another name.
---
 R/names.R | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/R/names.R b/R/names.R
index 6f33b25..5681fb5 100644
--- a/R/names.R
+++ b/R/names.R
@@ -325,6 +325,13 @@ as_universal_names <- function(names, quiet = FALSE) {
   needs_suffix <- empty | vec_duplicate_detect(new_names)
   new_names <- append_pos(new_names, needs_suffix = needs_suffix)
 
+  if (anyDuplicated(new_names)) {
+    # Making names syntactic might create a position suffix (`"1"` becomes
+    # `"...1"`) that clashes with the suffix of another name. In that case
+    # all suffixes are reconstructed.
+    new_names <- as_universal_names(new_names, quiet = TRUE)
+  }
+
   if (!quiet) {
     describe_repair(names, new_names)
   }
-- 
2.43.0


From 5636f0f3bfc82ce043a99621ffc209d372807267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 24/34] fix: unique repair checks what remains of a name after
 stripping suffixes

...1...2 was repaired to ...1, and ......1 to ..., which are reserved and could
duplicate the suffixes of other names.
---
 src/names.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/names.c b/src/names.c
index 383f48a..50dca01 100644
--- a/src/names.c
+++ b/src/names.c
@@ -297,6 +297,12 @@ r_obj* as_unique_names_impl(r_obj* names, bool quiet) {
     int pos = suffix_pos(nm);
     if (pos >= 0) {
       elt = Rf_mkCharLenCE(nm, pos, Rf_getCharCE(elt));
+
+      // What remains might be a reserved name itself, e.g. `...1...2`
+      if (needs_suffix(elt)) {
+        elt = strings_empty;
+      }
+
       r_chr_poke(new_names, i, elt);
       continue;
     }
-- 
2.43.0


From 1e2baee8374ea118fd4381780b58af3a469f6498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:19 +0000
Subject: [PATCH 25/34] fix: universal repair does not return the reserved name
 ...

Replacing the invalid characters of names like ..- created it.
---
 R/names.R | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/R/names.R b/R/names.R
index 5681fb5..710af37 100644
--- a/R/names.R
+++ b/R/names.R
@@ -322,6 +322,10 @@ as_universal_names <- function(names, quiet = FALSE) {
 
   new_names[!empty] <- make_syntactic(naked_names[!empty])
 
+  # Replacing invalid characters might create a reserved name (`"..-"`)
+  empty <- empty | new_names == "..."
+  new_names[empty] <- ""
+
   needs_suffix <- empty | vec_duplicate_detect(new_names)
   new_names <- append_pos(new_names, needs_suffix = needs_suffix)
 
-- 
2.43.0


From e78534f7b9c702fe6d315068321eb46939861b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:21 +0000
Subject: [PATCH 26/34] fix: allow missing durations in arithmetic with dates

---
 R/type-date-time.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index bfbf62b..bb2d296 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -591,7 +591,7 @@ chr_date_as_posixct <- function(x, tzone) {
 
 lossy_floor <- function(x, to, x_arg = "", to_arg = "") {
   x_floor <- floor(x)
-  lossy <- x != x_floor
+  lossy <- !is.na(x) & x != x_floor
   maybe_lossy_cast(x_floor, x, to, lossy, x_arg = x_arg, to_arg = to_arg)
 }
 
-- 
2.43.0


From 1e968945aea7554e0e9b30b3561d36e45ff1a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:34 +0000
Subject: [PATCH 27/34] fix: recycle dates and date-times before subtracting
 them

---
 R/type-date-time.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index bb2d296..c67fa01 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -372,7 +372,7 @@ vec_arith.difftime.default <- function(op, x, y, ...) stop_incompatible_op(op, x
 #' @export
 vec_arith.Date.Date <- function(op, x, y, ...) {
   switch(op,
-    `-` = difftime(x, y, units = "days"),
+    `-` = exec(difftime, !!!vec_recycle_common(time1 = x, time2 = y), units = "days"),
     stop_incompatible_op(op, x, y)
   )
 }
@@ -380,7 +380,7 @@ vec_arith.Date.Date <- function(op, x, y, ...) {
 #' @export
 vec_arith.POSIXct.POSIXct <- function(op, x, y, ...) {
   switch(op,
-    `-` = difftime(x, y, units = "secs"),
+    `-` = exec(difftime, !!!vec_recycle_common(time1 = x, time2 = y), units = "secs"),
     stop_incompatible_op(op, x, y)
   )
 }
-- 
2.43.0


From 93ce6351ab091308235a346cc3263def721b406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:34 +0000
Subject: [PATCH 28/34] fix: logical operators are not defined for durations

---
 R/type-date-time.R | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index c67fa01..3e1dc6d 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -524,13 +524,19 @@ vec_arith.difftime.MISSING <- function(op, x, y, ...) {
 #' @method vec_arith.difftime numeric
 #' @export
 vec_arith.difftime.numeric <- function(op, x, y, ...) {
-  vec_restore(vec_arith_base(op, x, y), x)
+  switch(op,
+    `&` = ,
+    `|` = stop_incompatible_op(op, x, y),
+    vec_restore(vec_arith_base(op, x, y), x)
+  )
 }
 #' @method vec_arith.numeric difftime
 #' @export
 vec_arith.numeric.difftime <- function(op, x, y, ...) {
   switch(op,
-    `/` = stop_incompatible_op(op, x, y),
+    `/` = ,
+    `&` = ,
+    `|` = stop_incompatible_op(op, x, y),
     vec_restore(vec_arith_base(op, x, y), y)
   )
 }
-- 
2.43.0


From ac6faf59f0e26fbc3c40e90c894b9709982b0ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:21 +0000
Subject: [PATCH 29/34] fix: find the names column of vec_rbind() in any
 encoding

---
 src/bind.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bind.c b/src/bind.c
index 57787b9..c3f73ab 100644
--- a/src/bind.c
+++ b/src/bind.c
@@ -100,9 +100,12 @@ r_obj* vec_rbind(r_obj* xs,
                         r_c_str_format_error_arg(".names_to"));
     }
 
-    r_obj* ptype_nms = KEEP(r_names(ptype));
-    names_to_loc = r_chr_find(ptype_nms, names_to);
-    FREE(1);
+    // `r_chr_find()` compares strings by pointer
+    r_obj* ptype_nms = KEEP(vec_normalize_encoding(r_names(ptype)));
+    r_obj* names_to_chr = KEEP(r_str_as_character(names_to));
+    names_to_chr = KEEP(vec_normalize_encoding(names_to_chr));
+    names_to_loc = r_chr_find(ptype_nms, r_chr_get(names_to_chr, 0));
+    FREE(3);
 
     if (names_to_loc < 0) {
       ptype = cbind_names_to(r_names(xs) != r_null,
-- 
2.43.0


From af94a9f5011fbad70ee3306f6911abef633e6083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:34 +0000
Subject: [PATCH 30/34] fix: universal name repair requires character names

Factors and other non-character names were accepted, returning
non-character names or recursing indefinitely.
---
 R/names.R | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/R/names.R b/R/names.R
index 710af37..eb85e16 100644
--- a/R/names.R
+++ b/R/names.R
@@ -314,6 +314,10 @@ as_unique_names <- function(names, quiet = FALSE) {
   .Call(vctrs_as_unique_names, names, quiet)
 }
 as_universal_names <- function(names, quiet = FALSE) {
+  if (!is_character(names)) {
+    abort("`names` must be a character vector.")
+  }
+
   new_names <- names
   new_names[] <- ""
 
-- 
2.43.0


From 4e2d3a1b837bf85725f00e98cc91b4f0fdb05c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:21 +0000
Subject: [PATCH 31/34] fix: vec_locate_matches() errors for NULL inputs

A NULL input next to a data frame was read as if it had its columns,
which could crash.
---
 src/match.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/match.c b/src/match.c
index 3505450..734f615 100644
--- a/src/match.c
+++ b/src/match.c
@@ -155,6 +155,10 @@ r_obj* vec_locate_matches(r_obj* needles,
     &_
   ), &n_prot);
 
+  // `NULL` has a common type with everything, but isn't a vector
+  obj_check_vector(needles, needles_arg, error_call);
+  obj_check_vector(haystack, haystack_arg, error_call);
+
   needles = KEEP_N(vec_cast_params(
     needles,
     ptype,
-- 
2.43.0


From 3d3437c04dd400e525cc756a89845159ba7ac38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:34 +0000
Subject: [PATCH 32/34] fix: casting a factor to another set of levels keeps
 its names

Names were kept or dropped depending on whether the two factors
shared their levels in memory.
---
 src/type-factor.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/type-factor.c b/src/type-factor.c
index 18a23ba..d979c68 100644
--- a/src/type-factor.c
+++ b/src/type-factor.c
@@ -313,6 +313,7 @@ static SEXP fct_as_factor_impl(SEXP x, SEXP x_levels, SEXP to_levels, bool* loss
   // Duplicate, strip non-factor attributes, and re-initialize with new levels.
   // Using `r_clone_referenced()` avoids an immediate copy using ALTREP wrappers.
   if (is_contiguous_subset) {
+    SEXP names = PROTECT(Rf_getAttrib(x, R_NamesSymbol));
     SEXP out = PROTECT(r_clone_referenced(x));
     SET_ATTRIB(out, R_NilValue);
 
@@ -322,7 +323,9 @@ static SEXP fct_as_factor_impl(SEXP x, SEXP x_levels, SEXP to_levels, bool* loss
       init_factor(out, to_levels);
     }
 
-    UNPROTECT(1);
+    Rf_setAttrib(out, R_NamesSymbol, names);
+
+    UNPROTECT(2);
     return out;
   }
 
@@ -361,7 +364,10 @@ static SEXP fct_as_factor_impl(SEXP x, SEXP x_levels, SEXP to_levels, bool* loss
     p_out[i] = p_recode[elt - 1];
   }
 
-  UNPROTECT(2);
+  SEXP names = PROTECT(Rf_getAttrib(x, R_NamesSymbol));
+  Rf_setAttrib(out, R_NamesSymbol, names);
+
+  UNPROTECT(3);
   return out;
 }
 
-- 
2.43.0


From 5168f74f0e3f286f85af40bbd362da1571bac6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:24 +0000
Subject: [PATCH 33/34] fix: lazy character vectors may be backed by other
 ALTREP vectors

---
 src/altrep-lazy-character.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/altrep-lazy-character.c b/src/altrep-lazy-character.c
index 7dc5efa..a8dc2b3 100644
--- a/src/altrep-lazy-character.c
+++ b/src/altrep-lazy-character.c
@@ -58,7 +58,8 @@ r_obj* altrep_lazy_character_Materialize(r_obj* vec) {
 }
 
 void* altrep_lazy_character_Dataptr(r_obj* vec, Rboolean writeable) {
-  return STDVEC_DATAPTR(altrep_lazy_character_Materialize(vec));
+  // `fn()` might have returned another ALTREP vector
+  return (void*) r_chr_cbegin(altrep_lazy_character_Materialize(vec));
 }
 
 const void* altrep_lazy_character_Dataptr_or_null(r_obj* vec) {
@@ -67,7 +68,7 @@ const void* altrep_lazy_character_Dataptr_or_null(r_obj* vec) {
   if (out == r_null) {
     return NULL;
   } else {
-    return STDVEC_DATAPTR(out);
+    return DATAPTR_OR_NULL(out);
   }
 }
 
-- 
2.43.0


From e79360879235d044acc74e44e4748390316b3636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:58 +0000
Subject: [PATCH 34/34] fix: c() fallback in data frame columns matches columns
 by name and respects indices

vec_c() and list_unchop() plucked fallback columns by position from the
inputs, so that reordered columns were mixed up and missing columns read
out of bounds. list_unchop() also ignored indices for these columns.
---
 src/c-unchop.c    | 33 +++++++++++++++++++++++++++++++--
 src/c.c           | 11 +++++++++--
 src/c.h           |  1 +
 src/decl/c-decl.h |  2 --
 4 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/c-unchop.c b/src/c-unchop.c
index 9e9646b..6b5812d 100644
--- a/src/c-unchop.c
+++ b/src/c-unchop.c
@@ -75,6 +75,21 @@ r_obj* list_unchop(r_obj* xs,
     return r_null;
   }
 
+  if (is_data_frame(ptype) && df_needs_fallback(ptype)) {
+    r_obj* out = list_unchop_fallback(
+      ptype,
+      xs,
+      indices,
+      name_spec,
+      name_repair,
+      FALLBACK_HOMOGENEOUS_false,
+      p_error_arg,
+      error_call
+    );
+    FREE(1);
+    return out;
+  }
+
   bool assign_names = !r_inherits(name_spec, "rlang_zap");
   r_obj* xs_names = KEEP(r_names(xs));
   bool xs_is_named = xs_names != r_null && !is_data_frame(ptype);
@@ -238,6 +253,8 @@ r_obj* list_unchop_fallback(r_obj* ptype,
   r_obj* xs_names = r_names(xs);
   xs = KEEP(r_clone_referenced(xs));
 
+  const bool df_fallback = !homogeneous && !vec_is_common_class_fallback(ptype);
+
   r_ssize out_size = 0;
 
   r_ssize i = 0;
@@ -257,7 +274,12 @@ r_obj* list_unchop_fallback(r_obj* ptype,
     r_ssize index_size = r_length(r_list_get(indices, i));
     out_size += index_size;
 
-    r_list_poke(xs, i, vec_recycle_fallback(x, index_size, p_x_arg, error_call));
+    if (df_fallback) {
+      x = vec_check_recycle(x, index_size, p_x_arg, error_call);
+    } else {
+      x = vec_recycle_fallback(x, index_size, p_x_arg, error_call);
+    }
+    r_list_poke(xs, i, x);
   }
 
   indices = KEEP(list_as_locations(indices, out_size, r_null));
@@ -274,6 +296,9 @@ r_obj* list_unchop_fallback(r_obj* ptype,
   r_obj* out = r_null;
   if (homogeneous) {
     out = KEEP(vec_c_fallback_invoke(xs, name_spec, error_call));
+  } else if (df_fallback) {
+    // `vec_c()` falls back to `c()` for individual columns
+    out = KEEP(vec_c(xs, r_null, name_spec, name_repair, p_error_arg, error_call));
   } else {
     out = KEEP(vec_c_fallback(ptype, xs, name_spec, name_repair, p_error_arg, error_call));
   }
@@ -314,7 +339,11 @@ r_obj* list_unchop_fallback(r_obj* ptype,
     p_locations[index - 1] = i + 1;
   }
 
-  out = KEEP(vec_slice_fallback(out, locations));
+  if (df_fallback) {
+    out = KEEP(vec_slice_unsafe(out, locations));
+  } else {
+    out = KEEP(vec_slice_fallback(out, locations));
+  }
 
   FREE(8);
   return out;
diff --git a/src/c.c b/src/c.c
index 8d20628..2b4535d 100644
--- a/src/c.c
+++ b/src/c.c
@@ -150,7 +150,15 @@ r_obj* vec_c_opts(r_obj* xs,
   }
 
   if (is_data_frame(out) && fallback_opts->s3) {
-    df_c_fallback(out, ptype, xs, out_size, name_spec, name_repair, error_call);
+    // The fallback plucks columns by position
+    r_obj* fallback_xs = xs;
+    if (is_data_frame(ptype) && df_needs_fallback(ptype)) {
+      fallback_xs = vec_cast_common_params(xs, ptype, S3_FALLBACK_true, p_error_arg, error_call);
+    }
+    KEEP(fallback_xs);
+
+    df_c_fallback(out, ptype, fallback_xs, out_size, name_spec, name_repair, error_call);
+    FREE(1);
   }
   out = KEEP(vec_restore_recurse(out, ptype, VCTRS_OWNED_true));
 
@@ -425,7 +433,6 @@ void df_c_fallback(r_obj* out,
   FREE(n_prot);
 }
 
-static
 bool df_needs_fallback(r_obj* x) {
   r_ssize n_cols = r_length(x);
   r_obj* const * v_x = r_list_cbegin(x);
diff --git a/src/c.h b/src/c.h
index 91aecdb..1cf427b 100644
--- a/src/c.h
+++ b/src/c.h
@@ -34,6 +34,7 @@ r_obj* vec_c_fallback(r_obj* ptype,
 bool needs_vec_c_fallback(r_obj* ptype);
 bool needs_vec_c_homogeneous_fallback(r_obj* xs, r_obj* ptype);
 
+bool df_needs_fallback(r_obj* x);
 void df_c_fallback(r_obj* out,
                    r_obj* ptype,
                    r_obj* xs,
diff --git a/src/decl/c-decl.h b/src/decl/c-decl.h
index 0cde5aa..ba3b789 100644
--- a/src/decl/c-decl.h
+++ b/src/decl/c-decl.h
@@ -7,5 +7,3 @@ int vec_c_fallback_validate_args(r_obj* x, r_obj* name_spec);
 static
 void stop_vec_c_fallback(r_obj* xs, int err_type, struct r_lazy call);
 
-static
-bool df_needs_fallback(r_obj* x);
-- 
2.43.0

