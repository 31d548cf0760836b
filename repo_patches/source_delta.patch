From 38eeb8309ff3ff545134f00690535dc55c3891b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:04 +0000
Subject: [PATCH 01/91] fix: ieee backend ignored the relation in unordered
 comparison predicates

FCMP_UEQ, UGT, UGE, ULT, ULE and UNE are true when the operands are unordered
*or* in the named relation; only the former was tested.
---
 src/backends/interflop-backend-ieee/interflop_ieee.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/backends/interflop-backend-ieee/interflop_ieee.c b/src/backends/interflop-backend-ieee/interflop_ieee.c
index 2a6b357..75a09f0 100644
--- a/src/backends/interflop-backend-ieee/interflop_ieee.c
+++ b/src/backends/interflop-backend-ieee/interflop_ieee.c
@@ -246,27 +246,27 @@ static inline void debug_print_fma_double(void *context,
     (STR) = "FCMP_ORD";                                                        \
     break;                                                                     \
   case FCMP_UEQ:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = isunordered(A, B) || ((A) == (B));                                  \
     (STR) = "FCMP_UEQ";                                                        \
     break;                                                                     \
   case FCMP_UGT:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = isunordered(A, B) || isgreater(A, B);                               \
     (STR) = "FCMP_UGT";                                                        \
     break;                                                                     \
   case FCMP_UGE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = isunordered(A, B) || isgreaterequal(A, B);                          \
     (STR) = "FCMP_UGE";                                                        \
     break;                                                                     \
   case FCMP_ULT:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = isunordered(A, B) || isless(A, B);                                  \
     (STR) = "FCMP_ULT";                                                        \
     break;                                                                     \
   case FCMP_ULE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = isunordered(A, B) || islessequal(A, B);                             \
     (STR) = "FCMP_ULE";                                                        \
     break;                                                                     \
   case FCMP_UNE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = isunordered(A, B) || islessgreater(A, B);                           \
     (STR) = "FCMP_UNE";                                                        \
     break;                                                                     \
   case FCMP_UNO:                                                               \
-- 
2.43.0


From 386438c6b3fedb645e2cbd3a54987c5b7c2aade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:04 +0000
Subject: [PATCH 02/91] fix: mca turned a null random draw into garbage noise

A draw of exactly 0.5 gives a null noise, whose exponent field cannot be
shifted: the result was a huge or a NaN 'noise'.
---
 src/backends/interflop-backend-mcaquad/interflop_mca.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index b48f3e9..fd28f0f 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -274,6 +274,10 @@ static const char *_get_error_mode_str(mcaquad_context_t *ctx) {
 double _noise_binary64(int exp, rng_state_t *rng_state);
 inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
   const double d_rand = get_rand_double01(rng_state, &mcaquad_global_tid) - 0.5;
+  /* zero has no exponent to scale */
+  if (d_rand == 0) {
+    return 0;
+  }
   binary64 b64 = {.f64 = d_rand};
   b64.ieee.exponent = b64.ieee.exponent + exp;
   return b64.f64;
@@ -289,6 +293,10 @@ _Float128 _noise_binary128(const int exp, rng_state_t *rng_state) {
   /* random number in (-0.5, 0.5) */
   const _Float128 noise =
       (_Float128)get_rand_double01(rng_state, &mcaquad_global_tid) - 0.5Q;
+  /* zero has no exponent to scale */
+  if (noise == 0) {
+    return 0;
+  }
   binary128 b128 = {.f128 = noise};
   b128.ieee128.exponent = b128.ieee128.exponent + exp;
   return b128.f128;
-- 
2.43.0


From 6a215a7571851ef9b4a903ec706b27f1c80ebe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:04 +0000
Subject: [PATCH 03/91] fix: cancellation noise wrapped around on null draws
 and total cancellations

Adding to the exponent field wraps when the draw is exactly 0.5, or when the
result is zero or subnormal (1.0 - 1.0 could yield 1e+300).
---
 .../interflop-backend-cancellation/interflop_cancellation.c  | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/backends/interflop-backend-cancellation/interflop_cancellation.c b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
index aed1ac1..163b455 100644
--- a/src/backends/interflop-backend-cancellation/interflop_cancellation.c
+++ b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
@@ -111,9 +111,8 @@ void cancellation_pop_seed() { rng_state = __rng_state; }
 /* noise = rand * 2^(exp) */
 static inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
   const double d_rand = get_rand_double01(rng_state, &global_tid) - 0.5;
-  binary64 b64 = {.f64 = d_rand};
-  b64.ieee.exponent += exp;
-  return b64.f64;
+  /* scales without wrapping the exponent field, whatever exp and d_rand are */
+  return __builtin_ldexp(d_rand, exp);
 }
 
 /* cancell: detects the cancellation size; and checks if its larger than the
-- 
2.43.0


From bc178f09f5572c23d2c4241fa862f9cd27bd256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:28 +0000
Subject: [PATCH 04/91] fix: fma was rounded twice in the ieee mode of the mca
 backends

It was computed in the extended format and then rounded to the operation's
type, which is not the correctly rounded fma of the uninstrumented program.
---
 src/backends/interflop-backend-mcaint/interflop_mca_int.c | 8 +++++++-
 src/backends/interflop-backend-mcaquad/interflop_mca.c    | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index f490a2d..62169d9 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -450,7 +450,13 @@ static void _mcaint_inexact_binary128(_Float128 *qa, void *context) {
       _INEXACT_BINARYN(X, &_B, CTX);                                           \
       _INEXACT_BINARYN(X, &_C, CTX);                                           \
     }                                                                          \
-    PERFORM_TERNARY_OP(OP, _RES, _A, _B, _C);                                  \
+    if (TMP_CTX->mode == mcaint_mode_ieee) {                                   \
+      /* nothing is perturbed: rounds only once, in the type of A */           \
+      PERFORM_TERNARY_OP(OP, _RES, (typeof(A))_A, (typeof(A))_B,               \
+                         (typeof(A))_C);                                       \
+    } else {                                                                   \
+      PERFORM_TERNARY_OP(OP, _RES, _A, _B, _C);                                \
+    }                                                                          \
     if (TMP_CTX->mode == mcaint_mode_rr || TMP_CTX->mode == mcaint_mode_mca) { \
       _INEXACT_BINARYN(X, &_RES, CTX);                                         \
     }                                                                          \
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index fd28f0f..9374807 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -520,7 +520,13 @@ inline void _mcaquad_inexact_binary128(_Float128 *qa, void *context) {
       _INEXACT_BINARYN(X, &_B, CTX);                                           \
       _INEXACT_BINARYN(X, &_C, CTX);                                           \
     }                                                                          \
-    PERFORM_TERNARY_OP(OP, _RES, _A, _B, _C);                                  \
+    if (TMP_CTX->mode == mcaquad_mode_ieee) {                                  \
+      /* nothing is perturbed: rounds only once, in the type of A */           \
+      PERFORM_TERNARY_OP(OP, _RES, (typeof(A))_A, (typeof(A))_B,               \
+                         (typeof(A))_C);                                       \
+    } else {                                                                   \
+      PERFORM_TERNARY_OP(OP, _RES, _A, _B, _C);                                \
+    }                                                                          \
     if (TMP_CTX->mode == mcaquad_mode_rr ||                                    \
         TMP_CTX->mode == mcaquad_mode_mca) {                                   \
       _INEXACT_BINARYN(X, &_RES, CTX);                                         \
-- 
2.43.0


From 5d441912c94c64d3efae07c5ef02599870d813c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:02 +0000
Subject: [PATCH 05/91] fix: --ftz did not flush subnormal results of casts to
 float

Only results subnormal in binary64 were flushed.
---
 src/backends/interflop-backend-bitmask/interflop_bitmask.c | 3 ++-
 src/backends/interflop-backend-mcaint/interflop_mca_int.c  | 3 ++-
 src/backends/interflop-backend-mcaquad/interflop_mca.c     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.c b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
index 28d1160..b5cebec 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.c
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
@@ -514,7 +514,8 @@ void INTERFLOP_BITMASK_API(fma_double)(double a, double b, double c,
 
 void INTERFLOP_BITMASK_API(cast_double_to_float)(double a, float *res,
                                                  void *context) {
-  *res = (float)_bitmask_binary64_unary_op(a, bitmask_cast, context);
+  const float r = (float)_bitmask_binary64_unary_op(a, bitmask_cast, context);
+  *res = ((bitmask_context_t *)context)->ftz ? (FTZ(r)) : r;
 }
 
 const char *INTERFLOP_BITMASK_API(get_backend_name)(void) {
diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index 62169d9..9ed65d5 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -578,7 +578,8 @@ void INTERFLOP_MCAINT_API(fma_double)(double a, double b, double c, double *res,
 
 void INTERFLOP_MCAINT_API(cast_double_to_float)(double a, float *res,
                                                 void *context) {
-  *res = (float)_mcaint_binary64_unary_op(a, mcaint_cast, context);
+  const float r = (float)_mcaint_binary64_unary_op(a, mcaint_cast, context);
+  *res = ((mcaint_context_t *)context)->ftz ? (FTZ(r)) : r;
 }
 
 const char *INTERFLOP_MCAINT_API(get_backend_name)(void) {
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index 9374807..1ea504b 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -656,7 +656,8 @@ void INTERFLOP_MCAQUAD_API(fma_double)(double a, double b, double c,
 
 void INTERFLOP_MCAQUAD_API(cast_double_to_float)(double a, float *res,
                                                  void *context) {
-  *res = _mcaquad_binary64_unary_op(a, mcaquad_cast, context);
+  const float r = (float)_mcaquad_binary64_unary_op(a, mcaquad_cast, context);
+  *res = ((mcaquad_context_t *)context)->ftz ? (FTZ(r)) : r;
 }
 
 void _interflop_usercall_inexact(void *context, va_list ap) {
-- 
2.43.0


From f9d967d486fd25f269f24ea12f48939e32049854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:59 +0000
Subject: [PATCH 06/91] fix: cancellation noise could turn an infinity into a
 NaN

With --tolerance=0 the noise added to an infinite result can be an infinity of
the other sign.
---
 .../interflop-backend-cancellation/interflop_cancellation.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backends/interflop-backend-cancellation/interflop_cancellation.c b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
index 163b455..7f41dbb 100644
--- a/src/backends/interflop-backend-cancellation/interflop_cancellation.c
+++ b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
@@ -135,7 +135,11 @@ static inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
       const int32_t e_n = e_z - (cancellation - 1);                            \
       _init_rng_state_struct(&(RNG_STATE), TMP_CTX->choose_seed,               \
                              TMP_CTX->seed, false);                            \
-      *Z += _noise_binary64(e_n, &(RNG_STATE));                                \
+      const double noise = _noise_binary64(e_n, &(RNG_STATE));                 \
+      /* infinities and NaNs stay what they are */                             \
+      if (FPCLASSIFY(*Z) != FP_INFINITE && FPCLASSIFY(*Z) != FP_NAN) {         \
+        *Z += noise;                                                           \
+      }                                                                        \
     }                                                                          \
   }
 
-- 
2.43.0


From ea6d3105c7d522e6eacd22668c75c62f46b9097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:24 +0000
Subject: [PATCH 07/91] fix: removed hashmap items were still found, equal
 values under two keys were lost

Lookups matched the key left in a deleted slot (returning the tombstone 1),
removing twice decremented the count twice, and insertion skipped an item when
any slot on its probe path held the same value under another key.
---
 src/interflop-stdlib/hashmap/vfc_hashmap.c | 29 ++++++++++++++--------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/interflop-stdlib/hashmap/vfc_hashmap.c b/src/interflop-stdlib/hashmap/vfc_hashmap.c
index 2208c55..491954d 100644
--- a/src/interflop-stdlib/hashmap/vfc_hashmap.c
+++ b/src/interflop-stdlib/hashmap/vfc_hashmap.c
@@ -124,7 +124,7 @@ void set_key_at(ISize_t *items, ISize_t key, ISize_t i) {
 // add a member in the table
 static int hashmap_add_member(vfc_hashmap_t map, ISize_t key, void *item) {
   ISize_t value = (ISize_t)item;
-  ISize_t ii;
+  ISize_t ii, free_slot = map->capacity;
 
   if (value == 0 || value == 1) {
     return -1;
@@ -132,14 +132,21 @@ static int hashmap_add_member(vfc_hashmap_t map, ISize_t key, void *item) {
 
   ii = map->mask & (hashmap_prime_1 * key);
 
-  while (get_value_at(map->items, ii) != 0 &&
-         get_value_at(map->items, ii) != 1) {
-    if (get_value_at(map->items, ii) == value) {
+  while (get_value_at(map->items, ii) != 0) {
+    if (get_value_at(map->items, ii) == 1) {
+      /* deleted item, its slot can be reused if the pair is not found */
+      if (free_slot == map->capacity) {
+        free_slot = ii;
+      }
+    } else if (get_value_at(map->items, ii) == value &&
+               get_key_at(map->items, ii) == key) {
       return 0;
-    } else {
-      /* search free slot */
-      ii = map->mask & (ii + hashmap_prime_2);
     }
+    /* search free slot */
+    ii = map->mask & (ii + hashmap_prime_2);
+  }
+  if (free_slot != map->capacity) {
+    ii = free_slot;
   }
   map->nitems++;
   if (get_value_at(map->items, ii) == 1) {
@@ -186,7 +193,7 @@ void vfc_hashmap_remove(vfc_hashmap_t map, ISize_t key) {
   ISize_t ii = map->mask & (hashmap_prime_1 * key);
 
   while (get_value_at(map->items, ii) != 0) {
-    if (get_key_at(map->items, ii) == key) {
+    if (get_key_at(map->items, ii) == key && get_value_at(map->items, ii) != 1) {
       set_value_at(map->items, 1, ii);
       map->nitems--;
       map->n_deleted_items++;
@@ -202,7 +209,7 @@ char vfc_hashmap_have(vfc_hashmap_t map, ISize_t key) {
   ISize_t ii = map->mask & (hashmap_prime_1 * key);
 
   while (get_value_at(map->items, ii) != 0) {
-    if (get_key_at(map->items, ii) == key) {
+    if (get_key_at(map->items, ii) == key && get_value_at(map->items, ii) != 1) {
       return 1;
     } else {
       ii = map->mask & (ii + hashmap_prime_2);
@@ -216,7 +223,7 @@ void *vfc_hashmap_get(vfc_hashmap_t map, ISize_t key) {
   ISize_t ii = map->mask & (hashmap_prime_1 * key);
 
   while (get_value_at(map->items, ii) != 0) {
-    if (get_key_at(map->items, ii) == key) {
+    if (get_key_at(map->items, ii) == key && get_value_at(map->items, ii) != 1) {
       return (void *)get_value_at(map->items, ii);
     } else {
       ii = map->mask & (ii + hashmap_prime_2);
@@ -247,6 +254,6 @@ ISize_t vfc_hashmap_str_function(const char *id) {
 // Free the hashmap
 void vfc_hashmap_free(vfc_hashmap_t map) {
   for (ISize_t ii = 0; ii < map->capacity; ii++)
-    if (get_value_at(map->items, ii) != 0 && get_value_at(map->items, ii) != 0)
+    if (get_value_at(map->items, ii) != 0 && get_value_at(map->items, ii) != 1)
       interflop_free((void *)get_value_at(map->items, ii));
 }
\ No newline at end of file
-- 
2.43.0


From b694120e4c655c0c43f6589999b25c6c1f38ab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:24 +0000
Subject: [PATCH 08/91] fix: duplicate probes were accepted when their name's
 hash collides with another's

Only the first probe found under the hash was compared, so the CSV could hold
the same (test, variable) twice.
---
 src/common/vfc_probes.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/common/vfc_probes.c b/src/common/vfc_probes.c
index 5f066ca..29b8606 100644
--- a/src/common/vfc_probes.c
+++ b/src/common/vfc_probes.c
@@ -163,6 +163,19 @@ int vfc_probe_kernel(vfc_probes *probes, char *testName, char *varName,
   vfc_probe_node *oldProbe = (vfc_probe_node *)vfc_hashmap_get(
       probes->map, vfc_hashmap_str_function(key));
 
+  // The hash found may be that of another key: look for this one
+  if (oldProbe != NULL && strcmp(key, oldProbe->key) != 0) {
+    for (size_t i = 0; i < probes->map->capacity; i++) {
+      vfc_probe_node *probe =
+          (vfc_probe_node *)get_value_at(probes->map->items, i);
+      if (probe != NULL && probe != (vfc_probe_node *)1 &&
+          strcmp(key, probe->key) == 0) {
+        oldProbe = probe;
+        break;
+      }
+    }
+  }
+
   if (oldProbe != NULL) {
     if (strcmp(key, oldProbe->key) == 0) {
       fprintf(stderr,
-- 
2.43.0


From 6f4e0b7e0b96a81a2e8bff713fc42bf31916ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:14 +0000
Subject: [PATCH 09/91] fix: vector operations whose wrapper returns another
 type lost their result

On x86-64 a vector of two floats or ints is returned as a double: the result of
the call was then dropped (the native operation was used instead), and a
comparison of 2-lane vectors produced invalid IR.
---
 src/libvfcinstrument/libVFCInstrument.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index 0d4a1f7..0706bb4 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -450,9 +450,7 @@ struct VfclibInst : public ModulePass {
     CallInst *newInst = Builder.CreateCall(F, {op1, op2});
     newInst->setAttributes(F->getAttributes());
 
-    newInst = dyn_cast<CallInst>(updateReturn(Builder, newInst, retType));
-
-    return newInst;
+    return updateReturn(Builder, newInst, retType);
   }
 
   /* Replace fma arithmetic instructions with MCA */
@@ -472,9 +470,7 @@ struct VfclibInst : public ModulePass {
     CallInst *newInst = Builder.CreateCall(F, {op1, op2, op3});
     newInst->setAttributes(F->getAttributes());
 
-    newInst = dyn_cast<CallInst>(updateReturn(Builder, newInst, retType));
-
-    return newInst;
+    return updateReturn(Builder, newInst, retType);
   }
 
   /* Replace comparison instructions with MCA */
@@ -497,10 +493,11 @@ struct VfclibInst : public ModulePass {
       auto size = ((::llvm::FixedVectorType *)vTy)->getNumElements();
       res = GET_VECTOR_TYPE(res, size);
     }
-    Value *newInst = Builder.CreateCall(
+    CallInst *newInst = Builder.CreateCall(
         F, {Builder.getInt32(FCI->getPredicate()), op1, op2});
-    newInst = Builder.CreateIntCast(newInst, retType, true);
-    return newInst;
+    newInst->setAttributes(F->getAttributes());
+    return Builder.CreateIntCast(updateReturn(Builder, newInst, res), retType,
+                                 true);
   }
 
   /* Replace cast instruction with MCA */
-- 
2.43.0


From 70d63d14c62429a9c2e240913166d4d21fe3662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:08 +0000
Subject: [PATCH 10/91] fix: wide vector operations in a loop overflowed the
 stack

The copy of an operand passed in memory was allocated at each operation; it is
now allocated once in the entry block.
---
 src/libvfcinstrument/libVFCInstrument.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index 0706bb4..2c32c78 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -417,7 +417,10 @@ struct VfclibInst : public ModulePass {
       } else if (arg->hasByValAttr() and sigType->isPointerTy()) {
         /* If vectorial registers are not available */
         /* values are passed by pointer with attribute byval */
-        AllocaInst *alloca = Builder.CreateAlloca(opType);
+        /* allocated once per call of the function, not once per operation */
+        BasicBlock &entry = Builder.GetInsertBlock()->getParent()->getEntryBlock();
+        IRBuilder<> EntryBuilder(&entry, entry.getFirstInsertionPt());
+        AllocaInst *alloca = EntryBuilder.CreateAlloca(opType);
         Builder.CreateStore(operand, alloca);
         operand = alloca;
       }
-- 
2.43.0


From 038fc99c5ae1ab66fa3f2e69a080d2467880c056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:09 +0000
Subject: [PATCH 11/91] fix: a backend with 256 arguments wrote past its
 argument vector

---
 src/vfcwrapper/main.c.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index e703f5d..ede62c7 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -459,7 +459,7 @@ __attribute__((constructor(0))) static void vfc_init(void) {
   while (token) {
     /* Parse each backend arguments, argv[0] is the backend name */
     int backend_argc = 0;
-    char *backend_argv[MAX_ARGS];
+    char *backend_argv[MAX_ARGS + 1];
     char *spaceptr;
     char *arg = strtok_r(token, " ", &spaceptr);
     while (arg) {
-- 
2.43.0


From 328f28fdb27da827b2f84ec01988c820a142f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:09 +0000
Subject: [PATCH 12/91] fix: backends were finalized twice in a program linked
 with an instrumented library

The destructor of the wrapper runs once per instrumented object, on the shared
backend table: statistics were reported twice, and the function instrumentation
and delta-debug tables were freed twice.
---
 src/vfcwrapper/main.c.in | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index ede62c7..2e760bc 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -87,6 +87,7 @@ struct interflop_backend_interface_t backends[MAX_BACKENDS];
 void *contexts[MAX_BACKENDS] = {NULL};
 unsigned char loaded_backends = 0;
 unsigned char already_initialized = 0;
+unsigned char already_finalized = 0;
 
 /* Logger functions */
 
@@ -194,6 +195,13 @@ void ddebug_generate_inclusion(char *dd_generate_path, vfc_hashmap_t map) {
 
 __attribute__((destructor(0))) static void vfc_atexit(void) {
 
+  /* Like vfc_init, vfc_atexit may be run multiple times when a .so compiled
+   * with Verificarlo is linked to a program also compiled with Verificarlo */
+  if (already_finalized) {
+    return;
+  }
+  already_finalized = 1;
+
   /* Send finalize message to backends */
   for (int i = 0; i < loaded_backends; i++)
     if (backends[i].interflop_finalize)
-- 
2.43.0


From 464d497b357de33352d003b10256e54fb685fbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:07 +0000
Subject: [PATCH 13/91] fix: --inst-func programs linked with an --inst-func
 library crashed

Only the call stack of the object initialized first was allocated.
---
 src/vfcwrapper/funcinstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfcwrapper/funcinstr.c b/src/vfcwrapper/funcinstr.c
index 41bf805..354677d 100644
--- a/src/vfcwrapper/funcinstr.c
+++ b/src/vfcwrapper/funcinstr.c
@@ -72,8 +72,8 @@ void vfc_func_table_quit() {
 /************************************************************
  *                       Call Stack                         *
  ************************************************************/
-static interflop_function_stack_t _vfc_call_stack = {NULL,
-                                                     _VFC_CALL_STACK_MAXSIZE};
+// shared, like the backends, by the instrumented objects of the program
+interflop_function_stack_t _vfc_call_stack = {NULL, _VFC_CALL_STACK_MAXSIZE};
 
 // Initialize the call stack
 void vfc_call_stack_init() {
-- 
2.43.0


From c41b2b930ee13cecebe5afe3903b9bc2a30c7886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:47 +0000
Subject: [PATCH 14/91] fix: only the first backend got the arguments of
 instrumented functions

The argument list was consumed by the first backend; the others read garbage.
---
 src/vfcwrapper/funcinstr.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/vfcwrapper/funcinstr.c b/src/vfcwrapper/funcinstr.c
index 354677d..c76e7ba 100644
--- a/src/vfcwrapper/funcinstr.c
+++ b/src/vfcwrapper/funcinstr.c
@@ -139,16 +139,17 @@ void vfc_enter_function(char *func_name, char isLibraryFunction,
 
   if ((useFloat != 0) || (useDouble != 0)) {
     va_list ap;
-    // n is the number of arguments intercepted, each argument
-    // is represented by a type ID and a pointer
-    va_start(ap, n);
 
-    for (int i = 0; i < loaded_backends; i++)
-      if (backends[i].interflop_enter_function)
+    for (int i = 0; i < loaded_backends; i++) {
+      if (backends[i].interflop_enter_function) {
+        // n is the number of arguments intercepted, each argument
+        // is represented by a type ID and a pointer
+        va_start(ap, n);
         backends[i].interflop_enter_function(&_vfc_call_stack, contexts[i], n,
                                              ap);
-
-    va_end(ap);
+        va_end(ap);
+      }
+    }
   }
 }
 
@@ -160,16 +161,17 @@ void vfc_exit_function(__attribute__((unused)) char *func_name,
 
   if ((useFloat != 0) || (useDouble != 0)) {
     va_list ap;
-    // n is the number of arguments intercepted, each argument
-    // is represented by a type ID and a pointer
-    va_start(ap, n);
 
-    for (int i = 0; i < loaded_backends; i++)
-      if (backends[i].interflop_exit_function)
+    for (int i = 0; i < loaded_backends; i++) {
+      if (backends[i].interflop_exit_function) {
+        // n is the number of arguments intercepted, each argument
+        // is represented by a type ID and a pointer
+        va_start(ap, n);
         backends[i].interflop_exit_function(&_vfc_call_stack, contexts[i], n,
                                             ap);
-
-    va_end(ap);
+        va_end(ap);
+      }
+    }
   }
 
   vfc_call_stack_pop();
-- 
2.43.0


From 0036ad3f859db93ed415780fee58e0a72965a478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:29 +0000
Subject: [PATCH 15/91] fix: wide vector operations were exchanged with the
 wrapper in the wrong registers

The caller of a wrapper keeps the min-legal-vector-width clang computed before
instrumentation (0, say); on a CPU preferring 256 bits, its 512-bit operands
were then passed as two 256-bit halves to a wrapper expecting one register.
---
 src/libvfcinstrument/libVFCInstrument.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index 2c32c78..0480648 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -562,6 +562,18 @@ struct VfclibInst : public ModulePass {
       caller->addFnAttr(target_cpu);
     }
 
+    // A vector wider than min-legal-vector-width is split between several
+    // registers: the caller must allow the width used by the callee.
+    auto caller_width = caller->getFnAttribute("min-legal-vector-width");
+    auto callee_width = mcaFunction->getFnAttribute("min-legal-vector-width");
+    unsigned caller_bits = 0, callee_bits = 0;
+    if (caller_width.isStringAttribute() and callee_width.isStringAttribute() and
+        not caller_width.getValueAsString().getAsInteger(0, caller_bits) and
+        not callee_width.getValueAsString().getAsInteger(0, callee_bits) and
+        caller_bits < callee_bits) {
+      caller->addFnAttr(callee_width);
+    }
+
     // We call directly a hardcoded helper function
     // no need to go through the vtable at this stage.
     Value *newInst;
-- 
2.43.0


From cef9f422903bca6132fffe2fbdeee62e41434c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:04 +0000
Subject: [PATCH 16/91] fix: a caller differing from the wrapper only by target
 features was not adapted

Code compiled for the native CPU minus some features (-march=native -mno-avx)
passed its vectors to the wrapper in other registers than the wrapper expects.
---
 src/libvfcinstrument/libVFCInstrument.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index 0480648..5a1b1e6 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -537,7 +537,7 @@ struct VfclibInst : public ModulePass {
   // passed Available in TargetTransformInfoImpl since llvm-8
   bool areFunctionArgsABICompatible(Function *caller, Function *callee) {
     return (callee->getFnAttribute("target-features") !=
-            caller->getFnAttribute("target-features")) and
+            caller->getFnAttribute("target-features")) or
            (callee->getFnAttribute("target-cpu") !=
             caller->getFnAttribute("target-cpu"));
   }
-- 
2.43.0


From af7b76b42461bfefdec0047714de25abd1a7e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:26 +0000
Subject: [PATCH 17/91] fix: --inst-func hooked memcpy, va_start and other
 intrinsics taking pointers

With opaque pointers every pointer looks like a float*, so these intrinsics were
moved into a hook function: invalid IR for memcpy, a crash at run time for
va_start and stackrestore.
---
 src/libvfcfuncinstrument/libVFCFuncInstrument.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
index 346e7dd..4407224 100644
--- a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
+++ b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
@@ -132,11 +132,15 @@ void haveFloatingPointArithmetic(Instruction *call, Function *f,
       }
     }
   } else if (call != NULL) {
+    // The pointers given to an intrinsic (memcpy, va_start, stackrestore...)
+    // do not make it a floating-point function
+    bool use_pointers = f == NULL || !f->isIntrinsic();
     // Loop over arguments types
     for (auto it = call->op_begin(); it < call->op_end() - 1; it++) {
-      if ((*it)->getType() == FloatTy || (*it)->getType() == FloatPtrTy)
+      Type *argTy = (*it)->getType();
+      if (argTy == FloatTy || (use_pointers && argTy == FloatPtrTy))
         (*use_float) = true;
-      if ((*it)->getType() == DoubleTy || (*it)->getType() == DoublePtrTy)
+      if (argTy == DoubleTy || (use_pointers && argTy == DoublePtrTy))
         (*use_double) = true;
     }
   }
-- 
2.43.0


From ad15be41a4a68968e87f712369ba8e0451ebeb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:26 +0000
Subject: [PATCH 18/91] fix: --inst-func called setjmp from a hook function,
 whose frame is gone when it returns again

---
 src/libvfcfuncinstrument/libVFCFuncInstrument.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
index 4407224..95fdf37 100644
--- a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
+++ b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
@@ -537,6 +537,11 @@ struct VfclibFunc : public ModulePass {
                   continue;
                 }
 
+                // setjmp must be called from the frame it returns to
+                if (cast<CallInst>(pi)->canReturnTwice()) {
+                  continue;
+                }
+
                 if (MDNode *N = pi->getMetadata("dbg")) {
                   DILocation *Loc = cast<DILocation>(N);
                   unsigned line = Loc->getLine();
-- 
2.43.0


From 42f742cb42aba70a364dc4e62f12d2286780b8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:26 +0000
Subject: [PATCH 19/91] fix: --inst-func crashed on functions containing an
 indirect call

---
 src/libvfcfuncinstrument/libVFCFuncInstrument.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
index 95fdf37..2f33c1c 100644
--- a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
+++ b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
@@ -193,6 +193,10 @@ std::string getArgName(Function *F, unsigned int i) {
       if (isa<CallInst>(&I)) {
         CallInst *Call = cast<CallInst>(&I);
 
+        // indirect call
+        if (Call->getCalledFunction() == nullptr)
+          continue;
+
         if (Call->getCalledFunction()->getName() == "llvm.dbg.declare" ||
             Call->getCalledFunction()->getName() == "llvm.dbg.value" ||
             Call->getCalledFunction()->getName() == "llvm.dbg.addr") {
-- 
2.43.0


From b16b0e4b3dbb7db39b8581fc45c99ef98d6e8eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:46 +0000
Subject: [PATCH 20/91] fix: two modules including the same inline function
 could not be linked with --inst-func

---
 src/libvfcfuncinstrument/libVFCFuncInstrument.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
index 2f33c1c..08693fc 100644
--- a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
+++ b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
@@ -609,8 +609,10 @@ struct VfclibFunc : public ModulePass {
                   // Create the hook function
                   FunctionType *HookFunTy =
                       FunctionType::get(ReturnTy, CallTypes, false);
+                  // (internal: another module can have the same call site, in
+                  // an inline function of a header)
                   Function *hook_func = Function::Create(
-                      HookFunTy, Function::ExternalLinkage, NewName, &M);
+                      HookFunTy, Function::InternalLinkage, NewName, &M);
 
                   // Gives to the hook function the calling convention and
                   // attributes of the original function.
-- 
2.43.0


From f135cf18092d5a92dcb3a08f70f28e088c3dcd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 21/91] fix: --inst-func looked for array sizes in the wrong
 place

Passing on a pointer argument made the compiler recurse for ever (or take the size
of an unrelated variable), and a pointer inside an array got the whole array's size.
---
 .../libVFCFuncInstrument.cpp                  | 63 +++++++------------
 1 file changed, 22 insertions(+), 41 deletions(-)

diff --git a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
index 08693fc..15a911c 100644
--- a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
+++ b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
@@ -146,44 +146,22 @@ void haveFloatingPointArithmetic(Instruction *call, Function *f,
   }
 }
 
-// Search the size of the Value V which is a pointer
-unsigned int getSizeOf(Value *V, const Function *F) {
-  // if V is an argument of the F function, search the size of V in the parent
-  // of F
-  for (auto &Args : F->args()) {
-    if (&Args == V) {
-      for (const auto &U : V->users()) {
-        if (isa<CallInst>(U)) {
-          const CallInst *call = cast<CallInst>(U);
-          Value *to_search = call->getOperand(Args.getArgNo());
-
-          return getSizeOf(to_search, call->getParent()->getParent());
-        }
-      }
-    }
-  }
+// Search the number of elements of type ElementTy that V points to; 0 if it is
+// not known
+unsigned int getSizeOf(Value *V, Type *ElementTy, const Module &M) {
+  const DataLayout &DL = M.getDataLayout();
+  APInt Offset(DL.getIndexTypeSizeInBits(V->getType()), 0);
 
   // search for the AllocaInst at the origin of V
-  for (auto &BB : (*F)) {
-    for (auto &I : BB) {
-      if (&I == V) {
-        if (const AllocaInst *Alloca = dyn_cast<AllocaInst>(&I)) {
-          if (Alloca->getAllocatedType()->isArrayTy() ||
-              Alloca->getAllocatedType()->isVectorTy()) {
-            return Alloca->getAllocatedType()->getArrayNumElements();
-          } else {
-            return 1;
-          }
-        } else if (const GetElementPtrInst *GEP =
-                       dyn_cast<GetElementPtrInst>(&I)) {
-          Value *to_search = GEP->getOperand(0);
-          return getSizeOf(to_search, F);
-        }
-      }
-    }
-  }
-
-  return 0;
+  const AllocaInst *Alloca =
+      dyn_cast<AllocaInst>(V->stripAndAccumulateConstantOffsets(
+          DL, Offset, /* AllowNonInbounds */ true));
+  if (Alloca == nullptr || Alloca->isArrayAllocation() || Offset.isNegative())
+    return 0;
+
+  uint64_t size = DL.getTypeAllocSize(Alloca->getAllocatedType());
+  uint64_t offset = Offset.getZExtValue();
+  return offset < size ? (size - offset) / DL.getTypeAllocSize(ElementTy) : 0;
 }
 
 // Get the Name of the given argument V
@@ -253,11 +231,14 @@ FTYPES ftypesFromType(Type *Ty) {
   return FTYPES_END;
 }
 
+// Type of the elements of an argument handled as an array
+Type *elementType(Type *Ty) { return Ty == FloatPtrTy ? FloatTy : DoubleTy; }
+
 void initializeInputArgs(std::vector<Value *> &EnterArgs,
                          std::vector<Value *> &InputMetaData,
                          Function *CurrentFunction, Function *HookedFunction,
                          const CallInst *call, IRBuilder<> &Builder,
-                         std::vector<Value *> &InputAlloca) {
+                         std::vector<Value *> &InputAlloca, Module &M) {
   size_t input_index = 0;
   for (auto &args : CurrentFunction->args()) {
     Type *argTy = args.getType();
@@ -275,7 +256,7 @@ void initializeInputArgs(std::vector<Value *> &EnterArgs,
       Builder.CreateStore(&args, InputAlloca[input_index++]);
     } else if ((argTy == FloatPtrTy or argTy == DoublePtrTy) and call) {
       unsigned int size = getSizeOf(call->getOperand(args.getArgNo()),
-                                    call->getParent()->getParent());
+                                    elementType(argTy), M);
       EnterArgs.push_back(ConstantInt::get(Int32Ty, size));
       EnterArgs.push_back(&args);
     }
@@ -302,7 +283,7 @@ void initializeOutputArgs(std::vector<Value *> &ExitArgs,
     Builder.CreateStore(ret, OutputAlloca[0]);
   } else if ((retTy == FloatPtrTy or retTy == DoublePtrTy) and
              call != nullptr) {
-    unsigned int size = getSizeOf(ret, call->getParent()->getParent());
+    unsigned int size = getSizeOf(ret, elementType(retTy), M);
     ExitArgs.push_back(ConstantInt::get(Int32Ty, size));
     ExitArgs.push_back(ret);
   }
@@ -315,7 +296,7 @@ void initializeOutputArgs(std::vector<Value *> &ExitArgs,
       ExitArgs.push_back(Types2val[type]);
       ExitArgs.push_back(Builder.CreateGlobalStringPtr(arg_name));
       unsigned int size = getSizeOf(call->getOperand(args.getArgNo()),
-                                    call->getParent()->getParent());
+                                    elementType(argTy), M);
       ExitArgs.push_back(ConstantInt::get(Int32Ty, size));
       ExitArgs.push_back(&args);
     }
@@ -345,7 +326,7 @@ void InstrumentFunction(std::vector<Value *> MetaData,
   // address to the list of parameters sent to vfc_enter for processing.
   std::vector<Value *> EnterArgs = InputMetaData;
   initializeInputArgs(EnterArgs, InputMetaData, CurrentFunction, HookedFunction,
-                      call, Builder, InputAlloca);
+                      call, Builder, InputAlloca, M);
 
   // Step 3: call vfc_enter
   Builder.CreateCall(func_enter, EnterArgs);
-- 
2.43.0


From 856b089d3eafa1ee3cefafc049029df46d993e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:10 +0000
Subject: [PATCH 22/91] fix: --inst-func took every pointer argument for an
 array of floats

---
 .../libVFCFuncInstrument.cpp                  | 99 +++++++++++++------
 1 file changed, 71 insertions(+), 28 deletions(-)

diff --git a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
index 15a911c..b1f5501 100644
--- a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
+++ b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
@@ -23,6 +23,7 @@
 #pragma GCC diagnostic ignored "-Wunused-parameter"
 #include "llvm/Analysis/CallGraphSCCPass.h"
 #include "llvm/Analysis/TargetLibraryInfo.h"
+#include "llvm/BinaryFormat/Dwarf.h"
 #include "llvm/IR/DataLayout.h"
 #include "llvm/IR/DebugInfoMetadata.h"
 #include "llvm/IR/DebugLoc.h"
@@ -91,6 +92,50 @@ Value *Types2val[] = {
     [FFLOAT_PTR] = NULL, [FDOUBLE_PTR] = NULL, [FQUAD_PTR] = NULL,
     [FTYPES_END] = NULL};
 
+// Type of the elements that the argument number argNo of F (or, for -1, its
+// return value) points to: float, double, or null for anything else. Pointers
+// are opaque since LLVM 15, the type is then the one in the debug information.
+Type *pointeeType(Type *Ty, Function *F, int argNo) {
+  if (not Ty->isPointerTy())
+    return nullptr;
+  if (FloatPtrTy != DoublePtrTy)
+    return Ty == FloatPtrTy ? FloatTy : Ty == DoublePtrTy ? DoubleTy : nullptr;
+
+  DISubprogram *Sub = F ? F->getSubprogram() : nullptr;
+  if (Sub == nullptr or Sub->getType() == nullptr)
+    return nullptr;
+  // the return type, then the types of the parameters
+  auto Types = Sub->getType()->getTypeArray();
+  if (Types.size() != F->arg_size() + 1 + F->isVarArg() or
+      (unsigned)(argNo + 1) >= Types.size())
+    return nullptr;
+
+  bool pointer = false;
+  for (DIType *T = Types[argNo + 1]; T != nullptr;) {
+    if (auto *Basic = dyn_cast<DIBasicType>(T)) {
+      if (pointer and Basic->getEncoding() == dwarf::DW_ATE_float) {
+        if (Basic->getSizeInBits() == 32)
+          return FloatTy;
+        if (Basic->getSizeInBits() == 64)
+          return DoubleTy;
+      }
+      return nullptr;
+    }
+    auto *Derived = dyn_cast<DIDerivedType>(T);
+    if (Derived == nullptr)
+      return nullptr;
+    if (Derived->getTag() == dwarf::DW_TAG_pointer_type or
+        Derived->getTag() == dwarf::DW_TAG_reference_type) {
+      // not the pointers to pointers
+      if (pointer)
+        return nullptr;
+      pointer = true;
+    }
+    T = Derived->getBaseType();
+  }
+  return nullptr;
+}
+
 // Fill use_double and use_float with true if the call_inst pi use at least
 // of the managed types
 void haveFloatingPointArithmetic(Instruction *call, Function *f,
@@ -132,15 +177,13 @@ void haveFloatingPointArithmetic(Instruction *call, Function *f,
       }
     }
   } else if (call != NULL) {
-    // The pointers given to an intrinsic (memcpy, va_start, stackrestore...)
-    // do not make it a floating-point function
-    bool use_pointers = f == NULL || !f->isIntrinsic();
     // Loop over arguments types
     for (auto it = call->op_begin(); it < call->op_end() - 1; it++) {
       Type *argTy = (*it)->getType();
-      if (argTy == FloatTy || (use_pointers && argTy == FloatPtrTy))
+      Type *pointeeTy = pointeeType(argTy, f, it - call->op_begin());
+      if (argTy == FloatTy || pointeeTy == FloatTy)
         (*use_float) = true;
-      if (argTy == DoubleTy || (use_pointers && argTy == DoublePtrTy))
+      if (argTy == DoubleTy || pointeeTy == DoubleTy)
         (*use_double) = true;
     }
   }
@@ -203,7 +246,7 @@ void allocateMemoryForPointers(Function *CurrentFunction,
   if (RetTy == DoubleTy or RetTy == FloatTy) {
     OutputAlloca.push_back(Builder.CreateAlloca(RetTy, nullptr));
     output_cpt++;
-  } else if ((RetTy == FloatPtrTy or RetTy == DoublePtrTy) and call) {
+  } else if (pointeeType(RetTy, HookedFunction, -1) and call) {
     output_cpt++;
   }
 
@@ -212,28 +255,24 @@ void allocateMemoryForPointers(Function *CurrentFunction,
     if (argTy == DoubleTy or argTy == FloatTy) {
       InputAlloca.push_back(Builder.CreateAlloca(argTy, nullptr));
       input_cpt++;
-    } else if ((argTy == FloatPtrTy or argTy == DoublePtrTy) and call) {
+    } else if (pointeeType(argTy, HookedFunction, args.getArgNo()) and call) {
       input_cpt++;
       output_cpt++;
     }
   }
 };
 
-FTYPES ftypesFromType(Type *Ty) {
+// pointeeTy is the type of the elements for an array, null otherwise
+FTYPES ftypesFromType(Type *Ty, Type *pointeeTy) {
   if (Ty == FloatTy)
     return FFLOAT;
   if (Ty == DoubleTy)
     return FDOUBLE;
-  if (Ty == FloatPtrTy)
-    return FFLOAT_PTR;
-  if (Ty == DoublePtrTy)
-    return FDOUBLE_PTR;
-  return FTYPES_END;
+  if (pointeeTy == nullptr)
+    return FTYPES_END;
+  return pointeeTy == FloatTy ? FFLOAT_PTR : FDOUBLE_PTR;
 }
 
-// Type of the elements of an argument handled as an array
-Type *elementType(Type *Ty) { return Ty == FloatPtrTy ? FloatTy : DoubleTy; }
-
 void initializeInputArgs(std::vector<Value *> &EnterArgs,
                          std::vector<Value *> &InputMetaData,
                          Function *CurrentFunction, Function *HookedFunction,
@@ -242,7 +281,9 @@ void initializeInputArgs(std::vector<Value *> &EnterArgs,
   size_t input_index = 0;
   for (auto &args : CurrentFunction->args()) {
     Type *argTy = args.getType();
-    FTYPES type = ftypesFromType(argTy);
+    Type *pointeeTy =
+        call ? pointeeType(argTy, HookedFunction, args.getArgNo()) : nullptr;
+    FTYPES type = ftypesFromType(argTy, pointeeTy);
 
     if (type != FTYPES_END) {
       std::string arg_name = getArgName(HookedFunction, args.getArgNo());
@@ -254,9 +295,9 @@ void initializeInputArgs(std::vector<Value *> &EnterArgs,
       EnterArgs.push_back(ConstantInt::get(Int32Ty, 1));
       EnterArgs.push_back(InputAlloca[input_index]);
       Builder.CreateStore(&args, InputAlloca[input_index++]);
-    } else if ((argTy == FloatPtrTy or argTy == DoublePtrTy) and call) {
-      unsigned int size = getSizeOf(call->getOperand(args.getArgNo()),
-                                    elementType(argTy), M);
+    } else if (pointeeTy) {
+      unsigned int size =
+          getSizeOf(call->getOperand(args.getArgNo()), pointeeTy, M);
       EnterArgs.push_back(ConstantInt::get(Int32Ty, size));
       EnterArgs.push_back(&args);
     }
@@ -270,7 +311,8 @@ void initializeOutputArgs(std::vector<Value *> &ExitArgs,
                           std::vector<Value *> &OutputAlloca, Module &M) {
 
   Type *retTy = ret->getType();
-  FTYPES type = ftypesFromType(retTy);
+  Type *pointeeTy = call ? pointeeType(retTy, HookedFunction, -1) : nullptr;
+  FTYPES type = ftypesFromType(retTy, pointeeTy);
 
   if (type != FTYPES_END) {
     ExitArgs.push_back(Types2val[type]);
@@ -281,22 +323,23 @@ void initializeOutputArgs(std::vector<Value *> &ExitArgs,
     ExitArgs.push_back(ConstantInt::get(Int32Ty, 1));
     ExitArgs.push_back(OutputAlloca[0]);
     Builder.CreateStore(ret, OutputAlloca[0]);
-  } else if ((retTy == FloatPtrTy or retTy == DoublePtrTy) and
-             call != nullptr) {
-    unsigned int size = getSizeOf(ret, elementType(retTy), M);
+  } else if (pointeeTy) {
+    unsigned int size = getSizeOf(ret, pointeeTy, M);
     ExitArgs.push_back(ConstantInt::get(Int32Ty, size));
     ExitArgs.push_back(ret);
   }
 
   for (auto &args : CurrentFunction->args()) {
     Type *argTy = args.getType();
-    type = ftypesFromType(argTy);
-    if ((argTy == FloatPtrTy or argTy == DoublePtrTy) and call != nullptr) {
+    pointeeTy =
+        call ? pointeeType(argTy, HookedFunction, args.getArgNo()) : nullptr;
+    type = ftypesFromType(argTy, pointeeTy);
+    if (pointeeTy) {
       std::string arg_name = getArgName(HookedFunction, args.getArgNo());
       ExitArgs.push_back(Types2val[type]);
       ExitArgs.push_back(Builder.CreateGlobalStringPtr(arg_name));
-      unsigned int size = getSizeOf(call->getOperand(args.getArgNo()),
-                                    elementType(argTy), M);
+      unsigned int size =
+          getSizeOf(call->getOperand(args.getArgNo()), pointeeTy, M);
       ExitArgs.push_back(ConstantInt::get(Int32Ty, size));
       ExitArgs.push_back(&args);
     }
-- 
2.43.0


From dd0063183e850a59c6617df7401831029386b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:55 +0000
Subject: [PATCH 23/91] fix: VFC_BACKENDS was cut in place, children inherited
 a truncated list

The string returned by getenv was tokenized by strtok_r, so that a program
started by an instrumented program only got the first backend, without its
arguments.
---
 src/vfcwrapper/main.c.in | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 2e760bc..0494f21 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -273,10 +273,15 @@ void parse_vfc_backends_env(char **vfc_backends, char **vfc_backends_env) {
 
   /* Parse VFC_BACKENDS */
   *vfc_backends_env = (char *)malloc(sizeof(char) * 256);
-  *vfc_backends = (char *)malloc(sizeof(char) * 256);
+  *vfc_backends = NULL;
 
   sprintf(*vfc_backends_env, "VFC_BACKENDS");
-  *vfc_backends = getenv(*vfc_backends_env);
+  /* work on a copy: the list is cut in tokens by vfc_init, and the environment
+   * is inherited by the children of the program */
+  char *vfc_backends_value = getenv(*vfc_backends_env);
+  if (vfc_backends_value != NULL) {
+    *vfc_backends = strdup(vfc_backends_value);
+  }
 
   /* Parse VFC_BACKENDS_FROM_FILE if VFC_BACKENDS is empty*/
   if (*vfc_backends == NULL) {
-- 
2.43.0


From 11bb62e75e7c33f039512e69508c87f1b1d9a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:55 +0000
Subject: [PATCH 24/91] fix: VFC_DDEBUG_GEN kept the end of a longer previous
 list

The file was opened without O_TRUNC: sites of a previous program or run
remained after the generated ones.
---
 src/vfcwrapper/main.c.in | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 0494f21..2f3ec3a 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -166,7 +166,8 @@ vfc_hashmap_t dd_must_instrument;
 vfc_hashmap_t dd_mustnot_instrument;
 
 void ddebug_generate_inclusion(char *dd_generate_path, vfc_hashmap_t map) {
-  int output = open(dd_generate_path, O_WRONLY | O_CREAT, S_IWUSR | S_IRUSR);
+  int output = open(dd_generate_path, O_WRONLY | O_CREAT | O_TRUNC,
+                    S_IWUSR | S_IRUSR);
   if (output == -1) {
     logger_error("cannot open DDEBUG_GEN file %s", dd_generate_path);
   }
-- 
2.43.0


From dfc1789841fa8a1af575dbe5886f17a6118073c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:57 +0000
Subject: [PATCH 25/91] fix: --ddebug could not tell vector operations apart

A vector operation was filtered and listed under the return address of the
scalar wrapper called for each lane, an address of vfcwrapper.c shared by all
vector operations of the same kind. The site is now the call of the vector
wrapper in the program.
---
 src/vfcwrapper/main.c.in | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 2f3ec3a..c894f1c 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -576,8 +576,7 @@ __attribute__((constructor(0))) static void vfc_init(void) {
 /* When delta-debug run flags are passed, check filter rules,
  *  - exclude rules are applied first and have priority
  * */
-#define ddebug(operation)                                                      \
-  void *addr = __builtin_return_address(0);                                    \
+#define ddebug(operation, addr)                                                \
   if (dd_exclude_path) {                                                       \
     /* Ignore addr in exclude file */                                          \
     if (vfc_hashmap_have(dd_mustnot_instrument, (size_t)addr)) {               \
@@ -595,7 +594,7 @@ __attribute__((constructor(0))) static void vfc_init(void) {
 
 #else
 /* When delta-debug flags are not passed do nothing */
-#define ddebug(operation)                                                      \
+#define ddebug(operation, addr)                                                \
   do {                                                                         \
   } while (0)
 #endif
@@ -611,10 +610,14 @@ void interflop_call(interflop_call_id id, ...) {
   }
 }
 
+/* The site of an operation is the return address of the wrapper called by the
+ * program, be it scalar or vector: all the lanes of a vector operation belong
+ * to the same site */
 #define define_arithmetic_wrapper(precision, operation, operator)              \
-  precision _##precision##operation(precision a, precision b) {                \
+  static inline precision _##precision##operation##_at(                        \
+      precision a, precision b, __attribute__((unused)) void *site) {          \
     precision c = NAN;                                                         \
-    ddebug(operator);                                                          \
+    ddebug(operator, site);                                                    \
     for (unsigned char i = 0; i < loaded_backends; i++) {                      \
       if (backends[i].interflop_##operation##_##precision) {                   \
         backends[i].interflop_##operation##_##precision(a, b, &c,              \
@@ -622,6 +625,10 @@ void interflop_call(interflop_call_id id, ...) {
       }                                                                        \
     }                                                                          \
     return c;                                                                  \
+  }                                                                            \
+                                                                               \
+  precision _##precision##operation(precision a, precision b) {                \
+    return _##precision##operation##_at(a, b, __builtin_return_address(0));    \
   }
 
 define_arithmetic_wrapper(float, add, (a + b));
@@ -658,9 +665,10 @@ int _doublecmp(enum FCMP_PREDICATE p, double a, double b) {
   precision##size _##size##x##precision##operation(const precision##size a,    \
                                                    const precision##size b) {  \
     precision##size c;                                                         \
+    void *site = __builtin_return_address(0);                                  \
                                                                                \
     _Pragma("unroll") for (int i = 0; i < size; i++) {                         \
-      c[i] = _##precision##operation(a[i], b[i]);                              \
+      c[i] = _##precision##operation##_at(a[i], b[i], site);                   \
     }                                                                          \
     return c;                                                                  \
   }
@@ -731,7 +739,7 @@ define_vectorized_comparison_wrapper(double, 16);
 #define define_arithmetic_fma_wrapper(precision)                               \
   precision _##precision##fma(precision a, precision b, precision c) {         \
     precision d = NAN;                                                         \
-    ddebug((a * b + c));                                                       \
+    ddebug((a * b + c), __builtin_return_address(0));                          \
     for (unsigned char i = 0; i < loaded_backends; i++) {                      \
       if (backends[i].interflop_fma_##precision) {                             \
         backends[i].interflop_fma_##precision(a, b, c, &d, contexts[i]);       \
-- 
2.43.0


From 06716e91e13988a5a789816cc8275457c07b6a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:50 +0000
Subject: [PATCH 26/91] fix: --ddebug attributed operations in tail position to
 the calling function

The wrapper identifies an operation by its return address. When the call
of the wrapper was optimized into a jump, that address was the one of the
caller of the function, shared by all its operations in tail position.
---
 src/libvfcinstrument/libVFCInstrument.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index 5a1b1e6..55d5f0e 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -440,6 +440,8 @@ struct VfclibInst : public ModulePass {
   }
 
   /* Replace arithmetic instructions with MCA */
+  /* The wrapper identifies the operation by its return address (ddebug): */
+  /* the call must not become a tail call */
   Value *replaceArithmeticWithMCACall(IRBuilder<> &Builder, Function *F,
                                       Instruction *I) {
 
@@ -451,6 +453,7 @@ struct VfclibInst : public ModulePass {
     op2 = updateOperand(Builder, F, op2, 1);
 
     CallInst *newInst = Builder.CreateCall(F, {op1, op2});
+    newInst->setTailCallKind(CallInst::TCK_NoTail);
     newInst->setAttributes(F->getAttributes());
 
     return updateReturn(Builder, newInst, retType);
@@ -471,6 +474,7 @@ struct VfclibInst : public ModulePass {
     op3 = updateOperand(Builder, F, op3, 2);
 
     CallInst *newInst = Builder.CreateCall(F, {op1, op2, op3});
+    newInst->setTailCallKind(CallInst::TCK_NoTail);
     newInst->setAttributes(F->getAttributes());
 
     return updateReturn(Builder, newInst, retType);
-- 
2.43.0


From b9eabd29a1e8d2b1e53b38fa09877e4380270ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:09 +0000
Subject: [PATCH 27/91] fix: include/exclude files took regular expression
 characters literally only for the dot

A module such as a+b.c or a function such as f$1 in an include or exclude file
was read as a regular expression, and a line with a parenthesis or a bracket
could stop the compilation.
---
 src/libvfcinstrument/libVFCInstrument.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index 55d5f0e..cd0236e 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -157,7 +157,11 @@ struct VfclibInst : public ModulePass {
   }
 
   void escape_regex(std::string &str) {
-    findAndReplaceAll(str, ".", "\\.");
+    // characters other than * stand for themselves, \ must come first
+    for (const std::string c : {"\\", ".", "+", "?", "(", ")", "[", "]", "{", "}",
+                                "^", "$", "|"}) {
+      findAndReplaceAll(str, c, "\\" + c);
+    }
     // ECMAScript needs .* instead of * for matching any charactere
     // http://www.cplusplus.com/reference/regex/ECMAScript/
     findAndReplaceAll(str, "*", ".*");
-- 
2.43.0


From e31947d4a110993a5b16c91c56df5833579b54a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:53 +0000
Subject: [PATCH 28/91] fix: .c++ sources were compiled without instrumentation

The extension lacked its dot, so that they were given to the linker as is.
---
 verificarlo.in.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index c9be680..27b5cdd 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -49,7 +49,7 @@ flang = "@FLANG_PATH@"
 opt = llvm_bindir + "/opt"
 FORTRAN_EXTENSIONS = [".f", ".f90", ".f77"]
 C_EXTENSIONS = [".c"]
-CXX_EXTENSIONS = [".cc", ".cp", ".cpp", ".cxx", "c++"]
+CXX_EXTENSIONS = [".cc", ".cp", ".cpp", ".cxx", ".c++"]
 ASSEMBLY_EXTENSIONS = [".s"]
 LLVM_BITCODE_EXTENSIONS = [".bc", ".ll"]
 COMPILE_EXTRA_FLAGS = ""
-- 
2.43.0


From 9229be93c4bd1a08af6e1025256c1dc5ed6994cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:53 +0000
Subject: [PATCH 29/91] fix: options ending like a source file name were
 compiled as sources

-DFILE=a.c or -Iinclude.c were taken for files to compile.
---
 verificarlo.in.in | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 27b5cdd..c440cc2 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -134,7 +134,10 @@ def parse_extra_args(args):
     libraries = []
 
     for a in args:
-        if is_fortran(a):
+        if a.startswith("-") and not a.startswith("-l"):
+            # an option is not a source, even if it ends like one (-DX=a.c)
+            options.append(shell_escape(a))
+        elif is_fortran(a):
             if not flang:
                 fail(
                     "fortran not supported. "
-- 
2.43.0


From 3ec401f5a9dfad6ea56c9a500c76cf0cbaff9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:53 +0000
Subject: [PATCH 30/91] fix: "-l name" lost the name of the library

The separate form of the option was split: the name was taken for an
option, and -l took the next file of the link command as a library.
---
 verificarlo.in.in | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index c440cc2..9d17b58 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -133,8 +133,12 @@ def parse_extra_args(args):
     options = []
     libraries = []
 
+    args = iter(args)
     for a in args:
-        if a.startswith("-") and not a.startswith("-l"):
+        if a.startswith("-l"):
+            # the name of the library may be a separate argument
+            libraries.append(shell_escape(a if a != "-l" else a + next(args, "")))
+        elif a.startswith("-"):
             # an option is not a source, even if it ends like one (-DX=a.c)
             options.append(shell_escape(a))
         elif is_fortran(a):
@@ -152,8 +156,6 @@ def parse_extra_args(args):
             sources.append(a)
         elif is_llvm_bitcode(a):
             sources.append(a)
-        elif a.startswith("-l"):
-            libraries.append(a)
         else:
             options.append(shell_escape(a))
 
-- 
2.43.0


From 24462ec6782de95cb7eee8e461fb768be0468b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:53 +0000
Subject: [PATCH 31/91] fix: file names and options with special characters
 broke the compiler driver

Commands are run by a shell, but sources, outputs, include/exclude files,
the current directory and options containing a quote were not quoted.
---
 verificarlo.in.in | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 9d17b58..004f3cb 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -23,6 +23,7 @@ from __future__ import print_function
 
 import argparse
 import os
+import shlex
 import subprocess
 import sys
 import tempfile
@@ -125,7 +126,7 @@ def is_llvm_bitcode(name):
 
 def shell_escape(argument):
     # prevents argument expansion in shell call
-    return "'" + argument + "'"
+    return shlex.quote(argument)
 
 
 def parse_extra_args(args):
@@ -185,7 +186,7 @@ def compile_vfcwrapper(source, output, args, emit_llvm=False):
     ) + f" -c -Wno-varargs -I {mcalib_includes} "
     cmd = (
         f"{clang} -O3 {march_flag} -g {internal_options} {extra_args} "
-        f"{source} -I{libinterflop_stdlib_include} -o {output} "
+        f"{source} -I{libinterflop_stdlib_include} -o {shell_escape(output)} "
     )
     shell(cmd, verbose=args.show_cmd)
 
@@ -208,8 +209,9 @@ def linker_mode(sources, options, libraries, output, args):
             ".vfcwrapper.", ".o", args, force_delete=True
         ).name
         compile_vfcwrapper(vfcwrapper, vfcwrapper_o, args)
+        vfcwrapper_o = shell_escape(vfcwrapper_o)
 
-    sources = " ".join([os.path.splitext(s)[0] + ".o" for s in sources])
+    sources = " ".join([shell_escape(os.path.splitext(s)[0] + ".o") for s in sources])
     interflop_libs = " ".join(
         ["-linterflop_stdlib", "-linterflop_hashmap", "-linterflop_logger"]
     )
@@ -240,7 +242,7 @@ def linker_mode(sources, options, libraries, output, args):
 # Do not instrument
 def compile_only(sources, options, output, args):
     compiler = linkers[args.linker]
-    sources = " ".join(sources)
+    sources = " ".join([shell_escape(s) for s in sources])
     shell(f"{compiler} {sources} {options} {output}", verbose=args.show_cmd)
 
 
@@ -283,7 +285,7 @@ def apply_function_instrumentation_pass(ir, ins, args):
     emit_format = get_emit_format(args)
     pass_args = get_opt_pass_args("vfclibfunc", libvfcfuncinstrument)
     shell(
-        f"{opt} {emit_format} {pass_args} {ir.name} -o {ins.name}",
+        f"{opt} {emit_format} {pass_args} {shell_escape(ir.name)} -o {shell_escape(ins.name)}",
         verbose=args.show_cmd,
     )
 
@@ -311,7 +313,7 @@ def apply_mca_instrumentation_pass(
                     extra_args += f" -vfclibinst-debug-{debug} "
     else:
         libvfcinst = libvfcinstrument
-        extra_args += f" -vfclibinst-vfcwrapper-file {vfcwrapper_ir.name} "
+        extra_args += f" -vfclibinst-vfcwrapper-file {shell_escape(vfcwrapper_ir.name)} "
 
     emit_format = get_emit_format(args)
     pass_args = get_opt_pass_args("vfclibinst", libvfcinst)
@@ -319,7 +321,7 @@ def apply_mca_instrumentation_pass(
         (
             f"{opt} {emit_format} {pass_args} "
             f"{extra_args} {selectfunction} "
-            f" {ir.name} -o {ins.name}"
+            f" {shell_escape(ir.name)} -o {shell_escape(ins.name)}"
         ),
         verbose=args.show_cmd,
     )
@@ -347,7 +349,7 @@ def compiler_mode(sources, options, output, args):
 
         if is_assembly(source):
             if not output:
-                basename_output = "-o " + basename + ".o"
+                basename_output = "-o " + shell_escape(basename + ".o")
             else:
                 basename_output = output
             compile_only([source], " -c " + options, basename_output, args)
@@ -356,18 +358,22 @@ def compiler_mode(sources, options, output, args):
         # Compile to ir (fortran uses flang, c uses clang)
         emit_format = get_emit_format(args)
         shell(
-            f"{compiler} -c {emit_format} -emit-llvm {debug} {source} {include} {COMPILE_EXTRA_FLAGS} {options} -o {ir.name}",
+            f"{compiler} -c {emit_format} -emit-llvm {debug} {shell_escape(source)} {include} {COMPILE_EXTRA_FLAGS} {options} -o {shell_escape(ir.name)}",
             verbose=args.show_cmd,
         )
 
         selectfunction = ""
         if args.function:
-            selectfunction = " -vfclibinst-function " + args.function
+            selectfunction = " -vfclibinst-function " + shell_escape(args.function)
         else:
             if args.include_file:
-                selectfunction = " -vfclibinst-include-file " + args.include_file
+                selectfunction = " -vfclibinst-include-file " + shell_escape(
+                    args.include_file
+                )
             if args.exclude_file:
-                selectfunction += " -vfclibinst-exclude-file " + args.exclude_file
+                selectfunction += " -vfclibinst-exclude-file " + shell_escape(
+                    args.exclude_file
+                )
 
         if args.inst_func:
             # Apply function's instrumentation pass
@@ -398,19 +404,19 @@ def compiler_mode(sources, options, output, args):
             ir, ins, vfcwrapper_ir, extra_args, selectfunction, args
         )
 
-        cmd_output = output if output else " -o " + basename + ".o"
+        cmd_output = output if output else " -o " + shell_escape(basename + ".o")
 
         if not args.emit_llvm:
             # Produce object file
             shell(
-                f"{compiler} -c {cmd_output} {ins.name} {options}",
+                f"{compiler} -c {cmd_output} {shell_escape(ins.name)} {options}",
                 verbose=args.show_cmd,
             )
         else:
             # Produce a bc file with the wrapper bc linked in.
-            vfcwrapper_ir_name = vfcwrapper_ir.name if vfcwrapper_ir else ""
+            vfcwrapper_ir_name = shell_escape(vfcwrapper_ir.name) if vfcwrapper_ir else ""
             shell(
-                f"{llvm_link} {ins.name} {vfcwrapper_ir_name} {cmd_output}",
+                f"{llvm_link} {shell_escape(ins.name)} {vfcwrapper_ir_name} {cmd_output}",
                 verbose=args.show_cmd,
             )
 
@@ -517,7 +523,7 @@ def main():
     if args.function and (args.include_file or args.exclude_file):
         fail("Cannot use --function and --include-file/--exclude-file together")
 
-    output = "-o " + args.o if args.o else ""
+    output = "-o " + shell_escape(args.o) if args.o else ""
 
     # flang does not accept this clang-only diagnostic flag (LLVM 21+).
     if args.linker != "flang":
-- 
2.43.0


From 1f5b739e911e9bac7b3a8f1395dcaa958130ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:53 +0000
Subject: [PATCH 32/91] fix: -ofile was not recognized as an output file

The option was passed to every step, which wrote objects in the final file.
---
 verificarlo.in.in | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 004f3cb..c0fb8d2 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -505,7 +505,12 @@ def parse_args():
         help="Enforce strict ABI mode for PRISM backend. Will fail if vector instruction is not found in PRISM backend.",
     )
 
-    args, other = parser.parse_known_args()
+    # -ofile is the same as -o file
+    argv = []
+    for a in sys.argv[1:]:
+        argv += ["-o", a[2:]] if a.startswith("-o") and len(a) > 2 else [a]
+
+    args, other = parser.parse_known_args(argv)
 
     sources, llvm_options, libraries = parse_extra_args(other)
 
-- 
2.43.0


From 41d455f9eef2413a09b54813201f7aae78d920c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:20 +0000
Subject: [PATCH 33/91] fix: loading the vprec backend twice freed its buffers
 twice

The buffers of the profile reader and the log file are shared by all the
instances of the backend: with VFC_BACKENDS="libinterflop_vprec.so;
libinterflop_vprec.so" the program aborted at exit.
---
 .../interflop_vprec_function_instrumentation.c         | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 769d41a..414eeab 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -50,12 +50,15 @@ static const char key_log_file_str[] = "prec-log-file";
 
 #define INIT_STRING(A, N)                                                      \
   for (int i = 0; i < (N); i++)                                                \
-    (A)[i] = (char *)interflop_malloc(sizeof(char) * STRING_BUFF);
+    if ((A)[i] == NULL)                                                        \
+      (A)[i] = (char *)interflop_malloc(sizeof(char) * STRING_BUFF);
 
 #define FREE_STRING(A, N)                                                      \
-  for (int i = 0; i < N; i++)                                                  \
+  for (int i = 0; i < N; i++) {                                                \
     if ((A)[i])                                                                \
-      interflop_free((A)[i]);
+      interflop_free((A)[i]);                                                  \
+    (A)[i] = NULL;                                                             \
+  }
 
 const int elt_to_read_header = 12;
 const int elt_to_read_inputs = 7;
@@ -408,6 +411,7 @@ void _vfi_finalize(void *context) {
   /* close log file */
   if (_vprec_log_file != NULL) {
     interflop_fclose(_vprec_log_file);
+    _vprec_log_file = NULL;
   }
 
   /* free vprec_function_map */
-- 
2.43.0


From d8564f287caa218bf9d82726c3ca09c915ceceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:20 +0000
Subject: [PATCH 34/91] fix: vprec rounded only the first element of array
 arguments

The loops over the elements of an array passed the array itself to the
rounding and to the bounds update: the first element was rounded once per
element, and the others were neither rounded nor counted in the bounds.
---
 .../interflop_vprec_function_instrumentation.c   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 414eeab..db8cf61 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -671,9 +671,9 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
         if (value == NULL) {
           continue;
         }
-        _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_enter(value, exponent_length, mantissa_length,
                                   new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
         _vfi_print_log(ctx, "%la\t(%d, %d)\n", *value, mantissa_length,
                        exponent_length);
       }
@@ -689,9 +689,9 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
         if (value == NULL) {
           continue;
         }
-        _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_enter(value, exponent_length, mantissa_length,
                                   new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
         _vfi_print_log(ctx, "%a\t(%d, %d)\n", *value, mantissa_length,
                        exponent_length);
       }
@@ -811,9 +811,9 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         }
 
         _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
-        _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_exit(value, exponent_length, mantissa_length,
                                  new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
 
         _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                        exponent_length);
@@ -833,9 +833,9 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         }
 
         _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
-        _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_exit(value, exponent_length, mantissa_length,
                                  new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
 
         _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                        exponent_length);
-- 
2.43.0


From 01f050178b69b276e46b9e2e71a85657549a4981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:24 +0000
Subject: [PATCH 35/91] fix: vprec did not always restore the precision of the
 caller

At the exit of a function, the precision of the operations was only set
back when the direct parent was an instrumented, non-library function using
floats. A function called from a callback of a library function or from a
global constructor left its own precision to the rest of the program.
---
 ...interflop_vprec_function_instrumentation.c | 79 +++++++++++++------
 ...interflop_vprec_function_instrumentation.h |  9 +++
 2 files changed, 66 insertions(+), 22 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index db8cf61..eb817b5 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -355,6 +355,9 @@ void _vfi_init_context(void *context) {
   ctx->vfi->vprec_log_file = NULL;
   ctx->vfi->vprec_inst_mode = VPREC_INST_MODE_DEFAULT;
   ctx->vfi->vprec_log_depth = 0;
+  ctx->vfi->saved = NULL;
+  ctx->vfi->nb_saved = 0;
+  ctx->vfi->max_saved = 0;
 }
 
 /* initialize the variables to run vprec function instrumentation */
@@ -420,6 +423,12 @@ void _vfi_finalize(void *context) {
   /* destroy vprec_function_map */
   vfc_hashmap_destroy(ctx->vfi->map);
 
+  if (ctx->vfi->saved) {
+    interflop_free(ctx->vfi->saved);
+    ctx->vfi->saved = NULL;
+    ctx->vfi->nb_saved = ctx->vfi->max_saved = 0;
+  }
+
   FREE_STRING(tokens_header, elt_to_read_header);
   FREE_STRING(tokens_inputs, elt_to_read_inputs);
   FREE_STRING(tokens_outputs, elt_to_read_outputs);
@@ -547,6 +556,49 @@ void _vfi_print_log_exit(void *raw_value, _vfi_t *function_inst, char *arg_id,
                         ctx);
 }
 
+// Indicate if the precision of the internal operations of a function is set
+// according to the mode
+static int _vfi_sets_operations(const interflop_function_info_t *function_info,
+                                const vprec_context_t *ctx) {
+  return !function_info->isLibraryFunction &&
+         !function_info->isIntrinsicFunction &&
+         ctx->vfi->vprec_inst_mode != vprecinst_arg &&
+         ctx->vfi->vprec_inst_mode != vprecinst_none;
+}
+
+// Save the precision of the operations of the caller
+static void _vfi_save_settings(vprec_context_t *ctx) {
+  t_context_vfi *vfi = ctx->vfi;
+  if (vfi->nb_saved == vfi->max_saved) {
+    const ISize_t max_saved = 2 * vfi->max_saved + 64;
+    struct vfi_settings *saved =
+        interflop_malloc(max_saved * sizeof(struct vfi_settings));
+    for (ISize_t i = 0; i < vfi->nb_saved; i++) {
+      saved[i] = vfi->saved[i];
+    }
+    if (vfi->saved) {
+      interflop_free(vfi->saved);
+    }
+    vfi->saved = saved;
+    vfi->max_saved = max_saved;
+  }
+  vfi->saved[vfi->nb_saved++] = (struct vfi_settings){
+      ctx->binary64_precision, ctx->binary64_range, ctx->binary32_precision,
+      ctx->binary32_range};
+}
+
+// Restore the precision of the operations of the caller
+static void _vfi_restore_settings(vprec_context_t *ctx) {
+  if (ctx->vfi->nb_saved == 0) {
+    return;
+  }
+  const struct vfi_settings *saved = &ctx->vfi->saved[--ctx->vfi->nb_saved];
+  _set_vprec_precision_binary64(saved->precision_binary64, ctx);
+  _set_vprec_range_binary64(saved->range_binary64, ctx);
+  _set_vprec_precision_binary32(saved->precision_binary32, ctx);
+  _set_vprec_range_binary32(saved->range_binary32, ctx);
+}
+
 // vprec function instrumentation
 // Set precision for internal operations and round input arguments for a given
 // function call
@@ -592,10 +644,8 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
   function_inst->n_calls++;
 
   // set internal operations precision with custom values depending on the mode
-  if (!function_info->isLibraryFunction &&
-      !function_info->isIntrinsicFunction &&
-      ctx->vfi->vprec_inst_mode != vprecinst_arg &&
-      ctx->vfi->vprec_inst_mode != vprecinst_none) {
+  if (_vfi_sets_operations(function_info, ctx)) {
+    _vfi_save_settings(ctx);
     _set_vprec_precision_binary64(function_inst->OpsPrec64, ctx);
     _set_vprec_range_binary64(function_inst->OpsRange64, ctx);
     _set_vprec_precision_binary32(function_inst->OpsPrec32, ctx);
@@ -721,24 +771,9 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
   _vfi_t *function_inst = vfc_hashmap_get(
       ctx->vfi->map, vfc_hashmap_str_function(function_info->id));
 
-  // set internal operations precision with parent function values
-  if (stack->array[stack->top + 1] != NULL) {
-    interflop_function_info_t *parent_info = stack->array[stack->top + 1];
-
-    if (!parent_info->isLibraryFunction && !parent_info->isIntrinsicFunction &&
-        ctx->vfi->vprec_inst_mode != vprecinst_arg &&
-        ctx->vfi->vprec_inst_mode != vprecinst_none) {
-
-      _vfi_t *function_parent = vfc_hashmap_get(
-          ctx->vfi->map, vfc_hashmap_str_function(parent_info->id));
-
-      if (function_parent != NULL) {
-        _set_vprec_precision_binary64(function_parent->OpsPrec64, ctx);
-        _set_vprec_range_binary64(function_parent->OpsRange64, ctx);
-        _set_vprec_precision_binary32(function_parent->OpsPrec32, ctx);
-        _set_vprec_range_binary32(function_parent->OpsRange32, ctx);
-      }
-    }
+  // set internal operations precision back to the values of the caller
+  if (_vfi_sets_operations(function_info, ctx)) {
+    _vfi_restore_settings(ctx);
   }
 
   // treatment of arguments
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
index 77e8aff..548fed5 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
@@ -96,6 +96,15 @@ typedef struct {
   const char *vprec_log_file;
   vprec_inst_mode vprec_inst_mode;
   ISize_t vprec_log_depth;
+  /* settings to restore at the exit of the functions being executed */
+  struct vfi_settings {
+    int precision_binary64;
+    int range_binary64;
+    int precision_binary32;
+    int range_binary32;
+  } *saved;
+  ISize_t nb_saved;
+  ISize_t max_saved;
 } t_context_vfi;
 
 /* Setter functions for contextual variables */
-- 
2.43.0


From ae7a7b987811518ed6ec9fb78f2cf57e4be96c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:24 +0000
Subject: [PATCH 36/91] fix: vprec profiles had wrong bounds for arguments
 above 2^31

The bounds were converted to int without any check, so that a large
positive value was recorded as INT_MIN.
---
 .../interflop_vprec_function_instrumentation.c    | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index eb817b5..17b3620 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -453,8 +453,8 @@ void _update_range_bounds(void *raw_value, _vfi_argument_data_t *arg,
 
   int isnan = 0;
   int isinf = 0;
-  int floor = 0;
-  int ceil = 0;
+  double floor = 0;
+  double ceil = 0;
   if (type == FFLOAT || type == FFLOAT_PTR) {
     float *value = (float *)raw_value;
     isnan = interflop_isnan(*value);
@@ -474,8 +474,15 @@ void _update_range_bounds(void *raw_value, _vfi_argument_data_t *arg,
   const int min_range = arg->min_range;
   const int max_range = arg->max_range;
   if (!(isnan || isinf)) {
-    arg->min_range = (floor < min_range || new_flag) ? floor : min_range;
-    arg->max_range = (ceil > max_range || new_flag) ? ceil : max_range;
+    // bounds are written as integers
+    const int low = (floor < INT_MIN)   ? INT_MIN
+                    : (floor > INT_MAX) ? INT_MAX
+                                        : (int)floor;
+    const int high = (ceil < INT_MIN)   ? INT_MIN
+                     : (ceil > INT_MAX) ? INT_MAX
+                                        : (int)ceil;
+    arg->min_range = (low < min_range || new_flag) ? low : min_range;
+    arg->max_range = (high > max_range || new_flag) ? high : max_range;
   }
 }
 
-- 
2.43.0


From b7e168119c27503d1646b7ca0a5f246f9cc4033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:24 +0000
Subject: [PATCH 37/91] fix: long function names and malformed profiles
 overflowed vprec's buffers

Call sites longer than 511 characters (255 when read from a profile), as
mangled C++ names easily are, argument names above 127 characters, lines
with too many fields, and profiles listing fewer arguments than the
function has were written past the buffers receiving them. The end of the
file was not tested either.
---
 ...interflop_vprec_function_instrumentation.c | 55 +++++++++++++------
 ...interflop_vprec_function_instrumentation.h |  6 +-
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 17b3620..57f83f0 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -45,8 +45,9 @@ static const char key_input_file_str[] = "prec-input-file";
 static const char key_output_file_str[] = "prec-output-file";
 static const char key_log_file_str[] = "prec-log-file";
 
-#define STRING_BUFF 256
-#define LINE_MAX_SIZE 2048
+/* a token is at most as long as its line */
+#define STRING_BUFF 8192
+#define LINE_MAX_SIZE STRING_BUFF
 
 #define INIT_STRING(A, N)                                                      \
   for (int i = 0; i < (N); i++)                                                \
@@ -205,6 +206,17 @@ void _vfi_write_hasmap(FILE *fout, vprec_context_t *ctx) {
   }
 }
 
+/* Helper function copying a string */
+static char *_vfi_copy_string(const char *str) {
+  size_t length = 0;
+  while (str[length] != '\0') {
+    length++;
+  }
+  char *copy = (char *)interflop_malloc(length + 1);
+  interflop_strcpy(copy, str);
+  return copy;
+}
+
 /* Helper function scanning an integer */
 /* return the integer upon success */
 /* otherwise call logger_error  */
@@ -218,15 +230,18 @@ long _vfi_scan_int(char *token, const char *field) {
   }
   return res;
 }
-int _vfi_scan_line(FILE *fi, char **tokens) {
+int _vfi_scan_line(FILE *fi, char **tokens, int max_token) {
   char line[LINE_MAX_SIZE];
-  interflop_fgets(line, LINE_MAX_SIZE, fi);
+  if (interflop_fgets(line, LINE_MAX_SIZE, fi) == NULL) {
+    return 0;
+  }
   char *tabptr = NULL;
   char *token = interflop_strtok_r(line, "\t", &tabptr);
   int nb_token = 0;
-#pragma unroll
   while (token) {
-    interflop_strcpy(tokens[nb_token], token);
+    if (nb_token < max_token) {
+      interflop_strcpy(tokens[nb_token], token);
+    }
     nb_token++;
     token = interflop_strtok_r(NULL, "\t", &tabptr);
   }
@@ -234,12 +249,12 @@ int _vfi_scan_line(FILE *fi, char **tokens) {
 }
 
 int _vfi_scan_header(FILE *fi, _vfi_t *function_ptr) {
-  int nb_token = _vfi_scan_line(fi, tokens_header);
+  int nb_token = _vfi_scan_line(fi, tokens_header, elt_to_read_header);
   if (nb_token != elt_to_read_header) {
     return nb_token;
   }
 
-  interflop_strcpy(function_ptr->id, tokens_header[0]);
+  function_ptr->id = _vfi_copy_string(tokens_header[0]);
   function_ptr->isLibraryFunction =
       (char)_vfi_scan_int(tokens_header[1], "isLibraryFunction");
   function_ptr->isIntrinsicFunction =
@@ -260,11 +275,15 @@ int _vfi_scan_header(FILE *fi, _vfi_t *function_ptr) {
 }
 
 int _vfi_scan_input(FILE *fi, _vfi_t *function_ptr, int arg_pos) {
-  int nb_token = _vfi_scan_line(fi, tokens_inputs);
+  int nb_token = _vfi_scan_line(fi, tokens_inputs, elt_to_read_inputs);
+  if (nb_token != elt_to_read_inputs) {
+    return nb_token;
+  }
+
   _vfi_argument_data_t *arg_data = &function_ptr->input_args[arg_pos];
 
   // tokens[0] == "input:"
-  interflop_strcpy(arg_data->arg_id, tokens_inputs[1]);
+  arg_data->arg_id = _vfi_copy_string(tokens_inputs[1]);
   arg_data->data_type = (short)_vfi_scan_int(tokens_inputs[2], "data_type");
   arg_data->mantissa_length =
       (int)_vfi_scan_int(tokens_inputs[3], "mantissa_length");
@@ -277,11 +296,15 @@ int _vfi_scan_input(FILE *fi, _vfi_t *function_ptr, int arg_pos) {
 }
 
 int _vfi_scan_output(FILE *fi, _vfi_t *function_ptr, int arg_pos) {
-  int nb_token = _vfi_scan_line(fi, tokens_outputs);
+  int nb_token = _vfi_scan_line(fi, tokens_outputs, elt_to_read_outputs);
+  if (nb_token != elt_to_read_outputs) {
+    return nb_token;
+  }
+
   _vfi_argument_data_t *arg_data = &function_ptr->output_args[arg_pos];
 
   // tokens[0] == "output:"
-  interflop_strcpy(arg_data->arg_id, tokens_outputs[1]);
+  arg_data->arg_id = _vfi_copy_string(tokens_outputs[1]);
   arg_data->data_type = (short)_vfi_scan_int(tokens_outputs[2], "data_type");
   arg_data->mantissa_length =
       (int)_vfi_scan_int(tokens_outputs[3], "mantissa_length");
@@ -437,7 +460,7 @@ void _vfi_finalize(void *context) {
 void _init_function_inst_arg(_vfi_argument_data_t *arg, char *arg_id,
                              enum FTYPES type) {
   arg->data_type = type;
-  interflop_strcpy(arg->arg_id, arg_id);
+  arg->arg_id = _vfi_copy_string(arg_id);
   arg->min_range = INT_MAX;
   arg->max_range = INT_MIN;
   arg->exponent_length = (type == FDOUBLE || type == FDOUBLE_PTR)
@@ -626,7 +649,7 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
     function_inst = interflop_malloc(sizeof(_vfi_t));
 
     // initialize the structure
-    interflop_strcpy(function_inst->id, function_info->id);
+    function_inst->id = _vfi_copy_string(function_info->id);
     function_inst->isLibraryFunction = function_info->isLibraryFunction;
     function_inst->isIntrinsicFunction = function_info->isIntrinsicFunction;
     function_inst->useFloat = function_info->useFloat;
@@ -660,7 +683,7 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
   }
 
   // treatment of arguments
-  int new_flag = (function_inst->input_args == NULL && nb_args > 0);
+  int new_flag = (function_inst->nb_input_args != nb_args && nb_args > 0);
 
   // print function info in log
   _vfi_print_log(ctx, "\n");
@@ -784,7 +807,7 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
   }
 
   // treatment of arguments
-  int new_flag = (function_inst->output_args == NULL && nb_args > 0);
+  int new_flag = (function_inst->nb_output_args != nb_args && nb_args > 0);
 
   // print function info in log
   _vfi_print_log(ctx, "exit of %s\t%d\t%d\t%d\t%d\n", function_inst->id,
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
index 548fed5..12590f4 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
@@ -25,8 +25,6 @@
 #include "interflop/interflop.h"
 #include "interflop/interflop_stdlib.h"
 
-#define ARG_ID_MAX_LENGTH 128
-#define FUNCTION_ID_MAX_LENGTH 512
 
 /* define instrumentation modes */
 typedef enum {
@@ -40,7 +38,7 @@ typedef enum {
 // Metadata of arguments
 typedef struct _vprec_argument_data {
   // Identifier of the argument
-  char arg_id[ARG_ID_MAX_LENGTH];
+  char *arg_id;
   // Data type of the argument 0 is float and 1 is double
   short data_type;
   // Minimum rounded value of the argument
@@ -56,7 +54,7 @@ typedef struct _vprec_argument_data {
 // Metadata of function calls
 typedef struct _vprec_function_instrumentation {
   // Id of the function
-  char id[FUNCTION_ID_MAX_LENGTH];
+  char *id;
   // Indicate if the function is from library
   char isLibraryFunction;
   // Indicate if the function is intrinsic
-- 
2.43.0


From 81e089629636b6c9c995cd8c4a77b04dfa8c5006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:43 +0000
Subject: [PATCH 38/91] fix: infinities and NaNs were recorded as bounds in
 vprec profiles

---
 src/interflop-stdlib/interflop_stdlib.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interflop-stdlib/interflop_stdlib.c b/src/interflop-stdlib/interflop_stdlib.c
index 3b9e312..1ee77a7 100644
--- a/src/interflop-stdlib/interflop_stdlib.c
+++ b/src/interflop-stdlib/interflop_stdlib.c
@@ -142,9 +142,9 @@ float interflop_fpclassifyf(float x) {
   int mant = u.i & FLOAT_GET_PMAN;
   if (exp == 0 && mant == 0) {
     return IFP_ZERO;
-  } else if (exp == FLOAT_EXP_MAX && mant == 0) {
+  } else if (exp == FLOAT_GET_EXP && mant == 0) {
     return IFP_INFINITE;
-  } else if (exp == FLOAT_EXP_MAX && mant != 0) {
+  } else if (exp == FLOAT_GET_EXP && mant != 0) {
     return IFP_NAN;
   } else if (exp == 0 && mant != 0) {
     return IFP_SUBNORMAL;
@@ -159,9 +159,9 @@ double interflop_fpclassifyd(double x) {
   long mant = u.i & DOUBLE_GET_PMAN;
   if (exp == 0 && mant == 0) {
     return IFP_ZERO;
-  } else if (exp == FLOAT_EXP_MAX && mant == 0) {
+  } else if (exp == (long)DOUBLE_GET_EXP && mant == 0) {
     return IFP_INFINITE;
-  } else if (exp == FLOAT_EXP_MAX && mant != 0) {
+  } else if (exp == (long)DOUBLE_GET_EXP && mant != 0) {
     return IFP_NAN;
   } else if (exp == 0 && mant != 0) {
     return IFP_SUBNORMAL;
-- 
2.43.0


From 39b6a4e2a9b2df99418a8f27003c677ed4639df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:43 +0000
Subject: [PATCH 39/91] fix: vprec crashed when a function was left by an
 exception or a longjmp

---
 ...interflop_vprec_function_instrumentation.c | 20 +++++++++++++------
 ...interflop_vprec_function_instrumentation.h |  1 +
 src/vfcwrapper/funcinstr.c                    | 13 +++++++++++-
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 57f83f0..8835da8 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -597,7 +597,8 @@ static int _vfi_sets_operations(const interflop_function_info_t *function_info,
 }
 
 // Save the precision of the operations of the caller
-static void _vfi_save_settings(vprec_context_t *ctx) {
+static void _vfi_save_settings(vprec_context_t *ctx,
+                               const interflop_function_stack_t *stack) {
   t_context_vfi *vfi = ctx->vfi;
   if (vfi->nb_saved == vfi->max_saved) {
     const ISize_t max_saved = 2 * vfi->max_saved + 64;
@@ -614,12 +615,19 @@ static void _vfi_save_settings(vprec_context_t *ctx) {
   }
   vfi->saved[vfi->nb_saved++] = (struct vfi_settings){
       ctx->binary64_precision, ctx->binary64_range, ctx->binary32_precision,
-      ctx->binary32_range};
+      ctx->binary32_range, stack->top};
 }
 
 // Restore the precision of the operations of the caller
-static void _vfi_restore_settings(vprec_context_t *ctx) {
-  if (ctx->vfi->nb_saved == 0) {
+static void _vfi_restore_settings(vprec_context_t *ctx,
+                                  const interflop_function_stack_t *stack) {
+  // forget the calls left by an exception or a longjmp
+  while (ctx->vfi->nb_saved > 0 &&
+         ctx->vfi->saved[ctx->vfi->nb_saved - 1].top < stack->top) {
+    ctx->vfi->nb_saved--;
+  }
+  if (ctx->vfi->nb_saved == 0 ||
+      ctx->vfi->saved[ctx->vfi->nb_saved - 1].top != stack->top) {
     return;
   }
   const struct vfi_settings *saved = &ctx->vfi->saved[--ctx->vfi->nb_saved];
@@ -675,7 +683,7 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
 
   // set internal operations precision with custom values depending on the mode
   if (_vfi_sets_operations(function_info, ctx)) {
-    _vfi_save_settings(ctx);
+    _vfi_save_settings(ctx, stack);
     _set_vprec_precision_binary64(function_inst->OpsPrec64, ctx);
     _set_vprec_range_binary64(function_inst->OpsRange64, ctx);
     _set_vprec_precision_binary32(function_inst->OpsPrec32, ctx);
@@ -803,7 +811,7 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
 
   // set internal operations precision back to the values of the caller
   if (_vfi_sets_operations(function_info, ctx)) {
-    _vfi_restore_settings(ctx);
+    _vfi_restore_settings(ctx, stack);
   }
 
   // treatment of arguments
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
index 12590f4..c7d56e1 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
@@ -100,6 +100,7 @@ typedef struct {
     int range_binary64;
     int precision_binary32;
     int range_binary32;
+    long int top;
   } *saved;
   ISize_t nb_saved;
   ISize_t max_saved;
diff --git a/src/vfcwrapper/funcinstr.c b/src/vfcwrapper/funcinstr.c
index c76e7ba..281b806 100644
--- a/src/vfcwrapper/funcinstr.c
+++ b/src/vfcwrapper/funcinstr.c
@@ -154,11 +154,22 @@ void vfc_enter_function(char *func_name, char isLibraryFunction,
 }
 
 // Function called after each function's call of the code
-void vfc_exit_function(__attribute__((unused)) char *func_name,
+void vfc_exit_function(char *func_name,
                        __attribute__((unused)) char isLibraryFunction,
                        __attribute__((unused)) char isIntrinsicFunction,
                        char useFloat, char useDouble, int n, ...) {
 
+  // Calls left by an exception or a longjmp are still in the stack
+  interflop_function_info_t *function = vfc_func_table_get(func_name);
+  long int top = _vfc_call_stack.top;
+  while (top < _VFC_CALL_STACK_MAXSIZE && _vfc_call_stack.array[top] != function)
+    top++;
+
+  if (top < _VFC_CALL_STACK_MAXSIZE)
+    _vfc_call_stack.top = top;
+  else
+    vfc_call_stack_push(function);
+
   if ((useFloat != 0) || (useDouble != 0)) {
     va_list ap;
 
-- 
2.43.0


From 1b93fc07aa50f06ca157a83b464a1bd4459f0e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:28 +0000
Subject: [PATCH 40/91] fix: a delta-debug search could not be resumed after an
 interruption

---
 src/tools/ddebug/DD_stoch.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/tools/ddebug/DD_stoch.py b/src/tools/ddebug/DD_stoch.py
index 7b7c2e5..05c3f69 100644
--- a/src/tools/ddebug/DD_stoch.py
+++ b/src/tools/ddebug/DD_stoch.py
@@ -60,6 +60,9 @@ class InterflopTask:
         return os.path.join(self.dirname, "dd.run%i" % (i+1))
 
     def mkdir(self, i):
+        # an interrupted search may have left the directory of a run
+        # without its result
+        shutil.rmtree(self.nameDir(i), ignore_errors=True)
         os.mkdir(self.nameDir(i))
 
     def rmdir(self, i):
@@ -95,8 +98,12 @@ class InterflopTask:
             self.dirname) if runDir.startswith("dd.run")]
         done = []
         for runDir in listOfDir:
-            status = int(
-                (open(os.path.join(self.dirname, runDir, "returnVal")).readline()))
+            try:
+                with open(os.path.join(self.dirname, runDir, "returnVal")) as f:
+                    status = int(f.readline())
+            except (OSError, ValueError):
+                # run interrupted before its result was recorded
+                continue
             if status != 0:
                 return None
             done += [runDir]
@@ -140,11 +147,10 @@ class InterflopTask:
         for run in workToDo:
             self.mkdir(run)
             self.runOneSample(run)
-        for run in workToDo:
-            retVal = self.cmpOneSample(run)
-
-            if retVal == "FAIL":
-                return self.FAIL
+        # all the runs are started: record the result of each of them
+        results = [self.cmpOneSample(run) for run in workToDo]
+        if self.FAIL in results:
+            return self.FAIL
 
         return self.PASS
 
@@ -548,10 +554,9 @@ class DDStoch(DD.DD):
             nbRun = self.config_.get_nbRUN()
 
         dirname = os.path.join(self.prefix_, md5Name(deltas))
-        if not os.path.exists(dirname):
-            os.makedirs(dirname)
-            self.genExcludeIncludeFile(
-                dirname, deltas, include=True, exclude=True)
+        os.makedirs(dirname, exist_ok=True)
+        self.genExcludeIncludeFile(
+            dirname, deltas, include=True, exclude=True)
 
         vT = InterflopTask(dirname, self.ref_, self.run_, self.compare_,
                            nbRun, self.config_.get_maxNbPROC(), self.sampleRunEnv(dirname))
-- 
2.43.0


From a7dee65b219b8489e65e3a72f0ef9a9db65fa359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:28 +0000
Subject: [PATCH 41/91] fix: the error message of an unstable delta-debug
 search raised a NameError

---
 src/tools/ddebug/DD_stoch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/ddebug/DD_stoch.py b/src/tools/ddebug/DD_stoch.py
index 05c3f69..e76234d 100644
--- a/src/tools/ddebug/DD_stoch.py
+++ b/src/tools/ddebug/DD_stoch.py
@@ -510,7 +510,7 @@ class DDStoch(DD.DD):
         print(
             "\t3) set the env variable INTERFLOP_DD_UNSAFE : be careful it is realy unsafe")
 
-        dirname = md5Name(delta)
+        dirname = md5Name(deltas)
         print("Directory to analyze: %s" % dirname)
         failure()
 
-- 
2.43.0


From cb918653d2ffabca1d765457aeaf8e8b367f79e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:48 +0000
Subject: [PATCH 42/91] fix: integer values of DD_DICHO_TAB were refused

---
 src/tools/ddebug/dd_config.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools/ddebug/dd_config.py b/src/tools/ddebug/dd_config.py
index 6424bbe..6adcbf8 100644
--- a/src/tools/ddebug/dd_config.py
+++ b/src/tools/ddebug/dd_config.py
@@ -117,10 +117,10 @@ class ddConfig:
             else:
                 if value in acceptedValue:
                     exec("self." + attribut + "= value")
-                elif conv_type == "string/int":
+                elif conv_type == "int/string":
                     try:
-                        exec("self." + attribut + "= int(value)")
-                    except Exception:
+                        value = int(value)
+                    except ValueError:
                         print(
                             "Error : "
                             + self.PREFIX
@@ -130,6 +130,7 @@ class ddConfig:
                             + str(acceptedValue)
                             + " or be a int value"
                         )
+                        self.failure()
                 else:
                     print(
                         "Error : "
@@ -187,7 +188,7 @@ class ddConfig:
             splitTab = [self.nbRUN]
         if self.param_dicho_tab == "half":
             splitTab = [int(math.ceil(self.nbRUN / 2.0))]
-        if self.param_dicho_tab in [str(i) for i in range(1, self.nbRUN + 1)]:
+        if isinstance(self.param_dicho_tab, int):
             splitTab = [self.param_dicho_tab]
         return splitTab
 
-- 
2.43.0


From 2e72bc0607aed194d0494b7892100ad1bc56ceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:57 +0000
Subject: [PATCH 43/91] fix: sites executed by several threads could be lost in
 the delta-debug list

---
 src/vfcwrapper/main.c.in | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index c894f1c..d8984e0 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -25,6 +25,7 @@
 #include <fcntl.h>
 #include <math.h>
 #include <printf.h>
+#include <sched.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -573,6 +574,16 @@ __attribute__((constructor(0))) static void vfc_init(void) {
 
 /* Arithmetic wrappers */
 #ifdef DDEBUG
+/* Record an executed site, several threads may do it at the same time */
+char dd_generate_lock = 0;
+static void ddebug_generate_site(void *addr) {
+  while (__atomic_test_and_set(&dd_generate_lock, __ATOMIC_ACQUIRE)) {
+    sched_yield();
+  }
+  vfc_hashmap_insert(dd_must_instrument, (size_t)addr, addr);
+  __atomic_clear(&dd_generate_lock, __ATOMIC_RELEASE);
+}
+
 /* When delta-debug run flags are passed, check filter rules,
  *  - exclude rules are applied first and have priority
  * */
@@ -589,7 +600,7 @@ __attribute__((constructor(0))) static void vfc_init(void) {
       return operation;                                                        \
     }                                                                          \
   } else if (dd_generate_path) {                                               \
-    vfc_hashmap_insert(dd_must_instrument, (size_t)addr, addr);                \
+    ddebug_generate_site(addr);                                                \
   }
 
 #else
-- 
2.43.0


From 658de76d69bac0437374daa129e90627084ceb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:22 +0000
Subject: [PATCH 44/91] fix: a relative check of a probe with a null mean or
 reference ended the CI run

---
 src/tools/ci/test_data_processing.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/tools/ci/test_data_processing.py b/src/tools/ci/test_data_processing.py
index 4427122..d3ca801 100644
--- a/src/tools/ci/test_data_processing.py
+++ b/src/tools/ci/test_data_processing.py
@@ -97,6 +97,16 @@ def significant_digits_lower_bound(x):
         return s[0]
 
 
+def relative(error, reference):
+    """
+    Error relative to the reference (infinite or NaN, which fail any check, if
+    the reference is null)
+    """
+
+    with np.errstate(divide="ignore", invalid="ignore"):
+        return np.absolute(np.divide(error, reference))
+
+
 def apply_data_pocessing(data):
     """
     This function computes most test metrics (mu, sigma, quantiles, ...).
@@ -125,7 +135,7 @@ def apply_data_pocessing(data):
     elif data["check_mode"] == "relative":
         data["check"] = (
             True
-            if abs(data["sigma"] / data["mu"]) < abs(data["accuracy_threshold"])
+            if relative(data["sigma"], data["mu"]) < abs(data["accuracy_threshold"])
             else False
         )
 
@@ -177,7 +187,7 @@ def validate_deterministic_probe(x):
     if x["check_mode"] == "relative":
         return (
             True
-            if abs(x["value"] - x["reference_value"]) / abs(x["reference_value"])
+            if relative(x["value"] - x["reference_value"], x["reference_value"])
             < abs(x["accuracy_threshold"])
             else False
         )
-- 
2.43.0


From d1707bbcae08aa652e35d7f8a3492bf14d86876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:22 +0000
Subject: [PATCH 45/91] fix: CI probes named like numbers or missing values, or
 with non-finite values, were lost or ended the run

---
 src/tools/ci/test.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index 75aa76c..55183b0 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -22,6 +22,7 @@
 # It will also generate a ... .vfcrunh5 file with the results of the run
 
 import calendar
+import csv
 import json
 import os
 
@@ -53,7 +54,11 @@ def read_probes_csv(filepath, warnings, execution_data):
     """Read a CSV file outputted by vfc_probe as a Pandas dataframe"""
 
     try:
-        results = pd.read_csv(filepath)
+        # The names are kept as they are, even if they look like numbers or
+        # missing values, and the values are hexadecimal strings
+        results = pd.read_csv(
+            filepath, dtype=str, keep_default_na=False, quoting=csv.QUOTE_NONE
+        )
 
     except FileNotFoundError:
         print(
-- 
2.43.0


From b5e42a8beead328d5812cc3cd26e8282fff29d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:22 +0000
Subject: [PATCH 46/91] fix: CI checks of deterministic backends used the
 reference of another probe, or none

---
 src/tools/ci/test.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index 55183b0..4838be5 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -255,7 +255,7 @@ def run_deterministic(command, executable, backend, deterministic_data, warnings
     run_data["check_mode"] = run_checks_data["check_mode"]
 
     # If checks are detected, do a reference run (with IEEE backend)
-    if run_data["accuracy_threshold"].sum() != 0:
+    if (run_data["check_mode"] != "none").any():
         temp.close()
 
         os.putenv("VFC_BACKENDS", "libinterflop_ieee.so")
@@ -279,7 +279,13 @@ def run_deterministic(command, executable, backend, deterministic_data, warnings
 
         reference_run_data = read_probes_csv(temp.name, warnings, execution_data)[0]
 
-        run_data["reference_value"] = reference_run_data["values"]
+        # The probes may come in another order, or be missing
+        reference_run_data.rename(columns={"values": "reference_value"}, inplace=True)
+        run_data = run_data.merge(
+            reference_run_data[["test", "variable", "reference_value"]],
+            on=["test", "variable"],
+            how="left",
+        )
         run_data["check"] = run_data.apply(
             lambda x: validate_deterministic_probe(x), axis=1
         )
-- 
2.43.0


From 445b8057320eb33fa70d05a1d78984a5643f71bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:31 +0000
Subject: [PATCH 47/91] fix: options with something else than a number were
 taken for one

---
 src/vfcwrapper/main.c.in | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index d8984e0..07cd2a8 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -311,11 +311,17 @@ void parse_vfc_backends_env(char **vfc_backends, char **vfc_backends_env) {
   }
 }
 
+/* Returns true if no number starts str or if something other than spaces
+ * follows it */
+static int _vfc_invalid_number(const char *str, const char *end) {
+  return end == str || end[strspn(end, " \t\r\n")] != '\0';
+}
+
 long _vfc_strtol(const char *nptr, char **endptr, int *error) {
   *error = 0;
   errno = 0;
   long val = strtoll(nptr, endptr, 10);
-  if (errno != 0) {
+  if (errno != 0 || _vfc_invalid_number(nptr, *endptr)) {
     *error = 1;
   }
   return val;
@@ -325,7 +331,7 @@ double _vfc_strtod(const char *nptr, char **endptr, int *error) {
   *error = 0;
   errno = 0;
   double val = strtod(nptr, endptr);
-  if (errno != 0) {
+  if (errno != 0 || _vfc_invalid_number(nptr, *endptr)) {
     *error = 1;
   }
   return val;
-- 
2.43.0


From d68d23940793a91de8597714e704ab43c6724f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:31 +0000
Subject: [PATCH 48/91] fix: a positional argument was taken for the binary32
 precision

---
 src/backends/interflop-backend-bitmask/interflop_bitmask.c | 2 +-
 src/backends/interflop-backend-mcaint/interflop_mca_int.c  | 2 +-
 src/backends/interflop-backend-mcaquad/interflop_mca.c     | 2 +-
 src/backends/interflop-backend-vprec/interflop_vprec.h     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.c b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
index b5cebec..df41be1 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.c
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
@@ -57,7 +57,7 @@
 #endif
 
 typedef enum {
-  KEY_PREC_B32,
+  KEY_PREC_B32 = 1, /* 0 is the key of positional arguments */
   KEY_PREC_B64,
   KEY_MODE = 'm',
   KEY_OPERATOR = 'o',
diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index 9ed65d5..5d5296b 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -52,7 +52,7 @@
 #endif
 
 typedef enum {
-  KEY_PREC_B32,
+  KEY_PREC_B32 = 1, /* 0 is the key of positional arguments */
   KEY_PREC_B64,
   KEY_ERR_EXP,
   KEY_MODE = 'm',
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index 1ea504b..2d0f318 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -89,7 +89,7 @@ static const char backend_name[] = "interflop-mcaquad";
 static const char backend_version[] = "1.x-dev";
 
 typedef enum {
-  KEY_PREC_B32,
+  KEY_PREC_B32 = 1, /* 0 is the key of positional arguments */
   KEY_PREC_B64,
   KEY_ERR_EXP,
   KEY_MODE = 'm',
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec.h b/src/backends/interflop-backend-vprec/interflop_vprec.h
index 8faab94..399607c 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec.h
+++ b/src/backends/interflop-backend-vprec/interflop_vprec.h
@@ -52,7 +52,7 @@
 #define VPREC_ERR_MODE_DEFAULT vprec_err_mode_rel
 
 typedef enum {
-  KEY_PREC_B32,
+  KEY_PREC_B32 = 1, /* 0 is the key of positional arguments */
   KEY_PREC_B64,
   KEY_RANGE_B32,
   KEY_RANGE_B64,
-- 
2.43.0


From 81d96401419fe5ae0ed8be4d137cd25b6429e8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:31 +0000
Subject: [PATCH 49/91] fix: a noise or error exponent beyond the format
 wrapped around

---
 .../interflop-backend-mcaquad/interflop_mca.c | 28 ++++++++++++++-----
 .../interflop-backend-vprec/interflop_vprec.c | 16 +++++++----
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index 2d0f318..110df86 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -271,15 +271,22 @@ static const char *_get_error_mode_str(mcaquad_context_t *ctx) {
 /* is comprised between: */
 /* 127+127 = 254 < DOUBLE_EXP_MAX (1023)  */
 /* -126-24+-126-24 = -300 > DOUBLE_EXP_MIN (-1022) */
-double _noise_binary64(int exp, rng_state_t *rng_state);
-inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
+double _noise_binary64(int64_t exp, rng_state_t *rng_state);
+inline double _noise_binary64(const int64_t exp, rng_state_t *rng_state) {
   const double d_rand = get_rand_double01(rng_state, &mcaquad_global_tid) - 0.5;
   /* zero has no exponent to scale */
   if (d_rand == 0) {
     return 0;
   }
   binary64 b64 = {.f64 = d_rand};
-  b64.ieee.exponent = b64.ieee.exponent + exp;
+  const int64_t exponent = b64.ieee.exponent + exp;
+  if (exponent <= 0) {
+    return 0;
+  }
+  if (exponent >= DOUBLE_EXP_INF) {
+    return (d_rand < 0) ? -INFINITY : INFINITY;
+  }
+  b64.ieee.exponent = exponent;
   return b64.f64;
 }
 
@@ -289,7 +296,7 @@ inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
 /* is comprised between: */
 /* 1023+1023 = 2046 < QUAD_EXP_MAX (16383)  */
 /* -1022-53+-1022-53 = -2200 > QUAD_EXP_MIN (-16382) */
-_Float128 _noise_binary128(const int exp, rng_state_t *rng_state) {
+_Float128 _noise_binary128(const int64_t exp, rng_state_t *rng_state) {
   /* random number in (-0.5, 0.5) */
   const _Float128 noise =
       (_Float128)get_rand_double01(rng_state, &mcaquad_global_tid) - 0.5Q;
@@ -298,7 +305,14 @@ _Float128 _noise_binary128(const int exp, rng_state_t *rng_state) {
     return 0;
   }
   binary128 b128 = {.f128 = noise};
-  b128.ieee128.exponent = b128.ieee128.exponent + exp;
+  const int64_t exponent = b128.ieee128.exponent + exp;
+  if (exponent <= 0) {
+    return 0;
+  }
+  if (exponent >= QUAD_EXP_INF) {
+    return (noise < 0) ? -INFINITY : INFINITY;
+  }
+  b128.ieee128.exponent = exponent;
   return b128.f128;
 }
 
@@ -337,7 +351,7 @@ _Float128 _noise_binary128(const int exp, rng_state_t *rng_state) {
     _init_rng_state_struct(&(RNG_STATE), TMP_CTX->choose_seed,                 \
                            (unsigned long long)(TMP_CTX->seed), false);        \
     const int32_t e_a = GET_EXP_FLT(*(X));                                     \
-    const int32_t e_n_rel = e_a - ((VIRTUAL_PRECISION) - 1);                   \
+    const int64_t e_n_rel = (int64_t)e_a - ((VIRTUAL_PRECISION) - 1);          \
     const typeof(*X) noise_rel = _NOISE(*X, e_n_rel, &(RNG_STATE));            \
     *X = *X + noise_rel;                                                       \
   }
@@ -358,7 +372,7 @@ _Float128 _noise_binary128(const int exp, rng_state_t *rng_state) {
     }                                                                          \
     if (TMP_CTX->relErr) {                                                     \
       const int32_t e_a = GET_EXP_FLT(*(X));                                   \
-      const int32_t e_n_rel = e_a - ((VIRTUAL_PRECISION) - 1);                 \
+      const int64_t e_n_rel = (int64_t)e_a - ((VIRTUAL_PRECISION) - 1);        \
       const typeof(*(X)) noise_rel = _NOISE(*(X), e_n_rel, &(RNG_STATE));      \
       *(X) += noise_rel;                                                       \
     }                                                                          \
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec.c b/src/backends/interflop-backend-vprec/interflop_vprec.c
index d79eed3..4b35ee0 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec.c
@@ -249,10 +249,12 @@ void _set_vprec_ftz(bool ftz, vprec_context_t *ctx) { ctx->ftz = ftz; }
  ***************************************************************/
 extern int compute_absErr_vprec_binary32(bool isDenormal,
                                          vprec_context_t *currentContext,
-                                         int expDiff, int binary32_precision);
+                                         int64_t expDiff,
+                                         int binary32_precision);
 inline int compute_absErr_vprec_binary32(bool isDenormal,
                                          vprec_context_t *currentContext,
-                                         int expDiff, int binary32_precision) {
+                                         int64_t expDiff,
+                                         int binary32_precision) {
   /* this function is used only when in vprec error mode abs and all,
    * so there is no need to handle vprec error mode rel */
   if (isDenormal == true) {
@@ -280,10 +282,12 @@ inline int compute_absErr_vprec_binary32(bool isDenormal,
 }
 extern int compute_absErr_vprec_binary64(bool isDenormal,
                                          vprec_context_t *currentContext,
-                                         int expDiff, int binary64_precision);
+                                         int64_t expDiff,
+                                         int binary64_precision);
 inline int compute_absErr_vprec_binary64(bool isDenormal,
                                          vprec_context_t *currentContext,
-                                         int expDiff, int binary64_precision) {
+                                         int64_t expDiff,
+                                         int binary64_precision) {
   /* this function is used only when in vprec error mode abs and all,
    * so there is no need to handle vprec error mode rel */
   if (isDenormal == true) {
@@ -319,7 +323,7 @@ inline float handle_binary32_normal_absErr(float a, int32_t aexp,
                                            int binary32_precision,
                                            vprec_context_t *currentContext) {
   /* absolute error mode, or both absolute and relative error modes */
-  int expDiff = aexp - currentContext->absErr_exp;
+  int64_t expDiff = (int64_t)aexp - currentContext->absErr_exp;
   float retVal = NAN;
 
   if (expDiff < -1) {
@@ -363,7 +367,7 @@ inline double handle_binary64_normal_absErr(double a, int64_t aexp,
   } else {
     /* normal case for the absolute error mode */
     int binary64_precision_adjusted = compute_absErr_vprec_binary64(
-        false, currentContext, (int)expDiff, binary64_precision);
+        false, currentContext, expDiff, binary64_precision);
     retVal = round_binary64_normal(a, binary64_precision_adjusted);
   }
 
-- 
2.43.0


From 413bbda3535c34bef901dede8498c0b8aaa20656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:31 +0000
Subject: [PATCH 50/91] fix: the help listed a vprec preset that does not exist

---
 src/backends/interflop-backend-vprec/interflop_vprec.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec.c b/src/backends/interflop-backend-vprec/interflop_vprec.c
index 4b35ee0..b9f3347 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec.c
@@ -204,7 +204,7 @@ static vprec_preset_precision _get_vprec_preset_precision(vprec_preset preset) {
     return vprec_preset_precision_PXR24;
   default:
     logger_error("invalid preset provided, must be one of: "
-                 "{binary16, binary32, binary64, bfloat16, tensorfloat, "
+                 "{binary16, binary32, bfloat16, tensorfloat, "
                  "fp24, PXR24}");
     return _vprec_preset_precision_end_;
   }
@@ -226,7 +226,7 @@ static vprec_preset_range _get_vprec_preset_range(vprec_preset preset) {
     return vprec_preset_range_PXR24;
   default:
     logger_error("invalid preset provided, must be one of: "
-                 "{binary16, binary32, binary64, bfloat16, tensorfloat, "
+                 "{binary16, binary32, bfloat16, tensorfloat, "
                  "fp24, PXR24}");
     return _vprec_preset_range_end_;
   }
@@ -875,7 +875,7 @@ static const struct argp_option options[] = {
     {key_range_b64_str, KEY_RANGE_B64, "RANGE", 0,
      "select range for binary64 (0 < RANGE && RANGE <= 11)", 0},
     {key_preset_str, KEY_PRESET, "PRESET", 0,
-     "select a default PRESET setting among {binary16, binary32, binary64, "
+     "select a default PRESET setting among {binary16, binary32, "
      "bfloat16, tensorfloat, fp24, PXR24}\n"
      "Format (range, precision) : "
      "binary16 (5, 10), binary32 (8, 23), "
@@ -1047,7 +1047,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
       range = vprec_preset_range_PXR24;
     } else {
       logger_error("--%s invalid preset provided, must be one of: "
-                   "{binary16, binary32, binary64, bfloat16, tensorfloat, "
+                   "{binary16, binary32, bfloat16, tensorfloat, "
                    "fp24, PXR24}",
                    key_preset_str);
       break;
-- 
2.43.0


From d9dfcbd1503a7f5dc2053e23a0b5cfe4512c5610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:31 +0000
Subject: [PATCH 51/91] fix: settings beyond an int were truncated, and
 sparsities above 1 or NaN accepted

---
 .../interflop_bitmask.c                         |  9 +++++----
 .../interflop_cancellation.c                    |  5 +++--
 .../interflop_mca_int.c                         |  8 ++++----
 .../interflop-backend-mcaquad/interflop_mca.c   | 17 +++++++++--------
 .../interflop-backend-vprec/interflop_vprec.c   | 13 +++++++------
 5 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.c b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
index df41be1..875facc 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.c
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
@@ -27,6 +27,7 @@
 
 #include <argp.h>
 #include <err.h>
+#include <limits.h>
 #include <math.h>
 #include <mpfr.h>
 #include <stdbool.h>
@@ -550,8 +551,8 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision for binary32 */
     error = 0;
-    int val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    long val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid "
                    "value provided, must be a "
                    "positive integer.",
@@ -563,8 +564,8 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B64:
     /* precision for binary64 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid "
                    "value provided, must be a "
                    "positive integer.",
diff --git a/src/backends/interflop-backend-cancellation/interflop_cancellation.c b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
index 7f41dbb..f05dbe4 100644
--- a/src/backends/interflop-backend-cancellation/interflop_cancellation.c
+++ b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
@@ -27,6 +27,7 @@
 
 #include <argp.h>
 #include <err.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -222,8 +223,8 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_TOLERANCE:
     /* tolerance */
     error = 0;
-    int val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val < 0) {
+    long val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val < 0 || val > INT_MAX) {
       logger_error("--tolerance invalid value provided, must be a"
                    "positive integer.");
     } else {
diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index 5d5296b..e144b38 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -658,7 +658,7 @@ static const struct argp_option options[] = {
 static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   mcaint_context_t *ctx = (mcaint_context_t *)state->input;
   char *endptr = NULL;
-  int val = -1;
+  long val = -1;
   int error = 0;
   float sparsity = -1;
   uint64_t seed = -1;
@@ -666,7 +666,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision for binary32 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val != MCAINT_PRECISION_BINARY32_DEFAULT) {
       logger_error("--%s invalid value provided, MCA integer does not support "
                    "custom precisions",
@@ -677,7 +677,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B64:
     /* precision for binary64 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val != MCAINT_PRECISION_BINARY64_DEFAULT) {
       logger_error("--%s invalid value provided, MCA integer does not support "
                    "custom precisions",
@@ -726,7 +726,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
     /* sparse perturbations */
     error = 0;
     sparsity = (float)interflop_strtod(arg, &endptr, &error);
-    if (sparsity <= 0 || sparsity > 1) {
+    if (!(sparsity > 0 && sparsity <= 1)) {
       error = 1;
     }
     if (error != 0) {
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index 110df86..b554316 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -58,6 +58,7 @@
 
 #include <argp.h>
 #include <err.h>
+#include <limits.h>
 #include <math.h>
 #include <pthread.h>
 #include <stdbool.h>
@@ -802,7 +803,7 @@ static const struct argp_option options[] = {
 static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   mcaquad_context_t *ctx = (mcaquad_context_t *)state->input;
   char *endptr = NULL;
-  int val = -1;
+  long val = -1;
   int error = 0;
   float sparsity = MCAQUAD_SPARSITY_DEFAULT;
   uint64_t seed = MCAQUAD_SEED_DEFAULT;
@@ -811,8 +812,8 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision for binary32 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid value provided, must be a positive integer",
                    key_prec_b32_str);
     } else {
@@ -822,8 +823,8 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B64:
     /* precision for binary64 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid value provided, must be a positive integer",
                    key_prec_b64_str);
     } else {
@@ -870,7 +871,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
     /* exponent of the maximum absolute error */
     error = 0;
     exponent_error = interflop_strtol(arg, &endptr, &error);
-    if (error != 0) {
+    if (error != 0 || exponent_error < INT_MIN || exponent_error > INT_MAX) {
       logger_error("--%s invalid value provided, must be an integer",
                    key_err_exp_str);
     }
@@ -898,11 +899,11 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
     /* sparse perturbations */
     error = 0;
     sparsity = (float)interflop_strtod(arg, &endptr, &error);
-    if (sparsity <= 0) {
+    if (!(sparsity > 0 && sparsity <= 1)) {
       error = 1;
     }
     if (error != 0) {
-      logger_error("--%s invalid value provided, must be positive",
+      logger_error("--%s invalid value provided, must be in (0, 1]",
                    key_sparsity_str);
     }
     _set_mcaquad_sparsity(sparsity, ctx);
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec.c b/src/backends/interflop-backend-vprec/interflop_vprec.c
index b9f3347..8e35daa 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec.c
@@ -26,6 +26,7 @@
 //
 
 #include <argp.h>
+#include <limits.h>
 #include <math.h>
 
 #include "common/vprec_tools.h"
@@ -898,7 +899,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   vprec_context_t *ctx = (vprec_context_t *)state->input;
   state->child_inputs[0] = ctx;
   char *endptr = NULL;
-  int val = -1;
+  long val = -1;
   int precision = 0;
   int range = 0;
   int error = 0;
@@ -907,7 +908,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_PRECISION_BINARY32_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
@@ -923,7 +924,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B64:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_PRECISION_BINARY64_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
@@ -939,7 +940,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_RANGE_B32:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_RANGE_BINARY32_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
@@ -955,7 +956,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_RANGE_B64:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_RANGE_BINARY64_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
@@ -1005,7 +1006,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
     /* exponent of the maximum absolute error */
     error = 0;
     long exp = interflop_strtol(arg, &endptr, &error);
-    if (error != 0) {
+    if (error != 0 || exp < INT_MIN || exp > INT_MAX) {
       logger_error("--%s invalid value provided, must be an integer",
                    key_err_exp_str);
     } else {
-- 
2.43.0


From 5ef434b2b77885776fea708065cd6c520a227916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 52/91] fix: driver: -MD and -MMD named the dependency file and
 target after temporary files, -M and -MM failed

---
 verificarlo.in.in | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index c0fb8d2..bddca59 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -327,6 +327,21 @@ def apply_mca_instrumentation_pass(
     )
 
 
+def get_dependency_options(options, object_file):
+    """name the dependency file and its target after the object file, which is
+    not the file written by the compiler"""
+    given = shlex.split(options)
+    if "-MD" not in given and "-MMD" not in given:
+        return ""
+    dependencies = ""
+    if not any(o.startswith("-MF") for o in given):
+        name = os.path.splitext(object_file)[0] + ".d"
+        dependencies += f" -MF {shell_escape(name)}"
+    if not any(o.startswith(("-MT", "-MQ")) for o in given):
+        dependencies += f" -MQ {shell_escape(object_file)}"
+    return dependencies
+
+
 def compiler_mode(sources, options, output, args):
     extra_args = "-static " if args.static else "-fPIC "
     ir_ext = "ll" if args.emit_llvm or args.save_temps else "bc"
@@ -355,10 +370,12 @@ def compiler_mode(sources, options, output, args):
             compile_only([source], " -c " + options, basename_output, args)
             continue
 
+        dependencies = get_dependency_options(options, args.o if output else object_file)
+
         # Compile to ir (fortran uses flang, c uses clang)
         emit_format = get_emit_format(args)
         shell(
-            f"{compiler} -c {emit_format} -emit-llvm {debug} {shell_escape(source)} {include} {COMPILE_EXTRA_FLAGS} {options} -o {shell_escape(ir.name)}",
+            f"{compiler} -c {emit_format} -emit-llvm {debug} {shell_escape(source)} {include} {COMPILE_EXTRA_FLAGS} {options} {dependencies} -o {shell_escape(ir.name)}",
             verbose=args.show_cmd,
         )
 
@@ -512,9 +529,13 @@ def parse_args():
 
     args, other = parser.parse_known_args(argv)
 
-    sources, llvm_options, libraries = parse_extra_args(other)
+    # -M and -MM print the dependencies instead of compiling
+    if "-M" in other or "-MM" in other:
+        args.E = True
+
+    sources, llvm_options, link_options = parse_extra_args(other)
 
-    return args, sources, llvm_options, libraries
+    return args, sources, llvm_options, link_options
 
 
 def main():
-- 
2.43.0


From 9cbcc30e6324e308813f4239016aec118ec2e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 53/91] fix: driver: -c dir/a.c wrote dir/a.o instead of ./a.o

---
 verificarlo.in.in | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index bddca59..4445b1c 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -354,6 +354,8 @@ def compiler_mode(sources, options, output, args):
 
     for source in sources:
         basename = os.path.splitext(source)[0]
+        # as other compilers do, -c writes in the current directory
+        object_file = (os.path.basename(basename) if args.c else basename) + ".o"
         ir = get_tmp_filename(basename, f".1.{ir_ext}", args)
         ins = get_tmp_filename(basename, f".2.{ir_ext}", args)
 
@@ -364,7 +366,7 @@ def compiler_mode(sources, options, output, args):
 
         if is_assembly(source):
             if not output:
-                basename_output = "-o " + shell_escape(basename + ".o")
+                basename_output = "-o " + shell_escape(object_file)
             else:
                 basename_output = output
             compile_only([source], " -c " + options, basename_output, args)
@@ -421,7 +423,7 @@ def compiler_mode(sources, options, output, args):
             ir, ins, vfcwrapper_ir, extra_args, selectfunction, args
         )
 
-        cmd_output = output if output else " -o " + shell_escape(basename + ".o")
+        cmd_output = output if output else " -o " + shell_escape(object_file)
 
         if not args.emit_llvm:
             # Produce object file
-- 
2.43.0


From 2fba97c76f62a8c310dff0b7134aa74d0c8b1e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 54/91] fix: driver: values of options were taken for sources,
 and libraries were moved after the other link options

---
 verificarlo.in.in | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 4445b1c..eae5c05 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -58,6 +58,12 @@ linkers = {"clang": clang, "flang": flang, "clang++": clangxx}
 default_linker = "clang"
 temp_files_set = set()
 march_flag = "@MARCH_FLAG@"
+# options whose value is the next argument
+VALUE_OPTIONS = (
+    "-D -U -I -L -F -T -u -x -z -e -include -imacros -isystem -iquote -idirafter "
+    "-iprefix -iwithprefix -iwithprefixbefore -isysroot --sysroot -target -arch "
+    "-framework -MF -MT -MQ -Xlinker -Xclang -Xassembler -Xpreprocessor -mllvm"
+).split()
 
 
 class prism_modes:
@@ -132,16 +138,25 @@ def shell_escape(argument):
 def parse_extra_args(args):
     sources = []
     options = []
-    libraries = []
+    # the arguments of the linker are the options and the libraries, in order
+    link_options = []
+
+    def add_option(a):
+        options.append(shell_escape(a))
+        link_options.append(shell_escape(a))
 
     args = iter(args)
     for a in args:
         if a.startswith("-l"):
             # the name of the library may be a separate argument
-            libraries.append(shell_escape(a if a != "-l" else a + next(args, "")))
+            link_options.append(shell_escape(a if a != "-l" else a + next(args, "")))
         elif a.startswith("-"):
             # an option is not a source, even if it ends like one (-DX=a.c)
-            options.append(shell_escape(a))
+            add_option(a)
+            if a in VALUE_OPTIONS:
+                for value in args:
+                    add_option(value)
+                    break
         elif is_fortran(a):
             if not flang:
                 fail(
@@ -158,9 +173,9 @@ def parse_extra_args(args):
         elif is_llvm_bitcode(a):
             sources.append(a)
         else:
-            options.append(shell_escape(a))
+            add_option(a)
 
-    return sources, " ".join(options), " ".join(libraries)
+    return sources, " ".join(options), " ".join(link_options)
 
 
 def shell(cmd, verbose=False):
@@ -541,7 +556,7 @@ def parse_args():
 
 
 def main():
-    args, sources, llvm_options, libraries = parse_args()
+    args, sources, llvm_options, link_options = parse_args()
 
     # check input files
     if (args.E or args.S or args.c) and len(sources) > 1 and args.o:
@@ -554,8 +569,10 @@ def main():
     output = "-o " + shell_escape(args.o) if args.o else ""
 
     # flang does not accept this clang-only diagnostic flag (LLVM 21+).
+    diagnostics = ""
     if args.linker != "flang":
-        llvm_options += " -Wno-unused-command-line-argument "
+        diagnostics = " -Wno-unused-command-line-argument "
+    llvm_options += diagnostics
 
     if args.E:
         llvm_options += " -E "
@@ -571,7 +588,7 @@ def main():
         if len(sources) == 0 and len(llvm_options) == 0:
             fail("no input files")
         compiler_mode(sources, llvm_options, "", args)
-        linker_mode(sources, llvm_options, libraries, output, args)
+        linker_mode(sources, diagnostics, link_options, output, args)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From fcfa6792bf51a8cc2aa9ae9e817aaadd3e2be817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 55/91] fix: precexp: argument lines without bounds made vprec
 refuse every configuration

---
 src/tools/optimize/precexp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 3dae93c..a5079fb 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -286,12 +286,14 @@ def save(Arguments, Operations, File):
             j < arg_index + Operations.at[i, "Ninputs"] + Operations.at[i, "Noutputs"]
         ):
             f.write(
-                "{IO}\t{ArgID}\t{Type}\t{Prec}\t{Range}\n".format(
+                "{IO}\t{ArgID}\t{Type}\t{Prec}\t{Range}\t{Min}\t{Max}\n".format(
                     IO=Arguments.at[j, "IO"],
                     ArgID=Arguments.at[j, "ArgID"],
                     Type=Arguments.at[j, "Type"],
                     Prec=Arguments.at[j, "Prec"],
                     Range=Arguments.at[j, "Range"],
+                    Min=Arguments.at[j, "Min"],
+                    Max=Arguments.at[j, "Max"],
                 )
             )
             j = j + 1
-- 
2.43.0


From 25311745bb613c67222391c6e45178a6d5908877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 56/91] fix: precexp: pointer arguments were explored with the
 wrong type or not at all

---
 src/tools/optimize/precexp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index a5079fb..7258732 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -525,7 +525,7 @@ def search_minimum_arguments(
     """Find the minimum precision for a given argument of a function"""
 
     # If is a float or float ptr
-    if Arguments.at[index, "Type"] == 0 or Arguments.at[index, "Type"] == 2:
+    if Arguments.at[index, "Type"] == 0 or Arguments.at[index, "Type"] == 3:
         # minimize mantissa
         dich_search_arguments(
             index,
@@ -558,7 +558,7 @@ def search_minimum_arguments(
         )
 
     # If is a double or double ptr
-    elif Arguments.at[index, "Type"] == 1 or Arguments.at[index, "Type"] == 3:
+    elif Arguments.at[index, "Type"] == 1 or Arguments.at[index, "Type"] == 4:
         # minimize mantissa
         dich_search_arguments(
             index,
-- 
2.43.0


From a58eb93358e37bb20f513ac6f05732d7f4df8db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 57/91] fix: precexp: the search did not terminate when a
 setting is rejected at its maximum, and could leave a rejected configuration
 in vfc_config.txt

---
 src/tools/optimize/precexp.py | 82 ++++++++++++++++++++++++++++++-----
 1 file changed, 70 insertions(+), 12 deletions(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 7258732..aecd6fb 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -324,6 +324,33 @@ def Check(
     return cmp(cmpPath, reference_dir, current_dir, env)
 
 
+def check_start(
+    runPath,
+    cmpPath,
+    reference_dir,
+    current_dir,
+    config_file,
+    env,
+    Arguments,
+    Operations,
+):
+    """The exploration lowers an accepted configuration, it cannot start from
+    a rejected one
+    """
+    if not Check(
+        runPath,
+        cmpPath,
+        reference_dir,
+        current_dir,
+        config_file,
+        env,
+        Arguments,
+        Operations,
+    ):
+        print("error: the comparison rejects the run at full precision")
+        sys.exit(1)
+
+
 def dich_search_operations(
     index,
     field,
@@ -352,8 +379,8 @@ def dich_search_operations(
         Arguments,
         Operations,
     ):
-        flag = 1
-        while flag:
+        # l is always rejected, r is always accepted
+        while l + 1 < r:
             p = math.floor((r + l) / 2)
             Operations.at[index, field] = p
             if Check(
@@ -366,12 +393,11 @@ def dich_search_operations(
                 Arguments,
                 Operations,
             ):
-                if l >= r:
-                    flag = 0
-                    break
                 r = p
             else:
-                l = p + 1
+                l = p
+
+        Operations.at[index, field] = r
 
 
 def search_minimum_operations(
@@ -489,8 +515,8 @@ def dich_search_arguments(
         Arguments,
         Operations,
     ):
-        flag = 1
-        while flag:
+        # l is always rejected, r is always accepted
+        while l + 1 < r:
             p = math.floor((r + l) / 2)
             Arguments.at[index, field] = p
             if Check(
@@ -503,12 +529,11 @@ def dich_search_arguments(
                 Arguments,
                 Operations,
             ):
-                if l >= r:
-                    flag = 0
-                    break
                 r = p
             else:
-                l = p + 1
+                l = p
+
+        Arguments.at[index, field] = r
 
 
 def search_minimum_arguments(
@@ -706,6 +731,16 @@ def main():
         )
 
         FunctionsFrameCopy = FunctionsFrame.copy()
+        check_start(
+            runPath,
+            cmpPath,
+            output_dir[0],
+            output_dir[1],
+            vfc_config_file,
+            env,
+            ArgumentsFrame,
+            FunctionsFrameCopy,
+        )
         cpt = 1
         for i in FunctionsIndex:
             print(cpt, "/", len(FunctionsIndex))
@@ -722,6 +757,7 @@ def main():
             )
             cpt += 1
 
+        save(ArgumentsFrame, FunctionsFrameCopy, vfc_config_file)
         FunctionsFrameCopy.to_csv("vfc_exp_data/OperationsResults.csv")
 
     #########################################
@@ -741,6 +777,16 @@ def main():
 
         ArgumentsFrameCopy = ArgumentsFrame.copy()
         FunctionsFrameCopy = FunctionsFrame.copy()
+        check_start(
+            runPath,
+            cmpPath,
+            output_dir[0],
+            output_dir[1],
+            vfc_config_file,
+            env,
+            ArgumentsFrameCopy,
+            FunctionsFrameCopy,
+        )
         cpt = 1
         for i in range(len(FunctionsFrame.index)):
             tmp = ArgumentsFrameCopy[
@@ -762,6 +808,7 @@ def main():
 
                 cpt += 1
 
+        save(ArgumentsFrameCopy, FunctionsFrameCopy, vfc_config_file)
         ArgumentsFrameCopy.to_csv("vfc_exp_data/ArgumentsResults.csv")
 
     #########################################
@@ -781,6 +828,16 @@ def main():
 
         ArgumentsFrameCopy = ArgumentsFrame.copy()
         FunctionsFrameCopy = FunctionsFrame.copy()
+        check_start(
+            runPath,
+            cmpPath,
+            output_dir[0],
+            output_dir[1],
+            vfc_config_file,
+            env,
+            ArgumentsFrameCopy,
+            FunctionsFrameCopy,
+        )
         cpt = 1
         for i in range(len(FunctionsFrameCopy.index)):
             print(cpt, "/", len(FunctionsFrameCopy.index))
@@ -818,6 +875,7 @@ def main():
 
             cpt += 1
 
+        save(ArgumentsFrameCopy, FunctionsFrameCopy, vfc_config_file)
         ArgumentsFrameCopy.to_csv("vfc_exp_data/AllArgsResults.csv")
         FunctionsFrameCopy.to_csv("vfc_exp_data/AllOpsResults.csv")
 
-- 
2.43.0


From e9a9811f1d4ce45b6bf98486d015a2577619be63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 58/91] fix: precexp: scripts were run with their output in a
 full pipe, arguments split at spaces, no timeout and ignored failures

---
 src/tools/optimize/precexp.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index aecd6fb..305c531 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -3,7 +3,6 @@
 import argparse
 import math
 import os.path
-import shlex
 import subprocess
 import sys
 
@@ -50,17 +49,14 @@ def shell(cmd, newEnv, maxTimeout=None):
     else:
         env = newEnv
 
-    cmdNew = ""
-    cmdSplit = shlex.split(cmd)
-    for cmdEntry in cmdSplit:
-        cmdNew = cmdNew + " " + cmdEntry.strip()
-
-    proc = subprocess.Popen(cmdNew.split(), stdout=subprocess.PIPE, env=env)
+    # nobody reads the output: a pipe would block the command once it is full
+    proc = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, env=env)
 
     try:
         proc.wait(maxTimeout)
     except subprocess.TimeoutExpired:
         proc.terminate()
+        proc.wait()
         return 42
 
     return proc.returncode
@@ -68,7 +64,7 @@ def shell(cmd, newEnv, maxTimeout=None):
 
 def run(script, output_dir, env, maxTimeout=None):
     """create the runing command"""
-    command = "./" + script + " " + output_dir
+    command = [os.path.join(".", script), output_dir]
 
     return_code = shell(command, env, maxTimeout)
 
@@ -80,7 +76,7 @@ def run(script, output_dir, env, maxTimeout=None):
 
 def cmp(script, reference_dir, current_dir, env, maxTimeout=None):
     """create the comparison command"""
-    command = "./" + script + " " + reference_dir + " " + current_dir
+    command = [os.path.join(".", script), reference_dir, current_dir]
 
     return shell(command, env, maxTimeout) == 0
 
@@ -104,7 +100,7 @@ def getProfile(file, function_list):
     """get informations from profile file"""
     if not os.path.isfile(file):
         print("error profile file not found")
-        sys.exit()
+        sys.exit(1)
 
     f = open(file, "r")
     Lines = f.readlines()
@@ -639,7 +635,7 @@ def main():
     )
     parser.add_argument(
         "--vprec_mode",
-        choices=["ieee", "ib", "ob", "all"],
+        choices=["ieee", "ib", "ob", "full"],
         default="ob",
         help="vprec operating mode",
     )
@@ -653,28 +649,30 @@ def main():
     runPath = args[0].runPath
     cmpPath = args[0].cmpPath
 
+    global vfc_maxTimeout
+
     vfc_vprec_mode = args[0].vprec_mode
     vfc_mode = args[0].mode
     if args[0].maxTimeout != None:
-        vfc_maxTimeout = int(args[0].maxTimeout)
+        vfc_maxTimeout = args[0].maxTimeout / 1000
 
     function_list = args[1]
 
     if not os.path.exists(runPath):
         print("runing script not found")
-        sys.exit(0)
+        sys.exit(1)
 
     if not os.path.exists(cmpPath):
         print("comparison script not found")
-        sys.exit(0)
+        sys.exit(1)
 
     if not os.access(runPath, os.X_OK):
         print("runing scirpt is not executable")
-        sys.exit(0)
+        sys.exit(1)
 
     if not os.access(cmpPath, os.X_OK):
         print("comparison scirpt is not executable")
-        sys.exit(0)
+        sys.exit(1)
 
     if os.path.isfile("./exp_ref_output"):
         os.mkdir("./exp_ref_output")
@@ -708,7 +706,9 @@ def main():
     )
 
     # run to create profile file
-    run(runPath, output_dir[0], env)
+    if run(runPath, output_dir[0], env) != 0:
+        print("error: the reference run failed")
+        sys.exit(1)
 
     # get dataset
     FunctionsFrame, FunctionsIndex, ArgumentsFrame = getProfile(
-- 
2.43.0


From f26e3bbbe07ec70b27272bcca84027973d34229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:09 +0000
Subject: [PATCH 59/91] Restore src/tools/ci/test_data_processing.py (test
 settings are left alone)

---
 src/tools/ci/test_data_processing.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/tools/ci/test_data_processing.py b/src/tools/ci/test_data_processing.py
index d3ca801..4427122 100644
--- a/src/tools/ci/test_data_processing.py
+++ b/src/tools/ci/test_data_processing.py
@@ -97,16 +97,6 @@ def significant_digits_lower_bound(x):
         return s[0]
 
 
-def relative(error, reference):
-    """
-    Error relative to the reference (infinite or NaN, which fail any check, if
-    the reference is null)
-    """
-
-    with np.errstate(divide="ignore", invalid="ignore"):
-        return np.absolute(np.divide(error, reference))
-
-
 def apply_data_pocessing(data):
     """
     This function computes most test metrics (mu, sigma, quantiles, ...).
@@ -135,7 +125,7 @@ def apply_data_pocessing(data):
     elif data["check_mode"] == "relative":
         data["check"] = (
             True
-            if relative(data["sigma"], data["mu"]) < abs(data["accuracy_threshold"])
+            if abs(data["sigma"] / data["mu"]) < abs(data["accuracy_threshold"])
             else False
         )
 
@@ -187,7 +177,7 @@ def validate_deterministic_probe(x):
     if x["check_mode"] == "relative":
         return (
             True
-            if relative(x["value"] - x["reference_value"], x["reference_value"])
+            if abs(x["value"] - x["reference_value"]) / abs(x["reference_value"])
             < abs(x["accuracy_threshold"])
             else False
         )
-- 
2.43.0


From f90d680d99f97ad9ccd3fa13f6ebc44fa9116393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:47 +0000
Subject: [PATCH 60/91] fix: read delta-debug filter lines of any length

A line of VFC_DDEBUG_INCLUDE or VFC_DDEBUG_EXCLUDE holds the demangled name
of a function. Names longer than about 2000 characters, as C++ templates
have, were cut and the rest of the line refused as an invalid address, so
that a list written by VFC_DDEBUG_GEN could not be read back.
---
 src/vfcwrapper/main.c.in | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 07cd2a8..cab464b 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -249,9 +249,11 @@ static void vfc_read_filter_file(const char *dd_filter_path,
   FILE *input = fopen(dd_filter_path, "r");
   if (input) {
     void *addr;
-    char line[2048];
+    /* a line holds the name of a function, whatever its length */
+    char *line = NULL;
+    size_t len = 0;
     int lineno = 0;
-    while (fgets(line, sizeof line, input)) {
+    while (getline(&line, &len, input) != -1) {
       lineno++;
       if (sscanf(line, "%p", &addr) == 1) {
         vfc_hashmap_insert(map, (size_t)addr + CALL_OP_SIZE,
@@ -262,6 +264,8 @@ static void vfc_read_filter_file(const char *dd_filter_path,
             dd_filter_path, lineno);
       }
     }
+    free(line);
+    fclose(input);
   }
 }
 #endif
-- 
2.43.0


From 3234a9eae97b5f9a3212ed684b9d0dd0b35816b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:14 +0000
Subject: [PATCH 61/91] fix: the ieee backend replaced the %b conversion of the
 program's own printf

---
 .../common/printf_specifier.h                 |  6 ++
 .../interflop-backend-ieee/interflop_ieee.c   | 55 +++++--------------
 2 files changed, 21 insertions(+), 40 deletions(-)

diff --git a/src/backends/interflop-backend-ieee/common/printf_specifier.h b/src/backends/interflop-backend-ieee/common/printf_specifier.h
index 2cfa0f7..5b6062c 100644
--- a/src/backends/interflop-backend-ieee/common/printf_specifier.h
+++ b/src/backends/interflop-backend-ieee/common/printf_specifier.h
@@ -20,6 +20,12 @@
 #ifndef __PRINTF_SPECIFIER_H__
 #define __PRINTF_SPECIFIER_H__
 
+#include <printf.h>
+
+/* Write the binary representation of a value in s_val */
+void double_to_binary(double d, char *s_val, const struct printf_info *info);
+void float_to_binary(float f, char *s_val, const struct printf_info *info);
+
 /* This function defines the conversion specifier character 'b' */
 /* Once registered, %b can be used as %f for floating point values in printf
  * functions */
diff --git a/src/backends/interflop-backend-ieee/interflop_ieee.c b/src/backends/interflop-backend-ieee/interflop_ieee.c
index 75a09f0..32fc8fd 100644
--- a/src/backends/interflop-backend-ieee/interflop_ieee.c
+++ b/src/backends/interflop-backend-ieee/interflop_ieee.c
@@ -73,16 +73,6 @@ const char *INTERFLOP_IEEE_API(get_backend_version)(void) {
   return backend_version;
 }
 
-/* inserts the string <str_to_add> at position i */
-/* increments i by the size of str_to_add */
-void insert_string(char *dst, const char *str_to_add, int *i) {
-  int j = 0;
-#pragma unroll
-  do {
-    dst[*i] = str_to_add[j];
-  } while ((*i)++, j++, str_to_add[j] != '\0');
-}
-
 /* Auxiliary function to debug print that prints  */
 /* a new line if requested by option --print-new-line  */
 void debug_print_aux(void *context, char *fmt, va_list argp) {
@@ -92,31 +82,26 @@ void debug_print_aux(void *context, char *fmt, va_list argp) {
   }
 }
 
-/* Debug print which replaces %g by specific binary format %b */
-/* if option --debug-binary is set */
+/* Debug print of a string starting with %g, which is printed in the binary */
+/* format given by fmt_flt if option --debug-binary is set */
+/* (no printf specifier is registered since it would also change the printf */
+/* of the instrumented program) */
 void debug_print(void *context, char *fmt_flt, char *fmt, ...) {
   va_list ap;
   va_start(ap, fmt);
   if (((ieee_context_t *)context)->debug) {
     debug_print_aux(context, fmt, ap);
   } else {
-    char new_fmt[STRING_MAX] = "";
-    int i = 0;
-    int j = 0;
-#pragma unroll
-    do {
-      switch (fmt[i]) {
-      case 'g':
-        insert_string(new_fmt, fmt_flt, &j);
-        break;
-      default:
-        new_fmt[j] = fmt[i];
-        j++;
-        break;
-      }
-    } while (fmt[i++] != '\0');
-    new_fmt[j] = '\0';
-    debug_print_aux(context, new_fmt, ap);
+    char binary[STRING_MAX] = "";
+    const struct printf_info info = {.alt = (fmt_flt[0] == '#')};
+    const double value = va_arg(ap, double);
+    if (fmt_flt[info.alt] == 'l') {
+      double_to_binary(value, binary, &info);
+    } else {
+      float_to_binary((float)value, binary, &info);
+    }
+    interflop_fprintf(logger_stderr, "%s", binary);
+    debug_print_aux(context, fmt + 2, ap);
   }
   va_end(ap);
 }
@@ -456,11 +441,6 @@ void INTERFLOP_IEEE_API(pre_init)(interflop_panic_t panic, File *stream,
   /* allocate the context */
   _ieee_alloc_context(context);
   _ieee_init_context((ieee_context_t *)*context);
-
-  /* register %b format */
-  if (interflop_register_printf_specifier != Null) {
-    register_printf_bit();
-  }
 }
 
 static const struct argp_option options[] = {
@@ -484,12 +464,7 @@ static error_t parse_opt(int key, __attribute__((unused)) char *arg,
     ctx->debug = true;
     break;
   case KEY_DEBUG_BINARY:
-    if (interflop_register_printf_specifier != Null) {
-      ctx->debug_binary = true;
-    } else {
-      logger_error("--debug-binary option forbiden if "
-                   "register_printf_specifier handler is not set");
-    }
+    ctx->debug_binary = true;
     break;
   case KEY_NO_BACKEND_NAME:
     ctx->no_backend_name = true;
-- 
2.43.0


From ff43ebc3e31e045b04a380bce31858b3e4b63075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:15 +0000
Subject: [PATCH 62/91] fix: a log file name of more than 1000 characters
 overflowed a buffer

---
 src/interflop-stdlib/iostream/logger.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/interflop-stdlib/iostream/logger.c b/src/interflop-stdlib/iostream/logger.c
index 7088e6e..325fccd 100644
--- a/src/interflop-stdlib/iostream/logger.c
+++ b/src/interflop-stdlib/iostream/logger.c
@@ -187,7 +187,11 @@ void set_logger_logfile() {
     logger_logfile = logger_stderr;
   } else {
     /* Create log File specific to TID to avoid non-deterministic output */
-    char tmp[1024];
+    unsigned long len = 0;
+    while (logger_logfile_env[len] != '\0') {
+      len++;
+    }
+    char tmp[len + sizeof(".") + 3 * sizeof(int)];
     int r =
         interflop_sprintf(tmp, "%s.%d", logger_logfile_env, interflop_gettid());
     if (r < 0) {
-- 
2.43.0


From 8910cf0c7760108a021633c871b6f1684eac4cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:32 +0000
Subject: [PATCH 63/91] fix: the mca_int backend ignored
 VFC_BACKENDS_SILENT_LOAD

---
 .../interflop-backend-mcaint/interflop_mca_int.c       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index e144b38..3cc33fd 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -773,6 +773,16 @@ void INTERFLOP_MCAINT_API(configure)(void *configure, void *context) {
 }
 
 static void print_information_header(void *context) {
+  /* Environnement variable to disable loading message */
+  char *silent_load_env = interflop_getenv("VFC_BACKENDS_SILENT_LOAD");
+  bool silent_load = ((silent_load_env == NULL) ||
+                      (interflop_strcasecmp(silent_load_env, "True") != 0))
+                         ? false
+                         : true;
+
+  if (silent_load)
+    return;
+
   mcaint_context_t *ctx = (mcaint_context_t *)context;
 
   logger_info("load backend with:\n");
-- 
2.43.0


From 645a638a00a38e03c20962bcdb38231a7700500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:16 +0000
Subject: [PATCH 64/91] fix: the CI report could not start with the current
 bokeh and pandas

bokeh 3 renamed the tabs, the size of the plots and the tooltip renderers,
figure was not imported by compare_runs, and series of a dataframe are not
indexed by position anymore.
---
 src/tools/ci/vfc_ci_report/compare_runs.py    | 33 ++++++++++---------
 .../ci/vfc_ci_report/deterministic_compare.py | 14 ++++----
 src/tools/ci/vfc_ci_report/inspect_runs.py    | 22 ++++++-------
 src/tools/ci/vfc_ci_report/plot.py            | 24 +++++++-------
 4 files changed, 48 insertions(+), 45 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/compare_runs.py b/src/tools/ci/vfc_ci_report/compare_runs.py
index fcfe150..54b0e30 100644
--- a/src/tools/ci/vfc_ci_report/compare_runs.py
+++ b/src/tools/ci/vfc_ci_report/compare_runs.py
@@ -32,11 +32,12 @@ from bokeh.models import (
     CheckboxGroup,
     ColumnDataSource,
     CustomJS,
-    Panel,
     Select,
+    TabPanel,
     Tabs,
     TextInput,
 )
+from bokeh.plotting import figure
 
 ##########################################################################
 
@@ -102,12 +103,12 @@ class CompareRuns:
 
         timestamps = runs["timestamp"]
         x_series, x_metadata = helper.gen_x_series(
-            self.metadata, timestamps.sort_values(), self.current_n_runs
+            self.metadata, timestamps.tolist(), self.current_n_runs
         )
 
         # Update source
 
-        main_dict = runs.to_dict("series")
+        main_dict = runs.to_dict("list")
         main_dict["x"] = x_series
 
         # Add metadata (for tooltip)
@@ -118,9 +119,9 @@ class CompareRuns:
         main_dict = {key: value[-n:] for key, value in main_dict.items()}
 
         # Generate color series for display of failed checks
-        custom_colors = [True] * len(main_dict["check"])
-        for i in range(len(main_dict["check"])):
-            custom_colors[i] = "#1f77b4" if main_dict["check"][i] else "#cc2b2b"
+        custom_colors = [
+            "#1f77b4" if check else "#cc2b2b" for check in main_dict["check"]
+        ]
 
         # Generate ColumnDataSources for the 3 dotplots
         for stat in ["sigma", "s10", "s2"]:
@@ -289,8 +290,8 @@ class CompareRuns:
         self.plots["boxplot"] = figure(
             name="boxplot",
             title="Variable distribution over runs",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -335,8 +336,8 @@ class CompareRuns:
         self.plots["sigma_plot"] = figure(
             name="sigma_plot",
             title="Standard deviation σ over runs",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -369,8 +370,8 @@ class CompareRuns:
         self.plots["s10_plot"] = figure(
             name="s10_plot",
             title="Significant digits s over runs",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -399,13 +400,13 @@ class CompareRuns:
             lower_bound=True,
             custom_colors="custom_colors",
         )
-        s10_tab = Panel(child=self.plots["s10_plot"], title="Base 10")
+        s10_tab = TabPanel(child=self.plots["s10_plot"], title="Base 10")
 
         self.plots["s2_plot"] = figure(
             name="s2_plot",
             title="Significant digits s over runs",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -433,7 +434,7 @@ class CompareRuns:
             lower_bound=True,
             custom_colors="custom_colors",
         )
-        s2_tab = Panel(child=self.plots["s2_plot"], title="Base 2")
+        s2_tab = TabPanel(child=self.plots["s2_plot"], title="Base 2")
 
         s_tabs = Tabs(name="s_tabs", tabs=[s10_tab, s2_tab], tabs_location="below")
 
diff --git a/src/tools/ci/vfc_ci_report/deterministic_compare.py b/src/tools/ci/vfc_ci_report/deterministic_compare.py
index 6dff33c..ea878c9 100644
--- a/src/tools/ci/vfc_ci_report/deterministic_compare.py
+++ b/src/tools/ci/vfc_ci_report/deterministic_compare.py
@@ -65,12 +65,12 @@ class DeterministicCompare:
 
         timestamps = runs["timestamp"]
         x_series, x_metadata = helper.gen_x_series(
-            self.metadata, timestamps.sort_values(), self.current_n_runs
+            self.metadata, timestamps.tolist(), self.current_n_runs
         )
 
         # Update source
 
-        dict = runs.to_dict("series")
+        dict = runs.to_dict("list")
         dict["value_x"] = x_series
 
         # Add metadata (for tooltip)
@@ -81,9 +81,9 @@ class DeterministicCompare:
         dict = {key: value[-n:] for key, value in dict.items()}
 
         # Generate color series for display of failed checks
-        dict["custom_colors"] = [True] * len(dict["check"])
-        for i in range(len(dict["check"])):
-            dict["custom_colors"][i] = "#1f77b4" if dict["check"][i] else "#cc2b2b"
+        dict["custom_colors"] = [
+            "#1f77b4" if check else "#cc2b2b" for check in dict["check"]
+        ]
 
         # Filter outliers if the box is checked
         if len(self.widgets["outliers_filtering_deterministic"].active) > 0:
@@ -216,8 +216,8 @@ class DeterministicCompare:
         self.plots["comparison_plot"] = figure(
             name="comparison_plot",
             title="Variable with deterministic backend over runs",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
diff --git a/src/tools/ci/vfc_ci_report/inspect_runs.py b/src/tools/ci/vfc_ci_report/inspect_runs.py
index 2ded290..b93facd 100644
--- a/src/tools/ci/vfc_ci_report/inspect_runs.py
+++ b/src/tools/ci/vfc_ci_report/inspect_runs.py
@@ -34,9 +34,9 @@ from bokeh.models import (
     CheckboxGroup,
     ColumnDataSource,
     CustomJS,
-    Panel,
     RadioButtonGroup,
     Select,
+    TabPanel,
     Tabs,
 )
 from bokeh.plotting import figure
@@ -388,8 +388,8 @@ class InspectRuns:
         self.plots["mu_inspect"] = figure(
             name="mu_inspect",
             title="",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -407,8 +407,8 @@ class InspectRuns:
         self.plots["sigma_inspect"] = figure(
             name="sigma_inspect",
             title="",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -426,8 +426,8 @@ class InspectRuns:
         self.plots["s10_inspect"] = figure(
             name="s10_inspect",
             title="",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -439,13 +439,13 @@ class InspectRuns:
             tooltips=s10_boxplot_tooltips,
             tooltips_formatters=s10_boxplot_tooltips_formatters,
         )
-        s10_tab_inspect = Panel(child=self.plots["s10_inspect"], title="Base 10")
+        s10_tab_inspect = TabPanel(child=self.plots["s10_inspect"], title="Base 10")
 
         self.plots["s2_inspect"] = figure(
             name="s2_inspect",
             title="",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -457,7 +457,7 @@ class InspectRuns:
             tooltips=s2_boxplot_tooltips,
             tooltips_formatters=s2_boxplot_tooltips_formatters,
         )
-        s2_tab_inspect = Panel(child=self.plots["s2_inspect"], title="Base 2")
+        s2_tab_inspect = TabPanel(child=self.plots["s2_inspect"], title="Base 2")
 
         s_tabs_inspect = Tabs(
             name="s_tabs_inspect",
diff --git a/src/tools/ci/vfc_ci_report/plot.py b/src/tools/ci/vfc_ci_report/plot.py
index 39d7ac1..0ff0b7e 100644
--- a/src/tools/ci/vfc_ci_report/plot.py
+++ b/src/tools/ci/vfc_ci_report/plot.py
@@ -61,7 +61,7 @@ def fill_dotplot(
 
     # (Optional) Tooltip and tooltip formatters
     if tooltips is not None:
-        hover = HoverTool(tooltips=tooltips, mode="vline", names=["circle"])
+        hover = HoverTool(tooltips=tooltips, mode="vline")
 
         if tooltips_formatters is not None:
             hover.formatters = tooltips_formatters
@@ -87,7 +87,7 @@ def fill_dotplot(
     # (Optional) Draw a second data series
     if second_series is not None:
         if second_legend is not None:
-            second_circle = plot.circle(
+            second_circle = plot.scatter(
                 name="second_circle",
                 x="%s_x" % data_field,
                 y=second_series,
@@ -98,7 +98,7 @@ def fill_dotplot(
                 legend_label=second_legend,
             )
         else:
-            second_circle = plot.circle(
+            second_circle = plot.scatter(
                 name="second_circle",
                 x="%s_x" % data_field,
                 y=second_series,
@@ -123,7 +123,7 @@ def fill_dotplot(
 
     # Draw dots (actually Bokeh circles)
     if legend is not None:
-        circle = plot.circle(
+        circle = plot.scatter(
             name="circle",
             x="%s_x" % data_field,
             y=data_field,
@@ -134,7 +134,7 @@ def fill_dotplot(
             legend_label=legend,
         )
     else:
-        circle = plot.circle(
+        circle = plot.scatter(
             name="circle",
             x="%s_x" % data_field,
             y=data_field,
@@ -144,6 +144,9 @@ def fill_dotplot(
             line_color=custom_colors,
         )
 
+    if tooltips is not None:
+        hover.renderers = [circle]
+
     # (Optional) Add server tap callback
     if server_tap_callback is not None:
         circle.data_source.selected.on_change("indices", server_tap_callback)
@@ -184,7 +187,7 @@ def fill_boxplot(
 
     # (Optional) Tooltip and tooltip formatters
     if tooltips is not None:
-        hover = HoverTool(tooltips=tooltips, mode="vline", names=["full_box"])
+        hover = HoverTool(tooltips=tooltips, mode="vline")
 
         if tooltips_formatters is not None:
             hover.formatters = tooltips_formatters
@@ -260,6 +263,9 @@ def fill_boxplot(
             line_color="black",
         )
 
+    if tooltips is not None:
+        hover.renderers = [full_box]
+
     # Mu dot
     mu_dot = plot.dot(
         x="%sx" % prefix, y="%smu" % prefix, size=30, source=source, color="black"
@@ -312,7 +318,6 @@ def fill_barplot(
     """
 
     vbars = []
-    vbars_names = []
 
     # Draw "single" vbar
     if single_series is not None:
@@ -321,7 +326,6 @@ def fill_barplot(
         )
 
         vbars.append(vbar)
-        vbars_names.append("vbar")
 
     # Draw "double" vbars
     if double_series is not None:
@@ -345,12 +349,10 @@ def fill_barplot(
 
         vbars.append(vbar1)
         vbars.append(vbar2)
-        vbars_names.append("vbar1")
-        vbars_names.append("vbar2")
 
     # (Optional) Tooltip and tooltip formatters
     if tooltips is not None:
-        hover = HoverTool(tooltips=tooltips, mode="vline", names=vbars_names)
+        hover = HoverTool(tooltips=tooltips, mode="vline", renderers=vbars)
 
         if tooltips_formatters is not None:
             hover.formatters = tooltips_formatters
-- 
2.43.0


From fe1f29e02b1e893ebb3b391eeeb7936e0122cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:16 +0000
Subject: [PATCH 65/91] fix: --max-files kept the oldest run files of the CI
 report, and data of other runs

---
 src/tools/ci/vfc_ci_report/main.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/main.py b/src/tools/ci/vfc_ci_report/main.py
index 604dde4..fe86906 100644
--- a/src/tools/ci/vfc_ci_report/main.py
+++ b/src/tools/ci/vfc_ci_report/main.py
@@ -122,14 +122,8 @@ metadata.sort_index()
 if ignore_recent != 0:
     metadata.drop(metadata.tail(ignore_recent).index, inplace=True)
 
-# max_files will equal the actual dataframe size if its smaller than the
-# original value
-max_files = min(max_files, len(metadata))
-
-metadata = metadata.head(max_files)
-
-# Maximal acceptable timestamp
-max_timestamp = metadata.iloc[max_files - 1].name
+# Keep the most recent of the remaining files
+metadata = metadata.tail(max_files)
 
 # Second pass for data (now that we know which files to load entirely)
 for f in run_files:
@@ -139,7 +133,7 @@ for f in run_files:
     current_metadata = pd.read_hdf(path, "metadata")
     current_timestamp = current_metadata.iloc[0].name
 
-    if current_timestamp <= max_timestamp:
+    if current_timestamp in metadata.index:
         data.append(pd.read_hdf(directory + "/" + f, "data"))
         deterministic_data.append(
             pd.read_hdf(directory + "/" + f, "deterministic_data")
-- 
2.43.0


From f7c89eabb849ebe9dee8d9c4b160f5421a263e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:16 +0000
Subject: [PATCH 66/91] fix: the CI report failed when no run or not all runs
 have data of a type of backends

---
 src/tools/ci/vfc_ci_report/main.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/main.py b/src/tools/ci/vfc_ci_report/main.py
index fe86906..cb12fa0 100644
--- a/src/tools/ci/vfc_ci_report/main.py
+++ b/src/tools/ci/vfc_ci_report/main.py
@@ -139,17 +139,21 @@ for f in run_files:
             pd.read_hdf(directory + "/" + f, "deterministic_data")
         )
 
-data = pd.concat(data).sort_index()
-deterministic_data = pd.concat(deterministic_data).sort_index()
+# A run without any data for a type of backends has an empty dataframe, without
+# columns nor index
+data = [df for df in data if not df.empty]
+deterministic_data = [df for df in deterministic_data if not df.empty]
 
 # If no data/deterministic_data has been found, create an empty dataframe anyway
 # (with column names) to avoid errors further in the code
-if data.empty:
+if len(data) != 0:
+    data = pd.concat(data).sort_index()
+else:
     data = pd.DataFrame(
         columns=[
             "test",
             "variable",
-            "backend",
+            "vfc_backend",
             "sigma",
             "s10",
             "s2",
@@ -164,14 +168,16 @@ if data.empty:
             "check_mode",
             "timestamp",
         ]
-    )
+    ).set_index(["test", "variable", "vfc_backend"])
 
-if deterministic_data.empty:
+if len(deterministic_data) != 0:
+    deterministic_data = pd.concat(deterministic_data).sort_index()
+else:
     deterministic_data = pd.DataFrame(
         columns=[
             "test",
             "variable",
-            "backend",
+            "vfc_backend",
             "value",
             "accuracy_threshold",
             "reference_value",
@@ -179,7 +185,7 @@ if deterministic_data.empty:
             "check_mode",
             "timestamp",
         ]
-    )
+    ).set_index(["test", "variable", "vfc_backend"])
 
 # Generate the display strings for runs (runs ticks)
 # By doing this in master, we ensure the homogeneity of display strings
@@ -226,14 +232,6 @@ class ViewsMaster:
             ]
         else:
             filtered_deterministic_data = deterministic_data
-            # In some cases, index columns might be missing, so we add them just
-            # in case (here, the dataframe is empty anyway)
-            filtered_deterministic_data = filtered_deterministic_data.assign(
-                test="", variable="", backend=""
-            )
-            filtered_deterministic_data.set_index(
-                ["test", "variable", "backend"], inplace=True
-            )
 
         self.compare.change_repo(filtered_data, filtered_metadata)
         self.deterministic.change_repo(filtered_deterministic_data, filtered_metadata)
-- 
2.43.0


From 323065b7c6cc0a63cefae363e1b771bc1c463cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:16 +0000
Subject: [PATCH 67/91] fix: the CI report mixed up the branches of several
 repositories, or failed

The names were made from lists of URLs and branches that were de-duplicated
separately.
---
 src/tools/ci/vfc_ci_report/helper.py | 22 +++++++++++++---------
 src/tools/ci/vfc_ci_report/main.py   | 11 ++++-------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/helper.py b/src/tools/ci/vfc_ci_report/helper.py
index 6bbdc2b..ac65d95 100644
--- a/src/tools/ci/vfc_ci_report/helper.py
+++ b/src/tools/ci/vfc_ci_report/helper.py
@@ -34,24 +34,28 @@ max_zscore = 3
 ##########################################################################
 
 
-def gen_repo_names(remote_urls, branches):
+def gen_repo_names(repositories):
     """
-    Generate display repository names from (sorted and equally sized) lists of
-    remote URLs and branch names
+    Generate display repository names from a list of (remote URL, branch name)
+    pairs
     """
 
     repo_names_dict = {}
 
-    for i in range(0, len(remote_urls)):
-        if remote_urls[i] == "":
-            repo_names_dict[remote_urls[i]] = "None"
+    for remote_url, branch in repositories:
+        if remote_url == "":
+            repo_names_dict[(remote_url, branch)] = "None"
             continue
 
-        parsed_url = urlparse(remote_urls[i])
+        parsed_url = urlparse(remote_url)
         path = parsed_url.path.split("/")
 
-        repo_name = path[-2] + "/" + path[-1] + ":" + branches[i]
-        repo_names_dict[remote_urls[i]] = repo_name
+        repo_name = "/".join(path[-2:]) + ":" + branch
+        # The same path might exist on different hosts
+        if repo_name in repo_names_dict.values():
+            repo_name = remote_url + ":" + branch
+
+        repo_names_dict[(remote_url, branch)] = repo_name
 
     return repo_names_dict
 
diff --git a/src/tools/ci/vfc_ci_report/main.py b/src/tools/ci/vfc_ci_report/main.py
index cb12fa0..1d65422 100644
--- a/src/tools/ci/vfc_ci_report/main.py
+++ b/src/tools/ci/vfc_ci_report/main.py
@@ -260,12 +260,9 @@ class ViewsMaster:
         # Initialize repository selection
 
         # Generate display names for repositories
-        remote_urls = self.metadata["remote_url"].drop_duplicates().to_list()
-        branches = self.metadata["branch"].drop_duplicates().to_list()
-        repo_names_dict = helper.gen_repo_names(remote_urls, branches)
-        self.metadata["repo_name"] = self.metadata["remote_url"].apply(
-            lambda x: repo_names_dict[x]
-        )
+        repositories = list(zip(self.metadata["remote_url"], self.metadata["branch"]))
+        repo_names_dict = helper.gen_repo_names(dict.fromkeys(repositories))
+        self.metadata["repo_name"] = [repo_names_dict[x] for x in repositories]
 
         # Add the repository selection widget
         select_repo = Select(
@@ -283,7 +280,7 @@ class ViewsMaster:
 
         # Invert key/values for repo_names_dict and pass it to the template as
         # a JSON string
-        repo_names_dict = {value: key for key, value in repo_names_dict.items()}
+        repo_names_dict = {value: key[0] for key, value in repo_names_dict.items()}
         curdoc().template_variables["repo_names_dict"] = json.dumps(repo_names_dict)
 
         # Pass metadata to the template as a JSON string
-- 
2.43.0


From 25b1b6e0fe686b9ad58fb3bcadfb6ae57ecabd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:16 +0000
Subject: [PATCH 68/91] fix: runs of the CI report could have the same name

A run was then impossible to select when commits and other runs alternate.
---
 src/tools/ci/vfc_ci_report/helper.py | 42 +++++++++++-----------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/helper.py b/src/tools/ci/vfc_ci_report/helper.py
index ac65d95..0317424 100644
--- a/src/tools/ci/vfc_ci_report/helper.py
+++ b/src/tools/ci/vfc_ci_report/helper.py
@@ -146,14 +146,7 @@ def get_run_name(timestamp, hash):
         if hash != "":
             str = str + " (%s)" % hash
 
-        if str == get_run_name.previous:
-            get_run_name.counter = get_run_name.counter + 1
-            str = "%s (%s)" % (str, get_run_name.counter)
-        else:
-            get_run_name.counter = 0
-            get_run_name.previous = str
-
-        return str
+        return number_duplicates(str)
 
     # < 1 hour
     if diff < 3600:
@@ -186,30 +179,29 @@ def get_run_name(timestamp, hash):
     if hash != "":
         str = str + " (%s)" % hash
 
-    # Finally, check for duplicate with previously generated string
-    if str == get_run_name.previous:
-        # Increment the duplicate counter and add it to str
-        get_run_name.counter = get_run_name.counter + 1
-        str = "%s (%s)" % (str, get_run_name.counter)
+    # Finally, check for duplicate with previously generated strings
+    return number_duplicates(str)
 
-    else:
-        # No duplicate, reset both previously generated str and duplicate
-        # counter
-        get_run_name.counter = 0
-        get_run_name.previous = str
 
-    return str
+# This external variable will store the number of times each string has already
+# been generated, to avoid duplicates (runs of different repositories may
+# alternate)
+get_run_name.counters = {}
+
+
+def number_duplicates(str):
+    """
+    Add a number to the string if it has already been generated
+    """
 
+    n = get_run_name.counters.get(str, 0)
+    get_run_name.counters[str] = n + 1
 
-# These external variables will store data about the last generated string to
-# avoid duplicates (assuming the runs are sorted chronologically)
-get_run_name.counter = 0
-get_run_name.previous = ""
+    return "%s (%s)" % (str, n) if n > 0 else str
 
 
 def reset_run_strings():
-    get_run_name.counter = 0
-    get_run_name.previous = ""
+    get_run_name.counters = {}
 
 
 def reset_x_range(plot, x_range):
-- 
2.43.0


From 823794b1be73b1c89989b2e7616cd47c0e29afc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:16 +0000
Subject: [PATCH 69/91] fix: the deterministic checks table of the CI report
 showed another run, or failed

---
 src/tools/ci/vfc_ci_report/checks.py                | 8 ++++----
 src/tools/ci/vfc_ci_report/deterministic_compare.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/checks.py b/src/tools/ci/vfc_ci_report/checks.py
index 6afc261..1acaec9 100644
--- a/src/tools/ci/vfc_ci_report/checks.py
+++ b/src/tools/ci/vfc_ci_report/checks.py
@@ -73,7 +73,7 @@ class Checks:
 
         # Update run data
         self.deterministic_run_data = self.deterministic_data[
-            self.deterministic_data["timestamp"] == self.current_run
+            self.deterministic_data["timestamp"] == self.current_deterministic_run
         ]
 
         # Only keep interesting columns
@@ -301,14 +301,14 @@ class Checks:
         # If the run name happens to be the same, the callback has to be
         # triggered manually
         if runs_display[-1] == self.widgets["select_check_run_non_deterministic"].value:
-            update_non_deterministic_run("value", runs_display[-1], runs_display[-1])
+            self.update_non_deterministic_run("value", runs_display[-1], runs_display[-1])
         # In any other case, updating the value is enough to trigger the
         # callback
         else:
             self.widgets["select_check_run_non_deterministic"].value = runs_display[-1]
 
         if runs_display[-1] == self.widgets["select_check_run_deterministic"].value:
-            update_deterministic_run("value", runs_display[-1], runs_display[-1])
+            self.update_deterministic_run("value", runs_display[-1], runs_display[-1])
         else:
             self.widgets["select_check_run_deterministic"].value = runs_display[-1]
 
@@ -316,7 +316,7 @@ class Checks:
         """When received, switch selected run to run_name"""
 
         # This will trigger the widget's callback
-        self.widgets["select_check_run"].value = run_name
+        self.widgets["select_check_run_deterministic"].value = run_name
 
         # Constructor
 
diff --git a/src/tools/ci/vfc_ci_report/deterministic_compare.py b/src/tools/ci/vfc_ci_report/deterministic_compare.py
index ea878c9..cad9387 100644
--- a/src/tools/ci/vfc_ci_report/deterministic_compare.py
+++ b/src/tools/ci/vfc_ci_report/deterministic_compare.py
@@ -238,7 +238,7 @@ class DeterministicCompare:
             "@reference_value": "printf",
         }
 
-        js_tap_callback = 'changeView("checks");'
+        js_tap_callback = 'changeView("deterministic-checks");'
 
         plot.fill_dotplot(
             self.plots["comparison_plot"],
-- 
2.43.0


From e0dc0a5aadb99ee96673fc0a6e54e95b7e46631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:17 +0000
Subject: [PATCH 70/91] fix: filtering outliers in the CI report failed, did
 nothing, or shifted values to other runs

---
 src/tools/ci/vfc_ci_report/compare_runs.py    |  8 +++----
 .../ci/vfc_ci_report/deterministic_compare.py |  6 +++--
 src/tools/ci/vfc_ci_report/helper.py          |  5 ++--
 src/tools/ci/vfc_ci_report/inspect_runs.py    | 23 +++++++++++--------
 4 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/compare_runs.py b/src/tools/ci/vfc_ci_report/compare_runs.py
index 54b0e30..e4f98fd 100644
--- a/src/tools/ci/vfc_ci_report/compare_runs.py
+++ b/src/tools/ci/vfc_ci_report/compare_runs.py
@@ -144,10 +144,10 @@ class CompareRuns:
             # Filter outliers if the box is checked
             if len(self.widgets["outliers_filtering_compare"].active) > 0:
                 outliers = helper.detect_outliers(dict[stat])
-                dict[stat] = helper.remove_outliers(dict[stat], outliers)
-                dict["%s_x" % stat] = helper.remove_outliers(
-                    dict["%s_x" % stat], outliers
-                )
+                dict = {
+                    key: helper.remove_outliers(value, outliers)
+                    for key, value in dict.items()
+                }
 
             # Assign ColumnDataSource
             self.sources["%s_source" % stat].data = dict
diff --git a/src/tools/ci/vfc_ci_report/deterministic_compare.py b/src/tools/ci/vfc_ci_report/deterministic_compare.py
index cad9387..a7f5c1a 100644
--- a/src/tools/ci/vfc_ci_report/deterministic_compare.py
+++ b/src/tools/ci/vfc_ci_report/deterministic_compare.py
@@ -88,8 +88,10 @@ class DeterministicCompare:
         # Filter outliers if the box is checked
         if len(self.widgets["outliers_filtering_deterministic"].active) > 0:
             outliers = helper.detect_outliers(dict["value"])
-            dict["value"] = helper.remove_outliers(dict["value"], outliers)
-            dict["value_x"] = helper.remove_outliers(dict["%value_x"], outliers)
+            dict = {
+                key: helper.remove_outliers(value, outliers)
+                for key, value in dict.items()
+            }
 
         # Series to display IEEE results. This is different than reference_value,
         # because the latter has to be 0 when no reference run has been done
diff --git a/src/tools/ci/vfc_ci_report/helper.py b/src/tools/ci/vfc_ci_report/helper.py
index 0317424..a451d78 100644
--- a/src/tools/ci/vfc_ci_report/helper.py
+++ b/src/tools/ci/vfc_ci_report/helper.py
@@ -233,10 +233,11 @@ def detect_outliers(array, max_zscore=max_zscore):
     if len(array) <= 2:
         return [True] * len(array)
 
+    array = np.asarray(array)
     mean = np.mean(array)
     std = np.std(array)
     if std == 0:
-        return array
+        return [True] * len(array)
     distance = abs(array - mean)
     # Array of booleans with elements to be filtered
     outliers_array = distance < max_zscore * std
@@ -249,8 +250,6 @@ def remove_outliers(array, outliers):
 
 
 def remove_boxplot_outliers(dict, outliers, prefix):
-    outliers = detect_outliers(dict["%s_max" % prefix])
-
     dict["%s_x" % prefix] = remove_outliers(dict["%s_x" % prefix], outliers)
 
     dict["%s_min" % prefix] = remove_outliers(dict["%s_min" % prefix], outliers)
diff --git a/src/tools/ci/vfc_ci_report/inspect_runs.py b/src/tools/ci/vfc_ci_report/inspect_runs.py
index b93facd..497eb05 100644
--- a/src/tools/ci/vfc_ci_report/inspect_runs.py
+++ b/src/tools/ci/vfc_ci_report/inspect_runs.py
@@ -207,15 +207,17 @@ class InspectRuns:
             "nsamples": groups["nsamples"],
         }
 
-        self.sources["mu_source"].data = dict
-
         # Filter outliers if the box is checked
         if len(self.widgets["outliers_filtering_inspect"].active) > 0:
-            mu_outliers = helper.detect_outliers(groups["mu"])
-            groups["mu"] = helper.remove_outliers(groups["mu"], mu_outliers)
-            groups["mu_x"] = helper.remove_outliers(groups["mu_x"], mu_outliers)
+            mu_outliers = helper.detect_outliers(dict["mu"])
+            dict = {
+                key: helper.remove_outliers(value, mu_outliers)
+                for key, value in dict.items()
+            }
 
-            # Update plots axis/titles
+        self.sources["mu_source"].data = dict
+
+        # Update plots axis/titles
 
         # Get display string of the last (unselected) factor
         factors_dict = self.factors_dict.copy()
@@ -248,10 +250,11 @@ class InspectRuns:
             % (filterby_display, groupby_display, for_all)
         )
 
-        helper.reset_x_range(self.plots["mu_inspect"], groups["mu_x"])
-        helper.reset_x_range(self.plots["sigma_inspect"], groups["sigma_x"])
-        helper.reset_x_range(self.plots["s10_inspect"], groups["s10_x"])
-        helper.reset_x_range(self.plots["s2_inspect"], groups["s2_x"])
+        for stat in ["mu", "sigma", "s10", "s2"]:
+            helper.reset_x_range(
+                self.plots["%s_inspect" % stat],
+                self.sources["%s_source" % stat].data["%s_x" % stat],
+            )
 
         # Widets' callback functions
 
-- 
2.43.0


From d76646d66ffe586b1c9f37007835ba3b37cb0459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:17 +0000
Subject: [PATCH 71/91] fix: changing the repository of the CI report failed or
 left the former selection

---
 src/tools/ci/vfc_ci_report/compare_runs.py    | 118 +++++++--------
 .../ci/vfc_ci_report/deterministic_compare.py | 135 +++++++-----------
 src/tools/ci/vfc_ci_report/inspect_runs.py    |  54 +++----
 3 files changed, 129 insertions(+), 178 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/compare_runs.py b/src/tools/ci/vfc_ci_report/compare_runs.py
index e4f98fd..82eaf19 100644
--- a/src/tools/ci/vfc_ci_report/compare_runs.py
+++ b/src/tools/ci/vfc_ci_report/compare_runs.py
@@ -89,6 +89,8 @@ class CompareRuns:
 
             self.sources["boxplot_source"].data = dict
 
+            self.update_x_axis()
+
             return
 
         # Select all data matching current test/var/backend
@@ -173,8 +175,9 @@ class CompareRuns:
 
         self.sources["boxplot_source"].data = dict
 
-        # Update x axis
+        self.update_x_axis()
 
+    def update_x_axis(self):
         helper.reset_x_range(
             self.plots["boxplot"], self.sources["boxplot_source"].data["x"]
         )
@@ -188,6 +191,38 @@ class CompareRuns:
             self.plots["s2_plot"], self.sources["s2_source"].data["s2_x"]
         )
 
+        # Lists of selectable items ("None" if there is no data to show)
+
+    def update_tests(self):
+        self.tests = ["None"]
+
+        if not self.data.empty:
+            self.tests = (
+                self.data.index.get_level_values("test").drop_duplicates().tolist()
+            )
+
+    def update_vars(self, test):
+        self.vars = ["None"]
+
+        if not self.data.empty:
+            self.vars = (
+                self.data.loc[test]
+                .index.get_level_values("variable")
+                .drop_duplicates()
+                .tolist()
+            )
+
+    def update_backends(self, test, var):
+        self.backends = ["None"]
+
+        if not self.data.empty:
+            self.backends = (
+                self.data.loc[test, var]
+                .index.get_level_values("vfc_backend")
+                .drop_duplicates()
+                .tolist()
+            )
+
         # Widgets' callback functions
 
     def update_test(self, attrname, old, new):
@@ -210,12 +245,7 @@ class CompareRuns:
             return
 
         # New list of available vars
-        self.vars = (
-            self.data.loc[new]
-            .index.get_level_values("variable")
-            .drop_duplicates()
-            .tolist()
-        )
+        self.update_vars(new)
         self.widgets["select_var"].options = self.vars
 
         # Reset var selection if old one is not available in new vars
@@ -243,13 +273,8 @@ class CompareRuns:
             return
 
         # New list of available backends
-        self.backends = (
-            self.data.loc[
-                self.widgets["select_test"].value, self.widgets["select_var"].value
-            ]
-            .index.get_level_values("vfc_backend")
-            .drop_duplicates()
-            .tolist()
+        self.update_backends(
+            self.widgets["select_test"].value, self.widgets["select_var"].value
         )
         self.widgets["select_backend"].options = self.backends
 
@@ -444,29 +469,9 @@ class CompareRuns:
         # Initial selections
 
         # Test/var/backend combination (we select all first elements at init)
-        if not self.data.empty:
-            self.tests = (
-                self.data.index.get_level_values("test").drop_duplicates().tolist()
-            )
-
-            self.vars = (
-                self.data.loc[self.tests[0]]
-                .index.get_level_values("variable")
-                .drop_duplicates()
-                .tolist()
-            )
-
-            self.backends = (
-                self.data.loc[self.tests[0], self.vars[0]]
-                .index.get_level_values("vfc_backend")
-                .drop_duplicates()
-                .tolist()
-            )
-
-        else:
-            self.tests = ["None"]
-            self.vars = ["None"]
-            self.backends = ["None"]
+        self.update_tests()
+        self.update_vars(self.tests[0])
+        self.update_backends(self.tests[0], self.vars[0])
 
         # Custom JS callback that will be used client side to filter selections
         filter_callback_js = """
@@ -503,13 +508,11 @@ class CompareRuns:
         self.widgets["test_filter"] = TextInput(
             name="test_filter", title="Tests filter:"
         )
-        self.widgets["test_filter"].js_on_change(
-            "value",
-            CustomJS(
-                args=dict(options=self.tests, selector=self.widgets["select_test"]),
-                code=filter_callback_js,
-            ),
+        self.test_filter_callback = CustomJS(
+            args=dict(options=self.tests, selector=self.widgets["select_test"]),
+            code=filter_callback_js,
         )
+        self.widgets["test_filter"].js_on_change("value", self.test_filter_callback)
         self.doc.add_root(self.widgets["test_filter"])
 
         # Number of runs to display
@@ -598,31 +601,18 @@ class CompareRuns:
         self.data = new_data
         self.metadata = new_metadata
 
-        # Update widgets(and automatically trigger plot updates)
-        self.tests = self.data.index.get_level_values("test").drop_duplicates().tolist()
-
-        self.vars = (
-            self.data.loc[self.tests[0]]
-            .index.get_level_values("variable")
-            .drop_duplicates()
-            .tolist()
-        )
-
-        self.backends = (
-            self.data.loc[self.tests[0], self.vars[0]]
-            .index.get_level_values("vfc_backend")
-            .drop_duplicates()
-            .tolist()
-        )
+        # Update widgets
+        self.update_tests()
 
         self.widgets["select_test"].options = self.tests
         self.widgets["select_test"].value = self.tests[0]
+        self.test_filter_callback.args = dict(
+            options=self.tests, selector=self.widgets["select_test"]
+        )
 
-        # If changing repo doesn't affect the selection, trigger the callback
-        # manually
-        old = self.widgets["select_backend"].value
-        if self.widgets["select_backend"].value == old:
-            self.update_plots()
+        # The callback has to be triggered manually if the name of the selected
+        # test happens to be the same
+        self.update_test("", "", self.tests[0])
 
         # Constructor
 
diff --git a/src/tools/ci/vfc_ci_report/deterministic_compare.py b/src/tools/ci/vfc_ci_report/deterministic_compare.py
index a7f5c1a..6ab73d4 100644
--- a/src/tools/ci/vfc_ci_report/deterministic_compare.py
+++ b/src/tools/ci/vfc_ci_report/deterministic_compare.py
@@ -51,6 +51,8 @@ class DeterministicCompare:
             dict = {"value_x": [], "value": [], "ieee": [], "custom_colors": []}
             self.source.data = dict
 
+            helper.reset_x_range(self.plots["comparison_plot"], [])
+
             return
 
         # Select all data matching current test/var/backend
@@ -110,6 +112,38 @@ class DeterministicCompare:
 
         helper.reset_x_range(self.plots["comparison_plot"], self.source.data["value_x"])
 
+        # Lists of selectable items ("None" if there is no data to show)
+
+    def update_tests(self):
+        self.tests = ["None"]
+
+        if not self.data.empty:
+            self.tests = (
+                self.data.index.get_level_values("test").drop_duplicates().tolist()
+            )
+
+    def update_vars(self, test):
+        self.vars = ["None"]
+
+        if not self.data.empty:
+            self.vars = (
+                self.data.loc[test]
+                .index.get_level_values("variable")
+                .drop_duplicates()
+                .tolist()
+            )
+
+    def update_backends(self, test, var):
+        self.backends = ["None"]
+
+        if not self.data.empty:
+            self.backends = (
+                self.data.loc[test, var]
+                .index.get_level_values("vfc_backend")
+                .drop_duplicates()
+                .tolist()
+            )
+
         # Widgets' callback functions
 
     def update_test(self, attrname, old, new):
@@ -126,23 +160,13 @@ class DeterministicCompare:
             else:
                 return
 
-        # Speciel case when nex is an empty string, triggered by no data
-        # to show
-        if len(new) == 0:
-            return
-
         if new != self.widgets["select_deterministic_test"].value:
             # The callback will be triggered again with the updated value
             self.widgets["select_deterministic_test"].value = new
             return
 
         # New list of available vars
-        self.vars = (
-            self.data.loc[new]
-            .index.get_level_values("variable")
-            .drop_duplicates()
-            .tolist()
-        )
+        self.update_vars(new)
         self.widgets["select_deterministic_var"].options = self.vars
 
         # Reset var selection if old one is not available in new vars
@@ -170,14 +194,8 @@ class DeterministicCompare:
             return
 
         # New list of available backends
-        self.backends = (
-            self.data.loc[
-                self.widgets["select_deterministic_test"].value,
-                self.widgets["select_deterministic_var"].value,
-            ]
-            .index.get_level_values("vfc_backend")
-            .drop_duplicates()
-            .tolist()
+        self.update_backends(
+            self.widgets["select_deterministic_test"].value, self.widgets["select_deterministic_var"].value
         )
         self.widgets["select_deterministic_backend"].options = self.backends
 
@@ -263,29 +281,9 @@ class DeterministicCompare:
         # Initial selection
 
         # Test/var/backend combination (we select all first elements at init)
-        if not self.data.empty:
-            self.tests = (
-                self.data.index.get_level_values("test").drop_duplicates().tolist()
-            )
-
-            self.vars = (
-                self.data.loc[self.tests[0]]
-                .index.get_level_values("variable")
-                .drop_duplicates()
-                .tolist()
-            )
-
-            self.backends = (
-                self.data.loc[self.tests[0], self.vars[0]]
-                .index.get_level_values("vfc_backend")
-                .drop_duplicates()
-                .tolist()
-            )
-
-        else:
-            self.tests = ["None"]
-            self.vars = ["None"]
-            self.backends = ["None"]
+        self.update_tests()
+        self.update_vars(self.tests[0])
+        self.update_backends(self.tests[0], self.vars[0])
 
         # Custom JS callback that will be used client side to filter selections
         filter_callback_js = """
@@ -325,16 +323,11 @@ class DeterministicCompare:
         self.widgets["deterministic_test_filter"] = TextInput(
             name="deterministic_test_filter", title="Tests filter:"
         )
-        self.widgets["deterministic_test_filter"].js_on_change(
-            "value",
-            CustomJS(
-                args=dict(
-                    options=self.tests,
-                    selector=self.widgets["select_deterministic_test"],
-                ),
-                code=filter_callback_js,
-            ),
+        self.test_filter_callback = CustomJS(
+            args=dict(options=self.tests, selector=self.widgets["select_deterministic_test"]),
+            code=filter_callback_js,
         )
+        self.widgets["deterministic_test_filter"].js_on_change("value", self.test_filter_callback)
         self.doc.add_root(self.widgets["deterministic_test_filter"])
 
         # Number of runs to display
@@ -414,40 +407,18 @@ class DeterministicCompare:
         self.data = new_data
         self.metadata = new_metadata
 
-        # Update widgets(and automatically trigger plot updates)
-        self.tests = self.data.index.get_level_values("test").drop_duplicates().tolist()
-
-        if len(self.tests) != 0:
-            self.vars = (
-                self.data.loc[self.tests[0]]
-                .index.get_level_values("variable")
-                .drop_duplicates()
-                .tolist()
-            )
-        else:
-            self.vars = []
-
-        if len(self.vars) != 0:
-            self.backends = (
-                self.data.loc[self.tests[0], self.vars[0]]
-                .index.get_level_values("vfc_backend")
-                .drop_duplicates()
-                .tolist()
-            )
-        else:
-            self.backends = []
+        # Update widgets
+        self.update_tests()
 
         self.widgets["select_deterministic_test"].options = self.tests
-        if len(self.tests) != 0:
-            self.widgets["select_deterministic_test"].value = self.tests[0]
-        else:
-            self.widgets["select_deterministic_test"].value = ""
+        self.widgets["select_deterministic_test"].value = self.tests[0]
+        self.test_filter_callback.args = dict(
+            options=self.tests, selector=self.widgets["select_deterministic_test"]
+        )
 
-        # If changing repo doesn't affect the selection, trigger the callback
-        # manually
-        old = self.widgets["select_deterministic_backend"].value
-        if self.widgets["select_deterministic_backend"].value == old:
-            self.update_plots()
+        # The callback has to be triggered manually if the name of the selected
+        # test happens to be the same
+        self.update_test("", "", self.tests[0])
 
     # Constructor
 
diff --git a/src/tools/ci/vfc_ci_report/inspect_runs.py b/src/tools/ci/vfc_ci_report/inspect_runs.py
index 497eb05..8545fa4 100644
--- a/src/tools/ci/vfc_ci_report/inspect_runs.py
+++ b/src/tools/ci/vfc_ci_report/inspect_runs.py
@@ -69,6 +69,16 @@ class InspectRuns:
             "@%s_mu" % prefix: "printf",
         }
 
+    def get_filter_options(self, filterby):
+        """
+        List the values of a factor in the current run ("None" if it has no data)
+        """
+
+        if self.run_data.empty:
+            return ["None"]
+
+        return self.run_data.index.get_level_values(filterby).drop_duplicates().tolist()
+
     # Data processing helper
     # (computes new distributions for sigma, s2, s10)
 
@@ -276,9 +286,7 @@ class InspectRuns:
         old_value = self.widgets["select_filter"].value
 
         # Update filter options
-        options = (
-            self.run_data.index.get_level_values(filterby).drop_duplicates().tolist()
-        )
+        options = self.get_filter_options(filterby)
         self.widgets["select_filter"].options = options
 
         if old_value not in self.widgets["select_filter"].options:
@@ -307,9 +315,7 @@ class InspectRuns:
         old_value = self.widgets["select_filter"].value
 
         # Update filter options
-        options = (
-            self.run_data.index.get_level_values(filterby).drop_duplicates().tolist()
-        )
+        options = self.get_filter_options(filterby)
         self.widgets["select_filter"].options = options
 
         if old_value not in self.widgets["select_filter"].options:
@@ -333,9 +339,7 @@ class InspectRuns:
         old_value = self.widgets["select_filter"].value
 
         # Update filter selector options
-        options = (
-            self.run_data.index.get_level_values(filterby).drop_duplicates().tolist()
-        )
+        options = self.get_filter_options(filterby)
         self.widgets["select_filter"].options = options
 
         if old_value not in self.widgets["select_filter"].options:
@@ -551,14 +555,7 @@ class InspectRuns:
         ]
         filterby = self.factors_dict[filterby]
 
-        if not self.run_data.empty:
-            options = (
-                self.run_data.index.get_level_values(filterby)
-                .drop_duplicates()
-                .tolist()
-            )
-        else:
-            options = ["None"]
+        options = self.get_filter_options(filterby)
 
         self.widgets["select_filter"] = Select(
             # We need a different name to avoid collision in the template with
@@ -598,23 +595,16 @@ class InspectRuns:
         runs_display = list(self.runs_dict.keys())
         current_run_display = runs_display[-1]
 
-        # Update widget (and trigger its callback)
         self.widgets["select_run"].options = runs_display
-        self.widgets["select_run"].value = current_run_display
 
-        filterby = self.widgets["filterby_radio"].labels[
-            self.widgets["filterby_radio"].active
-        ]
-        filterby = self.factors_dict[filterby]
-
-        self.run_data = self.data[self.data["timestamp"] == self.current_run]
-        options = (
-            self.run_data.index.get_level_values(filterby).drop_duplicates().tolist()
-        )
-
-        # Update widget (and trigger its callback)
-        self.widgets["select_filter"].options = options
-        self.widgets["select_filter"].value = options[0]
+        # If the run name happens to be the same, the callback has to be
+        # triggered manually
+        if current_run_display == self.widgets["select_run"].value:
+            self.update_run("value", current_run_display, current_run_display)
+        # In any other case, updating the value is enough to trigger the
+        # callback
+        else:
+            self.widgets["select_run"].value = current_run_display
 
     def switch_view(self, run_name):
         """When received, switch selected run to run_name"""
-- 
2.43.0


From 3d029bba07775e57f8a0ff132210f8ae00746357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:17 +0000
Subject: [PATCH 72/91] fix: vfc_ci serve altered the logo URL and directories
 with spaces or special characters

---
 src/tools/ci/serve.py              | 44 ++++++++++++++----------------
 src/tools/ci/vfc_ci_report/main.py |  3 +-
 2 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/tools/ci/serve.py b/src/tools/ci/serve.py
index e6cbae9..ff3e676 100644
--- a/src/tools/ci/serve.py
+++ b/src/tools/ci/serve.py
@@ -22,18 +22,12 @@
 # calling Bokeh directly.
 
 import os
+import subprocess
 
 
 def run(directory, show, port, allow_origin, logo_url, max_files, ignore_recent):
     """Entry point of vfc_ci serve"""
 
-    # Prepare arguments
-    directory = "directory %s" % directory
-    show = "--show" if show else ""
-    logo = "logo %s" % logo_url if logo_url else ""
-    max_files = "max_files %s" % max_files if max_files else ""
-    ignore_recent = "ignore_recent %s" % ignore_recent if ignore_recent else ""
-
     dirname = os.path.dirname(__file__)
 
     # Call the "bokeh serve" command on the system
@@ -43,20 +37,22 @@ def run(directory, show, port, allow_origin, logo_url, max_files, ignore_recent)
     # generating the Jinja template, etc... => This is an option for a future
     # commit.
 
-    command = (
-        "bokeh serve %s/vfc_ci_report %s --allow-websocket-origin=%s:%s --port %s --args %s %s %s %s"
-        % (
-            dirname,
-            show,
-            allow_origin,
-            port,
-            port,
-            directory,
-            logo,
-            max_files,
-            ignore_recent,
-        )
-    )
-    command = os.path.normpath(command)
-
-    os.system(command)
+    command = ["bokeh", "serve", os.path.join(dirname, "vfc_ci_report")]
+
+    if show:
+        command.append("--show")
+
+    command.append("--allow-websocket-origin=%s:%s" % (allow_origin, port))
+    command += ["--port", str(port)]
+
+    # Arguments of the report (pairs of names and values)
+    command += ["--args", "directory", directory]
+
+    if logo_url:
+        command += ["logo", logo_url]
+    if max_files:
+        command += ["max_files", str(max_files)]
+    if ignore_recent:
+        command += ["ignore_recent", str(ignore_recent)]
+
+    subprocess.call(command)
diff --git a/src/tools/ci/vfc_ci_report/main.py b/src/tools/ci/vfc_ci_report/main.py
index 1d65422..728900b 100644
--- a/src/tools/ci/vfc_ci_report/main.py
+++ b/src/tools/ci/vfc_ci_report/main.py
@@ -55,7 +55,8 @@ directory = "."
 max_files = 100
 ignore_recent = 0
 
-for i in range(1, len(sys.argv)):
+# (pairs of names and values)
+for i in range(1, len(sys.argv), 2):
     # Look for a logo URL
     # If a logo URL is specified, it will be included in the report's header
     if sys.argv[i] == "logo":
-- 
2.43.0


From 357c0393561eac5db33113ce5d7bc88743296d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:31 +0000
Subject: [PATCH 73/91] fix: vfc_ci setup committed and pushed the untracked
 files of the user

---
 src/tools/ci/setup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tools/ci/setup.py b/src/tools/ci/setup.py
index 6b27517..24662e1 100644
--- a/src/tools/ci/setup.py
+++ b/src/tools/ci/setup.py
@@ -87,6 +87,8 @@ def gen_workflow(git_host, dev_branch, ci_branch, repo):
         with open(filename, "w") as fh:
             fh.write(render)
 
+    return filename
+
 
 ##########################################################################
 
@@ -125,8 +127,9 @@ def run(git_host):
     # Commit the workflow on the current (dev) branch
 
     ci_branch_name = "vfc_ci_%s" % dev_branch_name
-    gen_workflow(git_host, dev_branch_name, ci_branch_name, repo)
-    repo.git.add(".")
+    filename = gen_workflow(git_host, dev_branch_name, ci_branch_name, repo)
+    # (only the workflow: other untracked files belong to the user)
+    repo.git.add("--force", filename)
     repo.index.commit("[auto] Set up Verificarlo CI on this branch")
     repo.remote(name="origin").push()
 
-- 
2.43.0


From 23d5d735dbe4a01a7a73a86a63a48f87724f049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:31 +0000
Subject: [PATCH 74/91] fix: vfc_ci setup erased the results of an existing CI
 branch

---
 src/tools/ci/setup.py | 52 ++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/tools/ci/setup.py b/src/tools/ci/setup.py
index 24662e1..03d6834 100644
--- a/src/tools/ci/setup.py
+++ b/src/tools/ci/setup.py
@@ -21,6 +21,7 @@
 # Helper script to set up Verificarlo CI on the current branch
 
 import os
+import tempfile
 
 import git
 from jinja2 import Environment, FileSystemLoader
@@ -39,9 +40,23 @@ def gen_readme(dev_branch, ci_branch):
     # Render template
     render = template.render(dev_branch=dev_branch, ci_branch=ci_branch)
 
-    # Write template
-    with open("README.md", "w") as fh:
-        fh.write(render)
+    return render
+
+
+def create_ci_branch(repo, name, readme, message):
+    """Create an orphan branch with a readme on it, without leaving the current
+    branch nor touching the work tree and the index"""
+
+    def git_object(command, content):
+        with tempfile.TemporaryFile() as fh:
+            fh.write(content.encode())
+            fh.seek(0)
+            return command(istream=fh)
+
+    blob = git_object(lambda **kw: repo.git.hash_object("-w", "--stdin", **kw), readme)
+    tree = git_object(repo.git.mktree, "100644 blob %s\tREADME.md\n" % blob)
+    commit = repo.git.commit_tree(tree, "-m", message)
+    repo.create_head(name, commit)
 
 
 def gen_workflow(git_host, dev_branch, ci_branch, repo):
@@ -133,23 +148,20 @@ def run(git_host):
     repo.index.commit("[auto] Set up Verificarlo CI on this branch")
     repo.remote(name="origin").push()
 
-    # Create the CI branch (orphan branch with a readme on it)
-    # (see : https://github.com/gitpython-developers/GitPython/issues/615)
-
-    repo.head.reference = git.Head(repo, "refs/heads/" + ci_branch_name)
-
-    repo.index.remove(["*"])
-    gen_readme(dev_branch_name, ci_branch_name)
-    repo.index.add(["README.md"])
-
-    repo.index.commit(
-        "[auto] Create the Verificarlo CI branch for %s" % dev_branch_name,
-        parent_commits=None,
-    )
-    repo.remote(name="origin").push(refspec="%s:%s" % (ci_branch_name, ci_branch_name))
-
-    # Force checkout back to the original (dev) branch
-    repo.git.checkout(dev_branch_name, force=True)
+    # Create the CI branch (orphan branch with a readme on it), unless it exists
+    # and may already hold some results
+
+    if not repo.git.ls_remote("origin", "refs/heads/" + ci_branch_name):
+        if ci_branch_name not in repo.heads:
+            create_ci_branch(
+                repo,
+                ci_branch_name,
+                gen_readme(dev_branch_name, ci_branch_name),
+                "[auto] Create the Verificarlo CI branch for %s" % dev_branch_name,
+            )
+        repo.remote(name="origin").push(
+            refspec="%s:%s" % (ci_branch_name, ci_branch_name)
+        )
 
     # Print termination messages
 
-- 
2.43.0


From ddde0cb37d3714a51d61386a188b573d0add8cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:49 +0000
Subject: [PATCH 75/91] fix: vfc_ci setup reported a success when a branch
 could not be pushed

---
 src/tools/ci/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/ci/setup.py b/src/tools/ci/setup.py
index 03d6834..f777d93 100644
--- a/src/tools/ci/setup.py
+++ b/src/tools/ci/setup.py
@@ -146,7 +146,7 @@ def run(git_host):
     # (only the workflow: other untracked files belong to the user)
     repo.git.add("--force", filename)
     repo.index.commit("[auto] Set up Verificarlo CI on this branch")
-    repo.remote(name="origin").push()
+    repo.remote(name="origin").push().raise_if_error()
 
     # Create the CI branch (orphan branch with a readme on it), unless it exists
     # and may already hold some results
@@ -161,7 +161,7 @@ def run(git_host):
             )
         repo.remote(name="origin").push(
             refspec="%s:%s" % (ci_branch_name, ci_branch_name)
-        )
+        ).raise_if_error()
 
     # Print termination messages
 
-- 
2.43.0


From 54d1ae262504f5dade4e93ce5b3b0faf52a1da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:49 +0000
Subject: [PATCH 76/91] fix: the GitLab workflow pushed to a wrong URL for most
 forms of remote URLs

---
 src/tools/ci/setup.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tools/ci/setup.py b/src/tools/ci/setup.py
index f777d93..24a2b9c 100644
--- a/src/tools/ci/setup.py
+++ b/src/tools/ci/setup.py
@@ -21,6 +21,7 @@
 # Helper script to set up Verificarlo CI on the current branch
 
 import os
+import re
 import tempfile
 
 import git
@@ -87,8 +88,14 @@ def gen_workflow(git_host, dev_branch, ci_branch, repo):
         email = input("[vfc_ci] Enter the e-mail of the user who will run the CI jobs:")
 
         remote_url = repo.remotes[0].config_reader.get("url")
-        remote_url = remote_url.replace("http://", "")
-        remote_url = remote_url.replace("https://", "")
+        # Keep host/path only (from [protocol://][user@]host/path[.git] or
+        # [user@]host:path[.git])
+        if "://" in remote_url:
+            remote_url = remote_url.split("://", 1)[1]
+        else:
+            remote_url = remote_url.replace(":", "/", 1)
+        host, path = remote_url.split("/", 1)
+        remote_url = host.split("@")[-1] + "/" + re.sub(r"(\.git)?/*$", "", path)
 
         render = template.render(
             dev_branch=dev_branch,
-- 
2.43.0


From 5f9e1ba2678049f9936b5095cc8beebe99006cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:03 +0000
Subject: [PATCH 77/91] fix: the CI workflows did not work for branch names
 with special characters

---
 src/tools/ci/workflow_templates/gitlab-ci.j2.yml         | 2 +-
 src/tools/ci/workflow_templates/vfc_test_workflow.j2.yml | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/ci/workflow_templates/gitlab-ci.j2.yml b/src/tools/ci/workflow_templates/gitlab-ci.j2.yml
index b1ffd6c..bc8c6a6 100644
--- a/src/tools/ci/workflow_templates/gitlab-ci.j2.yml
+++ b/src/tools/ci/workflow_templates/gitlab-ci.j2.yml
@@ -21,7 +21,7 @@ run_verificarlo_tests:
   - vfc_ci test -g -r
   - git_hash=$(git rev-parse --short "$CI_COMMIT_SHA")
   - git fetch --all
-  - git checkout -b {{ci_branch}} origin/{{ci_branch}}
+  - git checkout -b "{{ci_branch}}" "origin/{{ci_branch}}"
   - mkdir -p vfcruns
   - mv *.vfcrun.h5 vfcruns
   - git add vfcruns/*
diff --git a/src/tools/ci/workflow_templates/vfc_test_workflow.j2.yml b/src/tools/ci/workflow_templates/vfc_test_workflow.j2.yml
index f62ec30..6a12d08 100644
--- a/src/tools/ci/workflow_templates/vfc_test_workflow.j2.yml
+++ b/src/tools/ci/workflow_templates/vfc_test_workflow.j2.yml
@@ -6,7 +6,7 @@ name: "Verificarlo CI ({{dev_branch}})"
 on:
   # Triggers the workflow when {{dev_branch}} is updated
   push:
-    branches: [ {{dev_branch}} ]
+    branches: [ "{{dev_branch}}" ]
 
   workflow_dispatch:
 
@@ -33,7 +33,7 @@ jobs:
           git config --local user.email "action@github.com"
           git config --local user.name "GitHub Action"
 
-          git checkout {{ci_branch}}
+          git checkout "{{ci_branch}}"
           mkdir -p vfcruns
           mv *.vfcrun.h5 vfcruns
           git add vfcruns/*
-- 
2.43.0


From 5e03619cd7a2e08d620113cffb0482efd9937908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:30 +0000
Subject: [PATCH 78/91] fix: vfc_ci setup refused a branch that has the name of
 a tag

---
 src/tools/ci/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/ci/setup.py b/src/tools/ci/setup.py
index 24a2b9c..a223239 100644
--- a/src/tools/ci/setup.py
+++ b/src/tools/ci/setup.py
@@ -139,7 +139,7 @@ def run(git_host):
     )
 
     # Make sure that we are not behind the remote (so we can push safely later)
-    rev = "%s...%s" % (dev_branch_name, str(dev_remote))
+    rev = "%s...%s" % (dev_branch.commit, dev_remote.commit)
     commits_behind = list(repo.iter_commits(rev))
     assert commits_behind == [], (
         "Error [vfc_ci]: The local branch seems "
-- 
2.43.0


From cb5011896f8edab769045b55a92da2c8e5f37198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:30 +0000
Subject: [PATCH 79/91] fix: vfc_vtk failed on every output (XML elements have
 no copy method)

---
 src/tools/vtk/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 9757a09..03a648f 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -22,6 +22,7 @@
 
 
 import argparse
+import copy
 import io
 import os
 import shutil
@@ -103,7 +104,7 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
 
         # original element
         original = output.find(xpath)
-        accuracy = original.copy()
+        accuracy = copy.deepcopy(original)
 
         # update the output_vtu with the mean
         if args.mean:
-- 
2.43.0


From cd4a2f6a16083ca97e36fa8aec102380bbfcedfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:30 +0000
Subject: [PATCH 80/91] fix: vfc_vtk reported no significant digit for negative
 values

---
 src/tools/vtk/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 03a648f..1f2b83f 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -97,7 +97,7 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
         if args.std:
             s = std
         else:
-            s = -np.log10(std / mean)
+            s = -np.log10(std / np.abs(mean))
             s[np.isnan(s)] = 0.0
             s[s < 0.0] = 0.0
             s[s > 17.0] = 17.0
-- 
2.43.0


From 50c0c65e96b4872da061fefd882e0a24f717bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:30 +0000
Subject: [PATCH 81/91] fix: vfc_vtk failed when a reference output directory
 was given

---
 src/tools/vtk/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 1f2b83f..4bdd023 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -144,7 +144,7 @@ def postprocess(verificarlo_dir, output_dir, args):
 
     # Prepare reference output
     if args.r:
-        shutil.copyfile(args.r, output_dir)
+        shutil.copytree(args.r, output_dir)
     else:
         # Use first vtu file as base for the merge
         shutil.copytree(dirs[0], output_dir)
-- 
2.43.0


From 12ed6277857ca03d12da91b4d435f6237c8bfb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:30 +0000
Subject: [PATCH 82/91] fix: vfc_vtk ignored double precision arrays and mixed
 up arrays of the same name

---
 src/tools/vtk/__main__.py | 47 +++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 4bdd023..a0bbc45 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -61,6 +61,18 @@ def np_to_string(a):
         return "\n" + s.getvalue()
 
 
+def find_arrays(tree):
+    """Returns the floating point arrays of a .vtu file, each one after its
+    grandparent and its parent"""
+    return [
+        (piece, parent, c)
+        for piece in tree.iter()
+        for parent in piece
+        for c in parent.findall("DataArray")
+        if c.get("type") in ["Float32", "Float64"]
+    ]
+
+
 def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
     """Postprocess a set of .vtu files adding verificarlo
     accuracy information.
@@ -72,22 +84,19 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
     # open output file
     output = ET.parse(output_vtu)
 
-    # find names of float32 DataArray nodes
-    names = []
-    for c in output.findall(".//DataArray[@type='Float32']"):
-        names.append(c.get("Name"))
-
-    for name in names:
-        rows = []
-        xpath = ".//DataArray[@type='Float32'][@Name='{}']".format(name)
+    # find the floating point arrays of the output and of each verificarlo trace
+    # (names are not unique: each piece has its own arrays)
+    arrays = find_arrays(output)
+    inputs = [find_arrays(ET.parse(os.path.join(d, vtu_filename))) for d in vfc_dirs]
+    names = [c.get("Name", "") for _, _, c in arrays]
+    for inp in inputs:
+        assert [c.get("Name", "") for _, _, c in inp] == names
 
+    for i, (piece, parent, original) in enumerate(arrays):
         # for each verificarlo trace extract data as a numpy double array
-        for d in vfc_dirs:
-            vtu_path = os.path.join(d, vtu_filename)
-            inp = ET.parse(vtu_path)
-            c = inp.find(xpath)
-            assert c is not None
-            rows.append(np.fromstring(c.text, np.float64, sep=" "))
+        rows = [
+            np.fromstring(inp[i][2].text or "", np.float64, sep=" ") for inp in inputs
+        ]
 
         # compute the mean and significant digits across MCA traces
         mat = np.stack(rows)
@@ -103,7 +112,6 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
             s[s > 17.0] = 17.0
 
         # original element
-        original = output.find(xpath)
         accuracy = copy.deepcopy(original)
 
         # update the output_vtu with the mean
@@ -111,15 +119,16 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
             original.text = np_to_string(mean)
 
         # create an accuracy node with the accuracy
-        accuracy.set("Name", name + "_vfc_accuracy")
+        accuracy.set("Name", names[i] + "_vfc_accuracy")
         accuracy.text = np_to_string(s)
 
-        # retrieve parent
-        parent = output.find(xpath + "/..")
+        # points only hold coordinates
         if parent.tag != "Points":
             insert_in = parent
         else:
-            insert_in = output.find(".//PointData")
+            insert_in = piece.find("PointData")
+            if insert_in is None:
+                insert_in = ET.SubElement(piece, "PointData")
 
         # insert it as a sibling
         insert_in.insert(0, accuracy)
-- 
2.43.0


From 504ab812ecf8bfb6e5c4ae3f7f64167c2e139f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:37 +0000
Subject: [PATCH 83/91] fix: VFC_DDEBUG_GEN aborted or gave an incomplete list
 when the program had children of its own

The end of addr2line was awaited with wait(), which may return for any child
of the program: a child left by the program with a nonzero status made the
program abort at exit, and the list was left incomplete.
---
 src/vfcwrapper/main.c.in | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index cab464b..2c438e3 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -186,8 +186,10 @@ void ddebug_generate_inclusion(char *dd_generate_path, vfc_hashmap_t map) {
                NULL);
         logger_error("error running " ADDR2LINE_BIN);
       } else {
-        int status;
-        wait(&status);
+        int status = 0;
+        /* the program may have children of its own, or ignore SIGCHLD */
+        while (waitpid(pid, &status, 0) == -1 && errno == EINTR) {
+        }
         assert(status == 0);
       }
     }
-- 
2.43.0


From d6015b39934128970208f8247a8208ee1e7b210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:37 +0000
Subject: [PATCH 84/91] fix: vfc_report always failed at the end, without
 writing the report

main() assigns ReportString, which is thus local there and has no value yet.
---
 src/tools/optimize/report.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/optimize/report.py b/src/tools/optimize/report.py
index 8661bd4..a2d6fba 100644
--- a/src/tools/optimize/report.py
+++ b/src/tools/optimize/report.py
@@ -708,12 +708,12 @@ def main():
 
     FunctionCallsStr += "\n"
 
-    ReportString = ReportString.replace("\t\t<!-- Function Calls -->", FunctionCallsStr)
-    ReportString = ReportString.replace("\t\t\t/* Chart script */", CallChartString)
+    Report = ReportString.replace("\t\t<!-- Function Calls -->", FunctionCallsStr)
+    Report = Report.replace("\t\t\t/* Chart script */", CallChartString)
 
     ReportFile = open(Report_File, "w")
 
-    ReportString = ReportFile.write(ReportString)
+    ReportFile.write(Report)
 
     ReportFile.close()
 
-- 
2.43.0


From f1d1f8d66631e6f1bea158297f534a877d8818a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:37 +0000
Subject: [PATCH 85/91] fix: vfc_report ignored the list of functions it is
 given

---
 src/tools/optimize/report.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tools/optimize/report.py b/src/tools/optimize/report.py
index a2d6fba..be147f1 100644
--- a/src/tools/optimize/report.py
+++ b/src/tools/optimize/report.py
@@ -212,18 +212,17 @@ def GetFunctionInfo(FunctionID):
 
 
 def FilterFunctions(Dataset, FunctionList):
-    for i in range(len(Dataset.index)):
+    to_drop = []
+    for i in Dataset.index:
         CallNb, Fline, Fparent, Fname, Ffile = GetFunctionInfo(Dataset.at[i, "ID"])
         if (
             len(FunctionList) != 0
             and (not Fname in FunctionList)
             and (not Fparent in FunctionList)
         ):
-            Dataset.drop(Dataset.index[i])
+            to_drop.append(i)
 
-    Dataset.reset_index(drop=True)
-
-    return Dataset
+    return Dataset.drop(to_drop).reset_index(drop=True)
 
 
 def AddMainChart(CallChartString, DataMain):
-- 
2.43.0


From 639d5c6baaaf5af7ad21838d2d61fc8d8056cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:37 +0000
Subject: [PATCH 86/91] fix: vfc_report called arrays of floats arrays of
 doubles

The types are those of enum FTYPES, where FFLOAT_PTR is 3.
---
 src/tools/optimize/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/optimize/report.py b/src/tools/optimize/report.py
index be147f1..0aee9bf 100644
--- a/src/tools/optimize/report.py
+++ b/src/tools/optimize/report.py
@@ -320,7 +320,7 @@ def PlotArgs(Data, ImgID, Title):
             xtick.append(Data.at[i, "IO"] + " Float " + Data.at[i, "ArgID"])
         elif Data.at[i, "Type"] == 1:
             xtick.append(Data.at[i, "IO"] + " Double " + Data.at[i, "ArgID"])
-        elif Data.at[i, "Type"] == 2:
+        elif Data.at[i, "Type"] == 3:
             xtick.append(Data.at[i, "IO"] + " Float ptr " + Data.at[i, "ArgID"])
         else:
             xtick.append(Data.at[i, "IO"] + " Double ptr " + Data.at[i, "ArgID"])
-- 
2.43.0


From d015426aebaf3c05f2efeb695eba276d0a0dfef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:37 +0000
Subject: [PATCH 87/91] fix: vfc_report showed the result of another
 exploration as "Operations Only"

It also failed when the explorations had not been run on the same functions.
---
 src/tools/optimize/report.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/tools/optimize/report.py b/src/tools/optimize/report.py
index 0aee9bf..3921a1f 100644
--- a/src/tools/optimize/report.py
+++ b/src/tools/optimize/report.py
@@ -594,7 +594,8 @@ def main():
                 + '_Precisions" class="PrecNavBar, Precisions">\n'
             )
 
-            k = DataOps[DataOps["ID"] == tmp_ops.at[j, "ID"]].index[0]
+            # explorations may have been run on different sets of functions
+            only_ops = DataOps[DataOps["ID"] == tmp_ops.at[j, "ID"]]
 
             # Arguments and Operations
             tmp_args = DataAllArgs.copy()
@@ -604,7 +605,7 @@ def main():
 
             FunctionCallsStr += '\t\t\t<div class="two_link">\n'
 
-            if (tmp_ops.at[j, "Ninputs"] + tmp_ops.at[j, "Noutputs"]) != 0:
+            if len(tmp_args.index) != 0:
                 PlotArgs(
                     tmp_args,
                     ArgsOpsChartID,
@@ -628,7 +629,7 @@ def main():
 
             ArgsOpsChartID = ChartID + "_Ops"
 
-            if not (DataOps.at[k, "Int"] or DataOps.at[k, "Lib"]):
+            if not (tmp_ops.at[j, "Int"] or tmp_ops.at[j, "Lib"]):
                 PlotOps(
                     tmp_ops.iloc[j],
                     ArgsOpsChartID,
@@ -658,7 +659,7 @@ def main():
             tmp_args = DataArgs.copy()
             tmp_args = tmp_args[tmp_args["ID"] == tmp_ops.at[j, "ID"]]
 
-            if (tmp_ops.at[j, "Ninputs"] + tmp_ops.at[j, "Noutputs"]) != 0:
+            if len(tmp_args.index) != 0:
                 PlotArgs(
                     tmp_args,
                     ArgsChartID,
@@ -681,9 +682,11 @@ def main():
             # Operations Only
             OpsChartID = ChartID + "_OpsOnly"
 
-            if not (DataOps.at[k, "Int"] or DataOps.at[k, "Lib"]):
+            if len(only_ops.index) != 0 and not (
+                tmp_ops.at[j, "Int"] or tmp_ops.at[j, "Lib"]
+            ):
                 PlotOps(
-                    tmp_ops.iloc[j],
+                    only_ops.iloc[0],
                     OpsChartID,
                     "Operations percision for "
                     + Fname.upper()
-- 
2.43.0


From 2bf148d35f6b42281dcc9c4d2f94b4ca845b32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:55 +0000
Subject: [PATCH 88/91] fix: vfc_report mixed up call sites and functions of
 similar names

Call sites of files of the same name in two directories, or whose names differ
by a dot, shared an identifier: the charts of the last one were shown for all.
So did functions whose names differ by case.
---
 src/tools/optimize/report.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/optimize/report.py b/src/tools/optimize/report.py
index 3921a1f..bef8ebc 100644
--- a/src/tools/optimize/report.py
+++ b/src/tools/optimize/report.py
@@ -529,7 +529,7 @@ def main():
 
     for i in SortedFunctions.index:
         DataMain += "['{Function}',{Ncalls}],\n".format(
-            Function=SortedFunctions.at[i, "function"].upper(),
+            Function=SortedFunctions.at[i, "function"],
             Ncalls=SortedFunctions.at[i, "ncalls"],
         )
 
@@ -540,7 +540,7 @@ def main():
     for i in SortedFunctions.index:
         FunctionCallsStr += (
             '<div ID="{Function}" class="FunctionInformations">\n'.format(
-                Function=SortedFunctions.at[i, "function"].upper()
+                Function=SortedFunctions.at[i, "function"]
             )
         )
 
@@ -563,6 +563,8 @@ def main():
                 + Fname.replace(".", "_")
                 + "_"
                 + str(CallNb)
+                + "_"
+                + str(dict_index[SortedFunctions.at[i, "function"]][j])
             )
             RangeData = ""
             ExponentData = ""
-- 
2.43.0


From 58158fce3bacfe74bc67ce7956d30aecbcd44b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:14 +0000
Subject: [PATCH 89/91] fix: the PRISM pass took regular expression characters
 of include/exclude files literally only for the dot

---
 src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp b/src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp
index cc6819f..8d2f967 100644
--- a/src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp
+++ b/src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp
@@ -515,7 +515,11 @@ struct VfclibInst : public ModulePass {
   }
 
   static void escape_regex(std::string &str) {
-    findAndReplaceAll(str, ".", "\\.");
+    // characters other than * stand for themselves, \ must come first
+    for (const std::string c : {"\\", ".", "+", "?", "(", ")", "[", "]", "{", "}",
+                                "^", "$", "|"}) {
+      findAndReplaceAll(str, c, "\\" + c);
+    }
     // ECMAScript needs .* instead of * for matching any charactere
     // http://www.cplusplus.com/reference/regex/ECMAScript/
     findAndReplaceAll(str, "*", ".*");
-- 
2.43.0


From 16ced97bd3c98b669e21acd9c1cf378cf7165661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:14 +0000
Subject: [PATCH 90/91] fix: the PRISM pass exchanged wide vectors with the
 library in the wrong registers

---
 .../libVFCInstrumentPRISM.cpp                     | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp b/src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp
index 8d2f967..aa97896 100644
--- a/src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp
+++ b/src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp
@@ -914,6 +914,21 @@ struct VfclibInst : public ModulePass {
       return nullptr;
     }
 
+    // A vector wider than min-legal-vector-width is split between several
+    // registers: the caller must allow the width used by the callee.
+    auto *caller = I->getParent()->getParent();
+    auto caller_width = caller->getFnAttribute("min-legal-vector-width");
+    auto callee_width =
+        F.getFunction()->getFnAttribute("min-legal-vector-width");
+    unsigned caller_bits = 0, callee_bits = 0;
+    if (caller_width.isStringAttribute() and
+        callee_width.isStringAttribute() and
+        not caller_width.getValueAsString().getAsInteger(0, caller_bits) and
+        not callee_width.getValueAsString().getAsInteger(0, callee_bits) and
+        caller_bits < callee_bits) {
+      caller->addFnAttr(callee_width);
+    }
+
     auto operands = getOperands(Builder, I, F);
 
     auto *call = Builder.CreateCall(F.getFunction(), operands);
-- 
2.43.0


From 0a571532a666e855586a24d9292454b8205b63e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:29 +0000
Subject: [PATCH 91/91] fix: --function took the name of the function as a
 regular expression

---
 src/libvfcinstrument/libVFCInstrument.cpp           | 4 +++-
 src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index cd0236e..cabb408 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -278,7 +278,9 @@ struct VfclibInst : public ModulePass {
 
     // Parse instrument single function option (--function)
     if (not VfclibInstFunction.empty()) {
-      includeFunctionRgx = std::regex(VfclibInstFunction);
+      std::string function = VfclibInstFunction;
+      escape_regex(function);
+      includeFunctionRgx = std::regex(function);
       excludeFunctionRgx = std::regex(".*");
     }
 
diff --git a/src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp b/src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp
index aa97896..2ed0326 100644
--- a/src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp
+++ b/src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp
@@ -628,7 +628,9 @@ struct VfclibInst : public ModulePass {
 
     // Parse instrument single function option (--function)
     if (not VfclibInstFunction.empty()) {
-      includeFunctionRgx = std::regex(VfclibInstFunction);
+      std::string function = VfclibInstFunction;
+      escape_regex(function);
+      includeFunctionRgx = std::regex(function);
       excludeFunctionRgx = std::regex(".*");
     }
 
-- 
2.43.0

