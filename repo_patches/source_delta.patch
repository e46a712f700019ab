From d656a96b0af76417b4cfeac1718de039c097ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:06 +0000
Subject: [PATCH 1/5] fix: reject signed messages shorter than the signature
 they announce

crypto_sign_open read sm[-1] for an empty input and underflowed the message
length (then used by memcpy) for inputs shorter than the signature.
---
 Optimized_Implementation/common/lib/sign.c | 8 ++++++++
 Reference_Implementation/lib/sign.c        | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index d67cce6..680f25d 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -71,6 +71,11 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    /* a signed message is never shorter than a signature without seeds */
+    if (smlen < LESS_CRYPTO_BYTES(0u)) {
+        return -1;
+    }
+
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -78,6 +83,9 @@ int crypto_sign_open(unsigned char *m,
 
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES(num_seeds_published);
+    if (smlen < sig_len) {
+        return -1;
+    }
 
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 3320cef..584868f 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -72,6 +72,11 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    /* a signed message is never shorter than a signature without seeds */
+    if (smlen < LESS_CRYPTO_BYTES(0u)) {
+        return -1;
+    }
+
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -79,6 +84,9 @@ int crypto_sign_open(unsigned char *m,
 
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES((uint32_t)num_seeds_published);
+    if (smlen < sig_len) {
+        return -1;
+    }
 
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
-- 
2.43.0


From acce7d54b9b0d0922a8a9e3542e6913640787074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:06 +0000
Subject: [PATCH 2/5] fix: accept signatures publishing the maximum number of
 seeds

SEED_TREE_MAX_PUBLISHED_BYTES holds MAX_PUBLISHED_SEEDS seeds and some
challenges need all of them (e.g. 92 in category 1 balanced), but
crypto_sign_open rejected that count.
---
 Optimized_Implementation/common/lib/sign.c | 2 +-
 Reference_Implementation/lib/sign.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index 680f25d..81a9683 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -77,7 +77,7 @@ int crypto_sign_open(unsigned char *m,
     }
 
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 584868f..7f94f14 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -78,7 +78,7 @@ int crypto_sign_open(unsigned char *m,
     }
 
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
-- 
2.43.0


From 7e5ee5a1ecb1310f0fe3fba25a82e63e67f80d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:06 +0000
Subject: [PATCH 3/5] fix: do not read past the signed message while opening it

The number of seeds consumed by the verifier depends on the digest in the
signature, not on the announced number of seeds, so a truncated signature made
it read beyond the end of the input buffer.
---
 Optimized_Implementation/common/lib/sign.c | 8 +++++++-
 Reference_Implementation/lib/sign.c        | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index 81a9683..39c7195 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -90,11 +90,17 @@ int crypto_sign_open(unsigned char *m,
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
+    /* the signature may occupy less than a full sign_t: work on a copy, so that
+     * the verifier never reads seeds beyond the end of the signed message */
+    sign_t sig;
+    memset(&sig, 0, sizeof(sign_t));
+    memcpy(&sig, sm + *mlen, sig_len);
+
     /* verify returns 1 if signature is ok, 0 otherwise */
     int ok = LESS_verify((const pubkey_t *const)
                                  pk,                                    // in parameter
                          (const char *const) m, (const uint64_t) *mlen, // in parameter
-                         (const sign_t *const) (sm + *mlen));            // in parameter
+                         &sig);            // in parameter
 
     return ok - 1; // NIST convention: 0 == zero errors, -1 == error condition
 } // end crypto_sign_open
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 7f94f14..b39c810 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -91,11 +91,17 @@ int crypto_sign_open(unsigned char *m,
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
+    /* the signature may occupy less than a full sign_t: work on a copy, so that
+     * the verifier never reads seeds beyond the end of the signed message */
+    sign_t sig;
+    memset(&sig, 0, sizeof(sign_t));
+    memcpy(&sig, sm + *mlen, sig_len);
+
     /* verify returns 1 if signature is ok, 0 otherwise */
     int ok = LESS_verify((const pubkey_t *const)
                                  pk,                                    // in parameter
                          (const char *const) m, (const uint64_t) *mlen, // in parameter
-                         (const sign_t *const) (sm + *mlen));            // in parameter
+                         &sig);            // in parameter
 
 
     return ok - 1; // NIST convention: 0 == zero errors, -1 == error condition
-- 
2.43.0


From 56f663d391b1f84febd79b8d05fde132d5f361e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:06 +0000
Subject: [PATCH 4/5] fix: reject malformed public keys in verification

A public key with a wrong number of pivot flags made the decoder read beyond
the key and the verifier write beyond its commitment matrix; elements equal to
127 made the vectorised row reduction follow uninitialised pointers.
---
 .../common/include/codes.h                    |  5 +++--
 Optimized_Implementation/common/lib/LESS.c    |  9 +++++++--
 Optimized_Implementation/common/lib/codes.c   | 20 ++++++++++++++++++-
 Reference_Implementation/include/codes.h      |  5 +++--
 Reference_Implementation/lib/LESS.c           |  9 +++++++--
 Reference_Implementation/lib/codes.c          | 20 ++++++++++++++++++-
 6 files changed, 58 insertions(+), 10 deletions(-)

diff --git a/Optimized_Implementation/common/include/codes.h b/Optimized_Implementation/common/include/codes.h
index 26f0293..c5c463e 100644
--- a/Optimized_Implementation/common/include/codes.h
+++ b/Optimized_Implementation/common/include/codes.h
@@ -89,8 +89,9 @@ void compress_rref(uint8_t *compressed,
                     const generator_mat_t *const full,
                     const uint8_t is_pivot_column[N]);
 
-/* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full,
+/* Expands a compressed RREF generator matrix into a full one,
+ * returns 1 if the encoding is valid, 0 otherwise */
+int expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
 
 /* Takes as input a compact RREF generator matrix, i.e. a set of N-K
diff --git a/Optimized_Implementation/common/lib/LESS.c b/Optimized_Implementation/common/lib/LESS.c
index afbe512..3a7fd35 100644
--- a/Optimized_Implementation/common/lib/LESS.c
+++ b/Optimized_Implementation/common/lib/LESS.c
@@ -261,7 +261,10 @@ int LESS_verify(const pubkey_t *const PK,
         } else {
             generator_mat_t G_hat = {0};
             /// TODO: this can be optimized: expand the matrix only once and save it.
-            expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1]);
+            /* Check that the public key encoding is valid */
+            if (!expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1])) {
+                return 0;
+            }
             expand_to_monom_action(&mono_action, sig->monom_actions[employed_monoms]);
             /* Check that the monomial action is valid */
             if (!is_monom_action_valid(&mono_action)) {
@@ -273,7 +276,9 @@ int LESS_verify(const pubkey_t *const PK,
                               &mono_action);
 
             uint8_t is_pivot_column[N_pad] = {0};
-            generator_RREF(&G_hat, is_pivot_column);
+            if (!generator_RREF(&G_hat, is_pivot_column)) {
+                return 0;
+            }
 
             /* normalize non-pivot columns into the appropriate V_array slot */
             POSITION_T placed_non_pivots = 0;
diff --git a/Optimized_Implementation/common/lib/codes.c b/Optimized_Implementation/common/lib/codes.c
index 38c6481..3bd017e 100644
--- a/Optimized_Implementation/common/lib/codes.c
+++ b/Optimized_Implementation/common/lib/codes.c
@@ -474,7 +474,7 @@ void compress_rref(uint8_t *compressed,
 
 
 /* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full,
+int expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed)
 {
     // Decompress pivot flags
@@ -502,6 +502,15 @@ void expand_to_rref(generator_mat_t *full,
     uint32_t compress_idx = N/8;
 #endif
 
+    // A systematic matrix has exactly K pivot columns
+    int num_pivots = 0;
+    for (int col_idx = 0; col_idx < N; col_idx++) {
+        num_pivots += is_pivot_column[col_idx];
+    }
+    if (num_pivots != K) {
+        return 0;
+    }
+
     // Decompress columns row-by-row
     uint32_t decode_state = 0;
     for (uint32_t row_idx = 0; row_idx < K; row_idx++) {
@@ -556,6 +565,15 @@ void expand_to_rref(generator_mat_t *full,
         }
     }
 
+    // All the elements must be canonical
+    for (int row_idx = 0; row_idx < K; row_idx++) {
+        for (int col_idx = 0; col_idx < N; col_idx++) {
+            if (full->values[row_idx][col_idx] >= Q) {
+                return 0;
+            }
+        }
+    }
+    return 1;
 } /* end expand_to_rref */
 
 
diff --git a/Reference_Implementation/include/codes.h b/Reference_Implementation/include/codes.h
index 51df856..26b9b00 100644
--- a/Reference_Implementation/include/codes.h
+++ b/Reference_Implementation/include/codes.h
@@ -89,8 +89,9 @@ void compress_rref(uint8_t *compressed,
                     const generator_mat_t *const full,
                     const uint8_t is_pivot_column[N]);
 
-/* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full,
+/* Expands a compressed RREF generator matrix into a full one,
+ * returns 1 if the encoding is valid, 0 otherwise */
+int expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
 
 /* Takes as input a compact RREF generator matrix, i.e. a set of N-K
diff --git a/Reference_Implementation/lib/LESS.c b/Reference_Implementation/lib/LESS.c
index 84edae4..6903cd0 100644
--- a/Reference_Implementation/lib/LESS.c
+++ b/Reference_Implementation/lib/LESS.c
@@ -251,7 +251,10 @@ int LESS_verify(const pubkey_t *const PK,
             LESS_SHA3_INC_ABSORB(&state, (const uint8_t *) &V_array, sizeof(normalized_IS_t));
         } else {
             generator_mat_t G_hat = {0};
-            expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1]);
+            /* Check that the public key encoding is valid */
+            if (!expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1])) {
+                return 0;
+            }
             expand_to_monom_action(&mono_action, sig->monom_actions[employed_monoms]);
             /* Check that the monomial action is valid */
             if (!is_monom_action_valid(&mono_action)) {
@@ -263,7 +266,9 @@ int LESS_verify(const pubkey_t *const PK,
                               &mono_action);
 
             uint8_t is_pivot_column[N] = {0};
-            generator_RREF(&G_hat, is_pivot_column);
+            if (!generator_RREF(&G_hat, is_pivot_column)) {
+                return 0;
+            }
 
             /* normalize non-pivot columns into the appropriate V_array slot */
             POSITION_T placed_non_pivots = 0;
diff --git a/Reference_Implementation/lib/codes.c b/Reference_Implementation/lib/codes.c
index c73f6da..8652ff3 100644
--- a/Reference_Implementation/lib/codes.c
+++ b/Reference_Implementation/lib/codes.c
@@ -415,7 +415,7 @@ void compress_rref(uint8_t *compressed, const generator_mat_t *const full,
 }
 
 /* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
+int expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
     // Decompress pivot flags
     uint8_t is_pivot_column[N] = {0};
     for (int col_byte = 0; col_byte < N / 8; col_byte++) {
@@ -441,6 +441,15 @@ void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
     int compress_idx = N / 8;
 #endif
 
+    // A systematic matrix has exactly K pivot columns
+    int num_pivots = 0;
+    for (int col_idx = 0; col_idx < N; col_idx++) {
+        num_pivots += is_pivot_column[col_idx];
+    }
+    if (num_pivots != K) {
+        return 0;
+    }
+
     // Decompress columns row-by-row
     int decode_state = 0;
     for (int row_idx = 0; row_idx < K; row_idx++) {
@@ -514,6 +523,15 @@ void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
         }
     }
 
+    // All the elements must be canonical
+    for (int row_idx = 0; row_idx < K; row_idx++) {
+        for (int col_idx = 0; col_idx < N; col_idx++) {
+            if (full->values[row_idx][col_idx] >= Q) {
+                return 0;
+            }
+        }
+    }
+    return 1;
 } /* end expand_to_rref */
 
 
-- 
2.43.0


From 995e1ecc28d6e460a6682abc4787e2428ee1dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:10 +0000
Subject: [PATCH 5/5] fix: widen FQ_TRIPLEPREC for category 3 BALANCED so that
 br_red16 does not overflow

---
 Optimized_Implementation/common/include/parameters.h | 2 +-
 Reference_Implementation/include/parameters.h        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Optimized_Implementation/common/include/parameters.h b/Optimized_Implementation/common/include/parameters.h
index da6c663..ce4952b 100644
--- a/Optimized_Implementation/common/include/parameters.h
+++ b/Optimized_Implementation/common/include/parameters.h
@@ -81,7 +81,7 @@
 #define SEED_TREE_MAX_PUBLISHED_BYTES (3912)
 #define FQ_ELEM uint8_t
 #define FQ_DOUBLEPREC uint16_t
-#define FQ_TRIPLEPREC uint16_t
+#define FQ_TRIPLEPREC uint32_t
 #define POSITION_T uint16_t
 
 #elif defined(SHORT_SIG)
diff --git a/Reference_Implementation/include/parameters.h b/Reference_Implementation/include/parameters.h
index 6a8f192..93147db 100644
--- a/Reference_Implementation/include/parameters.h
+++ b/Reference_Implementation/include/parameters.h
@@ -82,7 +82,7 @@
 #define SEED_TREE_MAX_PUBLISHED_BYTES (3912)
 #define FQ_ELEM uint8_t
 #define FQ_DOUBLEPREC uint16_t
-#define FQ_TRIPLEPREC uint16_t
+#define FQ_TRIPLEPREC uint32_t
 #define POSITION_T uint16_t
 
 #elif defined(SHORT_SIG)
-- 
2.43.0

