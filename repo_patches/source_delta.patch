From 7b9fb60bd639ec90589f0d4ce39a9b65660234a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 01/38] fix: reject UTF-8 input that ends inside a multi-byte
 sequence

---
 src/util/utf8.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index 7d7cac5..7e08569 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -75,6 +75,11 @@ int passgen_utf8_decode(
         input_offset += 1;
     }
 
+    // input ended in the middle of a multi-byte sequence.
+    if(input_offset == input_len && state != UTF8_ACCEPT) {
+        return PASSGEN_UTF8_INVALID_CHAR;
+    }
+
     *output += output_offset;
     *input += input_offset;
 
-- 
2.43.0


From 2f8f33c0172615a5392938de446e183b4ed641ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 02/38] fix: refuse to encode surrogates as UTF-8

---
 src/util/utf8.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index 7e08569..0bd6d53 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -113,6 +113,11 @@ int passgen_utf8_encode_codepoint(uint8_t *out, uint32_t utf) {
         return 2;
     }
 
+    if(utf >= 0xD800 && utf <= 0xDFFF) {
+        // surrogates are not unicode scalar values and have no UTF-8 encoding
+        return PASSGEN_UTF8_INVALID_CHAR;
+    }
+
     if(utf <= 0xFFFF) {
         // 3-byte unicode
         out[0] = (uint8_t) (((utf >> 12) & 0x0F) | 0xE0);
-- 
2.43.0


From 9b0cd98620a8ec2cd7e768c9689e388164c09f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 03/38] fix: do not write past UTF-8 encoding output shorter
 than four bytes

---
 src/util/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index 0bd6d53..865100c 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -146,7 +146,7 @@ int passgen_utf8_encode(
     const uint32_t *in,
     size_t in_len,
     size_t *in_pos) {
-    while((*in_pos < in_len) && (*out_pos < (out_len - 4))) {
+    while((*in_pos < in_len) && ((*out_pos + 4) < out_len)) {
         int ret = passgen_utf8_encode_codepoint(&out[*out_pos], in[*in_pos]);
         if(ret < 0) {
             return ret;
-- 
2.43.0


From 12746dcae51e5447d8600201a74df685e354edd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 04/38] verification: loop annotations (active only with
 PASSGEN_VERIFY)

---
 src/util/utf8.c | 21 ++++++++++++++++++++-
 src/verify.h    | 17 +++++++++++++++++
 2 files changed, 37 insertions(+), 1 deletion(-)
 create mode 100644 src/verify.h

diff --git a/src/util/utf8.c b/src/util/utf8.c
index 865100c..72c0ba7 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -1,4 +1,5 @@
 #include "passgen/util/utf8.h"
+#include "../verify.h"
 
 // Copyright (c) 2008-2009 Bjoern Hoehrmann <bjoern@hoehrmann.de>
 // See http://bjoern.hoehrmann.de/utf-8/decoder/dfa/ for details.
@@ -50,7 +51,25 @@ int passgen_utf8_decode(
     size_t codepoint_width = 0;
 
     // iterate while we still have input and we still have outputs.
-    while((input_offset < input_len) && (output_offset < output_len)) {
+    while((input_offset < input_len) && (output_offset < output_len))
+        PASSGEN_ASSIGNS(
+            state, codepoint, codepoint_width, input_offset, output_offset,
+            VP_UTF8_GHOST; output_len: __CPROVER_object_upto(
+                *output, output_len * sizeof(uint32_t));
+            output_widths && output_len: __CPROVER_object_upto(
+                output_widths, output_len))
+        PASSGEN_INVARIANT(
+            input_offset <= input_len && output_offset <= output_len &&
+            (output_offset < output_len || state == UTF8_ACCEPT) &&
+            vp_utf8_decode_invariant(
+                state,
+                codepoint,
+                codepoint_width,
+                input_offset,
+                output_offset,
+                *output,
+                output_widths))
+        PASSGEN_DECREASES(input_len - input_offset) {
         uint32_t status =
             utf8_decode(&state, &codepoint, (*input)[input_offset]);
 
diff --git a/src/verify.h b/src/verify.h
new file mode 100644
index 0000000..30a6d94
--- /dev/null
+++ b/src/verify.h
@@ -0,0 +1,17 @@
+/// @file verify.h
+/// @brief Loop annotations for deductive verification.
+///
+/// These expand to nothing unless PASSGEN_VERIFY is defined, which only the
+/// verifier's front end does. The ghost variables (prefix vp_) that some of
+/// the annotations mention are declared by the proof units.
+#pragma once
+
+#ifdef PASSGEN_VERIFY
+#define PASSGEN_INVARIANT(...) __CPROVER_loop_invariant(__VA_ARGS__)
+#define PASSGEN_ASSIGNS(...)   __CPROVER_assigns(__VA_ARGS__)
+#define PASSGEN_DECREASES(...) __CPROVER_decreases(__VA_ARGS__)
+#else
+#define PASSGEN_INVARIANT(...)
+#define PASSGEN_ASSIGNS(...)
+#define PASSGEN_DECREASES(...)
+#endif
-- 
2.43.0


From 5f17b276ad4116b45831350f09ab8247d9968273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:20 +0000
Subject: [PATCH 05/38] fix: deliver the unread rest of the random buffer when
 a read straddles a refill

---
 src/random/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index b2f601d..b37bba9 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -42,7 +42,7 @@ void passgen_random_read(passgen_random *random, void *data, size_t bytes) {
         } else {
             // if we don't have enough, copy over whatever we have and
             // reload.
-            memcpy(data, random->buffer, left);
+            memcpy(data, &random->buffer[random->pos], left);
             passgen_random_reload(random);
 
             // if there's more to be read, recurse.
-- 
2.43.0


From 1b7d00e2b67a409ccd62f926ee29645706c21a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:20 +0000
Subject: [PATCH 06/38] fix: stop when the randomness source cannot fill the
 buffer, also in release builds

---
 src/random/random.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index b37bba9..d334dd6 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -21,10 +21,17 @@ void passgen_random_reload(passgen_random *random) {
     // read random data.
     size_t bytes =
         random->read(random->context, &random->buffer, sizeof(random->buffer));
-    (void) bytes;
 
-    // make sure we've read enough.
-    passgen_assert(bytes == sizeof(random->buffer));
+    // make sure we've read enough, never continue with stale bytes.
+    if(bytes != sizeof(random->buffer)) {
+        fprintf(
+            stderr,
+            "Error reading from randomness source: trying to read %zu "
+            "bytes but got %zu",
+            sizeof(random->buffer),
+            bytes);
+        abort();
+    }
 
     // reset position in ring buffer.
     random->pos = 0;
-- 
2.43.0


From 9ba2960d9145850385737d539464fe62f2256b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 07/38] verification: loop annotations for the bounded draws
 (active only with PASSGEN_VERIFY)

---
 src/random/random.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index d334dd6..b877a28 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -2,6 +2,7 @@
 #include "passgen/assert.h"
 #include "passgen/config.h"
 #include "passgen/util/endian.h"
+#include "../verify.h"
 #include <stdlib.h>
 #include <string.h>
 
@@ -220,7 +221,9 @@ inline uint8_t passgen_random_u8_max(passgen_random *random, uint8_t max) {
     mask |= mask >> 1;
 
     uint8_t num;
-    do {
+    do
+        PASSGEN_ASSIGNS(num, VP_DRAW_GHOST)
+        PASSGEN_INVARIANT(vp_draw_invariant(mask, max)) {
         num = passgen_random_u8(random) & mask;
     } while(num >= max);
 
@@ -238,7 +241,9 @@ inline uint16_t passgen_random_u16_max(passgen_random *random, uint16_t max) {
 
     uint16_t num;
 
-    do {
+    do
+        PASSGEN_ASSIGNS(num, VP_DRAW_GHOST)
+        PASSGEN_INVARIANT(vp_draw_invariant(mask, max)) {
         num = passgen_random_u16(random) & mask;
     } while(num >= max);
 
@@ -257,7 +262,9 @@ inline uint32_t passgen_random_u32_max(passgen_random *random, uint32_t max) {
 
     uint32_t num;
 
-    do {
+    do
+        PASSGEN_ASSIGNS(num, VP_DRAW_GHOST)
+        PASSGEN_INVARIANT(vp_draw_invariant(mask, max)) {
         num = passgen_random_u32(random) & mask;
     } while(num >= max);
 
@@ -277,7 +284,9 @@ inline uint64_t passgen_random_u64_max(passgen_random *random, uint64_t max) {
 
     uint64_t num;
 
-    do {
+    do
+        PASSGEN_ASSIGNS(num, VP_DRAW_GHOST)
+        PASSGEN_INVARIANT(vp_draw_invariant(mask, max)) {
         num = passgen_random_u64(random) & mask;
     } while(num >= max);
 
-- 
2.43.0


From 40724c559df0813962e69f2f45aa6f9937b0ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:39 +0000
Subject: [PATCH 08/38] verification: loop annotations for ChaCha20 and the
 wipe function

---
 src/monocypher.c | 46 +++++++++++++++++++++++++++++++++++++++-------
 src/verify.h     |  6 ++++++
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/monocypher.c b/src/monocypher.c
index 100e29d..c61c057 100644
--- a/src/monocypher.c
+++ b/src/monocypher.c
@@ -52,6 +52,7 @@
 // <https://creativecommons.org/publicdomain/zero/1.0/>
 
 #include "passgen/monocypher.h"
+#include "verify.h"
 
 #ifdef MONOCYPHER_CPP_NAMESPACE
 namespace MONOCYPHER_CPP_NAMESPACE {
@@ -63,7 +64,7 @@ namespace MONOCYPHER_CPP_NAMESPACE {
 #define FOR_T(type, i, start, end) for (type i = (start); i < (end); i++)
 #define FOR(i, start, end)         FOR_T(size_t, i, start, end)
 #define COPY(dst, src, size)       FOR(_i_, 0, size) (dst)[_i_] = (src)[_i_]
-#define ZERO(buf, size)            FOR(_i_, 0, size) (buf)[_i_] = 0
+#define ZERO(buf, size)            FOR(_i_, 0, size) PASSGEN_ASSIGNS(_i_, __CPROVER_object_upto((void *) (buf), size)) PASSGEN_INVARIANT(vp_zero_invariant(_i_, size)) (buf)[_i_] = 0
 #define WIPE_CTX(ctx)              passgen_wipe(ctx   , sizeof(*(ctx)))
 #define WIPE_BUFFER(buffer)        passgen_wipe(buffer, sizeof(buffer))
 #define MIN(a, b)                  ((a) <= (b) ? (a) : (b))
@@ -183,7 +184,15 @@ static void chacha20_rounds(u32 out[16], const u32 in[16])
 	u32 t8  = in[ 8];  u32 t9  = in[ 9];  u32 t10 = in[10];  u32 t11 = in[11];
 	u32 t12 = in[12];  u32 t13 = in[13];  u32 t14 = in[14];  u32 t15 = in[15];
 
-	FOR (i, 0, 10) { // 20 rounds, 2 rounds per loop.
+	FOR (i, 0, 10)
+		PASSGEN_ASSIGNS(
+			i, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12,
+			t13, t14, t15, VP_CHACHA_GHOST)
+		PASSGEN_INVARIANT(
+			i <= 10 && vp_rounds_invariant(
+				i, t0, t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11,
+				t12, t13, t14, t15)) { // 20 rounds, 2 rounds per loop.
+		PASSGEN_GHOST(vp_double_round());
 		QUARTERROUND(t0, t4, t8 , t12); // column 0
 		QUARTERROUND(t1, t5, t9 , t13); // column 1
 		QUARTERROUND(t2, t6, t10, t14); // column 2
@@ -230,17 +239,32 @@ u64 passgen_chacha20_djb(u8 *cipher_text, const u8 *plain_text,
 	// Whole blocks
 	u32    pool[16];
 	size_t nb_blocks = text_size >> 6;
-	FOR (i, 0, nb_blocks) {
+	FOR (i, 0, nb_blocks)
+		PASSGEN_ASSIGNS(
+			i, cipher_text, input[12], input[13],
+			__CPROVER_object_whole(pool), vp_kout)
+		PASSGEN_INVARIANT(
+			i <= nb_blocks &&
+			vp_chacha_invariant(cipher_text, input, i)) {
+		PASSGEN_SAME(cipher_text, vp_out + 64 * i);
 		chacha20_rounds(pool, input);
 		if (plain_text != 0) {
-			FOR (j, 0, 16) {
+			FOR (j, 0, 16)
+				PASSGEN_ASSIGNS(
+					j, cipher_text, plain_text, vp_kout)
+				PASSGEN_INVARIANT(j <= 16) {
 				u32 p = pool[j] + input[j];
 				store32_le(cipher_text, p ^ load32_le(plain_text));
 				cipher_text += 4;
 				plain_text  += 4;
 			}
 		} else {
-			FOR (j, 0, 16) {
+			FOR (j, 0, 16)
+				PASSGEN_ASSIGNS(j, cipher_text, vp_kout)
+				PASSGEN_INVARIANT(
+					j <= 16 && vp_chacha_word_invariant(
+						cipher_text, i, j)) {
+				PASSGEN_SAME(cipher_text, vp_out + 64 * i + 4 * j);
 				u32 p = pool[j] + input[j];
 				store32_le(cipher_text, p);
 				cipher_text += 4;
@@ -260,10 +284,18 @@ u64 passgen_chacha20_djb(u8 *cipher_text, const u8 *plain_text,
 		}
 		chacha20_rounds(pool, input);
 		u8 tmp[64];
-		FOR (i, 0, 16) {
+		FOR (i, 0, 16)
+			PASSGEN_ASSIGNS(i, __CPROVER_object_whole(tmp), vp_kout)
+			PASSGEN_INVARIANT(
+				i <= 16 && vp_chacha_tmp_invariant(tmp, i, nb_blocks)) {
 			store32_le(tmp + i*4, pool[i] + input[i]);
 		}
-		FOR (i, 0, text_size) {
+		FOR (i, 0, text_size)
+			PASSGEN_ASSIGNS(i, cipher_text, __CPROVER_object_whole(vp_out))
+			PASSGEN_INVARIANT(
+				i <= text_size &&
+				vp_chacha_tail_invariant(cipher_text, i, nb_blocks)) {
+			PASSGEN_SAME(cipher_text, vp_out + 64 * nb_blocks);
 			cipher_text[i] = tmp[i] ^ plain_text[i];
 		}
 		WIPE_BUFFER(tmp);
diff --git a/src/verify.h b/src/verify.h
index 30a6d94..577fcb3 100644
--- a/src/verify.h
+++ b/src/verify.h
@@ -10,8 +10,14 @@
 #define PASSGEN_INVARIANT(...) __CPROVER_loop_invariant(__VA_ARGS__)
 #define PASSGEN_ASSIGNS(...)   __CPROVER_assigns(__VA_ARGS__)
 #define PASSGEN_DECREASES(...) __CPROVER_decreases(__VA_ARGS__)
+#define PASSGEN_GHOST(...)     __VA_ARGS__
+/// Checks that two expressions are equal, and tells the verifier so.
+#define PASSGEN_SAME(lvalue, expr) \
+    do { __CPROVER_assert((lvalue) == (expr), "ghost: " #lvalue " is " #expr); lvalue = (expr); } while(0)
 #else
 #define PASSGEN_INVARIANT(...)
 #define PASSGEN_ASSIGNS(...)
 #define PASSGEN_DECREASES(...)
+#define PASSGEN_GHOST(...)
+#define PASSGEN_SAME(lvalue, expr)
 #endif
-- 
2.43.0


From ca72815867f7024e30b221183ee72e11b451a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:39 +0000
Subject: [PATCH 09/38] fix: reject ChaCha20 keys and passphrases that do not
 fit their buffers

---
 src/random/random.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/random/random.c b/src/random/random.c
index b877a28..ab27d15 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -112,6 +112,9 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             key_end = key_ptr + strlen(key_ptr);
         }
         char key[32] = {0};
+        if((size_t) (key_end - key_ptr) > sizeof(key)) {
+            return NULL;
+        }
         memcpy(key, key_ptr, key_end - key_ptr);
 
         char iv[] = "passgen";
@@ -144,6 +147,9 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             if(!end) { \
                 end = start + strlen(start); \
             } \
+            if((size_t) (end - start) >= sizeof(name)) { \
+                return NULL; \
+            } \
             memcpy(name, start, end - start); \
         }
 
-- 
2.43.0


From cf41179f80f7ac55df824c5373a5a14cb5dc8a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:39 +0000
Subject: [PATCH 10/38] fix: reject xorshift seeds that are not a number or do
 not fit

---
 src/random/random.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index ab27d15..f868c5f 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -3,6 +3,7 @@
 #include "passgen/config.h"
 #include "passgen/util/endian.h"
 #include "../verify.h"
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -90,8 +91,10 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             return NULL;
         }
 
-        uint64_t seed = atoll(seed_str);
-        if(seed == 0) {
+        char *seed_end = NULL;
+        errno = 0;
+        uint64_t seed = strtoull(seed_str, &seed_end, 10);
+        if(seed == 0 || *seed_end != 0 || errno == ERANGE) {
             return NULL;
         }
 
-- 
2.43.0


From 48599667427d0cd189256a7b0bd4b2cf0b10f4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:36 +0000
Subject: [PATCH 11/38] fix: an empty Argon2 passphrase does not shift the
 domain and token, reject a fourth field

---
 src/random/random.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index f868c5f..7035239 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -143,7 +143,6 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
         const char *end = &desc[16];
 
 #define PARSE_STRING(name) \
-        if(*end == ':') end++; \
         if(*end) { \
             start = end; \
             end = strchr(start, ':'); \
@@ -157,9 +156,16 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
         }
 
         PARSE_STRING(master_pass)
+        if(*end == ':') end++;
         PARSE_STRING(domain)
+        if(*end == ':') end++;
         PARSE_STRING(token)
 
+        // there is nothing after the token
+        if(*end) {
+            return NULL;
+        }
+
         return passgen_random_chacha20_argon2_open(random, master_pass, domain, token, NULL);
     }
 #endif
-- 
2.43.0


From 8ea1cac23b5262d9c5e8538510c501e6fc2ad952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 12/38] verification: loop annotations for the xorshift source

---
 src/random/xorshift.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/random/xorshift.c b/src/random/xorshift.c
index 5e501f9..2732df4 100644
--- a/src/random/xorshift.c
+++ b/src/random/xorshift.c
@@ -1,5 +1,6 @@
 #include "passgen/random.h"
 #include "passgen/util/endian.h"
+#include "../verify.h"
 #include <stdlib.h>
 #include <string.h>
 
@@ -17,7 +18,15 @@ passgen_random_xorshift_read(void *context, void *dest, size_t size) {
     uint64_t result;
 
     // fill all whole uint64 blocks
-    while((size - written) >= sizeof(result)) {
+    while((size - written) >= sizeof(result))
+        PASSGEN_ASSIGNS(
+            written, result, *(uint64_t *) context,
+            __CPROVER_object_upto(dest, size), VP_XORSHIFT_GHOST)
+        PASSGEN_INVARIANT(
+            written <= size && written % sizeof(result) == 0 &&
+            vp_xorshift_invariant(*(uint64_t *) context, dest, written))
+        PASSGEN_DECREASES(size - written) {
+        PASSGEN_GHOST(vp_xorshift_step());
         result = xorshift64(context);
         memcpy(dest + written, &result, sizeof(result));
         written += sizeof(result);
@@ -25,6 +34,7 @@ passgen_random_xorshift_read(void *context, void *dest, size_t size) {
 
     // maybe fill the last incomplete block
     if(size != written) {
+        PASSGEN_GHOST(vp_xorshift_step());
         result = xorshift64(context);
         memcpy(dest + written, &result, size - written);
         written += size - written;
-- 
2.43.0


From c37a8fe3acdada5f80736442eeed26dbe41502a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 13/38] fix: do not take characters for operators that share
 their low byte

---
 src/parser/parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 715562f..bd138c7 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -237,7 +237,7 @@ int passgen_parse_group(
 
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
             case '(':
             case ')':
@@ -254,7 +254,7 @@ int passgen_parse_group(
                 // special token
                 special = passgen_pattern_segment_new_special(
                     state->data.group.segment);
-                passgen_pattern_special_init(special, (char) codepoint);
+                passgen_pattern_special_init(special, codepoint);
                 passgen_parser_state_push_special(parser, special);
                 return 0;
             default:
@@ -262,7 +262,7 @@ int passgen_parse_group(
                 return -1;
         }
     } else {
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
                 if(state->data.group.segment->multiplier > 0) {
                     // create new segment and parser state
-- 
2.43.0


From af1e6a0e00a23c1455f7e7f602d7397b4d3113aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 14/38] fix: accept an escaped question mark as text

---
 src/parser/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index bd138c7..b58deca 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -245,6 +245,7 @@ int passgen_parse_group(
             case '}':
             case '[':
             case ']':
+            case '?':
                 // escaped token which would normally do something but
                 // should be treated as text
                 break;
-- 
2.43.0


From 9ddb236a864086eadd2238d2d7984e87c2f31f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 15/38] fix: escaped characters at the end of a set range
 denote themselves

---
 src/parser/parser.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index b58deca..f70683d 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -409,11 +409,21 @@ int passgen_parse_set_range(
         return -1;
     }
 
-    if(token->codepoint < state->data.set.range->start) {
+    uint32_t codepoint = token->codepoint;
+    if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
+        // no reason to expect an escaped token here unless it's a dash or a
+        // closing bracket.
+        codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
+        if(codepoint != '-' && codepoint != ']') {
+            return -1;
+        }
+    }
+
+    if(codepoint < state->data.set.range->start) {
         return -1;
     }
 
-    state->data.set.range->end = token->codepoint;
+    state->data.set.range->end = codepoint;
     state->type = PASSGEN_PARSER_SET;
 
     return 0;
-- 
2.43.0


From 7db13b2a05dd4de4dbaa918841b07c08ffb252bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 16/38] fix: accept an escaped closing bracket in a set, as
 documented

---
 src/parser/parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index f70683d..142f4b5 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -380,9 +380,11 @@ int passgen_parse_set(
 
     uint32_t codepoint = token->codepoint;
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
-        // no reason to expect an escaped token here unless it's a dash.
+        // no reason to expect an escaped token here unless it's a dash or a
+        // closing bracket.
         switch(codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT) {
             case '-':
+            case ']':
                 codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
                 break;
             default:
-- 
2.43.0


From cb050007611e12cdd1b246b3497f927342427dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 17/38] fix: reject repetitions with the maximum below the
 minimum or too large to count

---
 src/parser/parser.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 142f4b5..c604dd6 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -473,6 +473,10 @@ int passgen_parse_repeat(
     if(token->codepoint >= '0' && token->codepoint <= '9') {
         uint8_t digit = token->codepoint - '0';
 
+        if(state->data.repeat.repeat->min > (SIZE_MAX - digit) / 10) {
+            return -1;
+        }
+
         state->data.repeat.repeat->min *= 10;
         state->data.repeat.repeat->min += digit;
 
@@ -487,6 +491,13 @@ int passgen_parse_repeat_range(
     passgen_token *token,
     passgen_parser_state *state) {
     if(token->codepoint == '}') {
+        // the number of choices, max - min + 1, needs to be representable.
+        size_t min = state->data.repeat.repeat->min;
+        size_t max = state->data.repeat.repeat->max;
+        if(max < min || max - min == SIZE_MAX) {
+            return -1;
+        }
+
         passgen_stack_pop(&parser->state, NULL);
         return 0;
     }
@@ -494,6 +505,10 @@ int passgen_parse_repeat_range(
     if(token->codepoint >= '0' && token->codepoint <= '9') {
         uint8_t digit = token->codepoint - '0';
 
+        if(state->data.repeat.repeat->max > (SIZE_MAX - digit) / 10) {
+            return -1;
+        }
+
         state->data.repeat.repeat->max *= 10;
         state->data.repeat.repeat->max += digit;
 
-- 
2.43.0


From 0215e43b4ff5f717802cc0f8e4fca4bfed48c426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 18/38] fix: count the weight of a segment that replaces one
 with a zero multiplier

---
 src/parser/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index c604dd6..456fac1 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -274,6 +274,8 @@ int passgen_parse_group(
                     // if the previous segment had a zero multiplier, recycle it
                     passgen_pattern_segment_free(state->data.group.segment);
                     passgen_pattern_segment_init(state->data.group.segment);
+                    state->data.group.group->multiplier_sum +=
+                        state->data.group.segment->multiplier;
                 }
                 return 0;
             case ')':
-- 
2.43.0


From f8fe2711956894142cb0e4ce4a386ec7d417ad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 19/38] fix: a second multiplier replaces the first one in the
 sum of weights

---
 src/parser/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 456fac1..9d89e5b 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -311,8 +311,9 @@ int passgen_parse_group(
                     passgen_parser_state_push_repeat(parser, &item->repeat);
                     return 0;
                 } else {
+                    state->data.group.group->multiplier_sum -=
+                        state->data.group.segment->multiplier;
                     state->data.group.segment->multiplier = 0;
-                    state->data.group.group->multiplier_sum -= 1;
                     passgen_parser_state_push_multiplier(
                         parser,
                         &state->data.group.segment->multiplier,
-- 
2.43.0


From b1df039e11e183b4a33e3034aa63d1d8d1351e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 20/38] fix: reject multipliers that do not fit, alone or in
 sum

---
 src/parser/parser.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 9d89e5b..5e77453 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -265,6 +265,10 @@ int passgen_parse_group(
     } else {
         switch(codepoint) {
             case '|':
+                if(state->data.group.group->multiplier_sum == SIZE_MAX) {
+                    // the new segment's weight would not fit anymore
+                    return -1;
+                }
                 if(state->data.group.segment->multiplier > 0) {
                     // create new segment and parser state
                     state->data.group.segment =
@@ -439,6 +443,10 @@ int passgen_parse_multiplier(
     passgen_token *token,
     passgen_parser_state *state) {
     if(token->codepoint == '}') {
+        if(*state->data.multiplier.value > SIZE_MAX - *state->data.multiplier.sum) {
+            return -1;
+        }
+
         *state->data.multiplier.sum += *state->data.multiplier.value;
         passgen_stack_pop(&parser->state, NULL);
         return 0;
@@ -447,6 +455,10 @@ int passgen_parse_multiplier(
     if(token->codepoint >= '0' && token->codepoint <= '9') {
         uint8_t digit = token->codepoint - '0';
 
+        if(*state->data.multiplier.value > (SIZE_MAX - digit) / 10) {
+            return -1;
+        }
+
         *state->data.multiplier.value *= 10;
         *state->data.multiplier.value += digit;
 
-- 
2.43.0


From d2f5e39cb645fc889ed341db2ab4663aa6887032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 21/38] fix: report token errors and unfinished escapes in
 passgen_parser_unicode

---
 src/parser/parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 5e77453..3eccaf9 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -593,6 +593,10 @@ int passgen_parser_unicode(
     for(size_t pos = 0; pos < length; pos++) {
         ret = passgen_token_parse(&token_parser, &token, 1, data[pos]);
 
+        if(ret < 0) {
+            return ret;
+        }
+
         if(ret == PASSGEN_TOKEN_INIT) {
             ret = passgen_parse_token(parser, &token);
 
@@ -602,5 +606,10 @@ int passgen_parser_unicode(
         }
     }
 
+    // the data must not end inside an escape sequence
+    if(token_parser.state != PASSGEN_TOKEN_INIT) {
+        return -1;
+    }
+
     return 0;
 }
-- 
2.43.0


From bbb94c703a943a34571c38de27bea9319277d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 22/38] fix: reject names with characters that cannot be
 encoded

---
 include/passgen/pattern/special.h |  2 +-
 src/parser/parser.c               |  2 +-
 src/pattern/special.c             | 10 ++++++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/passgen/pattern/special.h b/include/passgen/pattern/special.h
index 3141757..1887941 100644
--- a/include/passgen/pattern/special.h
+++ b/include/passgen/pattern/special.h
@@ -60,6 +60,6 @@ void passgen_pattern_special_free(passgen_pattern_special *special);
 /// @memberof passgen_pattern_special
 /// @param special Special pattern to add codepoint to
 /// @param codepoint Codepoint to add to the pattern
-void passgen_pattern_special_push(
+int passgen_pattern_special_push(
     passgen_pattern_special *special,
     int32_t codepoint);
diff --git a/src/parser/parser.c b/src/parser/parser.c
index 3eccaf9..a569122 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -556,7 +556,7 @@ int passgen_parse_special_name(
     if(token->codepoint == '}') {
         passgen_stack_pop(&parser->state, NULL);
     } else {
-        passgen_pattern_special_push(
+        return passgen_pattern_special_push(
             state->data.special.special,
             token->codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT);
     }
diff --git a/src/pattern/special.c b/src/pattern/special.c
index 644165f..143a516 100644
--- a/src/pattern/special.c
+++ b/src/pattern/special.c
@@ -37,7 +37,7 @@ void passgen_pattern_special_free(passgen_pattern_special *special) {
     PASSGEN_CLEAR(special);
 }
 
-void passgen_pattern_special_push(
+int passgen_pattern_special_push(
     passgen_pattern_special *special,
     int32_t codepoint) {
     if(special->parameters_cap == 0) {
@@ -57,11 +57,17 @@ void passgen_pattern_special_push(
         (uint8_t *) &special->parameters[special->parameters_len],
         codepoint);
 
-    passgen_assert(bytes > 0);
+    if(bytes <= 0) {
+        // always NULL-terminate the string.
+        special->parameters[special->parameters_len] = 0;
+        return -1;
+    }
+
     special->parameters_len += bytes;
 
     assert(special->parameters_len < special->parameters_cap);
 
     // always NULL-terminate the string.
     special->parameters[special->parameters_len] = 0;
+    return 0;
 }
-- 
2.43.0


From 5eb8b57a62ccacaa43212bf32d68bf9bfc3e6ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 23/38] fix: reject names that are too long to be stored

---
 src/pattern/special.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pattern/special.c b/src/pattern/special.c
index 143a516..309d29e 100644
--- a/src/pattern/special.c
+++ b/src/pattern/special.c
@@ -48,6 +48,10 @@ int passgen_pattern_special_push(
     // always leave enough space for a full UTF8 character (4 bytes) plus a
     // NULL.
     if((special->parameters_len + 5) >= special->parameters_cap) {
+        if(special->parameters_cap > INT32_MAX / PARAMETERS_MULTIPLIER) {
+            return -1;
+        }
+
         special->parameters_cap *= PARAMETERS_MULTIPLIER;
         special->parameters =
             realloc(special->parameters, special->parameters_cap);
-- 
2.43.0


From a35ee03fdabad63629f6cf066c1d3e1d7b31355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 24/38] fix: count the choice made for an optional item in the
 entropy

---
 src/generate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index e6dacb6..606d2e3 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -456,6 +456,11 @@ static int passgen_generate_item(
     // if it is a maybe (has a question mark following it), decide first if we
     // want to emit it or not.
     if(item->maybe) {
+        // keep track of entropy
+        if(context->entropy) {
+            *context->entropy *= 2;
+        }
+
         if(!passgen_random_bool(context->env->random)) {
             return 0;
         }
-- 
2.43.0


From a40e3468bc01448f2691f3c3ef237c791c25c8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 25/38] fix: escape all control characters in JSON output, fail
 on characters that cannot be encoded

---
 src/generate.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 606d2e3..95d37f3 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -156,8 +156,9 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
         return -1;
     }
 
-    unsigned char buffer[4] = {'\\', 0};
-    size_t bytes = 2;
+    static const char hex[] = "0123456789abcdef";
+    unsigned char buffer[6] = {'\\', 0};
+    int bytes = 2;
     switch(codepoint) {
         case '"':
             buffer[1] = '"';
@@ -181,18 +182,28 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
             buffer[1] = 't';
             break;
         default:
-            bytes = passgen_utf8_encode_codepoint(
-                (uint8_t *) &buffer[0],
-                codepoint);
+            if(codepoint < 0x20) {
+                // remaining control characters
+                buffer[1] = 'u';
+                buffer[2] = '0';
+                buffer[3] = '0';
+                buffer[4] = hex[codepoint >> 4];
+                buffer[5] = hex[codepoint & 0xf];
+                bytes = 6;
+            } else {
+                bytes = passgen_utf8_encode_codepoint(
+                    (uint8_t *) &buffer[0],
+                    codepoint);
+            }
     }
 
     // check that no error happened.
-    if(!bytes) {
+    if(bytes <= 0) {
         return -1;
     }
 
     // make sure it fits.
-    if(bytes <= (fillpos->len - fillpos->cur)) {
+    if((size_t) bytes <= (fillpos->len - fillpos->cur)) {
         memcpy(&fillpos->buffer[fillpos->cur], &buffer[0], bytes);
         fillpos->cur += bytes;
     } else {
-- 
2.43.0


From 653c6fa868b136eaa951ec629c52b5fa961674f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 26/38] fix: a word list that cannot be read or is empty makes
 generation fail

---
 src/generate.c | 12 ++++++++++--
 src/wordlist.c | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 95d37f3..3441f76 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -375,7 +375,10 @@ static int passgen_generate_special_markov(
     }
     passgen_wordlist *wordlist = entry->value;
     if(!wordlist->parsed) {
-        passgen_wordlist_parse(wordlist);
+        try(passgen_wordlist_parse(wordlist));
+    }
+    if(passgen_wordlist_count(wordlist) == 0) {
+        return -1;
     }
     if(!wordlist->parsed_markov) {
         passgen_wordlist_parse_markov(wordlist);
@@ -413,12 +416,17 @@ static int passgen_generate_special_wordlist(
     }
     passgen_wordlist *wordlist = entry->value;
     if(!wordlist->parsed) {
-        passgen_wordlist_parse(wordlist);
+        try(passgen_wordlist_parse(wordlist));
     }
 
     // pick word at random
     const unsigned char *word = passgen_wordlist_random(wordlist, context->env->random);
 
+    // there are no words to pick from
+    if(!word) {
+        return -1;
+    }
+
     // UTF8-decode word and write codepoints
     // TODO: handle longer words
     size_t word_len = strlen(word);
diff --git a/src/wordlist.c b/src/wordlist.c
index cefec06..8b162f6 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -17,6 +17,10 @@ void passgen_wordlist_init(
     wordlist->parsed_markov = false;
     wordlist->file = file;
     wordlist->should_close_file = true;
+    wordlist->data = NULL;
+    wordlist->size = 0;
+    wordlist->words = NULL;
+    wordlist->count = 0;
     passgen_markov_init(&wordlist->markov, markov_length);
 }
 
@@ -72,7 +76,11 @@ void passgen_wordlist_load(
 int passgen_wordlist_read(passgen_wordlist *wordlist, FILE *file) {
     // get size of file
     fseek(file, 0, SEEK_END);
-    wordlist->size = ftell(file);
+    long size = ftell(file);
+    if(size < 0) {
+        return 1;
+    }
+    wordlist->size = size;
     fseek(file, 0, SEEK_SET);
 
     // allocate buffer to hold entire file and read in (plus zero termination)
@@ -126,7 +134,7 @@ void passgen_wordlist_scan(passgen_wordlist *wordlist) {
 
 const char *
 passgen_wordlist_random(passgen_wordlist *wordlist, passgen_random *random) {
-    if(!wordlist->parsed) {
+    if(!wordlist->parsed || wordlist->count == 0) {
         return NULL;
     }
     size_t index = passgen_random_u64_max(random, wordlist->count);
-- 
2.43.0


From 537ca7adaadc418c9be71c6546306b28a7f487b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 27/38] fix: a pattern that names no word list fails instead of
 crashing

---
 src/generate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index 3441f76..b95f9a8 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -368,6 +368,9 @@ static int passgen_generate_literal(
 static int passgen_generate_special_markov(
     passgen_generate_context *context,
     const passgen_pattern_special *special) {
+    if(!special->parameters) {
+        return -1;
+    }
     passgen_hashmap_entry *entry =
         passgen_hashmap_lookup(&context->env->wordlists, special->parameters);
     if(!entry) {
@@ -409,6 +412,9 @@ static int passgen_generate_special_markov(
 static int passgen_generate_special_wordlist(
     passgen_generate_context *context,
     const passgen_pattern_special *special) {
+    if(!special->parameters) {
+        return -1;
+    }
     passgen_hashmap_entry *entry =
         passgen_hashmap_lookup(&context->env->wordlists, special->parameters);
     if(!entry) {
-- 
2.43.0


From f106ec7671a926cce8c604cba7cc70a3300382b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 28/38] fix: words from a Markov chain that do not fit the
 buffer make generation fail

---
 src/generate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index b95f9a8..b8b4b8f 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -389,9 +389,15 @@ static int passgen_generate_special_markov(
     passgen_markov *markov = &wordlist->markov;
     uint32_t word[128];
     size_t pos = markov->level;
+    if(pos >= sizeof(word) / sizeof(word[0])) {
+        return -1;
+    }
     memset(word, 0, pos * sizeof(uint32_t));
     double *entropy = context->entropy ? &*context->entropy : NULL;
     do {
+        if(pos == sizeof(word) / sizeof(word[0])) {
+            return -1;
+        }
         word[pos] = passgen_markov_generate(
             markov,
             &word[pos - markov->level],
-- 
2.43.0


From 6574898464a6eadf3e09f557864f3af8373052c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 29/38] fix: train Markov chains on long words, fail on words
 that are not valid UTF-8

---
 include/passgen/wordlist.h |  2 +-
 src/generate.c             |  2 +-
 src/wordlist.c             | 19 +++++++++++++------
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/passgen/wordlist.h b/include/passgen/wordlist.h
index 7683e21..263b036 100644
--- a/include/passgen/wordlist.h
+++ b/include/passgen/wordlist.h
@@ -54,7 +54,7 @@ int passgen_wordlist_parse(passgen_wordlist *wordlist);
 /// Generate markov chain from wordlist.
 ///
 /// @memberof passgen_wordlist
-void passgen_wordlist_parse_markov(passgen_wordlist *wordlist);
+int passgen_wordlist_parse_markov(passgen_wordlist *wordlist);
 
 /// Generate random word from this wordlist.
 ///
diff --git a/src/generate.c b/src/generate.c
index b8b4b8f..9619443 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -384,7 +384,7 @@ static int passgen_generate_special_markov(
         return -1;
     }
     if(!wordlist->parsed_markov) {
-        passgen_wordlist_parse_markov(wordlist);
+        try(passgen_wordlist_parse_markov(wordlist));
     }
     passgen_markov *markov = &wordlist->markov;
     uint32_t word[128];
diff --git a/src/wordlist.c b/src/wordlist.c
index 8b162f6..809c825 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -33,16 +33,16 @@ int passgen_wordlist_parse(passgen_wordlist *wordlist) {
     return 0;
 }
 
-void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
+int passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
     passgen_assert(!wordlist->parsed_markov);
-    wordlist->parsed_markov = true;
 
-    size_t unicode_buffer_len = 256;
-    uint32_t unicode_buffer[unicode_buffer_len];
     for(size_t i = 0; i < wordlist->count; i++) {
-        uint32_t *unicode_buffer_pos = &unicode_buffer[0];
         const uint8_t *word = (const uint8_t *) wordlist->words[i];
         size_t word_length = strlen((const char *) word);
+        size_t unicode_buffer_len = word_length + 1;
+        uint32_t *unicode_buffer =
+            malloc(unicode_buffer_len * sizeof(uint32_t));
+        uint32_t *unicode_buffer_pos = &unicode_buffer[0];
 
         // decode utf8
         int ret = passgen_utf8_decode(
@@ -53,7 +53,10 @@ void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
             word_length);
 
         // make sure the conversion worked
-        passgen_assert(ret == PASSGEN_UTF8_SUCCESS);
+        if(ret != PASSGEN_UTF8_SUCCESS) {
+            free(unicode_buffer);
+            return -1;
+        }
 
         // add word to markov chain
         passgen_markov_add(
@@ -61,7 +64,11 @@ void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
             unicode_buffer,
             unicode_buffer_pos - &unicode_buffer[0],
             1);
+        free(unicode_buffer);
     }
+
+    wordlist->parsed_markov = true;
+    return 0;
 }
 
 void passgen_wordlist_load(
-- 
2.43.0


From c241d46209e0e97ccd5e651de2c58310d2373ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 30/38] fix: inserting a key that is stored at its second
 position replaces it

---
 src/container/hashmap.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index a468123..52fe8a4 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -127,6 +127,15 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
 
     size_t hash;
 
+    // replace the value if this key exists already
+    passgen_hashmap_entry *existing = passgen_hashmap_lookup(map, key);
+    if(existing) {
+        passgen_hashmap_entry entry = *existing;
+        existing->key = key;
+        existing->value = value;
+        return entry;
+    }
+
     hash = passgen_hashmap_position(map, key, true);
     if(!map->data[hash].key) {
         map->data[hash].key = key;
-- 
2.43.0


From 68904f66b23f735a1127485469c110dbb499567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 31/38] fix: removing from an empty hash map finds nothing

---
 src/container/hashmap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index 52fe8a4..be0bb0f 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -182,6 +182,11 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
 
 passgen_hashmap_entry
 passgen_hashmap_remove(passgen_hashmap *map, const void *key) {
+    // make sure the hashmap is not empty
+    if(!map->data) {
+        return (passgen_hashmap_entry){NULL, NULL};
+    }
+
     size_t hash;
 
     // if this key exists
-- 
2.43.0


From d5eb0a96aa15c05242e57aa4be7959a8582c203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 32/38] fix: reading an array at its size is out of bounds

---
 src/container/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/container/array.c b/src/container/array.c
index edb4ebc..5bcf316 100644
--- a/src/container/array.c
+++ b/src/container/array.c
@@ -38,7 +38,7 @@ void passgen_array_push(passgen_array *array, void *pointer) {
 // Retrieve an item from the array.
 void *passgen_array_get(passgen_array *array, size_t pos) {
 #ifdef PASSGEN_DEBUG
-    passgen_assert(pos <= array->items);
+    passgen_assert(pos < array->items);
 #endif
 
     return array->data[pos];
-- 
2.43.0


From 266f614be7defe24482989c4326f8d375655480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 33/38] verification: loop annotations for SipHash

---
 src/util/siphash.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/util/siphash.c b/src/util/siphash.c
index 71fef7b..3a1e8ff 100644
--- a/src/util/siphash.c
+++ b/src/util/siphash.c
@@ -13,6 +13,7 @@
  */
 
 #include "passgen/util/siphash.h"
+#include "../verify.h"
 #include <assert.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -45,6 +46,7 @@
 
 #define SIPROUND           \
     do {                   \
+        PASSGEN_GHOST(vp_sip_round_start(v0, v1, v2, v3)); \
         v0 += v1;          \
         v1 = ROTL(v1, 13); \
         v1 ^= v0;          \
@@ -59,6 +61,7 @@
         v1 = ROTL(v1, 17); \
         v1 ^= v2;          \
         v2 = ROTL(v2, 32); \
+        PASSGEN_GHOST(vp_sip_round_end(v0, v1, v2, v3)); \
     } while(0)
 
 #ifdef DEBUG
@@ -101,7 +104,10 @@ int passgen_siphash(
 
     if(outlen == 16) v1 ^= 0xee;
 
-    for(; ni != end; ni += 8) {
+    for(; ni != end; ni += 8)
+        PASSGEN_ASSIGNS(ni, m, i, v0, v1, v2, v3, VP_SIP_GHOST)
+        PASSGEN_INVARIANT(vp_sip_invariant(ni, v0, v1, v2, v3)) {
+        PASSGEN_SAME(ni, vp_sip_at_word());
         m = U8TO64_LE(ni);
         v3 ^= m;
 
@@ -109,7 +115,9 @@ int passgen_siphash(
         for(i = 0; i < cROUNDS; ++i) SIPROUND;
 
         v0 ^= m;
+        PASSGEN_GHOST(vp_sip_word_done());
     }
+    PASSGEN_SAME(ni, vp_sip_at_rest());
 
     switch(left) {
         case 7:
@@ -137,6 +145,7 @@ int passgen_siphash(
             break;
     }
 
+    PASSGEN_SAME(b, vp_m);
     v3 ^= b;
 
     TRACE;
-- 
2.43.0


From dbcbe0fdddd4a7359fd008355a4338cd4c205488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 34/38] verification: loop annotations for generation

---
 src/generate.c | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 9619443..acad080 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -16,6 +16,7 @@
 #include "passgen/util/utf8.h"
 #include "passgen/wordlist.h"
 #include "try.h"
+#include "verify.h"
 
 #include <string.h>
 
@@ -334,7 +335,12 @@ static int passgen_generate_set(
     // locate choice in list of choices.
     // TODO: binary search.
     size_t num;
-    for(num = 0; num < set->items.len; num++) {
+    for(num = 0; num < set->items.len; num++)
+    PASSGEN_ASSIGNS(num)
+    PASSGEN_INVARIANT(num <= set->items.len)
+    PASSGEN_INVARIANT(num == 0 || set->choices_list[num - 1] <= choice)
+    PASSGEN_DECREASES(set->items.len - num)
+    {
         if(choice < set->choices_list[num]) {
             break;
         }
@@ -394,7 +400,11 @@ static int passgen_generate_special_markov(
     }
     memset(word, 0, pos * sizeof(uint32_t));
     double *entropy = context->entropy ? &*context->entropy : NULL;
-    do {
+    do
+    PASSGEN_ASSIGNS(pos, __CPROVER_object_whole(word), VP_MARKOV_GHOST)
+    PASSGEN_INVARIANT(markov->level <= pos && pos <= 128 && VP_MARKOV_STEP)
+    PASSGEN_DECREASES(128 - pos)
+    {
         if(pos == sizeof(word) / sizeof(word[0])) {
             return -1;
         }
@@ -407,7 +417,11 @@ static int passgen_generate_special_markov(
     } while(word[pos - 1]);
 
     pos = markov->level;
-    while(word[pos]) {
+    while(word[pos])
+    PASSGEN_ASSIGNS(pos, VP_EMIT_GHOST)
+    PASSGEN_INVARIANT(VP_MARKOV_EMIT)
+    PASSGEN_DECREASES(128 - pos)
+    {
         try(emit(context, word[pos]));
         pos++;
     }
@@ -446,7 +460,11 @@ static int passgen_generate_special_wordlist(
     uint32_t codepoints[128];
     uint32_t *codepoints_pos = &codepoints[0];
     try(passgen_utf8_decode(&codepoints_pos, 128, NULL, word_pos, word_len));
-    for(int i = 0; &codepoints[i] < codepoints_pos; i++) {
+    for(int i = 0; &codepoints[i] < codepoints_pos; i++)
+    PASSGEN_ASSIGNS(i, VP_EMIT_GHOST)
+    PASSGEN_INVARIANT(VP_WORD_EMIT)
+    PASSGEN_DECREASES(128 - i)
+    {
         try(emit(context, codepoints[i]));
     }
 
@@ -500,7 +518,11 @@ static int passgen_generate_item(
     // compute random number of repetitions
     size_t reps = passgen_generate_repeat(context, &item->repeat);
 
-    for(size_t i = 0; i < reps; i++) {
+    for(size_t i = 0; i < reps; i++)
+    PASSGEN_ASSIGNS(i, VP_ITEM_GHOST)
+    PASSGEN_INVARIANT(i <= reps && vp_calls == i && !vp_failed)
+    PASSGEN_DECREASES(reps - i)
+    {
         switch(item->kind) {
             case PASSGEN_PATTERN_SET:
                 try(passgen_generate_set(context, &item->data.set));
@@ -527,7 +549,11 @@ static int passgen_generate_item(
 static int passgen_generate_segment(
     passgen_generate_context *context,
     const passgen_pattern_segment *segment) {
-    for(size_t i = 0; i < segment->items.len; i++) {
+    for(size_t i = 0; i < segment->items.len; i++)
+    PASSGEN_ASSIGNS(i, VP_SEGMENT_GHOST)
+    PASSGEN_INVARIANT(i <= segment->items.len && vp_calls == i && !vp_failed)
+    PASSGEN_DECREASES(segment->items.len - i)
+    {
         passgen_pattern_item *item = passgen_stack_get(&segment->items, i);
 
         try(passgen_generate_item(context, item));
@@ -553,7 +579,12 @@ static int passgen_generate_group(
     passgen_pattern_segment *segment =
         passgen_stack_get(&group->segments, segment_index);
 
-    while(choice >= segment->multiplier) {
+    while(choice >= segment->multiplier)
+    PASSGEN_ASSIGNS(choice, segment_index, segment, VP_GROUP_GHOST)
+    PASSGEN_INVARIANT(segment_index < group->segments.len)
+    PASSGEN_INVARIANT(VP_GROUP_STEP)
+    PASSGEN_DECREASES(group->segments.len - segment_index)
+    {
         choice -= segment->multiplier;
         segment_index += 1;
         segment = passgen_stack_get(&group->segments, segment_index);
-- 
2.43.0


From bf2de2471cea7e92fb358a88418c1446f4bffef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 35/38] fix: modifiers of an empty group do not apply to the
 element before it

---
 src/parser/parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index a569122..4014826 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -233,7 +233,11 @@ int passgen_parse_group(
     passgen_pattern_special *special;
     passgen_pattern_item *item;
 
-    passgen_pattern_segment_clean(state->data.group.segment);
+    // an empty group has no effect and is removed, once its modifiers have been
+    // read.
+    if(codepoint != '{' && codepoint != '?') {
+        passgen_pattern_segment_clean(state->data.group.segment);
+    }
 
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-- 
2.43.0


From 00e806ee2eb9f4a91a6c6484b4aac6a60b0032ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:56 +0000
Subject: [PATCH 36/38] verification: loop annotations for the parser

---
 src/parser/parser.c   |  7 ++++++-
 src/pattern/group.c   | 13 +++++++++++--
 src/pattern/segment.c |  7 ++++++-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 4014826..ed2cc0d 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -15,6 +15,7 @@
 #include "passgen/pattern/segment.h"
 #include "passgen/pattern/segment_item.h"
 #include "passgen/pattern/set.h"
+#include "../verify.h"
 
 int passgen_parse_group(
     struct passgen_parser *parser,
@@ -373,7 +374,11 @@ int passgen_parse_set(
         // compute sum of choices and choices list for binary search.
         size_t choices = 0;
         set->choices_list = malloc(sizeof(size_t) * set->items.len);
-        for(size_t i = 0; i < set->items.len; i++) {
+        for(size_t i = 0; i < set->items.len; i++)
+        PASSGEN_ASSIGNS(i, choices, __CPROVER_object_whole(set->choices_list), VP_TOTALS_GHOST)
+        PASSGEN_INVARIANT(i <= set->items.len && VP_TOTALS)
+        PASSGEN_DECREASES(set->items.len - i)
+        {
             passgen_pattern_range *range = passgen_stack_get(&set->items, i);
             choices += 1 + range->end - range->start;
             set->choices_list[i] = choices;
diff --git a/src/pattern/group.c b/src/pattern/group.c
index fb1df75..8ff08c3 100644
--- a/src/pattern/group.c
+++ b/src/pattern/group.c
@@ -1,6 +1,7 @@
 #include "passgen/pattern/group.h"
 #include "passgen/config.h"
 #include "passgen/pattern/segment.h"
+#include "../verify.h"
 
 void passgen_pattern_group_init(passgen_pattern_group *group) {
     passgen_stack_init(&group->segments, sizeof(passgen_pattern_segment));
@@ -8,7 +9,11 @@ void passgen_pattern_group_init(passgen_pattern_group *group) {
 }
 
 void passgen_pattern_group_free(passgen_pattern_group *group) {
-    for(size_t i = 0; i < group->segments.len; i++) {
+    for(size_t i = 0; i < group->segments.len; i++)
+    PASSGEN_ASSIGNS(i, VP_FREED_GHOST)
+    PASSGEN_INVARIANT(i <= group->segments.len && VP_FREED_UPTO(i))
+    PASSGEN_DECREASES(group->segments.len - i)
+    {
         passgen_pattern_segment *segment =
             passgen_stack_get(&group->segments, i);
 
@@ -24,7 +29,11 @@ void passgen_pattern_group_finish(passgen_pattern_group *group) {
     // iterate through the segments and find out if there are any non-empty
     // ones.
     bool empty = true;
-    for(size_t i = 0; i < group->segments.len; i++) {
+    for(size_t i = 0; i < group->segments.len; i++)
+    PASSGEN_ASSIGNS(i, empty, VP_LOOKED_GHOST)
+    PASSGEN_INVARIANT(i <= group->segments.len && VP_LOOKED)
+    PASSGEN_DECREASES(group->segments.len - i)
+    {
         passgen_pattern_segment *segment =
             passgen_stack_get(&group->segments, i);
 
diff --git a/src/pattern/segment.c b/src/pattern/segment.c
index 62c24ad..e3e5af1 100644
--- a/src/pattern/segment.c
+++ b/src/pattern/segment.c
@@ -6,6 +6,7 @@
 #include "passgen/pattern/repeat.h"
 #include "passgen/pattern/segment_item.h"
 #include "passgen/pattern/set.h"
+#include "../verify.h"
 
 void passgen_pattern_segment_init(passgen_pattern_segment *segment) {
     segment->multiplier = 1;
@@ -13,7 +14,11 @@ void passgen_pattern_segment_init(passgen_pattern_segment *segment) {
 }
 
 void passgen_pattern_segment_free(passgen_pattern_segment *segment) {
-    for(size_t i = 0; i < segment->items.len; i++) {
+    for(size_t i = 0; i < segment->items.len; i++)
+    PASSGEN_ASSIGNS(i, VP_FREED_GHOST)
+    PASSGEN_INVARIANT(i <= segment->items.len && VP_FREED_UPTO(i))
+    PASSGEN_DECREASES(segment->items.len - i)
+    {
         passgen_pattern_item *item = passgen_stack_get(&segment->items, i);
 
         passgen_pattern_item_free(item);
-- 
2.43.0


From ca8588abbd5ef56304a61ce7d6a3c93121c6ff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 37/38] verification: loop annotations for feeding the parser

---
 src/parser/parser.c |  6 +++++-
 src/passgen.c       | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index ed2cc0d..71fa98d 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -599,7 +599,11 @@ int passgen_parser_unicode(
     passgen_token token = {0};
     int ret;
 
-    for(size_t pos = 0; pos < length; pos++) {
+    for(size_t pos = 0; pos < length; pos++)
+    PASSGEN_ASSIGNS(pos, ret, token_parser, token, VP_PARSE_GHOST)
+    PASSGEN_INVARIANT(pos <= length && VP_PARSE_FED(pos))
+    PASSGEN_DECREASES(length - pos)
+    {
         ret = passgen_token_parse(&token_parser, &token, 1, data[pos]);
 
         if(ret < 0) {
diff --git a/src/passgen.c b/src/passgen.c
index d20c4b6..715cd76 100644
--- a/src/passgen.c
+++ b/src/passgen.c
@@ -3,6 +3,7 @@
 #include "passgen/pattern/pattern.h"
 #include "passgen/random.h"
 #include "passgen/util/utf8.h"
+#include "verify.h"
 #include <assert.h>
 #include <passgen/passgen.h>
 #include <string.h>
@@ -27,7 +28,10 @@ int passgen_parse(
 
     int decode_ret = 0;
 
-    do {
+    do
+    PASSGEN_ASSIGNS(decode_ret, pattern_pos, pattern_pos_total, pattern_raw_pos, token_parser, token, parser, *error, __CPROVER_object_whole(pattern), __CPROVER_object_whole(pattern_widths), VP_PARSE_GHOST)
+    PASSGEN_INVARIANT(pattern_raw_pos <= pattern_raw_len && VP_PARSE_ROUND)
+    {
         uint32_t *pattern_cur = &pattern[0];
         const uint8_t *pattern_raw_cur = &pattern_raw[pattern_raw_pos];
 
@@ -52,7 +56,11 @@ int passgen_parse(
         }
 
         // parse tokens and pattern
-        for(size_t i = 0; i < pattern_pos; i++) {
+        for(size_t i = 0; i < pattern_pos; i++)
+        PASSGEN_ASSIGNS(i, token_parser, token, parser, *error, VP_PARSE_GHOST)
+        PASSGEN_INVARIANT(i <= pattern_pos && VP_PARSE_FED(i))
+        PASSGEN_DECREASES(pattern_pos - i)
+        {
             int ret = passgen_token_parse(
                 &token_parser,
                 &token,
-- 
2.43.0


From ce5816ad6e4fc840d72b4dcbf7e42b1e5bf286c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 38/38] verification: loop annotations for feeding the parser

---
 src/passgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/passgen.c b/src/passgen.c
index 715cd76..2ba8a38 100644
--- a/src/passgen.c
+++ b/src/passgen.c
@@ -57,7 +57,7 @@ int passgen_parse(
 
         // parse tokens and pattern
         for(size_t i = 0; i < pattern_pos; i++)
-        PASSGEN_ASSIGNS(i, token_parser, token, parser, *error, VP_PARSE_GHOST)
+        PASSGEN_ASSIGNS(i, token_parser, token, parser, *error, VP_FEED_GHOST)
         PASSGEN_INVARIANT(i <= pattern_pos && VP_PARSE_FED(i))
         PASSGEN_DECREASES(pattern_pos - i)
         {
-- 
2.43.0

