From 8ecd2ef9172b92f0a69d8a3923d9a2c2e997c315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 1/5] fix: constant-time key schedule on big-endian targets

The bitsliced key expansion rotated the word and placed the round constant
as if columns were little-endian, so every key schedule (and ciphertext) was
wrong on big-endian targets.
---
 src/aes_bitslice.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/aes_bitslice.rs b/src/aes_bitslice.rs
index 2dda97a..4090d09 100644
--- a/src/aes_bitslice.rs
+++ b/src/aes_bitslice.rs
@@ -337,6 +337,16 @@ impl AesBlock {
 
 const RCON: [u32; 10] = [0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0x1b, 0x36];
 
+/// `SubWord(RotWord(x)) ^ Rcon[i]`, for a word in native byte order (byte 0 first in memory)
+#[inline(always)]
+const fn rot_sub_word(x: u32, i: usize) -> u32 {
+    if cfg!(target_endian = "big") {
+        sub_word(x).rotate_left(8) ^ (RCON[i] << 24)
+    } else {
+        sub_word(x).rotate_right(8) ^ RCON[i]
+    }
+}
+
 pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     let mut expanded_keys: [AesBlock; 11] = unsafe { mem::zeroed() };
     let columns = unsafe { slice::from_raw_parts_mut(expanded_keys.as_mut_ptr().cast(), 44) };
@@ -346,7 +356,7 @@ pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     }
 
     for i in (0..40).step_by(4) {
-        columns[i + 4] = columns[i + 0] ^ sub_word(columns[i + 3]).rotate_right(8) ^ RCON[i / 4];
+        columns[i + 4] = columns[i + 0] ^ rot_sub_word(columns[i + 3], i / 4);
         columns[i + 5] = columns[i + 1] ^ columns[i + 4];
         columns[i + 6] = columns[i + 2] ^ columns[i + 5];
         columns[i + 7] = columns[i + 3] ^ columns[i + 6];
@@ -364,7 +374,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
     }
 
     for i in (0..42).step_by(6) {
-        columns[i + 6] = columns[i + 0] ^ sub_word(columns[i + 5]).rotate_right(8) ^ RCON[i / 6];
+        columns[i + 6] = columns[i + 0] ^ rot_sub_word(columns[i + 5], i / 6);
         columns[i + 7] = columns[i + 1] ^ columns[i + 6];
         columns[i + 8] = columns[i + 2] ^ columns[i + 7];
         columns[i + 9] = columns[i + 3] ^ columns[i + 8];
@@ -372,7 +382,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
         columns[i + 11] = columns[i + 5] ^ columns[i + 10];
     }
 
-    columns[48] = columns[42] ^ sub_word(columns[47]).rotate_right(8) ^ RCON[7];
+    columns[48] = columns[42] ^ rot_sub_word(columns[47], 7);
     columns[49] = columns[43] ^ columns[48];
     columns[50] = columns[44] ^ columns[49];
     columns[51] = columns[45] ^ columns[50];
@@ -389,7 +399,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
     }
 
     for i in (0..48).step_by(8) {
-        columns[i + 8] = columns[i + 0] ^ sub_word(columns[i + 7]).rotate_right(8) ^ RCON[i / 8];
+        columns[i + 8] = columns[i + 0] ^ rot_sub_word(columns[i + 7], i / 8);
         columns[i + 9] = columns[i + 1] ^ columns[i + 8];
         columns[i + 10] = columns[i + 2] ^ columns[i + 9];
         columns[i + 11] = columns[i + 3] ^ columns[i + 10];
@@ -399,7 +409,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
         columns[i + 15] = columns[i + 7] ^ columns[i + 14];
     }
 
-    columns[56] = columns[48] ^ sub_word(columns[55]).rotate_right(8) ^ RCON[6];
+    columns[56] = columns[48] ^ rot_sub_word(columns[55], 6);
     columns[57] = columns[49] ^ columns[56];
     columns[58] = columns[50] ^ columns[57];
     columns[59] = columns[51] ^ columns[58];
-- 
2.43.0


From 55660ed9d2b959c808959b6bd72358897828770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 2/5] fix: riscv32 decryption rounds used the ShiftRows column
 order

aes32dsmi/aes32dsi must gather the bytes of a column in InvShiftRows order;
with the encryption order dec, dec_last, mc and imc were all wrong.
---
 src/aes_riscv32.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index fc26a38..2a1d045 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -18,7 +18,15 @@ extern "unadjusted" {
 }
 
 macro_rules! outer {
-    ($name:ident, $msg:ident, $rk:ident) => {{
+    // `ShiftRows` takes row `r` of column `c` from column `c + r`
+    (enc, $name:ident, $msg:ident, $rk:ident) => {
+        outer!($name, $msg, $rk, 0, 1, 2, 3)
+    };
+    // `InvShiftRows` takes row `r` of column `c` from column `c - r`
+    (dec, $name:ident, $msg:ident, $rk:ident) => {
+        outer!($name, $msg, $rk, 2, 3, 0, 1)
+    };
+    ($name:ident, $msg:ident, $rk:ident, $c0:tt, $c1:tt, $c2:tt, $c3:tt) => {{
         #[inline(always)]
         fn inner(t0: u32, t1: u32, t2: u32, t3: u32, rk: u32) -> u32 {
             let mut value = rk;
@@ -31,10 +39,10 @@ macro_rules! outer {
             value
         }
         AesBlock(
-            inner($msg.0, $msg.1, $msg.2, $msg.3, $rk.0),
-            inner($msg.1, $msg.2, $msg.3, $msg.0, $rk.1),
-            inner($msg.2, $msg.3, $msg.0, $msg.1, $rk.2),
-            inner($msg.3, $msg.0, $msg.1, $msg.2, $rk.3),
+            inner($msg.0, $msg.$c1, $msg.2, $msg.$c3, $rk.0),
+            inner($msg.1, $msg.$c2, $msg.3, $msg.$c0, $rk.1),
+            inner($msg.2, $msg.$c3, $msg.0, $msg.$c1, $rk.2),
+            inner($msg.3, $msg.$c0, $msg.1, $msg.$c2, $rk.3),
         )
     }};
 }
@@ -124,7 +132,7 @@ impl AesBlock {
 
     #[inline(always)]
     pub(crate) fn pre_enc(self, round_key: Self) -> Self {
-        outer!(aes32esmi, self, round_key)
+        outer!(enc, aes32esmi, self, round_key)
     }
 
     /// Performs one round of AES encryption function (`ShiftRows`->`SubBytes`->`MixColumns`->`AddRoundKey`)
@@ -135,7 +143,7 @@ impl AesBlock {
 
     #[inline(always)]
     fn pre_enc_last(self, round_key: Self) -> Self {
-        outer!(aes32esi, self, round_key)
+        outer!(enc, aes32esi, self, round_key)
     }
 
     /// Performs one round of AES encryption function without `MixColumns` (`ShiftRows`->`SubBytes`->`AddRoundKey`)
@@ -146,7 +154,7 @@ impl AesBlock {
 
     #[inline(always)]
     pub(crate) fn pre_dec(self, round_key: Self) -> Self {
-        outer!(aes32dsmi, self, round_key)
+        outer!(dec, aes32dsmi, self, round_key)
     }
 
     /// Performs one round of AES decryption function (`InvShiftRows`->`InvSubBytes`->`InvMixColumn`s->`AddRoundKey`)
@@ -157,7 +165,7 @@ impl AesBlock {
 
     #[inline(always)]
     fn pre_dec_last(self, round_key: Self) -> Self {
-        outer!(aes32dsi, self, round_key)
+        outer!(dec, aes32dsi, self, round_key)
     }
 
     /// Performs one round of AES decryption function without `InvMixColumn`s (`InvShiftRows`->`InvSubBytes`->`AddRoundKey`)
-- 
2.43.0


From 8164b9d30f7ec62228337b41b76b4a0ce7a54424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 3/5] fix: riscv32 key schedules missed RotWord

keygen_128, keygen_192 and the last round key of keygen_256 applied SubWord
without RotWord, so no AES-128/192 key and no AES-256 key expanded correctly.
---
 src/aes_riscv32.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index 2a1d045..990623b 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -212,7 +212,7 @@ pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     }
 
     for i in (0..40).step_by(4) {
-        columns[i + 4] = sub_word(columns[i + 0] ^ RCON[i / 4], columns[i + 3]);
+        columns[i + 4] = sub_word(columns[i + 0] ^ RCON[i / 4], columns[i + 3].rotate_right(8));
         columns[i + 5] = columns[i + 1] ^ columns[i + 4];
         columns[i + 6] = columns[i + 2] ^ columns[i + 5];
         columns[i + 7] = columns[i + 3] ^ columns[i + 6];
@@ -232,7 +232,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
     }
 
     for i in (0..42).step_by(6) {
-        columns[i + 6] = sub_word(columns[i + 0] ^ RCON[i / 6], columns[i + 5]);
+        columns[i + 6] = sub_word(columns[i + 0] ^ RCON[i / 6], columns[i + 5].rotate_right(8));
         columns[i + 7] = columns[i + 1] ^ columns[i + 6];
         columns[i + 8] = columns[i + 2] ^ columns[i + 7];
         columns[i + 9] = columns[i + 3] ^ columns[i + 8];
@@ -240,7 +240,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
         columns[i + 11] = columns[i + 5] ^ columns[i + 10];
     }
 
-    columns[48] = sub_word(columns[42] ^ RCON[7], columns[47]);
+    columns[48] = sub_word(columns[42] ^ RCON[7], columns[47].rotate_right(8));
     columns[49] = columns[43] ^ columns[48];
     columns[50] = columns[44] ^ columns[49];
     columns[51] = columns[45] ^ columns[50];
@@ -269,7 +269,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
         columns[i + 15] = columns[i + 7] ^ columns[i + 14];
     }
 
-    columns[56] = sub_word(columns[48] ^ RCON[6], columns[55]);
+    columns[56] = sub_word(columns[48] ^ RCON[6], columns[55].rotate_right(8));
     columns[57] = columns[49] ^ columns[56];
     columns[58] = columns[50] ^ columns[57];
     columns[59] = columns[51] ^ columns[58];
-- 
2.43.0


From c47bd7d3a641c16c4f0e67dd3044cfc3ac02890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 4/5] fix: riscv32 chains applied every round key one round
 late

chain_enc/chain_dec on riscv32 used the AESE-style pre_enc/pre_dec path, which
expects the key to be added before the round; the riscv32 primitives add it
after the round, so the first key was never whitened in. Use the generic chain.
---
 src/lib.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7eaf1fe..3d60c91 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -331,20 +331,14 @@ fn enc_round_keys<const N: usize>(dec_round_keys: &[AesBlock; N]) -> [AesBlock;
 }
 
 cfg_if! {
-    if #[cfg(any(
-        all(
-            any(
-                target_arch = "aarch64",
-                target_arch = "arm64ec",
-                all(feature = "nightly", target_arch = "arm", target_feature = "v8")
-            ),
-            target_feature = "aes",
-        ), all(
-                feature = "nightly",
-                target_arch = "riscv32",
-                target_feature = "zkne",
-                target_feature = "zknd"
-        )))] {
+    if #[cfg(all(
+        any(
+            target_arch = "aarch64",
+            target_arch = "arm64ec",
+            all(feature = "nightly", target_arch = "arm", target_feature = "v8")
+        ),
+        target_feature = "aes",
+    ))] {
         macro_rules! impl_pre_encdec {
             ($($name:ident),*) => {$(
                 impl $name {
-- 
2.43.0


From 351a5f96c0053449c672f95bc65d45cf6d920661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 5/5] fix: build on big-endian AArch64 with the aes target
 feature

The backend falls back to software there, but the chain functions still
selected the AESE path, which the software backends do not have.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3d60c91..400b7c3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -338,6 +338,7 @@ cfg_if! {
             all(feature = "nightly", target_arch = "arm", target_feature = "v8")
         ),
         target_feature = "aes",
+        target_endian = "little"
     ))] {
         macro_rules! impl_pre_encdec {
             ($($name:ident),*) => {$(
-- 
2.43.0

