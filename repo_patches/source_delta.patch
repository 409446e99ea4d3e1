From 6cac75587a124d3cf2459b6fe1fdc4513ed935f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 01/28] fix: BC2/BC3 color blocks always use the 4-color
 palette

---
 src/bcn/bc1.rs | 14 ++++++++++----
 src/bcn/bc2.rs |  4 ++--
 src/bcn/bc3.rs |  4 ++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/bcn/bc1.rs b/src/bcn/bc1.rs
index 55450ec..89be8e0 100644
--- a/src/bcn/bc1.rs
+++ b/src/bcn/bc1.rs
@@ -1,7 +1,7 @@
 use crate::color::{color, rgb565_le};
 
 #[inline]
-fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
+fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool, four_color: bool) {
     let q0 = u16::from_le_bytes([data[0], data[1]]);
     let q1 = u16::from_le_bytes([data[2], data[3]]);
     let (r0, g0, b0) = rgb565_le(q0);
@@ -17,7 +17,7 @@ fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
     let g1 = g1 as u16;
     let b1 = b1 as u16;
 
-    if q0 > q1 {
+    if four_color || q0 > q1 {
         c[2] = color(
             ((r0 * 2 + r1) / 3) as u8,
             ((g0 * 2 + g1) / 3) as u8,
@@ -48,10 +48,16 @@ fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
 
 #[inline]
 pub fn decode_bc1_block(data: &[u8], outbuf: &mut [u32]) {
-    _decode_bc1_block(data, outbuf, false)
+    _decode_bc1_block(data, outbuf, false, false)
 }
 
 #[inline]
 pub fn decode_bc1a_block(data: &[u8], outbuf: &mut [u32]) {
-    _decode_bc1_block(data, outbuf, true);
+    _decode_bc1_block(data, outbuf, true, false);
+}
+
+/// The color half of BC2 and BC3 blocks, which has no 3-color mode.
+#[inline]
+pub(crate) fn decode_four_color_block(data: &[u8], outbuf: &mut [u32]) {
+    _decode_bc1_block(data, outbuf, false, true);
 }
diff --git a/src/bcn/bc2.rs b/src/bcn/bc2.rs
index 5126cb4..f1c8819 100644
--- a/src/bcn/bc2.rs
+++ b/src/bcn/bc2.rs
@@ -1,4 +1,4 @@
-use crate::bcn::bc1::decode_bc1_block;
+use crate::bcn::bc1::decode_four_color_block;
 
 #[inline]
 pub fn decode_bc2_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
@@ -18,6 +18,6 @@ pub fn decode_bc2_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
 #[inline]
 pub fn decode_bc2_block(data: &[u8], outbuf: &mut [u32]) {
-    decode_bc1_block(&data[8..], outbuf);
+    decode_four_color_block(&data[8..], outbuf);
     decode_bc2_alpha(data, outbuf, 3);
 }
diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index 70a0407..a3a0e9e 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -1,4 +1,4 @@
-use crate::bcn::bc1::decode_bc1_block;
+use crate::bcn::bc1::decode_four_color_block;
 
 #[inline]
 pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
@@ -32,6 +32,6 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
 #[inline]
 pub fn decode_bc3_block(data: &[u8], outbuf: &mut [u32]) {
-    decode_bc1_block(&data[8..], outbuf);
+    decode_four_color_block(&data[8..], outbuf);
     decode_bc3_alpha(data, outbuf, 3);
 }
-- 
2.43.0


From 6144d8edd5cbe0d8eb52b7c241bc4351dea3856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 02/28] fix: BC3/BC4/BC5/ATC block decoders write 16 pixels
 only

---
 src/bcn/bc3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index a3a0e9e..0710739 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -24,7 +24,7 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
     let channel_shift = channel * 8;
     let channel_mask = 0xFFFFFFFF ^ (0xFF << channel_shift);
-    outbuf.iter_mut().for_each(|p| {
+    outbuf.iter_mut().take(16).for_each(|p| {
         *p = (*p & channel_mask) | (a[d & 7] as u32) << channel_shift;
         d >>= 3;
     });
-- 
2.43.0


From 2d101e15bd740627dc5f9170d462dd95c701e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 03/28] fix: EAC selectors are a big-endian bit field

---
 src/etc/eac.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/etc/eac.rs b/src/etc/eac.rs
index b647084..b10a5f7 100644
--- a/src/etc/eac.rs
+++ b/src/etc/eac.rs
@@ -8,7 +8,7 @@ pub fn decode_eac_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = data[0] as i32 * 8 + multiplier * table[l & 7] as i32 + 4;
@@ -32,7 +32,7 @@ pub fn decode_eac_signed_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = base * 8 + multiplier * table[l & 7] as i32 + 1023;
-- 
2.43.0


From e8036dbd87d73105d2eb312caeaca647dc114533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 04/28] fix: ATC second palette color of mode-1 blocks is c -
 d/4, clamped at 0

---
 src/atc.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/atc.rs b/src/atc.rs
index 4d3daaf..3f3ac4f 100644
--- a/src/atc.rs
+++ b/src/atc.rs
@@ -2,7 +2,6 @@
 use crate::bcn::bc3::decode_bc3_alpha;
 use crate::color::color;
 use crate::macros::block_decoder;
-use core::cmp::max;
 use core::result::Result;
 
 #[inline]
@@ -58,18 +57,9 @@ pub fn decode_atc_rgb4_block(data: &[u8], outbuf: &mut [u32]) {
         colors[13] = expand_quantized(((c1 >> 5) & 0x3f) as u8, 6);
         colors[14] = expand_quantized(((c1 >> 11) & 0x1f) as u8, 5);
 
-        colors[4] = max(
-            0,
-            ((colors[8] as u16).overflowing_sub(colors[12] as u16).0 / 4) as u8,
-        );
-        colors[5] = max(
-            0,
-            ((colors[9] as u16).overflowing_sub(colors[13] as u16).0 / 4) as u8,
-        );
-        colors[6] = max(
-            0,
-            ((colors[10] as u16).overflowing_sub(colors[14] as u16).0 / 4) as u8,
-        );
+        colors[4] = colors[8].saturating_sub(colors[12] / 4);
+        colors[5] = colors[9].saturating_sub(colors[13] / 4);
+        colors[6] = colors[10].saturating_sub(colors[14] / 4);
     }
 
     let mut next = 8 * 4;
-- 
2.43.0


From 2b2966d6b912fc1e82f04086ee938bd5d28fb579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 05/28] fix: keep 48-bit selector fields in u64 (usize drops
 bits on 32-bit targets)

---
 src/bcn/bc3.rs  | 4 ++--
 src/etc/eac.rs  | 8 ++++----
 src/etc/etc2.rs | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index 0710739..c27768f 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -20,12 +20,12 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
         a[7] = 255;
     }
 
-    let mut d: usize = (u64::from_le_bytes(data[..8].try_into().unwrap()) >> 16) as usize;
+    let mut d: u64 = u64::from_le_bytes(data[..8].try_into().unwrap()) >> 16;
 
     let channel_shift = channel * 8;
     let channel_mask = 0xFFFFFFFF ^ (0xFF << channel_shift);
     outbuf.iter_mut().take(16).for_each(|p| {
-        *p = (*p & channel_mask) | (a[d & 7] as u32) << channel_shift;
+        *p = (*p & channel_mask) | (a[(d & 7) as usize] as u32) << channel_shift;
         d >>= 3;
     });
 }
diff --git a/src/etc/eac.rs b/src/etc/eac.rs
index b10a5f7..f6a9d35 100644
--- a/src/etc/eac.rs
+++ b/src/etc/eac.rs
@@ -8,10 +8,10 @@ pub fn decode_eac_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
-        let val: i32 = data[0] as i32 * 8 + multiplier * table[l & 7] as i32 + 4;
+        let val: i32 = data[0] as i32 * 8 + multiplier * table[(l & 7) as usize] as i32 + 4;
         block[color] = if val < 0 {
             0
         } else if val >= 2048 {
@@ -32,10 +32,10 @@ pub fn decode_eac_signed_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
-        let val: i32 = base * 8 + multiplier * table[l & 7] as i32 + 1023;
+        let val: i32 = base * 8 + multiplier * table[(l & 7) as usize] as i32 + 1023;
         block[color] = if val < 0 {
             0
         } else if val >= 2048 {
diff --git a/src/etc/etc2.rs b/src/etc/etc2.rs
index f8c15ec..ae278cf 100644
--- a/src/etc/etc2.rs
+++ b/src/etc/etc2.rs
@@ -314,9 +314,9 @@ pub fn decode_etc2_a8_block(data: &[u8], outbuf: &mut [u32]) {
         // multiplier != 0
         let multiplier: i32 = (data[1] >> 4) as i32;
         let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-        let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
+        let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
         for i in 0..16 {
-            let alpha = (clamp((data[0] as i32) + multiplier * (table[l & 7] as i32)) as u32)
+            let alpha = (clamp((data[0] as i32) + multiplier * (table[(l & 7) as usize] as i32)) as u32)
                 << TRANSPARENT_SHIFT;
             let x: &mut u32 = &mut outbuf[WRITE_ORDER_TABLE_REV[i]];
             *x = (*x & TRANSPARENT_MASK) | alpha;
-- 
2.43.0


From e40904e0a2a373211e8b849be772ef6739f60424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 06/28] fix: alpha mask and shift do not depend on the target's
 endianness

---
 src/color.rs | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index e107ac0..ce24667 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -1,26 +1,9 @@
 #![allow(clippy::too_many_arguments)]
 
-pub static TRANSPARENT_MASK: u32 = {
-    #[cfg(target_endian = "little")]
-    {
-        0x00ffffff
-    }
-    #[cfg(target_endian = "big")]
-    {
-        0xffffff00
-    }
-};
+// pixel values are composed arithmetically, so these do not depend on the target's endianness
+pub static TRANSPARENT_MASK: u32 = 0x00ffffff;
 
-pub static TRANSPARENT_SHIFT: u32 = {
-    #[cfg(target_endian = "little")]
-    {
-        24
-    }
-    #[cfg(target_endian = "big")]
-    {
-        0
-    }
-};
+pub static TRANSPARENT_SHIFT: u32 = 24;
 
 #[inline]
 pub const fn color(r: u8, g: u8, b: u8, a: u8) -> u32 {
-- 
2.43.0


From 9f9a55632835bff5fb4af18cad57647e2bd8b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:48 +0000
Subject: [PATCH 07/28] fix: BC6H mode 01111 (16-bit endpoints) no longer
 overflows the endpoint mask

---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index e01beb4..b25fd6f 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -675,7 +675,7 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
         }
 
         if mi.transformed {
-            let mask = (1 << mi.endpoint_bits) - 1;
+            let mask = ((1u32 << mi.endpoint_bits) - 1) as u16;
 
             ep_r[ii] = ep_r[ii].overflowing_add(ep_r[0]).0 & mask;
             ep_g[ii] = ep_g[ii].overflowing_add(ep_g[0]).0 & mask;
-- 
2.43.0


From b06e271154377b71e2841af04996bf69b3566d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:48 +0000
Subject: [PATCH 08/28] fix: BC6H unsigned unquantization saturates at the
 largest endpoint value

---
 src/bcn/bc6.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index b25fd6f..d9241fa 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -273,9 +273,9 @@ static S_BC6H_MODE_INFO: [Bc6hModeInfo; 32] = [
 ];
 
 fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
-    let max_value: u16 = 1 << (_endpoint_bits - 1);
-
     if _signed {
+        let max_value: u16 = 1 << (_endpoint_bits - 1);
+
         if _endpoint_bits >= 16 {
             return _value;
         }
@@ -304,7 +304,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
         return 0;
     }
 
-    if _value == max_value {
+    if _value as u32 == (1 << _endpoint_bits) - 1 {
         return u16::MAX;
     }
 
-- 
2.43.0


From 80d92d8360098861f1edaafefb8f710f2ba495bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:48 +0000
Subject: [PATCH 09/28] fix: BC6H signed endpoints are interpolated and
 finished as two's complement values

---
 src/bcn/bc6.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index d9241fa..43a9809 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -281,7 +281,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
         }
 
         let sign: bool = _value & 0x8000 != 0;
-        let _value = _value & 0x7fff;
+        let _value = (_value as i16).unsigned_abs();
 
         let unq: u16;
 
@@ -293,7 +293,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
             unq = ((((_value as u32) << 15) + 0x4000) >> (_endpoint_bits - 1)) as u16;
         }
 
-        return if sign { u16::MAX - unq + 1 } else { unq };
+        return if sign { unq.wrapping_neg() } else { unq };
     }
 
     if _endpoint_bits >= 15 {
@@ -311,12 +311,23 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
     ((((_value as u32) << 15) + 0x4000) >> (_endpoint_bits - 1)) as u16
 }
 
-fn finish_unquantize(_value: u16, _signed: bool) -> u16 {
+/// Interpolates between two unquantized endpoints, which are two's complement if `_signed`.
+fn interpolate(_a: u16, _b: u16, _fca: u32, _fcb: u32, _signed: bool) -> i32 {
+    let (a, b) = if _signed {
+        (_a as i16 as i32, _b as i16 as i32)
+    } else {
+        (_a as i32, _b as i32)
+    };
+    (a * _fca as i32 + b * _fcb as i32 + 32) >> 6
+}
+
+fn finish_unquantize(_value: i32, _signed: bool) -> u16 {
     if _signed {
-        let sign: u16 = _value & 0x8000;
-        (((_value & 0x7fff) as u32 * 31) >> 5) as u16 | sign
+        // half floats are sign and magnitude
+        let sign: u16 = if _value < 0 { 0x8000 } else { 0 };
+        ((_value.abs() * 31) >> 5) as u16 | sign
     } else {
-        ((_value as u32 * 31) >> 6) as u16
+        ((_value * 31) >> 6) as u16
     }
 }
 
@@ -729,18 +740,15 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
 
             subset_index *= 2;
             let rr = finish_unquantize(
-                ((ep_r[subset_index] as u32 * fca + ep_r[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
+                interpolate(ep_r[subset_index], ep_r[subset_index + 1], fca, fcb, signed),
                 signed,
             );
             let gg = finish_unquantize(
-                ((ep_g[subset_index] as u32 * fca + ep_g[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
+                interpolate(ep_g[subset_index], ep_g[subset_index + 1], fca, fcb, signed),
                 signed,
             );
             let bb = finish_unquantize(
-                ((ep_b[subset_index] as u32 * fca + ep_b[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
+                interpolate(ep_b[subset_index], ep_b[subset_index + 1], fca, fcb, signed),
                 signed,
             );
 
-- 
2.43.0


From e44201270a1e014c9df3c01faa837208b22fbce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 10/28] fix: PVRTC needs 8 bytes per block whatever the block
 width

---
 src/pvrtc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index 03bc2d1..fb0cee2 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -385,7 +385,7 @@ pub fn decode_pvrtc(
     let num_blocks: usize = num_blocks_x * num_blocks_y;
     let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * block_width {
+    if data.len() < num_blocks * 8 {
         return Err("The data buffer is too small!");
     }
     if image.len() < width * height {
@@ -468,7 +468,7 @@ pub fn decode_pvrtc(
         num_blocks_y
     };
 
-    if data.len() < num_blocks * block_width {
+    if data.len() < num_blocks * 8 {
         return Err("The data buffer is too small!");
     }
     if image.len() < width * height {
-- 
2.43.0


From 8037ca31299ec60002c1df2f9ecab15f215fa594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 11/28] fix: image sizes that overflow usize or are empty are
 an Err, not a panic

---
 src/astc.rs   | 18 ++++++++++++++----
 src/macros.rs |  8 ++++++--
 src/pvrtc.rs  | 12 ++++++++----
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 3a15e8c..8aac487 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -1779,21 +1779,31 @@ pub fn decode_astc(
     block_height: usize,
     image: &mut [u32],
 ) -> Result<(), &'static str> {
+    if block_width == 0 || block_height == 0 {
+        return Err("Block size is zero!");
+    }
+
     let num_blocks_x = width.div_ceil(block_width);
     let num_blocks_y = height.div_ceil(block_height);
     let mut buffer: [u32; 144] = [0; 144];
     let mut data_offset = 0;
 
-    if data.len() < num_blocks_x * num_blocks_y * 16 {
+    if num_blocks_x
+        .checked_mul(num_blocks_y)
+        .and_then(|n| n.checked_mul(16))
+        .map_or(true, |n| data.len() < n)
+    {
         return Err("Not enough data to decode image!");
     }
 
-    let expected_image_size = width * height;
-    if image.len() < expected_image_size {
+    if width
+        .checked_mul(height)
+        .map_or(true, |expected_image_size| image.len() < expected_image_size)
+    {
         return Err("Image buffer is too small!");
     }
 
-    if block_width * block_height > 144 {
+    if block_width.checked_mul(block_height).map_or(true, |n| n > 144) {
         return Err("Block size is too big!");
     }
 
diff --git a/src/macros.rs b/src/macros.rs
index ab6ab4b..521d6d6 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -11,11 +11,15 @@ macro_rules! block_decoder{
                 let num_blocks_y: usize = height.div_ceil(BLOCK_HEIGHT);
                 let mut buffer: [u32; BLOCK_SIZE] = [crate::color::color(0,0,0,255); BLOCK_SIZE];
 
-                if data.len() < num_blocks_x * num_blocks_y * $raw_block_size {
+                if num_blocks_x
+                    .checked_mul(num_blocks_y)
+                    .and_then(|n| n.checked_mul($raw_block_size))
+                    .map_or(true, |n| data.len() < n)
+                {
                     return Err("Not enough data to decode image!");
                 }
 
-                if image.len() < width * height {
+                if width.checked_mul(height).map_or(true, |n| image.len() < n) {
                     return Err("Image buffer is too small!");
                 }
 
diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index fb0cee2..d58ac8b 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -382,18 +382,22 @@ pub fn decode_pvrtc(
     let block_width: usize = if is2bpp { 8 } else { 4 };
     let num_blocks_x: usize = width.div_ceil(block_width);
     let num_blocks_y: usize = height.div_ceil(4);
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
     let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * 8 {
+    if num_blocks_x
+        .checked_mul(num_blocks_y)
+        .and_then(|n| n.checked_mul(8))
+        .map_or(true, |n| data.len() < n)
+    {
         return Err("The data buffer is too small!");
     }
-    if image.len() < width * height {
+    if width.checked_mul(height).map_or(true, |n| image.len() < n) {
         return Err("The image buffer is too small!");
     }
-    if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
+    if !num_blocks_x.is_power_of_two() || !num_blocks_y.is_power_of_two() {
         return Err("The number of blocks of each side must be a power of 2!");
     }
+    let num_blocks: usize = num_blocks_x * num_blocks_y;
 
     let mut texel_info: Vec<PVRTCTexelInfo> = Vec::with_capacity(num_blocks);
     texel_info.resize(num_blocks, PVRTCTexelInfo::default());
-- 
2.43.0


From db44a2433918f526b26c79777a49c428efef6bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 12/28] fix: the crate builds without the alloc feature

---
 src/lib.rs   |  4 ++++
 src/pvrtc.rs | 30 +++++++++++++++---------------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2b59550..258dbc8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,6 +88,7 @@ mod macros;
 mod astc;
 mod atc;
 mod bcn;
+#[cfg(feature = "alloc")]
 mod crnlib;
 #[cfg(feature = "alloc")]
 mod crunch;
@@ -100,8 +101,11 @@ mod unitycrunch;
 pub use astc::*;
 pub use atc::*;
 pub use bcn::*;
+#[cfg(feature = "alloc")]
 pub use crnlib::CrnTextureInfo;
+#[cfg(feature = "alloc")]
 pub use crunch::decode_crunch;
 pub use etc::*;
 pub use pvrtc::*;
+#[cfg(feature = "alloc")]
 pub use unitycrunch::decode_unity_crunch;
diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index d58ac8b..23fb477 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -457,28 +457,27 @@ pub fn decode_pvrtc(
 #[cfg(not(feature = "alloc"))]
 pub fn decode_pvrtc(
     data: &[u8],
-    w: usize,
-    h: usize,
+    width: usize,
+    height: usize,
     image: &mut [u32],
     is2bpp: bool,
 ) -> Result<(), &'static str> {
-    let bw: usize = if is2bpp { 8 } else { 4 };
-    let num_blocks_x: usize = if is2bpp { (w + 7) / 8 } else { (w + 3) / 4 };
-    let num_blocks_y: usize = (h + 3) / 4;
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
-    let min_num_blocks: usize = if num_blocks_x <= num_blocks_y {
-        num_blocks_x
-    } else {
-        num_blocks_y
-    };
+    let block_width: usize = if is2bpp { 8 } else { 4 };
+    let num_blocks_x: usize = width.div_ceil(block_width);
+    let num_blocks_y: usize = height.div_ceil(4);
+    let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * 8 {
+    if num_blocks_x
+        .checked_mul(num_blocks_y)
+        .and_then(|n| n.checked_mul(8))
+        .map_or(true, |n| data.len() < n)
+    {
         return Err("The data buffer is too small!");
     }
-    if image.len() < width * height {
+    if width.checked_mul(height).map_or(true, |n| image.len() < n) {
         return Err("The image buffer is too small!");
     }
-    if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
+    if !num_blocks_x.is_power_of_two() || !num_blocks_y.is_power_of_two() {
         return Err("The number of blocks of each side must be a power of 2!");
     }
 
@@ -524,9 +523,10 @@ pub fn decode_pvrtc(
                 &mut local_info,
                 &mut buffer,
             );
-            copy_block_buffer(bx, by, w, h, bw, 4, &buffer, image);
+            copy_block_buffer(bx, by, width, height, block_width, 4, &buffer, image);
         }
     }
+    Ok(())
 }
 
 pub fn decode_pvrtc_2bpp(
-- 
2.43.0


From 1aaf9308bfcbc5bf8b1b8df9768762ae298d21ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:56 +0000
Subject: [PATCH 13/28] fix: illegal ASTC encodings decode to the error color
 instead of panicking

---
 src/astc.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 8aac487..36b6f1f 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -35,8 +35,8 @@ static BIT_REVERSE_TABLE: [u8; 256] = [
 static WEIGHT_PREC_TABLE_A: [i32; 16] = [0, 0, 0, 3, 0, 5, 3, 0, 0, 0, 5, 3, 0, 5, 3, 0];
 static WEIGHT_PREC_TABLE_B: [i32; 16] = [0, 0, 1, 0, 2, 0, 1, 3, 0, 0, 1, 2, 4, 2, 3, 5];
 
-static CEM_TABLE_A: [usize; 19] = [0, 3, 5, 0, 3, 5, 0, 3, 5, 0, 3, 5, 0, 3, 5, 0, 3, 0, 0];
-static CEM_TABLE_B: [usize; 19] = [8, 6, 5, 7, 5, 4, 6, 4, 3, 5, 3, 2, 4, 2, 1, 3, 1, 2, 1];
+static CEM_TABLE_A: [usize; 17] = [0, 3, 5, 0, 3, 5, 0, 3, 5, 0, 3, 5, 0, 3, 5, 0, 3];
+static CEM_TABLE_B: [usize; 17] = [8, 6, 5, 7, 5, 4, 6, 4, 3, 5, 3, 2, 4, 2, 1, 3, 1];
 
 #[inline]
 fn bit_reverse_u8(c: u8, bits: u8) -> u8 {
@@ -533,7 +533,8 @@ fn decode_intseq(
     }
 }
 
-fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
+/// returns false if the block is an illegal encoding
+fn decode_block_params(buf: &[u8], block_data: &mut BlockData) -> bool {
     block_data.dual_plane = (buf[1] & 4) != 0;
     block_data.weight_range = ((buf[0] >> 4 & 1) | (buf[1] << 2 & 8)) as usize;
 
@@ -610,6 +611,15 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         _ => block_data.weight_num as i32 * WEIGHT_PREC_TABLE_B[block_data.weight_range],
     };
 
+    if block_data.width > block_data.bw
+        || block_data.height > block_data.bh
+        || block_data.weight_num > 64
+        || !(24..=96).contains(&weight_bits)
+        || (block_data.dual_plane && block_data.part_num == 4)
+    {
+        return false;
+    }
+
     if block_data.part_num == 1 {
         block_data.cem[0] = (u8ptr_to_u16(&buf[1..]) >> 5 & 0xf) as usize;
         config_bits = 17;
@@ -659,12 +669,15 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         ) as usize;
     }
 
-    let remain_bits = 128 - config_bits - weight_bits as usize;
+    let remain_bits = 128usize.saturating_sub(config_bits + weight_bits as usize);
 
     block_data.endpoint_value_num = 0;
 
     (0..block_data.part_num)
         .for_each(|i| block_data.endpoint_value_num += (block_data.cem[i] >> 1 & 6) + 2);
+    if block_data.endpoint_value_num > 18 {
+        return false;
+    }
 
     let mut endpoint_bits: usize;
     for i in 0..CEM_TABLE_A.len() {
@@ -683,9 +696,10 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         }
         if endpoint_bits <= remain_bits {
             block_data.cem_range = i;
-            break;
+            return true;
         }
     }
+    false
 }
 
 fn decode_endpoints_hdr7(endpoints: &mut [i32], v: &[i32]) {
@@ -1761,7 +1775,11 @@ pub fn decode_astc_block(buf: &[u8], block_width: usize, block_height: usize, ou
         let mut block_data = BlockData::default();
         block_data.bw = block_width;
         block_data.bh = block_height;
-        decode_block_params(buf, &mut block_data);
+        if !decode_block_params(buf, &mut block_data) {
+            let c: u32 = color(255, 0, 255, 255);
+            outbuf[0..(block_width * block_height)].fill(c);
+            return;
+        }
         decode_endpoints(buf, &mut block_data);
         decode_weights(buf, &mut block_data);
         if block_data.part_num > 1 {
-- 
2.43.0


From 22c76ae2008ca8a7a5e6b5d82c2b625e7a8f5ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:12 +0000
Subject: [PATCH 14/28] fix: ASTC HDR endpoint offsets are sign extended to the
 full integer

---
 src/astc.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 36b6f1f..1a8a8df 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -858,31 +858,31 @@ fn decode_endpoints_hdr11(endpoints: &mut [i32], v: &[i32], alpha1: i32, alpha2:
         0 | 2 => {
             vd0 = v[4] & 0x7f;
             if vd0 & 0x40 != 0 {
-                vd0 |= 0xff80;
+                vd0 |= !0x7f;
             }
             vd1 = v[5] & 0x7f;
             if vd1 & 0x40 != 0 {
-                vd1 |= 0xff80;
+                vd1 |= !0x7f;
             }
         }
         1 | 3 | 5 | 7 => {
             vd0 = v[4] & 0x3f;
             if vd0 & 0x20 != 0 {
-                vd0 |= 0xffc0;
+                vd0 |= !0x3f;
             }
             vd1 = v[5] & 0x3f;
             if vd1 & 0x20 != 0 {
-                vd1 |= 0xffc0;
+                vd1 |= !0x3f;
             }
         }
         _ => {
             vd0 = v[4] & 0x1f;
             if vd0 & 0x10 != 0 {
-                vd0 |= 0xffe0;
+                vd0 |= !0x1f;
             }
             vd1 = v[5] & 0x1f;
             if vd1 & 0x10 != 0 {
-                vd1 |= 0xffe0;
+                vd1 |= !0x1f;
             }
         }
     }
-- 
2.43.0


From ce6e8a61346251c5ba4ce4c389cb794f9c07b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 15/28] fix: a void extent of minus infinity is black, not an
 overflow

---
 src/astc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astc.rs b/src/astc.rs
index 1a8a8df..20db817 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -8,7 +8,7 @@ use core::result::Result;
 fn floor(x: f32) -> f32 {
     let mut i = x as i32;
     if x < 0.0 && x != i as f32 {
-        i -= 1;
+        i = i.saturating_sub(1);
     }
     i as f32
 }
-- 
2.43.0


From d7cd0356369e26f9c9a57cd2dca5d71cbf3dc3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:31 +0000
Subject: [PATCH 16/28] fix: crunch bit reader stops at the end of its segment
 and pads with zeros

---
 src/crunch/crn_symbol_codec.rs | 57 ++++++++++++----------------------
 1 file changed, 19 insertions(+), 38 deletions(-)

diff --git a/src/crunch/crn_symbol_codec.rs b/src/crunch/crn_symbol_codec.rs
index 66edf4d..7ef4b3c 100644
--- a/src/crunch/crn_symbol_codec.rs
+++ b/src/crunch/crn_symbol_codec.rs
@@ -6,7 +6,6 @@ use super::crn_utils::*;
 pub struct symbol_codec<'slice> {
     pub p_decode_buf: &'slice [u8],
     pub p_decode_buf_next: &'slice [u8],
-    pub p_decode_buf_end: *const u8,
     pub decode_buf_size: u32,
     pub bit_buf: u32,
     pub bit_count: i32,
@@ -17,7 +16,6 @@ impl Default for symbol_codec<'_> {
         symbol_codec {
             p_decode_buf: &[0; 0],
             p_decode_buf_next: &[0; 0],
-            p_decode_buf_end: core::ptr::null(),
             decode_buf_size: 0,
             bit_buf: 0,
             bit_count: 0,
@@ -27,13 +25,12 @@ impl Default for symbol_codec<'_> {
 
 impl<'slice> symbol_codec<'slice> {
     pub fn start_decoding(&mut self, p_buf: &'slice [u8], buf_size: u32) -> bool {
-        if buf_size == 0 {
+        if buf_size == 0 || p_buf.len() < buf_size as usize {
             return false;
         }
-        self.p_decode_buf = p_buf;
-        self.p_decode_buf_next = p_buf;
+        self.p_decode_buf = &p_buf[..buf_size as usize];
+        self.p_decode_buf_next = self.p_decode_buf;
         self.decode_buf_size = buf_size;
-        self.p_decode_buf_end = (&p_buf[(buf_size - 1) as usize]) as *const u8;
         self.get_bits_init();
         true
     }
@@ -175,35 +172,13 @@ impl<'slice> symbol_codec<'slice> {
         let p_tables = &model.p_decode_tables;
         if self.bit_count < 24 {
             if self.bit_count < 16 {
-                let mut c0: u32 = 0;
-                let mut c1: u32 = 0;
-                let mut p = self.p_decode_buf_next;
-                if (&(p[0]) as *const u8) <= self.p_decode_buf_end {
-                    c0 = p[0] as u32;
-                    if (&(p[0]) as *const u8) < self.p_decode_buf_end {
-                        p = &p[1..]
-                    }
-                };
-                if (&(p[0]) as *const u8) <= self.p_decode_buf_end {
-                    c1 = p[0] as u32;
-                    if (&(p[0]) as *const u8) < self.p_decode_buf_end {
-                        p = &p[1..]
-                    }
-                };
-                self.p_decode_buf_next = p;
+                let c0 = self.next_byte();
+                let c1 = self.next_byte();
                 self.bit_count += 16;
                 let c: u32 = (c0 << 8) | c1;
                 self.bit_buf |= c << (32 - self.bit_count);
             } else {
-                let c: u32;
-                if (&(self.p_decode_buf_next[0]) as *const u8) <= self.p_decode_buf_end {
-                    c = self.p_decode_buf_next[0] as u32;
-                    if (&(self.p_decode_buf_next[0]) as *const u8) < self.p_decode_buf_end {
-                        self.p_decode_buf_next = &self.p_decode_buf_next[1..];
-                    }
-                } else {
-                    c = 0
-                };
+                let c = self.next_byte();
                 self.bit_count += 8;
                 self.bit_buf |= c << (32 - self.bit_count);
             }
@@ -243,6 +218,18 @@ impl<'slice> symbol_codec<'slice> {
 
     pub fn stop_decoding(&mut self) {}
 
+    /// The next byte of the buffer, or 0 past its end.
+    #[inline]
+    fn next_byte(&mut self) -> u32 {
+        match self.p_decode_buf_next.split_first() {
+            Some((&c, rest)) => {
+                self.p_decode_buf_next = rest;
+                c as u32
+            }
+            None => 0,
+        }
+    }
+
     fn get_bits_init(&mut self) {
         self.bit_buf = 0;
         self.bit_count = 0;
@@ -253,13 +240,7 @@ impl<'slice> symbol_codec<'slice> {
             return Err(false);
         }
         while self.bit_count < num_bits as i32 {
-            let mut c: u32 = 0;
-            if self.p_decode_buf_next[0] as *const u8 <= self.p_decode_buf_end {
-                c = self.p_decode_buf_next[0] as u32;
-                if (self.p_decode_buf_next[0] as *const u8) < self.p_decode_buf_end {
-                    self.p_decode_buf_next = &self.p_decode_buf_next[1..];
-                }
-            }
+            let c = self.next_byte();
             self.bit_count += 8;
             if self.bit_count > BIT_BUF_SIZE as i32 {
                 return Err(false);
-- 
2.43.0


From 25f47ea034d6dec7871661c2c78f766b8880eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:35 +0000
Subject: [PATCH 17/28] fix: unusable crunch Huffman models are an error, not a
 panic

---
 src/crunch/crn_static_huffman_data_model.rs | 9 +++++++++
 src/crunch/crn_symbol_codec.rs              | 9 ++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/crunch/crn_static_huffman_data_model.rs b/src/crunch/crn_static_huffman_data_model.rs
index eb7f05d..2850725 100644
--- a/src/crunch/crn_static_huffman_data_model.rs
+++ b/src/crunch/crn_static_huffman_data_model.rs
@@ -66,10 +66,19 @@ impl DecoderTables {
 
                 cur_code += n;
                 total_used_syms += n;
+
+                if cur_code > 1 << i {
+                    // more codes of this size than there are bit patterns
+                    return false;
+                }
             }
             cur_code <<= 1;
         }
 
+        if total_used_syms == 0 {
+            return false;
+        }
+
         self.total_used_syms = total_used_syms;
         if total_used_syms > self.cur_sorted_symbol_order_size {
             self.cur_sorted_symbol_order_size = total_used_syms;
diff --git a/src/crunch/crn_symbol_codec.rs b/src/crunch/crn_symbol_codec.rs
index 7ef4b3c..01945ec 100644
--- a/src/crunch/crn_symbol_codec.rs
+++ b/src/crunch/crn_symbol_codec.rs
@@ -170,6 +170,10 @@ impl<'slice> symbol_codec<'slice> {
 
     pub fn decode(&mut self, model: &StaticHuffmanDataModel) -> Result<u32, bool> {
         let p_tables = &model.p_decode_tables;
+        if p_tables.total_used_syms == 0 {
+            // the file has no such model
+            return Err(false);
+        }
         if self.bit_count < 24 {
             if self.bit_count < 16 {
                 let c0 = self.next_byte();
@@ -209,7 +213,10 @@ impl<'slice> symbol_codec<'slice> {
             if (val_ptr as u32) >= model.total_syms {
                 return Err(false);
             }
-            sym = p_tables.sorted_symbol_order[val_ptr as usize] as u32;
+            sym = match p_tables.sorted_symbol_order.get(val_ptr as usize) {
+                Some(&s) => s as u32,
+                None => return Err(false),
+            };
         }
         self.bit_buf <<= len;
         self.bit_count -= len as i32;
-- 
2.43.0


From 5e609702c409d8edc916d9ed4c7318650f8b50be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:41 +0000
Subject: [PATCH 18/28] fix: crunch segments outside the file are an error, not
 a panic

---
 src/crunch/crn_decomp.rs        |  5 ++++-
 src/crunch/crn_unpacker.rs      | 29 +++++++++++++++++++-------
 src/unitycrunch/crn_unpacker.rs | 37 +++++++++++++++++++++++++--------
 3 files changed, 54 insertions(+), 17 deletions(-)

diff --git a/src/crunch/crn_decomp.rs b/src/crunch/crn_decomp.rs
index ed5649a..9cf5cf3 100644
--- a/src/crunch/crn_decomp.rs
+++ b/src/crunch/crn_decomp.rs
@@ -120,7 +120,7 @@ impl CrnHeader {
     pub const MIN_SIZE: u32 = 74;
 
     pub fn crnd_get_header(&mut self, p_data: &[u8], data_size: u32) -> bool {
-        if data_size < CrnHeader::MIN_SIZE {
+        if data_size < CrnHeader::MIN_SIZE || p_data.len() < data_size as usize {
             return false;
         }
         *self = CrnHeader::default();
@@ -145,6 +145,9 @@ impl CrnHeader {
         self.tables_size.assign_from_buffer(&p_data[65..]);
         self.tables_ofs.assign_from_buffer(&p_data[67..]);
         self.level_ofs = alloc::vec![];
+        if p_data.len() < 70 + self.levels.cast_to_uint() as usize * 4 {
+            return false;
+        }
         for i in 0..self.levels.cast_to_uint() as usize {
             self.level_ofs.push(CrnPackedUint { buf: [0, 0, 0, 0] });
             self.level_ofs[i].assign_from_buffer(&p_data[70 + (i * 4)..]);
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 3a2124a..3152713 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -64,7 +64,9 @@ impl<'slice> CrnUnpacker<'slice> {
     pub fn init_tables(&mut self) -> bool {
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.tables_ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.tables_ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.tables_size.cast_to_uint(),
         );
         if !res {
@@ -139,7 +141,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut res: bool;
 
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.color_endpoints.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.color_endpoints.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.color_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -191,7 +195,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_selectors = self.p_header.color_selectors.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[(self.p_header.color_selectors.ofs.cast_to_uint() as usize)..],
+            self.p_data
+                .get(self.p_header.color_selectors.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.color_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -273,7 +279,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints = self.p_header.alpha_endpoints.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.alpha_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -310,7 +318,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_selectors = self.p_header.alpha_selectors.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -390,7 +400,10 @@ impl<'slice> CrnUnpacker<'slice> {
         row_pitch_in_bytes: u32,
         level_index: u32,
     ) -> Result<alloc::vec::Vec<u8>, &'static str> {
-        let cur_level_ofs = self.p_header.level_ofs[level_index as usize].cast_to_uint();
+        let cur_level_ofs = match self.p_header.level_ofs.get_mut(level_index as usize) {
+            Some(ofs) => ofs.cast_to_uint(),
+            None => return Err("Texture has no such level."),
+        };
         let mut next_level_ofs = self.data_size;
         if (level_index + 1) < (self.p_header.levels.cast_to_uint()) {
             next_level_ofs = self.p_header.level_ofs[(level_index + 1) as usize].cast_to_uint();
@@ -399,7 +412,9 @@ impl<'slice> CrnUnpacker<'slice> {
             return Err("Level offset mismatch.");
         }
         self.unpack_level_2(
-            &self.p_data[cur_level_ofs as usize..],
+            self.p_data
+                .get(cur_level_ofs as usize..)
+                .unwrap_or_default(),
             next_level_ofs - cur_level_ofs,
             dst_size_in_bytes,
             row_pitch_in_bytes,
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 8df792b..258e3ff 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -71,7 +71,9 @@ impl<'slice> CrnUnpacker<'slice> {
     pub fn init_tables(&mut self) -> bool {
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.tables_ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.tables_ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.tables_size.cast_to_uint(),
         );
         if !res {
@@ -164,7 +166,9 @@ impl<'slice> CrnUnpacker<'slice> {
         self.color_endpoints.resize(num_color_endpoints as usize, 0);
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.color_endpoints.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.color_endpoints.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.color_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -239,7 +243,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut res: bool;
         // Return value here is ignored in the original code.
         res = self.codec.start_decoding(
-            &self.p_data[(self.p_header.color_selectors.ofs.cast_to_uint() as usize)..],
+            self.p_data
+                .get(self.p_header.color_selectors.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.color_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -299,7 +305,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints = self.p_header.alpha_endpoints.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.alpha_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -332,7 +340,9 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -383,7 +393,9 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors_etc(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -457,7 +469,9 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors_etcs(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            self.p_data
+                .get(self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..)
+                .unwrap_or_default(),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -527,7 +541,10 @@ impl<'slice> CrnUnpacker<'slice> {
         row_pitch_in_bytes: u32,
         level_index: u32,
     ) -> Result<alloc::vec::Vec<u8>, &'static str> {
-        let cur_level_ofs = self.p_header.level_ofs[level_index as usize].cast_to_uint();
+        let cur_level_ofs = match self.p_header.level_ofs.get_mut(level_index as usize) {
+            Some(ofs) => ofs.cast_to_uint(),
+            None => return Err("Texture has no such level."),
+        };
         let mut next_level_ofs = self.data_size;
         if (level_index + 1) < (self.p_header.levels.cast_to_uint()) {
             next_level_ofs = self.p_header.level_ofs[(level_index + 1) as usize].cast_to_uint();
@@ -536,7 +553,9 @@ impl<'slice> CrnUnpacker<'slice> {
             return Err("Level offset mismatch.");
         }
         self.unpack_level_2(
-            &self.p_data[cur_level_ofs as usize..],
+            self.p_data
+                .get(cur_level_ofs as usize..)
+                .unwrap_or_default(),
             next_level_ofs - cur_level_ofs,
             dst_size_in_bytes,
             row_pitch_in_bytes,
-- 
2.43.0


From 258a555dfa71bec71873fe5299edc03bfbbf7eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:32 +0000
Subject: [PATCH 19/28] fix: crunch palette indices and selector deltas out of
 range are an error, not a panic

---
 src/crunch/crn_unpacker.rs      | 95 ++++++++++++++++++++++++---------
 src/macros.rs                   | 23 +++++++-
 src/unitycrunch/crn_unpacker.rs | 92 +++++++++++++++++++++++--------
 3 files changed, 163 insertions(+), 47 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 3152713..82f9de1 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -231,6 +231,9 @@ impl<'slice> CrnUnpacker<'slice> {
                     Ok(s) => s,
                     Err(_) => return false,
                 };
+                if sym as usize >= delta0.len() {
+                    return false;
+                }
                 cur[j * 2] = ((delta0[sym as usize] + cur[j * 2] as i32) & 3) as u32;
                 cur[j * 2 + 1] = ((delta1[sym as usize] + cur[j * 2 + 1] as i32) & 3) as u32;
             }
@@ -355,6 +358,9 @@ impl<'slice> CrnUnpacker<'slice> {
                     Ok(s) => s,
                     Err(_) => return false,
                 } as i32;
+                if sym as usize >= delta0.len() {
+                    return false;
+                }
                 cur[j * 2] = ((delta0[sym as usize] + cur[j * 2] as i32) & 7) as u32;
                 cur[j * 2 + 1] = ((delta1[sym as usize] + cur[j * 2 + 1] as i32) & 7) as u32;
             }
@@ -569,7 +575,10 @@ impl<'slice> CrnUnpacker<'slice> {
                         };
                         prev_color_endpoint_index += delta;
                         limit(&mut prev_color_endpoint_index, num_color_endpoints);
-                        *color_endpoint = self.color_endpoints[prev_color_endpoint_index as usize];
+                        *color_endpoint = CRND_PALETTE_ENTRY!(
+                            self.color_endpoints,
+                            prev_color_endpoint_index as usize
+                        );
                     }
 
                     let p_tile_indices =
@@ -592,7 +601,10 @@ impl<'slice> CrnUnpacker<'slice> {
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             pd_dst + 1,
-                            self.color_selectors[prev_color_selector_index as usize]
+                            CRND_PALETTE_ENTRY!(
+                                self.color_selectors,
+                                prev_color_selector_index as usize
+                            )
                         );
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
@@ -609,7 +621,10 @@ impl<'slice> CrnUnpacker<'slice> {
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             pd_dst + 3,
-                            self.color_selectors[prev_color_selector_index as usize]
+                            CRND_PALETTE_ENTRY!(
+                                self.color_selectors,
+                                prev_color_selector_index as usize
+                            )
                         );
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
@@ -626,7 +641,10 @@ impl<'slice> CrnUnpacker<'slice> {
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             pd_dst + 1 + row_pitch_in_dwords as usize,
-                            self.color_selectors[prev_color_selector_index as usize]
+                            CRND_PALETTE_ENTRY!(
+                                self.color_selectors,
+                                prev_color_selector_index as usize
+                            )
                         );
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
@@ -643,7 +661,10 @@ impl<'slice> CrnUnpacker<'slice> {
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             pd_dst + 3 + row_pitch_in_dwords as usize,
-                            self.color_selectors[prev_color_selector_index as usize]
+                            CRND_PALETTE_ENTRY!(
+                                self.color_selectors,
+                                prev_color_selector_index as usize
+                            )
                         );
                     } else {
                         for by in 0..2 {
@@ -669,7 +690,10 @@ impl<'slice> CrnUnpacker<'slice> {
                                     WRITE_TO_INT_BUFFER!(
                                         p_dst,
                                         pd_dst + 1,
-                                        self.color_selectors[prev_color_selector_index as usize]
+                                        CRND_PALETTE_ENTRY!(
+                                            self.color_selectors,
+                                            prev_color_selector_index as usize
+                                        )
                                     );
                                 }
                                 pd_dst += 2;
@@ -742,8 +766,10 @@ impl<'slice> CrnUnpacker<'slice> {
                         };
                         prev_alpha_endpoint_index += delta;
                         limit(&mut prev_alpha_endpoint_index, num_alpha_endpoints);
-                        alpha_endpoints[i as usize] =
-                            self.alpha_endpoints[prev_alpha_endpoint_index as usize] as u32;
+                        alpha_endpoints[i as usize] = CRND_PALETTE_ENTRY!(
+                            self.alpha_endpoints,
+                            prev_alpha_endpoint_index as usize
+                        ) as u32;
                     }
 
                     for i in 0..num_tiles {
@@ -753,8 +779,10 @@ impl<'slice> CrnUnpacker<'slice> {
                         };
                         prev_color_endpoint_index += delta;
                         limit(&mut prev_color_endpoint_index, num_color_endpoints);
-                        color_endpoints[i as usize] =
-                            self.color_endpoints[prev_color_endpoint_index as usize];
+                        color_endpoints[i as usize] = CRND_PALETTE_ENTRY!(
+                            self.color_endpoints,
+                            prev_color_endpoint_index as usize
+                        );
                     }
 
                     let mut pd_dst = block_dst;
@@ -775,8 +803,10 @@ impl<'slice> CrnUnpacker<'slice> {
                             limit(&mut prev_color_selector_index, num_color_selectors);
                             if !(((bx != 0) && skip_right_col) || ((by != 0) && skip_bottom_row)) {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
-                                let p_alpha_selectors = &self.alpha_selectors
-                                    [(prev_alpha_selector_index * 3) as usize..];
+                                let p_alpha_selectors = CRND_ALPHA_SELECTOR!(
+                                    self.alpha_selectors,
+                                    prev_alpha_selector_index * 3
+                                );
                                 #[cfg(target_endian = "big")]
                                 {
                                     WRITE_TO_INT_BUFFER!(
@@ -826,7 +856,10 @@ impl<'slice> CrnUnpacker<'slice> {
                                     WRITE_TO_INT_BUFFER!(
                                         p_dst,
                                         pd_dst + 3,
-                                        (self.color_selectors[prev_color_selector_index as usize])
+                                        (CRND_PALETTE_ENTRY!(
+                                            self.color_selectors,
+                                            prev_color_selector_index as usize
+                                        ))
                                     );
                                 }
                             }
@@ -899,8 +932,10 @@ impl<'slice> CrnUnpacker<'slice> {
                         };
                         prev_alpha0_endpoint_index += delta;
                         limit(&mut prev_alpha0_endpoint_index, num_alpha_endpoints);
-                        alpha0_endpoints[i as usize] =
-                            self.alpha_endpoints[prev_alpha0_endpoint_index as usize] as u32;
+                        alpha0_endpoints[i as usize] = CRND_PALETTE_ENTRY!(
+                            self.alpha_endpoints,
+                            prev_alpha0_endpoint_index as usize
+                        ) as u32;
                     }
                     let mut pd_dst = block_dst;
                     pd_dst >>= 2;
@@ -914,8 +949,10 @@ impl<'slice> CrnUnpacker<'slice> {
                             limit(&mut prev_alpha0_selector_index, num_alpha_selectors);
                             if !(((bx != 0) && skip_right_col) || ((by != 0) && skip_bottom_row)) {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
-                                let p_alpha0_selectors = &self.alpha_selectors
-                                    [(prev_alpha0_selector_index * 3) as usize..];
+                                let p_alpha0_selectors = CRND_ALPHA_SELECTOR!(
+                                    self.alpha_selectors,
+                                    prev_alpha0_selector_index * 3
+                                );
                                 #[cfg(target_endian = "big")]
                                 {
                                     WRITE_TO_INT_BUFFER!(
@@ -1020,8 +1057,10 @@ impl<'slice> CrnUnpacker<'slice> {
                         };
                         prev_alpha0_endpoint_index += delta;
                         limit(&mut prev_alpha0_endpoint_index, num_alpha_endpoints);
-                        alpha0_endpoints[i as usize] =
-                            self.alpha_endpoints[prev_alpha0_endpoint_index as usize] as u32;
+                        alpha0_endpoints[i as usize] = CRND_PALETTE_ENTRY!(
+                            self.alpha_endpoints,
+                            prev_alpha0_endpoint_index as usize
+                        ) as u32;
                     }
                     for i in 0..num_tiles {
                         let delta: u32 = match self.codec.decode(&self.endpoint_delta_dm[1]) {
@@ -1030,8 +1069,10 @@ impl<'slice> CrnUnpacker<'slice> {
                         };
                         prev_alpha1_endpoint_index += delta;
                         limit(&mut prev_alpha1_endpoint_index, num_alpha_endpoints);
-                        alpha1_endpoints[i as usize] =
-                            self.alpha_endpoints[prev_alpha1_endpoint_index as usize] as u32;
+                        alpha1_endpoints[i as usize] = CRND_PALETTE_ENTRY!(
+                            self.alpha_endpoints,
+                            prev_alpha1_endpoint_index as usize
+                        ) as u32;
                     }
                     let mut pd_dst = block_dst;
                     pd_dst >>= 2;
@@ -1052,10 +1093,14 @@ impl<'slice> CrnUnpacker<'slice> {
                             limit(&mut prev_alpha1_selector_index, num_alpha_selectors);
                             if !(((bx != 0) && skip_right_col) || ((by != 0) && skip_bottom_row)) {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
-                                let p_alpha0_selectors = &self.alpha_selectors
-                                    [(prev_alpha0_selector_index * 3) as usize..];
-                                let p_alpha1_selectors = &self.alpha_selectors
-                                    [(prev_alpha1_selector_index * 3) as usize..];
+                                let p_alpha0_selectors = CRND_ALPHA_SELECTOR!(
+                                    self.alpha_selectors,
+                                    prev_alpha0_selector_index * 3
+                                );
+                                let p_alpha1_selectors = CRND_ALPHA_SELECTOR!(
+                                    self.alpha_selectors,
+                                    prev_alpha1_selector_index * 3
+                                );
                                 #[cfg(target_endian = "big")]
                                 {
                                     WRITE_TO_INT_BUFFER!(
diff --git a/src/macros.rs b/src/macros.rs
index 521d6d6..48d46dc 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -56,6 +56,26 @@ macro_rules! CRND_HUFF_DECODE {
     };
 }
 
+// entry of a crunch palette, the indices come from the file
+macro_rules! CRND_PALETTE_ENTRY {
+    ($palette: expr, $index: expr) => {
+        match $palette.get($index as usize) {
+            Some(&entry) => entry,
+            None => return Err("Crunch palette index is out of range."),
+        }
+    };
+}
+
+// the three u16 of a crunch alpha selector that start at $start
+macro_rules! CRND_ALPHA_SELECTOR {
+    ($selectors: expr, $start: expr) => {
+        match $selectors.get($start as usize..$start as usize + 3) {
+            Some(selector) => selector,
+            None => return Err("Crunch palette index is out of range."),
+        }
+    };
+}
+
 macro_rules! WRITE_TO_INT_BUFFER {
     ($buf: expr, $index: expr, $val: expr) => {
         let t_index = ($index * 4) as usize;
@@ -83,5 +103,6 @@ macro_rules! WRITE_OR_U8_INTO_U16_BUFFER {
 }
 
 pub(crate) use {
-    block_decoder, CRND_HUFF_DECODE, WRITE_OR_U8_INTO_U16_BUFFER, WRITE_TO_INT_BUFFER,
+    block_decoder, CRND_ALPHA_SELECTOR, CRND_HUFF_DECODE, CRND_PALETTE_ENTRY,
+    WRITE_OR_U8_INTO_U16_BUFFER, WRITE_TO_INT_BUFFER,
 };
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 258e3ff..d355148 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -696,6 +696,9 @@ impl<'slice> CrnUnpacker<'slice> {
                         if color_endpoint_index >= num_color_endpoints as usize {
                             color_endpoint_index -= num_color_endpoints as usize;
                         }
+                        if color_endpoint_index >= num_color_endpoints as usize {
+                            return Err("Crunch palette index is out of range.");
+                        }
                         buffer.color_endpoint_index = color_endpoint_index as u16;
                     } else if endpoint_reference == 1 {
                         buffer.color_endpoint_index = color_endpoint_index as u16;
@@ -710,12 +713,12 @@ impl<'slice> CrnUnpacker<'slice> {
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos,
-                            self.color_endpoints[color_endpoint_index]
+                            CRND_PALETTE_ENTRY!(self.color_endpoints, color_endpoint_index)
                         );
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos + 1,
-                            self.color_selectors[color_selector_index]
+                            CRND_PALETTE_ENTRY!(self.color_selectors, color_selector_index)
                         );
                     }
                     data_pos += 2;
@@ -775,6 +778,9 @@ impl<'slice> CrnUnpacker<'slice> {
                         if color_endpoint_index >= num_color_endpoints as usize {
                             color_endpoint_index -= num_color_endpoints as usize;
                         }
+                        if color_endpoint_index >= num_color_endpoints as usize {
+                            return Err("Crunch palette index is out of range.");
+                        }
                         buffer.color_endpoint_index = color_endpoint_index as u16;
 
                         alpha0_endpoint_index += match self.codec.decode(&self.endpoint_delta_dm[1])
@@ -785,6 +791,9 @@ impl<'slice> CrnUnpacker<'slice> {
                         if alpha0_endpoint_index >= num_alpha_endpoints as usize {
                             alpha0_endpoint_index -= num_alpha_endpoints as usize;
                         }
+                        if alpha0_endpoint_index >= num_alpha_endpoints as usize {
+                            return Err("Crunch palette index is out of range.");
+                        }
                         buffer.alpha0_endpoint_index = alpha0_endpoint_index as u16;
                     } else if endpoint_reference == 1 {
                         buffer.color_endpoint_index = color_endpoint_index as u16;
@@ -803,11 +812,12 @@ impl<'slice> CrnUnpacker<'slice> {
                         Err(_) => return Err("Failed to decode DXT5 Texture."),
                     } as usize;
                     if visible {
-                        let p_alpha0_selectors = &self.alpha_selectors[alpha0_selector_index * 3..];
+                        let p_alpha0_selectors =
+                            CRND_ALPHA_SELECTOR!(self.alpha_selectors, alpha0_selector_index * 3);
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos,
-                            self.alpha_endpoints[alpha0_endpoint_index] as u32
+                            CRND_PALETTE_ENTRY!(self.alpha_endpoints, alpha0_endpoint_index) as u32
                                 | ((p_alpha0_selectors[0] as u32) << 16)
                         );
                         WRITE_TO_INT_BUFFER!(
@@ -818,12 +828,12 @@ impl<'slice> CrnUnpacker<'slice> {
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos + 2,
-                            self.color_endpoints[color_endpoint_index]
+                            CRND_PALETTE_ENTRY!(self.color_endpoints, color_endpoint_index)
                         );
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos + 3,
-                            self.color_selectors[color_selector_index]
+                            CRND_PALETTE_ENTRY!(self.color_selectors, color_selector_index)
                         );
                     }
                     data_pos += 4;
@@ -881,6 +891,9 @@ impl<'slice> CrnUnpacker<'slice> {
                         if alpha0_endpoint_index >= num_alpha_endpoints as usize {
                             alpha0_endpoint_index -= num_alpha_endpoints as usize;
                         }
+                        if alpha0_endpoint_index >= num_alpha_endpoints as usize {
+                            return Err("Crunch palette index is out of range.");
+                        }
                         buffer.alpha0_endpoint_index = alpha0_endpoint_index as u16;
                     } else if endpoint_reference == 1 {
                         buffer.alpha0_endpoint_index = alpha0_endpoint_index as u16;
@@ -893,11 +906,12 @@ impl<'slice> CrnUnpacker<'slice> {
                         Err(_) => return Err("Failed to decode DXT5A Texture."),
                     } as usize;
                     if visible {
-                        let p_alpha0_selectors = &self.alpha_selectors[alpha0_selector_index * 3..];
+                        let p_alpha0_selectors =
+                            CRND_ALPHA_SELECTOR!(self.alpha_selectors, alpha0_selector_index * 3);
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos,
-                            self.alpha_endpoints[alpha0_endpoint_index] as u32
+                            CRND_PALETTE_ENTRY!(self.alpha_endpoints, alpha0_endpoint_index) as u32
                                 | ((p_alpha0_selectors[0] as u32) << 16)
                         );
                         WRITE_TO_INT_BUFFER!(
@@ -962,6 +976,9 @@ impl<'slice> CrnUnpacker<'slice> {
                         if alpha0_endpoint_index >= num_alpha_endpoints as usize {
                             alpha0_endpoint_index -= num_alpha_endpoints as usize;
                         }
+                        if alpha0_endpoint_index >= num_alpha_endpoints as usize {
+                            return Err("Crunch palette index is out of range.");
+                        }
                         buffer.alpha0_endpoint_index = alpha0_endpoint_index as u16;
 
                         alpha1_endpoint_index += match self.codec.decode(&self.endpoint_delta_dm[1])
@@ -972,6 +989,9 @@ impl<'slice> CrnUnpacker<'slice> {
                         if alpha1_endpoint_index >= num_alpha_endpoints as usize {
                             alpha1_endpoint_index -= num_alpha_endpoints as usize;
                         }
+                        if alpha1_endpoint_index >= num_alpha_endpoints as usize {
+                            return Err("Crunch palette index is out of range.");
+                        }
                         buffer.alpha1_endpoint_index = alpha1_endpoint_index as u16;
                     } else if endpoint_reference == 1 {
                         buffer.alpha0_endpoint_index = alpha0_endpoint_index as u16;
@@ -991,12 +1011,14 @@ impl<'slice> CrnUnpacker<'slice> {
                         Err(_) => return Err("Failed to decode DXN Texture."),
                     } as usize;
                     if visible {
-                        let p_alpha0_selectors = &self.alpha_selectors[alpha0_selector_index * 3..];
-                        let p_alpha1_selectors = &self.alpha_selectors[alpha1_selector_index * 3..];
+                        let p_alpha0_selectors =
+                            CRND_ALPHA_SELECTOR!(self.alpha_selectors, alpha0_selector_index * 3);
+                        let p_alpha1_selectors =
+                            CRND_ALPHA_SELECTOR!(self.alpha_selectors, alpha1_selector_index * 3);
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos,
-                            self.alpha_endpoints[alpha0_endpoint_index] as u32
+                            CRND_PALETTE_ENTRY!(self.alpha_endpoints, alpha0_endpoint_index) as u32
                                 | ((p_alpha0_selectors[0] as u32) << 16)
                         );
                         WRITE_TO_INT_BUFFER!(
@@ -1007,7 +1029,7 @@ impl<'slice> CrnUnpacker<'slice> {
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos + 2,
-                            self.alpha_endpoints[alpha1_endpoint_index] as u32
+                            CRND_PALETTE_ENTRY!(self.alpha_endpoints, alpha1_endpoint_index) as u32
                                 | ((p_alpha1_selectors[0] as u32) << 16)
                         );
                         WRITE_TO_INT_BUFFER!(
@@ -1070,6 +1092,9 @@ impl<'slice> CrnUnpacker<'slice> {
                         if color_endpoint_index >= num_color_endpoints as usize {
                             color_endpoint_index -= num_color_endpoints as usize;
                         }
+                        if color_endpoint_index >= num_color_endpoints as usize {
+                            return Err("Crunch palette index is out of range.");
+                        }
                         buffer.color_endpoint_index = color_endpoint_index as u16;
                     } else if (endpoint_reference & 3) == 1 {
                         buffer.color_endpoint_index = color_endpoint_index as u16;
@@ -1080,7 +1105,8 @@ impl<'slice> CrnUnpacker<'slice> {
                         color_endpoint_index = buffer.color_endpoint_index as usize;
                     }
                     endpoint_reference >>= 2;
-                    let e0 = self.color_endpoints[color_endpoint_index].to_le_bytes();
+                    let e0 = CRND_PALETTE_ENTRY!(self.color_endpoints, color_endpoint_index)
+                        .to_le_bytes();
                     let selector_index: usize = match self.codec.decode(&self.selector_delta_dm[0])
                     {
                         Ok(s) => s,
@@ -1095,12 +1121,16 @@ impl<'slice> CrnUnpacker<'slice> {
                         if color_endpoint_index >= num_color_endpoints as usize {
                             color_endpoint_index -= num_color_endpoints as usize;
                         }
+                        if color_endpoint_index >= num_color_endpoints as usize {
+                            return Err("Crunch palette index is out of range.");
+                        }
                     }
                     diagonal_color_endpoint_index =
                         self.block_buffer[x << 1 | 1].color_endpoint_index as usize;
                     self.block_buffer[x << 1 | 1].color_endpoint_index =
                         color_endpoint_index as u16;
-                    let e1 = self.color_endpoints[color_endpoint_index].to_le_bytes();
+                    let e1 = CRND_PALETTE_ENTRY!(self.color_endpoints, color_endpoint_index)
+                        .to_le_bytes();
                     if visible {
                         let flip: u8 = endpoint_reference >> 1 ^ 1;
                         let mut diff: u8 = 1;
@@ -1128,7 +1158,10 @@ impl<'slice> CrnUnpacker<'slice> {
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos + 1,
-                            self.color_selectors[selector_index << 1 | (flip as usize)]
+                            CRND_PALETTE_ENTRY!(
+                                self.color_selectors,
+                                selector_index << 1 | (flip as usize)
+                            )
                         );
                     }
                     data_pos += 2;
@@ -1188,6 +1221,9 @@ impl<'slice> CrnUnpacker<'slice> {
                         if color_endpoint_index >= num_color_endpoints as usize {
                             color_endpoint_index -= num_color_endpoints as usize;
                         }
+                        if color_endpoint_index >= num_color_endpoints as usize {
+                            return Err("Crunch palette index is out of range.");
+                        }
                         alpha0_endpoint_index += match self.codec.decode(&self.endpoint_delta_dm[1])
                         {
                             Ok(s) => s,
@@ -1196,6 +1232,9 @@ impl<'slice> CrnUnpacker<'slice> {
                         if alpha0_endpoint_index >= num_alpha_endpoints as usize {
                             alpha0_endpoint_index -= num_alpha_endpoints as usize;
                         }
+                        if alpha0_endpoint_index >= num_alpha_endpoints as usize {
+                            return Err("Crunch palette index is out of range.");
+                        }
                         buffer.color_endpoint_index = color_endpoint_index as u16;
                         buffer.alpha0_endpoint_index = alpha0_endpoint_index as u16;
                     } else if (endpoint_reference & 3) == 1 {
@@ -1211,7 +1250,8 @@ impl<'slice> CrnUnpacker<'slice> {
                         alpha0_endpoint_index = buffer.alpha0_endpoint_index as usize;
                     }
                     endpoint_reference >>= 2;
-                    let e0 = self.color_endpoints[color_endpoint_index].to_le_bytes();
+                    let e0 = CRND_PALETTE_ENTRY!(self.color_endpoints, color_endpoint_index)
+                        .to_le_bytes();
                     let color_selector_index: usize =
                         match self.codec.decode(&self.selector_delta_dm[0]) {
                             Ok(s) => s,
@@ -1231,8 +1271,12 @@ impl<'slice> CrnUnpacker<'slice> {
                         if color_endpoint_index >= num_color_endpoints as usize {
                             color_endpoint_index -= num_color_endpoints as usize;
                         }
+                        if color_endpoint_index >= num_color_endpoints as usize {
+                            return Err("Crunch palette index is out of range.");
+                        }
                     }
-                    let e1 = self.color_endpoints[color_endpoint_index].to_le_bytes();
+                    let e1 = CRND_PALETTE_ENTRY!(self.color_endpoints, color_endpoint_index)
+                        .to_le_bytes();
                     diagonal_color_endpoint_index =
                         self.block_buffer[x << 1 | 1].color_endpoint_index as usize;
                     diagonal_alpha0_endpoint_index =
@@ -1262,14 +1306,17 @@ impl<'slice> CrnUnpacker<'slice> {
                         }
                         block_endpoint[3] = e0[3] << 5 | e1[3] << 2 | diff << 1 | flip;
                         let p_alpha0_selectors: &[u16] = if flip != 0 {
-                            &self.alpha_selectors[alpha0_selector_index * 6 + 3..]
+                            CRND_ALPHA_SELECTOR!(
+                                self.alpha_selectors,
+                                alpha0_selector_index * 6 + 3
+                            )
                         } else {
-                            &self.alpha_selectors[alpha0_selector_index * 6..]
+                            CRND_ALPHA_SELECTOR!(self.alpha_selectors, alpha0_selector_index * 6)
                         };
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos,
-                            self.alpha_endpoints[alpha0_endpoint_index] as u32
+                            CRND_PALETTE_ENTRY!(self.alpha_endpoints, alpha0_endpoint_index) as u32
                                 | ((p_alpha0_selectors[0] as u32) << 16)
                         );
                         WRITE_TO_INT_BUFFER!(
@@ -1284,7 +1331,10 @@ impl<'slice> CrnUnpacker<'slice> {
                         WRITE_TO_INT_BUFFER!(
                             p_dst,
                             data_pos + 3,
-                            self.color_selectors[color_selector_index << 1 | (flip as usize)]
+                            CRND_PALETTE_ENTRY!(
+                                self.color_selectors,
+                                color_selector_index << 1 | (flip as usize)
+                            )
                         );
                     }
                     data_pos += 4;
-- 
2.43.0


From 9f7e5ce7c8dff980600bd15de97dd9454c7a0f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:34 +0000
Subject: [PATCH 20/28] fix: crunch levels too small for their dimensions are
 an error before any allocation

---
 src/crunch.rs                   |  5 ++++-
 src/crunch/crn_unpacker.rs      | 13 +++++++++++--
 src/unitycrunch.rs              |  5 ++++-
 src/unitycrunch/crn_unpacker.rs | 13 +++++++++++--
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/crunch.rs b/src/crunch.rs
index 6f41e1f..fbd73ad 100644
--- a/src/crunch.rs
+++ b/src/crunch.rs
@@ -31,7 +31,10 @@ pub fn crunch_unpack_level(
     let blocks_x: u32 = max(1, (width + 3) >> 2);
     let blocks_y: u32 = max(1, (height + 3) >> 2);
     let row_pitch: u32 = blocks_x * crn_decomp::crnd_get_bytes_per_dxt_block(&mut tex_info.format)?;
-    let total_face_size: u32 = row_pitch * blocks_y;
+    let total_face_size: u32 = match row_pitch.checked_mul(blocks_y) {
+        Some(total_face_size) => total_face_size,
+        None => return Err("Texture is too large."),
+    };
     match p_context.crnd_unpack_level(total_face_size, row_pitch, level_index) {
         Ok(res) => Ok(CrunchDecodeHandler {
             format: tex_info.format,
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 82f9de1..e70db09 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -452,10 +452,19 @@ impl<'slice> CrnUnpacker<'slice> {
         } else if row_pitch_in_bytes < minimal_row_pitch || (row_pitch_in_bytes & 3) != 0 {
             return Err("Crunch Row size is below the minimum allowed.");
         }
-        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize];
-        if dst_size_in_bytes < (row_pitch_in_bytes * blocks_y) {
+        if (dst_size_in_bytes as u64) < row_pitch_in_bytes as u64 * blocks_y as u64 {
             return Err("Destination buffer size is smaller than what expected to decompress.");
         }
+        // each block takes at least one bit of the level
+        let faces = self.p_header.faces.cast_to_uint();
+        if blocks_x as u64 * blocks_y as u64 * faces as u64 > src_size_in_bytes as u64 * 8 {
+            return Err("Texture data is too small for the level.");
+        }
+        let ret_size = match (dst_size_in_bytes as usize).checked_mul(faces as usize) {
+            Some(ret_size) => ret_size,
+            None => return Err("Texture is too large."),
+        };
+        let mut ret = alloc::vec![0_u8; ret_size];
         let chunks_x: u32 = (blocks_x + 1) >> 1;
         let chunks_y: u32 = (blocks_y + 1) >> 1;
         let res: bool = self.codec.start_decoding(p_src, src_size_in_bytes);
diff --git a/src/unitycrunch.rs b/src/unitycrunch.rs
index ae4940e..ff726bc 100644
--- a/src/unitycrunch.rs
+++ b/src/unitycrunch.rs
@@ -22,7 +22,10 @@ pub fn unity_crunch_unpack_level(
     let blocks_x: u32 = core::cmp::max(1, (width + 3) >> 2);
     let blocks_y: u32 = core::cmp::max(1, (height + 3) >> 2);
     let row_pitch: u32 = blocks_x * crn_decomp::crnd_get_bytes_per_dxt_block(&mut tex_info.format)?;
-    let total_face_size: u32 = row_pitch * blocks_y;
+    let total_face_size: u32 = match row_pitch.checked_mul(blocks_y) {
+        Some(total_face_size) => total_face_size,
+        None => return Err("Texture is too large."),
+    };
     match p_context.crnd_unpack_level(total_face_size, row_pitch, level_index) {
         Ok(res) => Ok(CrunchDecodeHandler {
             format: tex_info.format,
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index d355148..0089240 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -590,10 +590,19 @@ impl<'slice> CrnUnpacker<'slice> {
         } else if row_pitch_in_bytes < minimal_row_pitch || (row_pitch_in_bytes & 3) != 0 {
             return Err("Crunch Row size is below the minimum allowed.");
         }
-        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize];
-        if dst_size_in_bytes < (row_pitch_in_bytes * blocks_y) {
+        if (dst_size_in_bytes as u64) < row_pitch_in_bytes as u64 * blocks_y as u64 {
             return Err("Destination buffer size is smaller than what expected to decompress.");
         }
+        // each block takes at least one bit of the level
+        let faces = self.p_header.faces.cast_to_uint();
+        if blocks_x as u64 * blocks_y as u64 * faces as u64 > src_size_in_bytes as u64 * 8 {
+            return Err("Texture data is too small for the level.");
+        }
+        let ret_size = match (dst_size_in_bytes as usize).checked_mul(faces as usize) {
+            Some(ret_size) => ret_size,
+            None => return Err("Texture is too large."),
+        };
+        let mut ret = alloc::vec![0_u8; ret_size];
         let res: bool = self.codec.start_decoding(p_src, src_size_in_bytes);
         if !res {
             return Err("Failed to initialize the decoding process.");
-- 
2.43.0


From b72f9f968ba47127ef05e450d69be05f0c60192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 21/28] fix: crunch faces start at their own offset and rows
 with padding blocks keep their pitch

---
 src/crunch/crn_unpacker.rs      | 47 ++++++++++++--------------
 src/unitycrunch/crn_unpacker.rs | 60 ++++++++++++++++++++-------------
 2 files changed, 58 insertions(+), 49 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index e70db09..ced08a3 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -549,8 +549,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_faces: u32 = self.p_header.faces.cast_to_uint();
         let row_pitch_in_dwords = row_pitch_in_bytes >> 2;
         let c_bytes_per_block: i32 = 8;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * row_pitch_in_bytes as usize * blocks_y as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -558,7 +558,7 @@ impl<'slice> CrnUnpacker<'slice> {
                 if y & 1 == 1 {
                     iter = alloc::boxed::Box::new((0..chunks_x as i32).rev());
                     block_delta = -c_bytes_per_block * 2;
-                    block_dst += (((chunks_x as i32) - 1) * c_bytes_per_block * 2) as usize;
+                    block_dst += (chunks_x as usize - 1) * c_bytes_per_block as usize * 2;
                 } else {
                     block_delta = c_bytes_per_block * 2;
                     iter = alloc::boxed::Box::new(0..chunks_x as i32);
@@ -709,7 +709,7 @@ impl<'slice> CrnUnpacker<'slice> {
                             }
                         }
                     }
-                    block_dst = (block_dst as i32 + block_delta) as usize;
+                    block_dst = block_dst.wrapping_add_signed(block_delta as isize);
                 }
                 row_dst += (row_pitch_in_bytes * 2) as usize;
             }
@@ -736,8 +736,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha_selector_index: u32 = 0;
         let num_faces = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block: i32 = 16;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * row_pitch_in_bytes as usize * blocks_y as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -745,7 +745,7 @@ impl<'slice> CrnUnpacker<'slice> {
                 if y & 1 == 1 {
                     iter = alloc::boxed::Box::new((0..chunks_x as i32).rev());
                     block_delta = -c_bytes_per_block * 2;
-                    block_dst += (((chunks_x as i32) - 1) * c_bytes_per_block * 2) as usize;
+                    block_dst += (chunks_x as usize - 1) * c_bytes_per_block as usize * 2;
                 } else {
                     block_delta = c_bytes_per_block * 2;
                     iter = alloc::boxed::Box::new(0..chunks_x as i32);
@@ -875,12 +875,11 @@ impl<'slice> CrnUnpacker<'slice> {
                             pd_dst += 4;
                         }
                         pd_dst <<= 2;
-                        pd_dst = ((pd_dst as i32)
-                            + (-c_bytes_per_block * 2 + row_pitch_in_bytes as i32))
-                            as usize;
+                        pd_dst =
+                            pd_dst - (c_bytes_per_block * 2) as usize + row_pitch_in_bytes as usize;
                         pd_dst >>= 2;
                     }
-                    block_dst = ((block_dst as i32) + block_delta) as usize;
+                    block_dst = block_dst.wrapping_add_signed(block_delta as isize);
                 }
                 row_dst += (row_pitch_in_bytes * 2) as usize;
             }
@@ -903,8 +902,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha0_selector_index: u32 = 0;
         let num_faces = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block = 8;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * row_pitch_in_bytes as usize * blocks_y as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -912,7 +911,7 @@ impl<'slice> CrnUnpacker<'slice> {
                 if y & 1 == 1 {
                     iter = alloc::boxed::Box::new((0..chunks_x as i32).rev());
                     block_delta = -c_bytes_per_block * 2;
-                    block_dst += (((chunks_x as i32) - 1) * c_bytes_per_block * 2) as usize;
+                    block_dst += (chunks_x as usize - 1) * c_bytes_per_block as usize * 2;
                 } else {
                     block_delta = c_bytes_per_block * 2;
                     iter = alloc::boxed::Box::new(0..chunks_x as i32);
@@ -997,12 +996,11 @@ impl<'slice> CrnUnpacker<'slice> {
                             pd_dst += 2;
                         }
                         pd_dst <<= 2;
-                        pd_dst = ((pd_dst as i32)
-                            + (-c_bytes_per_block * 2 + row_pitch_in_bytes as i32))
-                            as usize;
+                        pd_dst =
+                            pd_dst - (c_bytes_per_block * 2) as usize + row_pitch_in_bytes as usize;
                         pd_dst >>= 2;
                     }
-                    block_dst = ((block_dst as i32) + block_delta) as usize;
+                    block_dst = block_dst.wrapping_add_signed(block_delta as isize);
                 }
                 row_dst += (row_pitch_in_bytes * 2) as usize;
             }
@@ -1027,8 +1025,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha1_selector_index: u32 = 0;
         let num_faces: u32 = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block: i32 = 16;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * row_pitch_in_bytes as usize * blocks_y as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -1036,7 +1034,7 @@ impl<'slice> CrnUnpacker<'slice> {
                 if y & 1 == 1 {
                     iter = alloc::boxed::Box::new((0..chunks_x as i32).rev());
                     block_delta = -c_bytes_per_block * 2;
-                    block_dst += (((chunks_x as i32) - 1) * c_bytes_per_block * 2) as usize;
+                    block_dst += (chunks_x as usize - 1) * c_bytes_per_block as usize * 2;
                 } else {
                     block_delta = c_bytes_per_block * 2;
                     iter = alloc::boxed::Box::new(0..chunks_x as i32);
@@ -1170,12 +1168,11 @@ impl<'slice> CrnUnpacker<'slice> {
                             pd_dst += 4;
                         }
                         pd_dst <<= 2;
-                        pd_dst = ((pd_dst as i32)
-                            + (-c_bytes_per_block * 2 + row_pitch_in_bytes as i32))
-                            as usize;
+                        pd_dst =
+                            pd_dst - (c_bytes_per_block * 2) as usize + row_pitch_in_bytes as usize;
                         pd_dst >>= 2;
                     }
-                    block_dst = ((block_dst as i32) + block_delta) as usize;
+                    block_dst = block_dst.wrapping_add_signed(block_delta as isize);
                 }
                 row_dst += (row_pitch_in_bytes * 2) as usize;
             }
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 0089240..072ecc0 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -667,15 +667,17 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
+        let delta_pitch_in_dwords: isize =
+            (output_pitch_in_bytes >> 2) as isize - (width << 1) as isize;
+        let face_size_in_dwords = (output_pitch_in_bytes >> 2) as usize * output_height as usize;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
         }
         let mut color_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
+            let mut data_pos: usize = f * face_size_in_dwords;
             for y in 0..height {
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
@@ -732,7 +734,7 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
+                data_pos = data_pos.wrapping_add_signed(delta_pitch_in_dwords);
             }
         }
         Ok(true)
@@ -748,7 +750,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
+        let delta_pitch_in_dwords: isize =
+            (output_pitch_in_bytes >> 2) as isize - (width << 2) as isize;
+        let face_size_in_dwords = (output_pitch_in_bytes >> 2) as usize * output_height as usize;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
@@ -756,8 +760,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut color_endpoint_index: usize = 0;
         let mut alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
+            let mut data_pos: usize = f * face_size_in_dwords;
             for y in 0..height {
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
@@ -847,7 +851,7 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
+                data_pos = data_pos.wrapping_add_signed(delta_pitch_in_dwords);
             }
         }
         Ok(true)
@@ -862,15 +866,17 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
+        let delta_pitch_in_dwords: isize =
+            (output_pitch_in_bytes >> 2) as isize - (width << 1) as isize;
+        let face_size_in_dwords = (output_pitch_in_bytes >> 2) as usize * output_height as usize;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
         }
         let mut alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
+            let mut data_pos: usize = f * face_size_in_dwords;
             for y in 0..height {
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
@@ -931,7 +937,7 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
+                data_pos = data_pos.wrapping_add_signed(delta_pitch_in_dwords);
             }
         }
         Ok(true)
@@ -946,7 +952,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
+        let delta_pitch_in_dwords: isize =
+            (output_pitch_in_bytes >> 2) as isize - (width << 2) as isize;
+        let face_size_in_dwords = (output_pitch_in_bytes >> 2) as usize * output_height as usize;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
@@ -954,8 +962,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut alpha0_endpoint_index: usize = 0;
         let mut alpha1_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
+            let mut data_pos: usize = f * face_size_in_dwords;
             for y in 0..height {
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
@@ -1049,7 +1057,7 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
+                data_pos = data_pos.wrapping_add_signed(delta_pitch_in_dwords);
             }
         }
         Ok(true)
@@ -1064,7 +1072,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
+        let delta_pitch_in_dwords: isize =
+            (output_pitch_in_bytes >> 2) as isize - (width << 1) as isize;
+        let face_size_in_dwords = (output_pitch_in_bytes >> 2) as usize * output_height as usize;
         if self.block_buffer.len() < (width << 1) as usize {
             self.block_buffer
                 .resize((width << 1) as usize, BlockBufferElement::default());
@@ -1072,8 +1082,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut color_endpoint_index: usize = 0;
         let mut diagonal_color_endpoint_index: usize = 0;
         let mut reference_group: u8;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
+            let mut data_pos: usize = f * face_size_in_dwords;
             for y in 0..height {
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
@@ -1175,7 +1185,7 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
+                data_pos = data_pos.wrapping_add_signed(delta_pitch_in_dwords);
             }
         }
         Ok(true)
@@ -1191,7 +1201,9 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
+        let delta_pitch_in_dwords: isize =
+            (output_pitch_in_bytes >> 2) as isize - (width << 2) as isize;
+        let face_size_in_dwords = (output_pitch_in_bytes >> 2) as usize * output_height as usize;
         if self.block_buffer.len() < (width << 1) as usize {
             self.block_buffer
                 .resize((width << 1) as usize, BlockBufferElement::default());
@@ -1201,8 +1213,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut diagonal_color_endpoint_index: usize = 0;
         let mut diagonal_alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
+            let mut data_pos: usize = f * face_size_in_dwords;
             for y in 0..height {
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
@@ -1348,7 +1360,7 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
+                data_pos = data_pos.wrapping_add_signed(delta_pitch_in_dwords);
             }
         }
         Ok(true)
-- 
2.43.0


From c5b9e3c7a5d5a07ff874dc6eed76c3a3a11f2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:07 +0000
Subject: [PATCH 22/28] fix: crunch unpackers build and decode the same on
 big-endian targets

---
 src/crunch/crn_consts.rs   |  10 --
 src/crunch/crn_unpacker.rs | 266 +++++++++++--------------------------
 src/macros.rs              |   3 -
 3 files changed, 80 insertions(+), 199 deletions(-)

diff --git a/src/crunch/crn_consts.rs b/src/crunch/crn_consts.rs
index f16fc2f..1830953 100644
--- a/src/crunch/crn_consts.rs
+++ b/src/crunch/crn_consts.rs
@@ -68,16 +68,6 @@ pub const MOST_PROBABLE_CODELENGTH_CODES: [u8; 21] = [
 
 // pub const cNumMostProbableCodelengthCodes: usize = 21;
 
-#[cfg(target_endian = "little")]
-pub const CRND_LITTLE_ENDIAN_PLATFORM: bool = true;
-// #[cfg(target_endian = "little")]
-// pub const c_crnd_big_endian_platform: bool = false;
-
-#[cfg(target_endian = "big")]
-pub const CRND_LITTLE_ENDIAN_PLATFORM: bool = false;
-// #[cfg(target_endian = "big")]
-// pub const c_crnd_big_endian_platform: bool = true;
-
 // pub const cDXTBlockShift: usize = 2;
 // pub const cDXTBlockSize: usize = 1 << cDXTBlockShift;
 // pub const cDXT1BytesPerBlock: usize = 8;
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index ced08a3..955ef29 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -178,13 +178,8 @@ impl<'slice> CrnUnpacker<'slice> {
             e = (e + de) & 63;
             CRND_HUFF_DECODE!(self.codec, &dm[0], df);
             f = (f + df) & 31;
-            if CRND_LITTLE_ENDIAN_PLATFORM {
-                p_dst[0] = c | (b << 5) | (a << 11) | (f << 16) | (e << 21) | (d << 27);
-                p_dst = &mut p_dst[1..];
-            } else {
-                p_dst[0] = f | (e << 5) | (d << 11) | (c << 16) | (b << 21) | (a << 27);
-                p_dst = &mut p_dst[1..];
-            }
+            p_dst[0] = c | (b << 5) | (a << 11) | (f << 16) | (e << 21) | (d << 27);
+            p_dst = &mut p_dst[1..];
         }
         self.codec.stop_decoding();
         true
@@ -237,43 +232,23 @@ impl<'slice> CrnUnpacker<'slice> {
                 cur[j * 2] = ((delta0[sym as usize] + cur[j * 2] as i32) & 3) as u32;
                 cur[j * 2 + 1] = ((delta1[sym as usize] + cur[j * 2 + 1] as i32) & 3) as u32;
             }
-            if CRND_LITTLE_ENDIAN_PLATFORM {
-                p_dst[0] = (p_from_linear[cur[0] as usize] as u32)
-                    | ((p_from_linear[cur[1] as usize] as u32) << 2)
-                    | ((p_from_linear[cur[2] as usize] as u32) << 4)
-                    | ((p_from_linear[cur[3] as usize] as u32) << 6)
-                    | ((p_from_linear[cur[4] as usize] as u32) << 8)
-                    | ((p_from_linear[cur[5] as usize] as u32) << 10)
-                    | ((p_from_linear[cur[6] as usize] as u32) << 12)
-                    | ((p_from_linear[cur[7] as usize] as u32) << 14)
-                    | ((p_from_linear[cur[8] as usize] as u32) << 16)
-                    | ((p_from_linear[cur[9] as usize] as u32) << 18)
-                    | ((p_from_linear[cur[10] as usize] as u32) << 20)
-                    | ((p_from_linear[cur[11] as usize] as u32) << 22)
-                    | ((p_from_linear[cur[12] as usize] as u32) << 24)
-                    | ((p_from_linear[cur[13] as usize] as u32) << 26)
-                    | ((p_from_linear[cur[14] as usize] as u32) << 28)
-                    | ((p_from_linear[cur[15] as usize] as u32) << 30);
-                p_dst = &mut p_dst[1..];
-            } else {
-                p_dst[0] = (p_from_linear[cur[8] as usize] as u32)
-                    | ((p_from_linear[cur[9] as usize] as u32) << 2)
-                    | ((p_from_linear[cur[10] as usize] as u32) << 4)
-                    | ((p_from_linear[cur[11] as usize] as u32) << 6)
-                    | ((p_from_linear[cur[12] as usize] as u32) << 8)
-                    | ((p_from_linear[cur[13] as usize] as u32) << 10)
-                    | ((p_from_linear[cur[14] as usize] as u32) << 12)
-                    | ((p_from_linear[cur[15] as usize] as u32) << 14)
-                    | ((p_from_linear[cur[0] as usize] as u32) << 16)
-                    | ((p_from_linear[cur[1] as usize] as u32) << 18)
-                    | ((p_from_linear[cur[2] as usize] as u32) << 20)
-                    | ((p_from_linear[cur[3] as usize] as u32) << 22)
-                    | ((p_from_linear[cur[4] as usize] as u32) << 24)
-                    | ((p_from_linear[cur[5] as usize] as u32) << 26)
-                    | ((p_from_linear[cur[6] as usize] as u32) << 28)
-                    | ((p_from_linear[cur[7] as usize] as u32) << 30);
-                p_dst = &mut p_dst[1..];
-            }
+            p_dst[0] = (p_from_linear[cur[0] as usize] as u32)
+                | ((p_from_linear[cur[1] as usize] as u32) << 2)
+                | ((p_from_linear[cur[2] as usize] as u32) << 4)
+                | ((p_from_linear[cur[3] as usize] as u32) << 6)
+                | ((p_from_linear[cur[4] as usize] as u32) << 8)
+                | ((p_from_linear[cur[5] as usize] as u32) << 10)
+                | ((p_from_linear[cur[6] as usize] as u32) << 12)
+                | ((p_from_linear[cur[7] as usize] as u32) << 14)
+                | ((p_from_linear[cur[8] as usize] as u32) << 16)
+                | ((p_from_linear[cur[9] as usize] as u32) << 18)
+                | ((p_from_linear[cur[10] as usize] as u32) << 20)
+                | ((p_from_linear[cur[11] as usize] as u32) << 22)
+                | ((p_from_linear[cur[12] as usize] as u32) << 24)
+                | ((p_from_linear[cur[13] as usize] as u32) << 26)
+                | ((p_from_linear[cur[14] as usize] as u32) << 28)
+                | ((p_from_linear[cur[15] as usize] as u32) << 30);
+            p_dst = &mut p_dst[1..];
         }
         self.codec.stop_decoding();
         true
@@ -816,61 +791,31 @@ impl<'slice> CrnUnpacker<'slice> {
                                     self.alpha_selectors,
                                     prev_alpha_selector_index * 3
                                 );
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha_endpoints[tile_index as usize] << 16)
-                                            | pAlpha_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha_selectors[1] as u32) << 16)
-                                            | (pAlpha_selectors[2] as u32))
-                                            as u32
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 2,
-                                        (color_endpoints[tile_index as usize])
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 3,
-                                        (self.m_color_selectors
-                                            [prev_color_selector_index as usize])
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst,
-                                        (alpha_endpoints[tile_index as usize]
-                                            | ((p_alpha_selectors[0] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 1,
-                                        ((p_alpha_selectors[1] as u32)
-                                            | ((p_alpha_selectors[2] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 2,
-                                        (color_endpoints[tile_index as usize])
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 3,
-                                        (CRND_PALETTE_ENTRY!(
-                                            self.color_selectors,
-                                            prev_color_selector_index as usize
-                                        ))
-                                    );
-                                }
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst,
+                                    (alpha_endpoints[tile_index as usize]
+                                        | ((p_alpha_selectors[0] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 1,
+                                    ((p_alpha_selectors[1] as u32)
+                                        | ((p_alpha_selectors[2] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 2,
+                                    (color_endpoints[tile_index as usize])
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 3,
+                                    (CRND_PALETTE_ENTRY!(
+                                        self.color_selectors,
+                                        prev_color_selector_index as usize
+                                    ))
+                                );
                             }
                             pd_dst += 4;
                         }
@@ -961,37 +906,18 @@ impl<'slice> CrnUnpacker<'slice> {
                                     self.alpha_selectors,
                                     prev_alpha0_selector_index * 3
                                 );
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha0_endpoints[tile_index as usize] << 16)
-                                            | pAlpha0_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha0_selectors[1] as u32) << 16)
-                                            | (pAlpha0_selectors[2] as u32))
-                                            as u32
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst,
-                                        (alpha0_endpoints[tile_index as usize]
-                                            | ((p_alpha0_selectors[0] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 1,
-                                        ((p_alpha0_selectors[1] as u32)
-                                            | ((p_alpha0_selectors[2] as u32) << 16))
-                                    );
-                                }
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst,
+                                    (alpha0_endpoints[tile_index as usize]
+                                        | ((p_alpha0_selectors[0] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 1,
+                                    ((p_alpha0_selectors[1] as u32)
+                                        | ((p_alpha0_selectors[2] as u32) << 16))
+                                );
                             }
                             pd_dst += 2;
                         }
@@ -1108,62 +1034,30 @@ impl<'slice> CrnUnpacker<'slice> {
                                     self.alpha_selectors,
                                     prev_alpha1_selector_index * 3
                                 );
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha0_endpoints[tile_index as usize] << 16)
-                                            | pAlpha0_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha0_selectors[1] as u32) << 16)
-                                            | (pAlpha0_selectors[2] as u32))
-                                            as u32
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 2,
-                                        ((alpha1_endpoints[tile_index as usize] << 16)
-                                            | pAlpha1_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 3,
-                                        (((pAlpha1_selectors[1] as u32) << 16)
-                                            | (pAlpha1_selectors[2] as u32))
-                                            as u32
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst,
-                                        (alpha0_endpoints[tile_index as usize]
-                                            | ((p_alpha0_selectors[0] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 1,
-                                        ((p_alpha0_selectors[1] as u32)
-                                            | ((p_alpha0_selectors[2] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 2,
-                                        (alpha1_endpoints[tile_index as usize]
-                                            | ((p_alpha1_selectors[0] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 3,
-                                        ((p_alpha1_selectors[1] as u32)
-                                            | ((p_alpha1_selectors[2] as u32) << 16))
-                                    );
-                                }
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst,
+                                    (alpha0_endpoints[tile_index as usize]
+                                        | ((p_alpha0_selectors[0] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 1,
+                                    ((p_alpha0_selectors[1] as u32)
+                                        | ((p_alpha0_selectors[2] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 2,
+                                    (alpha1_endpoints[tile_index as usize]
+                                        | ((p_alpha1_selectors[0] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 3,
+                                    ((p_alpha1_selectors[1] as u32)
+                                        | ((p_alpha1_selectors[2] as u32) << 16))
+                                );
                             }
                             pd_dst += 4;
                         }
diff --git a/src/macros.rs b/src/macros.rs
index 48d46dc..560fe48 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -79,10 +79,7 @@ macro_rules! CRND_ALPHA_SELECTOR {
 macro_rules! WRITE_TO_INT_BUFFER {
     ($buf: expr, $index: expr, $val: expr) => {
         let t_index = ($index * 4) as usize;
-        #[cfg(target_endian = "little")]
         let tiles = $val.to_le_bytes();
-        #[cfg(target_endian = "big")]
-        let tiles = $val.to_be_bytes();
         $buf[t_index] = tiles[0];
         $buf[t_index + 1] = tiles[1];
         $buf[t_index + 2] = tiles[2];
-- 
2.43.0


From ff95c64971fb91fa59057b345b2c0ad7163f0fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:30 +0000
Subject: [PATCH 23/28] fix: Unity ETC endpoint deltas wrap instead of
 overflowing

---
 src/unitycrunch/crn_unpacker.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 072ecc0..340f301 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -193,10 +193,9 @@ impl<'slice> CrnUnpacker<'slice> {
         for _ in 0..num_color_endpoints {
             if has_etc_color_blocks {
                 for b in [0, 8, 16, 24] {
-                    a += match self.codec.decode(&dm[0]) {
-                        Ok(s) => s,
-                        Err(_) => return false,
-                    } << b;
+                    let delta: u32;
+                    CRND_HUFF_DECODE!(self.codec, &dm[0], delta);
+                    a = a.wrapping_add(delta << b);
                 }
                 a &= 0x1F1F1F1F;
                 if has_subblocks {
-- 
2.43.0


From 20a1298ed268a6558f4427d4639a94043a3404bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:11 +0000
Subject: [PATCH 24/28] fix: crunch levels that reach past the end of the file
 are an error before any allocation

---
 src/crunch/crn_unpacker.rs      | 4 +++-
 src/unitycrunch/crn_unpacker.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 955ef29..7aba69b 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -432,7 +432,9 @@ impl<'slice> CrnUnpacker<'slice> {
         }
         // each block takes at least one bit of the level
         let faces = self.p_header.faces.cast_to_uint();
-        if blocks_x as u64 * blocks_y as u64 * faces as u64 > src_size_in_bytes as u64 * 8 {
+        if p_src.len() < src_size_in_bytes as usize
+            || blocks_x as u64 * blocks_y as u64 * faces as u64 > src_size_in_bytes as u64 * 8
+        {
             return Err("Texture data is too small for the level.");
         }
         let ret_size = match (dst_size_in_bytes as usize).checked_mul(faces as usize) {
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 340f301..88dbba7 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -594,7 +594,9 @@ impl<'slice> CrnUnpacker<'slice> {
         }
         // each block takes at least one bit of the level
         let faces = self.p_header.faces.cast_to_uint();
-        if blocks_x as u64 * blocks_y as u64 * faces as u64 > src_size_in_bytes as u64 * 8 {
+        if p_src.len() < src_size_in_bytes as usize
+            || blocks_x as u64 * blocks_y as u64 * faces as u64 > src_size_in_bytes as u64 * 8
+        {
             return Err("Texture data is too small for the level.");
         }
         let ret_size = match (dst_size_in_bytes as usize).checked_mul(faces as usize) {
-- 
2.43.0


From a08506a8ad047a7af05f17047988ecee64a06092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:27 +0000
Subject: [PATCH 25/28] fix: Python decode_astc returns the image or a
 ValueError instead of panicking on success

---
 bindings/python/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index e09336c..de280ef 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -139,7 +139,6 @@ pub fn decode_astc<'a>(
             block_height,
             image_u32,
         )
-        .unwrap_err();
-        Ok(())
+        .map_err(|e| PyErr::new::<pyo3::exceptions::PyValueError, _>(e.to_string()))
     })
 }
-- 
2.43.0


From eb6653edd8af67ccf490ab66ac3323e10ea63fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:27 +0000
Subject: [PATCH 26/28] fix: Python bindings pass a pixel slice of the buffer's
 real length

---
 bindings/python/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index de280ef..d59a31e 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -56,13 +56,20 @@ fn texture2ddecoder_rs(_py: Python<'_>, m: &PyModule) -> PyResult<()> {
     Ok(())
 }
 
+// The pixels of a PyBytes buffer; its payload is aligned for u32.
+fn as_pixels(image: &mut [u8]) -> &mut [u32] {
+    let (head, pixels, tail) = unsafe { image.align_to_mut::<u32>() };
+    assert!(head.is_empty() && tail.is_empty());
+    pixels
+}
+
 macro_rules! pybind {
     ($name:expr) => {
         paste::item! {
             #[pyfunction]
             pub fn $name<'a>(py: Python<'a>, data: &'a PyBytes, width: usize, height: usize) -> PyResult<&'a PyBytes> {
                 PyBytes::new_with(py, width * height * 4, |image: & mut[u8]|{
-                    let image_u32 = unsafe { std::mem::transmute(image) };
+                    let image_u32 = as_pixels(image);
                     match texture2ddecoder::$name(data.as_bytes(), width, height, image_u32){
                         Ok(_) => {}
                         Err(e) => return Err(PyErr::new::<pyo3::exceptions::PyValueError, _>(e.to_string()))
@@ -130,7 +137,7 @@ pub fn decode_astc<'a>(
     block_height: usize,
 ) -> PyResult<&'a PyBytes> {
     PyBytes::new_with(py, width * height * 4, |image: &mut [u8]| {
-        let image_u32 = unsafe { std::mem::transmute(image) };
+        let image_u32 = as_pixels(image);
         texture2ddecoder::decode_astc(
             data.as_bytes(),
             width,
-- 
2.43.0


From f8270123765ed9bb17f604c069a01c7981dd8c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:28 +0000
Subject: [PATCH 27/28] fix: image sizes that overflow are a ValueError in the
 Python bindings

---
 bindings/python/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index d59a31e..2478bee 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -56,6 +56,14 @@ fn texture2ddecoder_rs(_py: Python<'_>, m: &PyModule) -> PyResult<()> {
     Ok(())
 }
 
+// The size of a decoded image in bytes.
+fn image_len(width: usize, height: usize) -> PyResult<usize> {
+    width
+        .checked_mul(height)
+        .and_then(|n| n.checked_mul(4))
+        .ok_or_else(|| PyErr::new::<pyo3::exceptions::PyValueError, _>("Image size is too large"))
+}
+
 // The pixels of a PyBytes buffer; its payload is aligned for u32.
 fn as_pixels(image: &mut [u8]) -> &mut [u32] {
     let (head, pixels, tail) = unsafe { image.align_to_mut::<u32>() };
@@ -68,7 +76,7 @@ macro_rules! pybind {
         paste::item! {
             #[pyfunction]
             pub fn $name<'a>(py: Python<'a>, data: &'a PyBytes, width: usize, height: usize) -> PyResult<&'a PyBytes> {
-                PyBytes::new_with(py, width * height * 4, |image: & mut[u8]|{
+                PyBytes::new_with(py, image_len(width, height)?, |image: & mut[u8]|{
                     let image_u32 = as_pixels(image);
                     match texture2ddecoder::$name(data.as_bytes(), width, height, image_u32){
                         Ok(_) => {}
@@ -136,7 +144,7 @@ pub fn decode_astc<'a>(
     block_width: usize,
     block_height: usize,
 ) -> PyResult<&'a PyBytes> {
-    PyBytes::new_with(py, width * height * 4, |image: &mut [u8]| {
+    PyBytes::new_with(py, image_len(width, height)?, |image: &mut [u8]| {
         let image_u32 = as_pixels(image);
         texture2ddecoder::decode_astc(
             data.as_bytes(),
-- 
2.43.0


From 1faae2d556856fbb194d0a158cc25e11d17d459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:21 +0000
Subject: [PATCH 28/28] fix: crunch decoders accept a file followed by more
 than 4 GiB of other data

The slice length was cast to u32 and wrapped, so a valid file at the start of
such a slice was rejected as truncated.
---
 src/crunch.rs      | 2 +-
 src/unitycrunch.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crunch.rs b/src/crunch.rs
index fbd73ad..6a61661 100644
--- a/src/crunch.rs
+++ b/src/crunch.rs
@@ -51,7 +51,7 @@ pub fn decode_crunch(
     height: usize,
     image: &mut [u32],
 ) -> Result<(), &'static str> {
-    let handler = crunch_unpack_level(data, data.len() as u32, 0)?;
+    let handler = crunch_unpack_level(data, data.len().min(u32::MAX as usize) as u32, 0)?;
     match handler.format {
         CrnFormat::Dxt1 => bcn::decode_bc1(&handler.dxt_data, width, height, image),
 
diff --git a/src/unitycrunch.rs b/src/unitycrunch.rs
index ff726bc..cbbb431 100644
--- a/src/unitycrunch.rs
+++ b/src/unitycrunch.rs
@@ -42,7 +42,7 @@ pub fn decode_unity_crunch(
     height: usize,
     image: &mut [u32],
 ) -> Result<(), &'static str> {
-    let handler = unity_crunch_unpack_level(data, data.len() as u32, 0)?;
+    let handler = unity_crunch_unpack_level(data, data.len().min(u32::MAX as usize) as u32, 0)?;
     match handler.format {
         CrnFormat::Dxt1 => bcn::decode_bc1(&handler.dxt_data, width, height, image),
 
-- 
2.43.0

