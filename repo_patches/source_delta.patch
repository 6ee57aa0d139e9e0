From 32aa98af61dad6c1d5b7f0df86550e4ab66458ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 1/3] fix: default-constructed hashers start from the zero
 key's state

The derived Default left the whole state zeroed, so that
PortableHash::default() (and SseHash, AvxHash, NeonHash, WasmHash)
hashed differently from HighwayHasher::default() and from
PortableHash::new(Key::default()).
---
 src/aarch64.rs  | 8 +++++++-
 src/portable.rs | 8 +++++++-
 src/wasm.rs     | 8 +++++++-
 src/x86/avx.rs  | 8 +++++++-
 src/x86/sse.rs  | 8 +++++++-
 5 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/aarch64.rs b/src/aarch64.rs
index 888ceeb..8f3ff4c 100644
--- a/src/aarch64.rs
+++ b/src/aarch64.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Neon instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct NeonHash {
     buffer: HashPacket,
     v0L: V2x64U,
@@ -20,6 +20,12 @@ pub struct NeonHash {
     mul1H: V2x64U,
 }
 
+impl Default for NeonHash {
+    fn default() -> Self {
+        unsafe { NeonHash::force_new(Key::default()) }
+    }
+}
+
 impl HighwayHash for NeonHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/portable.rs b/src/portable.rs
index 9043d08..60ff844 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -10,7 +10,7 @@ use crate::traits::HighwayHash;
 ///
 /// The main reason for directly using `PortableHash` would be if avoiding
 /// `unsafe` code blocks is a top priority.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct PortableHash {
     pub(crate) v0: [u64; 4],
     pub(crate) v1: [u64; 4],
@@ -19,6 +19,12 @@ pub struct PortableHash {
     pub(crate) buffer: HashPacket,
 }
 
+impl Default for PortableHash {
+    fn default() -> Self {
+        PortableHash::new(Key::default())
+    }
+}
+
 impl HighwayHash for PortableHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/wasm.rs b/src/wasm.rs
index ee9c10f..9947956 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Wasm SIMD instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct WasmHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -20,6 +20,12 @@ pub struct WasmHash {
     buffer: HashPacket,
 }
 
+impl Default for WasmHash {
+    fn default() -> Self {
+        WasmHash::new(Key::default())
+    }
+}
+
 impl HighwayHash for WasmHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/x86/avx.rs b/src/x86/avx.rs
index 4e2f180..6eb91de 100644
--- a/src/x86/avx.rs
+++ b/src/x86/avx.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// AVX empowered implementation that will only work on `x86_64` with avx2 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct AvxHash {
     v0: V4x64U,
     v1: V4x64U,
@@ -18,6 +18,12 @@ pub struct AvxHash {
     buffer: HashPacket,
 }
 
+impl Default for AvxHash {
+    fn default() -> Self {
+        unsafe { AvxHash::force_new(Key::default()) }
+    }
+}
+
 impl HighwayHash for AvxHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/x86/sse.rs b/src/x86/sse.rs
index de1c770..dc9e1ca 100644
--- a/src/x86/sse.rs
+++ b/src/x86/sse.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// SSE empowered implementation that will only work on `x86_64` with sse 4.1 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct SseHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -22,6 +22,12 @@ pub struct SseHash {
     buffer: HashPacket,
 }
 
+impl Default for SseHash {
+    fn default() -> Self {
+        unsafe { SseHash::force_new(Key::default()) }
+    }
+}
+
 impl HighwayHash for SseHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
-- 
2.43.0


From 4847915c5a0491c149d87eb7ada4d641fae33f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 2/3] fix: never restore a full packet as pending bytes

from_checkpoint accepted a count of 32 or more and restored a buffer
holding a whole packet, a state no hasher reaches: finalizing it panics
with overflow checks or debug assertions enabled, and an empty append
changes its result.
---
 src/portable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/portable.rs b/src/portable.rs
index 60ff844..12e17f3 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -125,7 +125,8 @@ impl PortableHash {
 
         let (len, _) = rest.split_at(core::mem::size_of::<u32>());
         let len = u32::from_le_bytes([len[0], len[1], len[2], len[3]]);
-        buffer.fill(&buffered[..(len as usize).min(buffered.len())]);
+        // At most one byte less than a packet is ever pending
+        buffer.fill(&buffered[..(len as usize).min(PACKET_SIZE - 1)]);
 
         PortableHash {
             v0,
-- 
2.43.0


From c9c4b531c82f1a12c680ccfc272b698c086e0b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 3/3] fix: leave absorbed bytes out of checkpoints

The tail of the packet buffer still holds bytes of an earlier packet.
Copying it into the checkpoint leaked input that was already absorbed and
made the checkpoint depend on how the input had been chunked.
---
 src/portable.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/portable.rs b/src/portable.rs
index 12e17f3..d2b12ef 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -61,7 +61,10 @@ impl HighwayHash for PortableHash {
         }
 
         let (buffered, rest) = cursor.split_at_mut(PACKET_SIZE);
-        buffered.copy_from_slice(&self.buffer.buf);
+        // Only the pending bytes: what follows them was already absorbed
+        for (to, from) in buffered.iter_mut().zip(self.buffer.as_slice()) {
+            *to = *from;
+        }
         rest.copy_from_slice(&(self.buffer.len() as u32).to_le_bytes());
         result
     }
-- 
2.43.0

