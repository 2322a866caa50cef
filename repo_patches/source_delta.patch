From 32c871f3f4f3f5d0ca2d250c1c9e20648bfbb065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 1/5] verif: hooks for conformance checks behind
 cfg(baokeshed_verif)

---
 src/lib.rs      |  8 ++++++++
 src/platform.rs |  6 ++++++
 src/verif.rs    | 45 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 59 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 10a3798..4f00851 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,6 +25,9 @@
 //!
 //! - [GitHub repo](https://github.com/oconnor663/baokeshed)
 
+// For cfg(baokeshed_verif).
+#![allow(unexpected_cfgs)]
+
 use arrayref::{array_mut_ref, array_ref, array_refs, mut_array_refs};
 use arrayvec::{ArrayString, ArrayVec};
 use core::cmp;
@@ -53,6 +56,11 @@ pub mod portable64;
 #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
 pub mod sse41;
 
+// Hooks for model-based conformance checks. Never part of a normal build.
+#[doc(hidden)]
+#[cfg(baokeshed_verif)]
+pub mod verif;
+
 #[cfg(test)]
 mod test;
 
diff --git a/src/platform.rs b/src/platform.rs
index 3409a7e..f6fbd0f 100644
--- a/src/platform.rs
+++ b/src/platform.rs
@@ -28,6 +28,12 @@ pub enum Platform {
 
 impl Platform {
     pub fn detect() -> Self {
+        #[cfg(baokeshed_verif)]
+        {
+            if let Some(platform) = crate::verif::forced_platform() {
+                return platform;
+            }
+        }
         #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
         {
             if is_x86_feature_detected!("avx2") {
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..fab91fa
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,45 @@
+//! Hooks for conformance checks, compiled only with `--cfg baokeshed_verif`.
+
+use crate::platform::Platform;
+use crate::{Hasher, Output, CHUNK_LEN, OUT_LEN};
+use core::sync::atomic::{AtomicUsize, Ordering};
+
+static FORCED: AtomicUsize = AtomicUsize::new(0);
+
+/// Make every hasher created from now on use one back end, or the detected one
+/// again for an unknown name. The caller answers for the CPU supporting it.
+pub fn force_platform(name: &str) {
+    let code = match name {
+        "portable" => 1,
+        "sse41" => 2,
+        "avx2" => 3,
+        _ => 0,
+    };
+    FORCED.store(code, Ordering::SeqCst);
+}
+
+pub(crate) fn forced_platform() -> Option<Platform> {
+    match FORCED.load(Ordering::SeqCst) {
+        1 => Some(Platform::Portable),
+        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+        2 => Some(Platform::SSE41),
+        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+        3 => Some(Platform::AVX2),
+        _ => None,
+    }
+}
+
+/// Put a fresh hasher in the state that it has after `chunks` whole chunks,
+/// given the hashes of the maximal complete subtrees they make up, largest
+/// first. There must be at least two subtrees.
+pub fn fast_forward(hasher: &mut Hasher, chunks: u64, subtrees: &[[u8; OUT_LEN]]) {
+    assert!(subtrees.len() >= 2 && subtrees.len() == chunks.count_ones() as usize);
+    assert!(hasher.subtree_hashes.is_empty() && hasher.chunk.len() == 0);
+    hasher.subtree_hashes.extend(subtrees.iter().cloned());
+    hasher.chunk.reset(chunks * CHUNK_LEN as u64);
+}
+
+/// Move an output to a position in its stream.
+pub fn seek(output: &mut Output, position: u64) {
+    output.offset = position;
+}
-- 
2.43.0


From 5a207714d936f425d6385723fe6d7cf1832d9fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 2/5] fix: print the requested number of bytes for lengths of
 2^63 and more

Twice the requested length overflowed a u64, so that --length=2^63 printed
nothing and --length=2^63+1 a single byte (debug builds panicked).
---
 baokeshed_bin/src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/baokeshed_bin/src/main.rs b/baokeshed_bin/src/main.rs
index d88b0f7..8df93ff 100644
--- a/baokeshed_bin/src/main.rs
+++ b/baokeshed_bin/src/main.rs
@@ -71,16 +71,17 @@ fn hash_one(
 }
 
 fn print_hex(output: &mut baokeshed::Output, byte_length: u64) {
-    let mut hex_bytes_remaining = 2 * byte_length;
+    // Two hex digits per byte. This doesn't always fit in a u64.
+    let mut hex_bytes_remaining = 2 * byte_length as u128;
     while hex_bytes_remaining > 0 {
         let bytes = output.read();
         let (hash1, hash2) = arrayref::array_refs!(&bytes, baokeshed::OUT_LEN, baokeshed::OUT_LEN);
         let hex1 = baokeshed::Hash::from(*hash1).to_hex();
-        let take = cmp::min(hex_bytes_remaining, hex1.len() as u64);
+        let take = cmp::min(hex_bytes_remaining, hex1.len() as u128);
         print!("{}", &hex1[..take as usize]);
         hex_bytes_remaining -= take;
         let hex2 = baokeshed::Hash::from(*hash2).to_hex();
-        let take = cmp::min(hex_bytes_remaining, hex2.len() as u64);
+        let take = cmp::min(hex_bytes_remaining, hex2.len() as u128);
         print!("{}", &hex2[..take as usize]);
         hex_bytes_remaining -= take;
     }
-- 
2.43.0


From be7136c8f066575d19d8c422b9e53f1b295a9ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 3/5] fix: let the C hasher merge before it asserts that there
 is room on its stack

hasher_push_chunk_hash merges finished pairs before it pushes, so the stack
may be full on entry: after 2^53 - 2 whole chunks it holds 53 entries of
which two can be merged. The assertion ran before the merging and aborted on
a valid input.
---
 c/baokeshed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/baokeshed.c b/c/baokeshed.c
index 771a9f1..bb9a01e 100644
--- a/c/baokeshed.c
+++ b/c/baokeshed.c
@@ -157,10 +157,10 @@ INLINE void hasher_merge_parent(hasher *self) {
 
 INLINE void hasher_push_chunk_hash(hasher *self, uint8_t hash[OUT_LEN],
                                    uint64_t offset) {
-  assert(self->subtree_hashes_len < MAX_DEPTH);
   while (hasher_needs_merge(self, offset)) {
     hasher_merge_parent(self);
   }
+  assert(self->subtree_hashes_len < MAX_DEPTH);
   memcpy(&self->subtree_hashes[self->subtree_hashes_len * OUT_LEN], hash,
          OUT_LEN);
   self->subtree_hashes_len += 1;
-- 
2.43.0


From 61cd62764adefcc713fa3ca204d181d74bab06e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 4/5] fix: refuse arguments that only look like options instead
 of hashing without the key

---
 baokeshed_bin/src/main.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/baokeshed_bin/src/main.rs b/baokeshed_bin/src/main.rs
index 8df93ff..a638c62 100644
--- a/baokeshed_bin/src/main.rs
+++ b/baokeshed_bin/src/main.rs
@@ -1,6 +1,7 @@
 use anyhow::{bail, Result};
 use serde::Deserialize;
 use std::cmp;
+use std::env;
 use std::fs::File;
 use std::io;
 use std::io::prelude::*;
@@ -87,7 +88,22 @@ fn print_hex(output: &mut baokeshed::Output, byte_length: u64) {
     }
 }
 
+// An argument like "--key=<hex>\n" is not an option to docopt, because of the whitespace in it, and
+// comes back as an input. Hashing the other inputs without the key would be wrong. Only what follows
+// a "--" is an input whatever it looks like.
+fn check_inputs(args: &Args) -> Result<()> {
+    let literal_inputs = env::args_os().skip_while(|arg| arg != "--").skip(1).count();
+    for input in args.arg_inputs.iter().rev().skip(literal_inputs) {
+        let input_str = input.to_string_lossy();
+        if input_str.starts_with('-') && input_str != "-" {
+            bail!("unknown argument: {:?}", input_str);
+        }
+    }
+    Ok(())
+}
+
 fn hash(args: &Args) -> Result<()> {
+    check_inputs(args)?;
     let byte_length = args.flag_length.unwrap_or(baokeshed::OUT_LEN as u64);
     let derive_key = args.flag_derive_key.is_some();
     let key = if let Some(key_str) = args.flag_key.as_ref().or(args.flag_derive_key.as_ref()) {
-- 
2.43.0


From e9028b2f20402e11b6a738931c7317fa7063e187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 5/5] fix: only "-" itself stands for standard input

Paths compare equal to "-" with a slash or "/." at the end, too, so
"baokeshed -- -/" hashed standard input and succeeded, where the name is
that of a directory, or of nothing.
---
 baokeshed_bin/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baokeshed_bin/src/main.rs b/baokeshed_bin/src/main.rs
index a638c62..e256f19 100644
--- a/baokeshed_bin/src/main.rs
+++ b/baokeshed_bin/src/main.rs
@@ -182,7 +182,7 @@ impl Read for Input {
 
 fn path_if_some_and_not_dash(maybe_path: &Option<PathBuf>) -> Option<&Path> {
     if let Some(ref path) = maybe_path {
-        if path == Path::new("-") {
+        if path.as_os_str() == "-" {
             None
         } else {
             Some(path)
-- 
2.43.0

