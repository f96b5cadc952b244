From 4c74085bfad6a3fee9737586b4b3254c3b6b90a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 1/7] fix: refuse a global signature that is not 64 bytes long

A shorter one made verify() panic, and bytes after the first 64 were ignored.
---
 src/signature_box.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/signature_box.rs b/src/signature_box.rs
index 970c11a..6022f83 100644
--- a/src/signature_box.rs
+++ b/src/signature_box.rs
@@ -119,6 +119,12 @@ impl SignatureBox {
         sig_and_trusted_comment.extend_from_slice(trusted_comment_str.trim().as_bytes());
         let global_sig = Base64::decode_to_vec(global_sig.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
+        if global_sig.len() != SIGNATURE_BYTES {
+            return Err(PError::new(
+                ErrorKind::Encoding,
+                "Invalid global signature length",
+            ));
+        }
         Ok(SignatureBox {
             untrusted_comment,
             signature,
-- 
2.43.0


From d9e1dd5c4419acf37169b253f79e5760b8a7b6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 2/7] fix: refuse a signature box whose signature field has
 extra bytes

Bytes after the 74 expected ones were silently ignored.
---
 src/signature_box.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/signature_box.rs b/src/signature_box.rs
index 6022f83..aa95d99 100644
--- a/src/signature_box.rs
+++ b/src/signature_box.rs
@@ -95,6 +95,12 @@ impl SignatureBox {
         let untrusted_comment = untrusted_comment[COMMENT_PREFIX.len()..].to_string();
         let sig_bytes = Base64::decode_to_vec(signature_str.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
+        if sig_bytes.len() != Signature::BYTES {
+            return Err(PError::new(
+                ErrorKind::Encoding,
+                "Invalid signature length",
+            ));
+        }
         let signature = Signature::from_bytes(&sig_bytes)?;
         if !trusted_comment_str.starts_with(TRUSTED_COMMENT_PREFIX) {
             return Err(PError::new(
-- 
2.43.0


From df084aae6712887993ec7bde105e8d1ef9316be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 3/7] fix: keep white space around the trusted comment when
 loading a signature

The comment is signed as given, so trimming it made signatures whose comment
starts or ends with white space fail to verify once reloaded.
---
 src/signature_box.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature_box.rs b/src/signature_box.rs
index aa95d99..a4d6516 100644
--- a/src/signature_box.rs
+++ b/src/signature_box.rs
@@ -122,7 +122,7 @@ impl SignatureBox {
             .drain(..TRUSTED_COMMENT_PREFIX_LEN)
             .count();
         let mut sig_and_trusted_comment = signature.sig.to_vec();
-        sig_and_trusted_comment.extend_from_slice(trusted_comment_str.trim().as_bytes());
+        sig_and_trusted_comment.extend_from_slice(trusted_comment_str.as_bytes());
         let global_sig = Base64::decode_to_vec(global_sig.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
         if global_sig.len() != SIGNATURE_BYTES {
-- 
2.43.0


From f666ab12d92c2b716acefb5053a39235cfe68800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 4/7] fix: encrypt the secret key with an empty password too

The key was stored in the clear but marked as encrypted, and could never be
opened again.
---
 src/keypair.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/keypair.rs b/src/keypair.rs
index b1fa922..e4897b4 100644
--- a/src/keypair.rs
+++ b/src/keypair.rs
@@ -100,9 +100,8 @@ impl KeyPair {
                 password
             }
         };
-        if !password.is_empty() {
-            sk = sk.encrypt(password)?;
-        } else if interactive {
+        sk = sk.encrypt(password)?;
+        if interactive {
             writeln!(io::stdout(), "done").map_err(|e| PError::new(ErrorKind::Io, e))?;
         }
         Ok(KeyPair { pk, sk })
-- 
2.43.0


From 9dc37588edf7828d359bd9aed1361449d479dbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 5/7] fix: output only the bytes that were verified

A reader that was not at its start had everything before its position written
out too, although that part had not been verified.
---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1645d72..7407f6c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,7 +22,7 @@ mod signature_box;
 #[cfg(test)]
 mod tests;
 
-use std::io::{self, Read, Seek, Write};
+use std::io::{self, Read, Seek, SeekFrom, Write};
 
 use getrandom::getrandom;
 
@@ -142,6 +142,11 @@ pub fn verify<R>(
 where
     R: Read + Seek,
 {
+    let start = if output {
+        data_reader.stream_position()?
+    } else {
+        0
+    };
     let data = if signature_box.is_prehashed() {
         prehash(&mut data_reader)?
     } else {
@@ -199,7 +204,7 @@ where
         }
     }
     if output {
-        data_reader.rewind()?;
+        data_reader.seek(SeekFrom::Start(start))?;
         let mut buf = vec![0; 65536];
         loop {
             let len = data_reader.read(&mut buf)?;
-- 
2.43.0


From fbf3f590de40573041c2fb25bf5165a43f75ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 6/7] fix: bound the scrypt parallelism taken from a stored key

A large opslimit was truncated to 32 bits before being capped, and parameters
needing up to 128 GiB for the parallel blocks made loading a key abort.
---
 src/helpers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index 68cc253..8c96b8a 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -64,10 +64,10 @@ pub fn raw_scrypt_params(memlimit: usize, opslimit: u64, n_log2_max: u8) -> Resu
             }
             n_log2 += 1;
         }
-        let maxrp = cmp::min(0x3fff_ffff_u32, ((opslimit / 4) / (1u64 << n_log2)) as u32);
+        let maxrp = cmp::min(0x3fff_ffff, (opslimit / 4) / (1u64 << n_log2)) as u32;
         p = maxrp / r;
     }
-    if n_log2 > n_log2_max {
+    if n_log2 > n_log2_max || 128 * u64::from(r) * u64::from(p) > MEMLIMIT_MAX as u64 {
         return Err(PError::new(ErrorKind::KDF, "scrypt parameters too high"));
     }
     scrypt::Params::new(n_log2, r, p, scrypt::Params::RECOMMENDED_LEN).map_err(Into::into)
-- 
2.43.0


From 66f3c00489a6b17af67945cafc1846328dcc78db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 7/7] fix: refuse Ed25519 signatures whose scalar is not below
 the group order

The order was stored big-endian but compared as little-endian, so adding it to
the scalar of a signature gave other signatures that verified too.
---
 src/crypto/ed25519.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ed25519.rs b/src/crypto/ed25519.rs
index be32377..df11a96 100644
--- a/src/crypto/ed25519.rs
+++ b/src/crypto/ed25519.rs
@@ -2,8 +2,8 @@ use super::curve25519::{ge_scalarmult_base, is_identity, sc_muladd, sc_reduce, G
 use super::sha512;
 
 static L: [u8; 32] = [
-    0x10, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
-    0x14, 0xde, 0xf9, 0xde, 0xa2, 0xf7, 0x9c, 0xd6, 0x58, 0x12, 0x63, 0x1a, 0x5c, 0xf5, 0xd3, 0xed,
+    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10,
 ];
 
 fn check_s_lt_l(s: &[u8]) -> bool {
-- 
2.43.0

