From 3909deddaee161bd678992351ea687bffc0faab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 1/8] fix: count SHA256 message length in 64 bits on every
 platform

The length was kept in a usize, so where usize is 32 bits wide the bit
length overflowed for messages of 512 MiB and more: a panic with overflow
checks, a wrong digest without.
---
 src/sha256.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sha256.rs b/src/sha256.rs
index 13095ef..efef351 100644
--- a/src/sha256.rs
+++ b/src/sha256.rs
@@ -169,7 +169,7 @@ fn write_u64_be(data: &mut [u8], value: u64) {
 pub struct SHA256 {
     h: [u32; 8],
     buffer: [u8; BLOCK_SIZE],
-    length: usize,
+    length: u64,
 }
 
 impl SHA256 {
@@ -283,13 +283,13 @@ impl SHA256 {
         let mut block: [u32; BLOCK_SIZE / 4] = [0; BLOCK_SIZE / 4];
 
         for &b in data {
-            let off = self.length % BLOCK_SIZE;
+            let off = (self.length % BLOCK_SIZE as u64) as usize;
 
             // Fill the buffer
             self.buffer[off] = b;
             self.length += 1;
 
-            if self.length % BLOCK_SIZE != 0 {
+            if self.length % BLOCK_SIZE as u64 != 0 {
                 continue;
             }
 
@@ -326,7 +326,7 @@ impl SHA256 {
         // NOTE: It is simple to calculate `k`, but having it is a bit useless,
         // since we know that this algorithm just wants to zero the rest of the
         // block and to put the 64bit length to the end
-        let mut off = self.length % BLOCK_SIZE;
+        let mut off = (self.length % BLOCK_SIZE as u64) as usize;
 
         // (b)
         for i in off..self.buffer.len() {
@@ -351,7 +351,7 @@ impl SHA256 {
 
         // (c)
         let len_off = self.buffer.len() - 8;
-        write_u64_be(&mut self.buffer[len_off..], (self.length * 8) as u64);
+        write_u64_be(&mut self.buffer[len_off..], self.length * 8);
 
         // (a)
         if !has_overflow {
-- 
2.43.0


From 2ef7194a5a1616542eddb568ecef7b85328e3973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 2/8] fix: reject zero as a PKCS7 padding length

A final block ending with a zero byte is not validly padded, but it was
returned whole instead of being reported as InvalidPadding.
---
 src/pkcs7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index eb50bb2..090af7a 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -125,7 +125,7 @@ impl Unpad {
         }
 
         let len = self.storage[self.storage.len() - 1];
-        if len > (self.block_size as u8) {
+        if len == 0 || len > (self.block_size as u8) {
             return Err(UnpadError::InvalidPadding);
         }
         let pad_off: usize = self.block_size - usize::from(len);
-- 
2.43.0


From 25e26a0ca1e1bcafdca26a967322a145b6cf0e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 3/8] fix: report a partial trailing ciphertext block from
 Decipher::flush

Bytes after the last full block were silently ignored, so ciphertext whose
length is not a multiple of the block size could be accepted.
---
 src/aes_cbc.rs | 5 +++++
 src/pkcs7.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/aes_cbc.rs b/src/aes_cbc.rs
index 7cde4d3..d86a214 100644
--- a/src/aes_cbc.rs
+++ b/src/aes_cbc.rs
@@ -215,6 +215,11 @@ impl Decipher {
 
     /// Decrypt and return final cleartext data
     pub fn flush(&mut self) -> Result<Vec<u8>, DecipherError> {
+        // Ciphertext must not end with a partial block
+        if self.buffer.pending() != 0 {
+            return Err(DecipherError::PKCS7(pkcs7::UnpadError::UnfinishedBlock));
+        }
+
         match self.unpad.flush() {
             Err(err) => Err(DecipherError::PKCS7(err)),
             Ok(block) => Ok(block),
diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index 090af7a..e0efb48 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -40,6 +40,11 @@ impl Pad {
         Some(head)
     }
 
+    /// Number of bytes that do not make up a full block yet
+    pub fn pending(&self) -> usize {
+        self.storage.len()
+    }
+
     pub fn flush(&mut self) -> Vec<u8> {
         let len = self.block_size - self.storage.len();
         while self.storage.len() < self.block_size {
-- 
2.43.0


From e663469e90996632e310cc6781f3c819f431fa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 4/8] fix: keep AES-CBC stream intact when an operation fails
 without a key

Cipher::write, Cipher::flush and Decipher::write consumed the buffered
data before reporting NotInitialized: bytes accepted earlier were lost and
the tail of the rejected write stayed in the stream.
---
 src/aes.rs     |  4 ++++
 src/aes_cbc.rs | 14 ++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/aes.rs b/src/aes.rs
index 7ce0a82..4ceb0fd 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -345,6 +345,10 @@ impl AES {
         Ok(())
     }
 
+    pub(crate) fn is_initialized(&self) -> bool {
+        self.round_keys.is_some()
+    }
+
     /// Encrypt block of data.
     pub fn encrypt(&self, b: &[u8; BLOCK_SIZE]) -> Result<[u8; BLOCK_SIZE], AESError> {
         let nr = self.round_count;
diff --git a/src/aes_cbc.rs b/src/aes_cbc.rs
index d86a214..596e0d5 100644
--- a/src/aes_cbc.rs
+++ b/src/aes_cbc.rs
@@ -63,6 +63,11 @@ impl Cipher {
 
     /// Encrypt data
     pub fn write(&mut self, b: &[u8]) -> Result<Vec<u8>, AESError> {
+        // Don't consume data that can't be encrypted
+        if !self.aes.is_initialized() && self.pad.pending() + b.len() >= BLOCK_SIZE {
+            return Err(AESError::NotInitialized);
+        }
+
         let blocks = match self.pad.write(b) {
             None => {
                 return Ok(vec![]);
@@ -80,6 +85,10 @@ impl Cipher {
 
     /// Encrypt and return final cipher block
     pub fn flush(&mut self) -> Result<Vec<u8>, AESError> {
+        if !self.aes.is_initialized() {
+            return Err(AESError::NotInitialized);
+        }
+
         let block = self.pad.flush();
         Ok(self.encrypt_block(&block)?)
     }
@@ -185,6 +194,11 @@ impl Decipher {
 
     /// Decrypt data
     pub fn write(&mut self, b: &[u8]) -> Result<Vec<u8>, DecipherError> {
+        // Don't consume data that can't be decrypted
+        if !self.aes.is_initialized() && self.buffer.pending() + b.len() >= BLOCK_SIZE {
+            return Err(DecipherError::AES(AESError::NotInitialized));
+        }
+
         let blocks = match self.buffer.write(b) {
             Some(blocks) => blocks,
             None => {
-- 
2.43.0


From 01595a7a258ebe8f01c977a0f3bf8cb5e95e35dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 5/8] fix: reject scrypt cost parameter n = 1

The cost parameter must be larger than 1, as documented and as the error
description says, but 1 was accepted.
---
 src/scrypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index 3629c7e..a27a27e 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -231,7 +231,7 @@ impl Scrypt {
             return Err(ScryptError::RIsTooSmall);
         }
 
-        if self.n < 1 {
+        if self.n < 2 {
             return Err(ScryptError::NIsTooSmall);
         }
 
-- 
2.43.0


From 6dafca524d06fac78fbefe0b79aeb56ca8285770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 6/8] fix: reject scrypt parameters n and p above their
 documented limits

Only the lower limits were checked. With a large p the size of the work
area overflowed: a panic with overflow checks, and without them a key that
did not depend on n, r and p at all was returned as Ok.
---
 src/scrypt.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index a27a27e..b0ee8e3 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -25,6 +25,8 @@ pub enum ScryptError {
     NIsTooSmall,
     NIsNotAPowerOfTwo,
     PIsTooSmall,
+    NIsTooLarge,
+    PIsTooLarge,
 }
 
 impl Display for ScryptError {
@@ -40,6 +42,8 @@ impl Error for ScryptError {
             ScryptError::NIsTooSmall => "`n` must be larger than 1",
             ScryptError::NIsNotAPowerOfTwo => "`n` must be a power of two",
             ScryptError::PIsTooSmall => "`p` must be larger than 1",
+            ScryptError::NIsTooLarge => "`n` must be less than 2 ^ (16 * r)",
+            ScryptError::PIsTooLarge => "`p` must be at most (2 ^ 32 - 1) / (4 * r)",
         }
     }
 }
@@ -243,6 +247,15 @@ impl Scrypt {
             return Err(ScryptError::PIsTooSmall);
         }
 
+        // NOTE: `n` always fits when 2 ^ (16 * r) is not a 64-bit number
+        if self.r < 4 && (self.n as u64) >> (16 * self.r) != 0 {
+            return Err(ScryptError::NIsTooLarge);
+        }
+
+        if self.p > (u32::max_value() / 4) as usize / self.r {
+            return Err(ScryptError::PIsTooLarge);
+        }
+
         //
         //   Algorithm scrypt
         //
@@ -276,7 +289,10 @@ impl Scrypt {
         //
 
         // Step 1
-        let mut raw_b: Vec<u8> = vec![0; self.p * 2 * BLOCK_SIZE * self.r];
+        let raw_len = (self.p * self.r)
+            .checked_mul(2 * BLOCK_SIZE)
+            .ok_or(ScryptError::PIsTooLarge)?;
+        let mut raw_b: Vec<u8> = vec![0; raw_len];
         pbkdf2_sha256(passphrase, salt, PBKDF2_ROUNDS, &mut raw_b);
 
         let mut b: Vec<Vec<Block>> = raw_b
-- 
2.43.0


From ad9120791bebe1c077c8d41030a776add5a2f4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 7/8] fix: process every block of salsa20 input

Inputs of several blocks are allowed by the documentation, but only the
first block of output was written and the rest was left as it was.
---
 src/salsa20.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/salsa20.rs b/src/salsa20.rs
index 1ccde8b..798ed20 100644
--- a/src/salsa20.rs
+++ b/src/salsa20.rs
@@ -162,6 +162,12 @@ fn littleendian_inv(x: u32, y: &mut [u8]) {
 /// ```
 ///
 pub fn salsa20(input: &[u8], rounds: usize, output: &mut [u8]) {
+    for (x, y) in input.chunks(BLOCK_SIZE).zip(output.chunks_mut(BLOCK_SIZE)) {
+        salsa20_block(x, rounds, y);
+    }
+}
+
+fn salsa20_block(input: &[u8], rounds: usize, output: &mut [u8]) {
     //
     // In short: Salsa20(x) = x + doubleround^10(x), where each 4-byte sequence is
     // viewed as a word in little-endian form.
-- 
2.43.0


From c21a59fa304b8c61045759bda5ab190050130a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:26 +0000
Subject: [PATCH 8/8] fix: state the limits of scrypt parameters r and p as
 they are enforced

---
 src/scrypt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index b0ee8e3..66f18b9 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -38,10 +38,10 @@ impl Display for ScryptError {
 impl Error for ScryptError {
     fn description(&self) -> &str {
         match self {
-            ScryptError::RIsTooSmall => "`r` must be larger than 1",
+            ScryptError::RIsTooSmall => "`r` must be at least 1",
             ScryptError::NIsTooSmall => "`n` must be larger than 1",
             ScryptError::NIsNotAPowerOfTwo => "`n` must be a power of two",
-            ScryptError::PIsTooSmall => "`p` must be larger than 1",
+            ScryptError::PIsTooSmall => "`p` must be at least 1",
             ScryptError::NIsTooLarge => "`n` must be less than 2 ^ (16 * r)",
             ScryptError::PIsTooLarge => "`p` must be at most (2 ^ 32 - 1) / (4 * r)",
         }
@@ -97,7 +97,7 @@ impl Scrypt {
     /// Create new instance of Scrypt.
     ///
     /// Arguments:
-    /// - `r` Block size parameter, must be larger than 1
+    /// - `r` Block size parameter, must be at least 1
     /// - `n` CPU/Memory cost parameter, must be larger than 1,
     ///       a power of 2 and less than 2 ^ (16 * r)
     /// - `p` Parallelization parameter, a positive integer
-- 
2.43.0

