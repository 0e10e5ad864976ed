From 6b354c1dc793663a4c3f1665ec60f9f67de0156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:05 +0000
Subject: [PATCH 01/62] fix: SHA-512/t counts the bytes hashed for its initial
 value as message bytes

The message length encoded by the padding was 128 bytes too large, so every
SHA-512/t digest made through SHA512T was wrong.
---
 src/sha/sha512.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index a272922..cd93578 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -206,6 +206,7 @@ impl SHA512T {
             sha_.write(s.as_bytes());
             let mut _x = Vec::new();
             sha_.checksum(&mut _x);
+            sha_.len = 0;
             sha_.is_checked = false;
             Some(
                 SHA512T {
-- 
2.43.0


From 7d4b218ad764622816f4801bf10e7fbd1af91473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:05 +0000
Subject: [PATCH 02/62] fix: SHA-512/t shifts the last partial byte to the
 wrong position

For t that is not a multiple of 8 the kept bits were shifted back by t mod 8
instead of 8 - t mod 8.
---
 src/sha/sha512.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index cd93578..3c4b6cf 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -240,7 +240,7 @@ impl Digest for SHA512T {
         match digest.pop() {
             Some(x) => {
                 let y = if rom > 0 {
-                    (x >> (8 - rom)) << rom
+                    (x >> (8 - rom)) << (8 - rom)
                 } else {
                     x
                 };
-- 
2.43.0


From 6a1540d917aa6206b600af96d7cc433430180e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:05 +0000
Subject: [PATCH 03/62] fix: MD5, SHA-1, SHA-2 and SM3 mix a finished message
 into the next one

Data written after checksum() continued from the padded state. It now begins
a new message, and writing nothing leaves the finished digest as it is.
---
 src/md5/md5.rs    |  6 ++++++
 src/sha/sha1.rs   |  6 ++++++
 src/sha/sha256.rs |  9 +++++++++
 src/sha/sha512.rs | 12 ++++++++++++
 src/sm3/sm3.rs    |  6 ++++++
 5 files changed, 39 insertions(+)

diff --git a/src/md5/md5.rs b/src/md5/md5.rs
index 97a6de0..ec86342 100644
--- a/src/md5/md5.rs
+++ b/src/md5/md5.rs
@@ -39,6 +39,12 @@ impl Digest for MD5 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if data.is_empty() {
+            return;
+        }
+        if self.is_checked {
+            self.reset();
+        }
         let mut data = data;
         self.len += data.len();
 
diff --git a/src/sha/sha1.rs b/src/sha/sha1.rs
index 0038e90..c420186 100644
--- a/src/sha/sha1.rs
+++ b/src/sha/sha1.rs
@@ -35,6 +35,12 @@ impl Digest for SHA1 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if data.is_empty() {
+            return;
+        }
+        if self.is_checked {
+            self.reset();
+        }
         let mut data = data;
         self.len += data.len();
 
diff --git a/src/sha/sha256.rs b/src/sha/sha256.rs
index 4cf23f4..c4dcbb6 100644
--- a/src/sha/sha256.rs
+++ b/src/sha/sha256.rs
@@ -35,6 +35,12 @@ impl Digest for SHA256 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if data.is_empty() {
+            return;
+        }
+        if self.is_checked {
+            self.reset();
+        }
         let mut bytes = data;
 
         self.len += bytes.len();
@@ -126,6 +132,9 @@ impl Digest for SHA224 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.sha_.is_checked && !data.is_empty() {
+            self.reset();
+        }
         self.sha_.write(data);
     }
 
diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index 3c4b6cf..920d762 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -38,6 +38,12 @@ impl Digest for SHA512 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if data.is_empty() {
+            return;
+        }
+        if self.is_checked {
+            self.reset();
+        }
         let mut bytes = data;
 
         self.len += bytes.len();
@@ -169,6 +175,9 @@ macro_rules! impl_digest_for_sha512_series {
             }
         
             fn write(&mut self, data: &[u8]) {
+                if self.sha_.is_checked && !data.is_empty() {
+                    self.reset();
+                }
                 self.sha_.write(data);
             }
         
@@ -230,6 +239,9 @@ impl Digest for SHA512T {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if self.sha_.is_checked && !data.is_empty() {
+            self.reset();
+        }
         self.sha_.write(data);
     }
 
diff --git a/src/sm3/sm3.rs b/src/sm3/sm3.rs
index b2ae5d7..d080a75 100644
--- a/src/sm3/sm3.rs
+++ b/src/sm3/sm3.rs
@@ -124,6 +124,12 @@ impl Digest for SM3 {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if data.is_empty() {
+            return;
+        }
+        if self.is_checked {
+            self.reset();
+        }
         let mut data = data;
         self.len += data.len();
         
-- 
2.43.0


From 95e93ca7a1d4bc8701bd1d83937713db10ad3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:02 +0000
Subject: [PATCH 04/62] fix: KeccakSponge accepts rates that are zero or not
 below the width

---
 src/keccak/keccak.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keccak/keccak.rs b/src/keccak/keccak.rs
index 0e9185e..682336c 100644
--- a/src/keccak/keccak.rs
+++ b/src/keccak/keccak.rs
@@ -393,7 +393,7 @@ impl KeccakSponge {
     /// Sponge[Keccak-p[b,nr], pad10*1, rate]  
     /// `rate` must be a positive integer and strictly less than the width `self.widths()`.
     pub fn new(keccak: Keccak, rate: usize) -> Result<KeccakSponge, CryptoError> {
-        if rate > 0 || rate < keccak.widths() {
+        if rate > 0 && rate < keccak.widths() {
             Ok(KeccakSponge {
                 rate,
                 keccak,
-- 
2.43.0


From 5a1cc6072a54bafd8bdb196c153313f83ae84d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:02 +0000
Subject: [PATCH 05/62] fix: Keccak-p round constants are wrong for negative
 round indices

They occur when more rounds than 12 + 2l are asked for. The index was masked
to 32 bits and negated instead of being reduced modulo 255.
---
 src/keccak/keccak.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/keccak/keccak.rs b/src/keccak/keccak.rs
index 682336c..0c1be83 100644
--- a/src/keccak/keccak.rs
+++ b/src/keccak/keccak.rs
@@ -285,8 +285,7 @@ impl Keccak {
     
     fn rc(t: i64) -> u8 {
         const MODULUS: usize = 255;
-        let t = if t >= 0 {Self::minus_rem_euclid((t & 0xffffffff) as usize,0, MODULUS)}
-            else {Self::minus_rem_euclid(0, (t & 0xffffffff) as usize, MODULUS)};
+        let t = t.rem_euclid(MODULUS as i64) as usize;
         
         if t == 0 {
             1
-- 
2.43.0


From 32e0eba0d6dcb0dd73d5889337b126d2d8cf6972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:02 +0000
Subject: [PATCH 06/62] fix: Keccak permutation reads its input in reversed
 byte and bit order

The output and the sponge use the bit order of FIPS 202, the input of
permutation() did not, so the result was not Keccak-p of the input.
---
 src/keccak/keccak.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keccak/keccak.rs b/src/keccak/keccak.rs
index 0c1be83..6228c49 100644
--- a/src/keccak/keccak.rs
+++ b/src/keccak/keccak.rs
@@ -34,8 +34,8 @@ impl KeccakStateArr {
             sheet.iter_mut().enumerate().for_each(|(y, lane)| {
                 lane.iter_mut().take(w).enumerate().for_each(|(z, e)| {
                     let idx = (w * ((KECCAK_Y_SIZE * y) + x)) + z;
-                    let (num, rom) = (idx >> 3, 7 - (idx & 7));
-                    let tmp = s[s.len() - num - 1];
+                    let (num, rom) = (idx >> 3, idx & 7);
+                    let tmp = s[num];
                     *e = (tmp >> rom) & 1;
                 });
             });
-- 
2.43.0


From 3316569dd85b0b26f7a8b6e9b5c944dd62486f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:08 +0000
Subject: [PATCH 07/62] fix: 128-EIA3 of an empty message or of several writes

Every write drew two fresh keystream words and restarted the bit position,
so a message split over writes got another MAC than in one write, and the
MAC of an empty message used no keystream at all.
---
 src/zuc/zuc_mac.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/zuc/zuc_mac.rs b/src/zuc/zuc_mac.rs
index 0f91371..49ca806 100644
--- a/src/zuc/zuc_mac.rs
+++ b/src/zuc/zuc_mac.rs
@@ -38,17 +38,18 @@ impl ZUCMac {
             iv[15] = iv[7];
 
             match ZUC::from_slice(ck, iv.as_ref()) {
-                Ok(z) => {
+                Ok(mut z) => {
                     let mut tmp = [0u8; 16];
                     tmp.iter_mut().zip(ck.iter()).for_each(|(e, &k)| {
                         *e = k;
                     });
+                    let (key0, key1) = (z.zuc(), z.zuc());
                     Ok(ZUCMac {
                         zuc: z,
                         ck: tmp,
                         iv,
-                        key0: 0,
-                        key1: 0,
+                        key0,
+                        key1,
                         length: 0,
                         t: 0,
                         is_check: false,
@@ -82,10 +83,8 @@ impl Digest for ZUCMac {
         
         let bound = data.len() << 3;
         
-        self.key0 = self.zuc.zuc();
-        self.key1 = self.zuc.zuc();
         for i in 0..bound {
-            let rem = i & 31;
+            let rem = (self.length + i) & 31;
             if Self::is_one(data, i) {
                 if rem == 0 {
                     self.t ^= self.key0;
@@ -121,8 +120,8 @@ impl Digest for ZUCMac {
 
     fn reset(&mut self) {
         self.zuc.set_slice(self.ck.as_ref(), self.iv.as_ref()).unwrap();
-        self.key0 = 0;
-        self.key1 = 0;
+        self.key0 = self.zuc.zuc();
+        self.key1 = self.zuc.zuc();
         self.length = 0;
         self.t = 0;
     }
-- 
2.43.0


From a3f7dbb3c6117cbdebd4a7d9d3518eb1a6ecc5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:08 +0000
Subject: [PATCH 08/62] fix: ask a ZUCMac for its checksum more than once

The object never remembered that the MAC was complete, so a second checksum
call mixed in more keystream, and data written afterwards continued the old
message.
---
 src/zuc/zuc_mac.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zuc/zuc_mac.rs b/src/zuc/zuc_mac.rs
index 49ca806..0221fe1 100644
--- a/src/zuc/zuc_mac.rs
+++ b/src/zuc/zuc_mac.rs
@@ -77,7 +77,7 @@ impl Digest for ZUCMac {
     }
 
     fn write(&mut self, data: &[u8]) {
-        if self.is_check {
+        if self.is_check && !data.is_empty() {
             self.reset();
         }
         
@@ -112,6 +112,7 @@ impl Digest for ZUCMac {
                 self.t ^= self.zuc.zuc();
             }
 
+            self.is_check = true;
         }
         
         digest.clear();
@@ -124,5 +125,6 @@ impl Digest for ZUCMac {
         self.key1 = self.zuc.zuc();
         self.length = 0;
         self.t = 0;
+        self.is_check = false;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 1e88bf9ea2419cd5af87439c8cb72d55ec577608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:08 +0000
Subject: [PATCH 09/62] fix: an empty write after the checksum of SHA-3 and
 SHAKE

Writing nothing after the checksum discarded the finished message, so the
next checksum was that of the empty message.
---
 src/sha3/sha3.rs  | 4 ++++
 src/sha3/shake.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/sha3/sha3.rs b/src/sha3/sha3.rs
index 0086a99..144d5bc 100644
--- a/src/sha3/sha3.rs
+++ b/src/sha3/sha3.rs
@@ -150,6 +150,10 @@ macro_rules! impl_sha3sub {
             }
         
             fn write(&mut self, data: &[u8]) {
+                if data.is_empty() {
+                    return;
+                }
+                
                 self.sponge.write_to_buf(data, data.len() << 3);
                 
                 self.is_checked = false;
diff --git a/src/sha3/shake.rs b/src/sha3/shake.rs
index c6495b0..55a4dba 100644
--- a/src/sha3/shake.rs
+++ b/src/sha3/shake.rs
@@ -58,6 +58,10 @@ macro_rules! impl_shake {
             }
         
             fn write(&mut self, data: &[u8]) {
+                if data.is_empty() {
+                    return;
+                }
+                
                 self.sponge.write_to_buf(data, data.len() << 3);
                 
                 self.is_checked = false;
-- 
2.43.0


From 7374affcb0e79ce8c148599420f4a0f5c1542846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:08 +0000
Subject: [PATCH 10/62] fix: an empty write after the checksum of HMAC and CMAC

Writing nothing after the checksum discarded the finished message, so the
next checksum was that of the empty message.
---
 src/cmac/cmac.rs | 4 ++++
 src/hmac/hmac.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/cmac/cmac.rs b/src/cmac/cmac.rs
index 5d95857..a39f0c3 100644
--- a/src/cmac/cmac.rs
+++ b/src/cmac/cmac.rs
@@ -122,6 +122,10 @@ impl<C: Cipher> Digest for CMAC<C> {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if data.is_empty() {
+            return;
+        }
+        
         let b = self.block_size().unwrap();
         if self.is_check {
             self.nonce.clear();
diff --git a/src/hmac/hmac.rs b/src/hmac/hmac.rs
index 312c6e4..849bbf0 100644
--- a/src/hmac/hmac.rs
+++ b/src/hmac/hmac.rs
@@ -105,6 +105,10 @@ impl<D: Digest>  Digest for HMAC<D> {
     }
 
     fn write(&mut self, data: &[u8]) {
+        if data.is_empty() {
+            return;
+        }
+        
         if self.is_checked {
             self.k0_i.truncate(self.df.block_size().unwrap());
             self.k0_o.truncate(self.df.block_size().unwrap());
-- 
2.43.0


From 8f4d4e7cf810ee059929fc8fdbc56b8a1079fb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:08 +0000
Subject: [PATCH 11/62] fix: length reported by ZUCCipher for data served from
 left-over keystream

The call produced the right bytes but reported zero of them.
---
 src/zuc/zuc_cipher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zuc/zuc_cipher.rs b/src/zuc/zuc_cipher.rs
index 2223a2a..61dec07 100644
--- a/src/zuc/zuc_cipher.rs
+++ b/src/zuc/zuc_cipher.rs
@@ -103,7 +103,7 @@ impl Cipher for ZUCCipher {
         self.get_key().truncate(self.get_key().len() - len);
         
         if plaintext_block.is_empty() {
-            return Ok(0);
+            return Ok(dst.len());
         }
 
         let len = (plaintext_block.len() + 3) >> 2;
-- 
2.43.0


From d107f8eb9a74a4344f2b543bb4b7afb3101be75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:26 +0000
Subject: [PATCH 12/62] fix: default padding adds a whole block of zeros to a
 complete block

SP 800-38A appends a 1 bit and the fewest 0 bits that complete the last
block. When the 1 bit alone completed it, another block was added.
---
 src/cipher_mode/padding.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cipher_mode/padding.rs b/src/cipher_mode/padding.rs
index 58f1990..0f45794 100644
--- a/src/cipher_mode/padding.rs
+++ b/src/cipher_mode/padding.rs
@@ -28,13 +28,9 @@ impl<C: Cipher> DefaultPadding<C> {
 impl<C: Cipher> Padding for DefaultPadding<C> {
     fn padding(&self, buf: &mut Vec<u8>) {
         buf.push(0x80);
-        let old_len = buf.len();
-        if self.block_size < old_len {
-            buf.resize(old_len + (self.block_size - (old_len % self.block_size)), 0);
-        } else if self.block_size > old_len {
-            buf.resize(self.block_size, 0);
-        } else {
-            buf.resize(self.block_size << 1, 0);
+        let remain = buf.len() % self.block_size;
+        if remain != 0 {
+            buf.resize(buf.len() + (self.block_size - remain), 0);
         }
     }
 
-- 
2.43.0


From a1184b549aefb95acc3a3fb1ed07d3f7bf82b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:26 +0000
Subject: [PATCH 13/62] fix: unpadding accepts data that does not end in a
 padding

Bytes that belong to no padding were skipped while looking for the 1 bit,
and the search ran past the last block, so malformed data was shortened
instead of refused.
---
 src/cipher_mode/padding.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cipher_mode/padding.rs b/src/cipher_mode/padding.rs
index 0f45794..40c615d 100644
--- a/src/cipher_mode/padding.rs
+++ b/src/cipher_mode/padding.rs
@@ -36,12 +36,14 @@ impl<C: Cipher> Padding for DefaultPadding<C> {
 
     fn unpadding(&self, buf: &mut Vec<u8>) -> Result<usize, CryptoError> {
         let mut len = 0;
-        for &e in buf.iter().rev() {
+        for &e in buf.iter().rev().take(self.block_size) {
             if e == 0 {
                 len += 1;
             } else if e == 0x80 {
                 buf.truncate(buf.len() - len - 1);
                 return Ok(buf.len());
+            } else {
+                break;
             }
         }
         
-- 
2.43.0


From 6615305a86891f6f55181c6d40b726ba31c0a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:26 +0000
Subject: [PATCH 14/62] fix: CBC does not chain the padded last block

The last block of a padded message was encrypted without being combined with
the previous ciphertext block, so decryption did not return the message.
---
 src/cipher_mode/cbc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 3c71d60..2f705a1 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -153,8 +153,12 @@ impl<C, P, IV> Cipher for CBC<C, P, IV>
         while !data.is_empty() {
             let len = std::cmp::min(block_len, data.len());
             let tmp = &data[..len];
-            match self.cipher.encrypt(txt, tmp) {
+            cur_iv.truncate(len);
+            Self::xor_iv(tmp, &mut cur_iv);
+            match self.cipher.encrypt(txt, cur_iv.as_slice()) {
                 Ok(_) => {
+                    cur_iv.clear();
+                    cur_iv.extend_from_slice(txt.as_slice());
                     dst.append(txt);
                     data = &data[len..];
                 },
-- 
2.43.0


From 7924a3cc40c13d561c1c9623015a61f9438e4702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:26 +0000
Subject: [PATCH 15/62] fix: CBC encryption stream keeps its chaining value
 after finishing

With nothing left to encrypt at the end, the next message was chained to the
previous one instead of starting from the initial vector.
---
 src/cipher_mode/cbc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 2f705a1..db5554c 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -308,8 +308,7 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
             Self::xor_iv(txt, tmp, &self.ij);
             match self.cbc.cipher.encrypt(&mut self.ij, txt.as_slice()) {
                 Ok(_) => {
-                    self.pond.append(&mut self.ij);
-                    self.ij.extend(self.cbc.cur_iv.iter());
+                    self.pond.extend(self.ij.iter());
                     data = &data[len..];
                 },
                 Err(e) => {
@@ -319,6 +318,8 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
         }
         
         self.data.clear();
+        self.ij.clear();
+        self.ij.extend(self.cbc.cur_iv.iter());
         Ok(Pond::new(&mut self.pond, true))
     }
 }
-- 
2.43.0


From a383d656ce695f7c05363017ab09bbc48ac4c500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:26 +0000
Subject: [PATCH 16/62] fix: finishing an ECB or CBC decryption stream that was
 given no data

Without padding an empty ciphertext is an empty message, as in the one-shot
call, but the stream reported an error.
---
 src/cipher_mode/cbc.rs | 8 +++++++-
 src/cipher_mode/ecb.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index db5554c..921ef9b 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -364,7 +364,13 @@ impl<C, P, IV> DecryptStream for CBCDecrypt<C, P, IV>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         let txt = self.cbc.get_buf();
-        match self.cbc.cipher.decrypt(txt, self.data.as_slice()) {
+        let res = if self.data.is_empty() {
+            txt.clear();
+            Ok(())
+        } else {
+            self.cbc.cipher.decrypt(txt, self.data.as_slice()).map(|_| {})
+        };
+        match res {
             Ok(_) => {
                 txt.iter_mut().zip(self.ij.iter()).for_each(|(a, &b)| {
                     *a ^= b;
diff --git a/src/cipher_mode/ecb.rs b/src/cipher_mode/ecb.rs
index 7640665..07804d0 100644
--- a/src/cipher_mode/ecb.rs
+++ b/src/cipher_mode/ecb.rs
@@ -305,7 +305,13 @@ impl<C, P> DecryptStream for ECBDecrypt<C, P>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         let txt = self.ecb.get_buf();
-        match self.ecb.cipher.decrypt(txt, self.data.as_slice()) {
+        let res = if self.data.is_empty() {
+            txt.clear();
+            Ok(())
+        } else {
+            self.ecb.cipher.decrypt(txt, self.data.as_slice()).map(|_| {})
+        };
+        match res {
             Ok(_) => {
                 if let Err(e) = self.ecb.padding.unpadding(txt) {
                     Err(e)
-- 
2.43.0


From 2fcd296e53431f1ecf18c17e5d29fa9ec303b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:26 +0000
Subject: [PATCH 17/62] fix: CFB without padding drops an incomplete last
 segment

The bytes after the last whole segment were silently left out of the
ciphertext. They are refused now, as in decryption.
---
 src/cipher_mode/cfb.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index 97961de..532cf76 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -199,6 +199,10 @@ impl<C, P, IV> Cipher for CFB<C, P, IV>
         let mut data = plaintext_block[(plaintext_block.len() - remain)..plaintext_block.len()].to_vec();
         
         self.padding.padding(&mut data);
+        if data.len() % self.s != 0 {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
+                format!("Wrong plaintext len: {}, the plaintext length(in bytes) should be a multiple of {}", plaintext_block.len(), self.s)));
+        }
 
         self.encrypt_inner(&mut ij, dst, data.as_slice())
     }
@@ -284,6 +288,10 @@ impl<C, P, IV> EncryptStream for CFBEncrypt<C, P, IV>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         self.cfb.padding.padding(&mut self.data);
+        if self.data.len() % self.cfb.s != 0 {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
+                format!("Wrong plaintext len, {} bytes left, the plaintext length(in bytes) should be a multiple of {}", self.data.len(), self.cfb.s)));
+        }
 
         if let Err(e) = self.cfb.encrypt_inner(&mut self.ij, &mut self.pond, self.data.as_slice()) {
             Err(e)
-- 
2.43.0


From d0006931b1308f68a67b03cc55e736d7b581be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:26 +0000
Subject: [PATCH 18/62] fix: CFB decryption stream panics or loses the padding
 at the end

An incomplete last segment made finish panic. The padding was removed from
whatever output had not been drawn off yet, so drawing it off early left the
padding in the message.
---
 src/cipher_mode/cfb.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index 532cf76..4693719 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -313,7 +313,10 @@ impl<C, P, IV> DecryptStream for CFBDecrypt<C, P, IV>
             self.data.extend_from_slice(data);
         }
         
-        let bound = self.data.len() - (self.data.len() % self.cfb.s);
+        // the last block is held back until `finish`, it may be the padding
+        let hold = self.cfb.cipher.block_size().unwrap_or(1);
+        let bound = self.data.len().saturating_sub(hold);
+        let bound = bound - (bound % self.cfb.s);
         let data = &self.data.as_slice()[..bound];
         
         if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut self.pond, data) {
@@ -329,12 +332,19 @@ impl<C, P, IV> DecryptStream for CFBDecrypt<C, P, IV>
     }
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
-        if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut self.pond, self.data.as_slice()) {
+        if self.data.len() % self.cfb.s != 0 {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
+                format!("Wrong ciphertext len, {} bytes left, the ciphertext length(in bytes) should be a multiple of {}", self.data.len(), self.cfb.s)));
+        }
+        
+        let (mut ij, mut tail) = (self.ij.clone(), Vec::with_capacity(self.data.len()));
+        if let Err(e) = self.cfb.decrypt_inner(&mut ij, &mut tail, self.data.as_slice()) {
             Err(e)
         } else {
-            if let Err(e) = self.cfb.padding.unpadding(&mut self.pond) {
+            if let Err(e) = self.cfb.padding.unpadding(&mut tail) {
                 return Err(e);
             } else {
+                self.pond.append(&mut tail);
                 self.data.clear();
                 self.ij.clear();
                 self.ij.extend(self.cfb.cur_iv.iter());
-- 
2.43.0


From 687a457ce777c896e8603482e0d5d583f2cf3b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:26 +0000
Subject: [PATCH 19/62] fix: a failed update_iv destroys the current initial
 vector

The source wrote straight into the current vector, so a failing source or one
of the wrong length left CBC, CFB and OFB objects unusable.
---
 src/cipher_mode/cbc.rs | 8 +++++---
 src/cipher_mode/cfb.rs | 8 +++++---
 src/cipher_mode/ofb.rs | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 921ef9b..8c7bd9b 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -50,12 +50,14 @@ impl<C, P, IV> CBC<C, P, IV>
     /// update initialization vectors
     pub fn update_iv(&mut self) -> Result<&Vec<u8>, CryptoError> {
         let block_len = self.cipher.block_size().unwrap_or(1);
-        match self.iv.initial_vec(&mut self.cur_iv) {
+        let mut iv = Vec::with_capacity(block_len);
+        match self.iv.initial_vec(&mut iv) {
             Ok(_) => {
-                if self.cipher.block_size().is_some() && block_len != self.cur_iv.len() {
+                if self.cipher.block_size().is_some() && block_len != iv.len() {
                     Err(CryptoError::new(CryptoErrorKind::InnerErr,
-                                                format!("Wrong IV len: {}, The IV len must be the {} in bytes", self.cur_iv.len(), block_len)))
+                                                format!("Wrong IV len: {}, The IV len must be the {} in bytes", iv.len(), block_len)))
                 } else {
+                    self.cur_iv = iv;
                     Ok(&self.cur_iv)
                 }
             },
diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index 4693719..2dd29e2 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -65,12 +65,14 @@ impl<C, P, IV> CFB<C, P, IV>
     /// update initialization vectors
     pub fn update_iv(&mut self) -> Result<&Vec<u8>, CryptoError> {
         let block_len = self.cipher.block_size().unwrap_or(1);
-        match self.iv.initial_vec(&mut self.cur_iv) {
+        let mut iv = Vec::with_capacity(block_len);
+        match self.iv.initial_vec(&mut iv) {
             Ok(_) => {
-                if self.cipher.block_size().is_some() && block_len != self.cur_iv.len() {
+                if self.cipher.block_size().is_some() && block_len != iv.len() {
                     Err(CryptoError::new(CryptoErrorKind::InnerErr,
-                                         format!("Wrong IV len: {}, the IV len must be the {} in bytes", self.cur_iv.len(), block_len)))
+                                         format!("Wrong IV len: {}, the IV len must be the {} in bytes", iv.len(), block_len)))
                 } else {
+                    self.cur_iv = iv;
                     Ok(&self.cur_iv)
                 }
             },
diff --git a/src/cipher_mode/ofb.rs b/src/cipher_mode/ofb.rs
index 1ebe0ca..71969b2 100644
--- a/src/cipher_mode/ofb.rs
+++ b/src/cipher_mode/ofb.rs
@@ -41,12 +41,14 @@ impl<C, IV> OFB<C, IV>
     
     pub fn update_iv(&mut self) -> Result<&Vec<u8>, CryptoError> {
         let len = self.cipher.block_size().unwrap_or(1);
-        if let Err(e) = self.iv.initial_vec(&mut self.cur_iv) {
+        let mut iv = Vec::with_capacity(len);
+        if let Err(e) = self.iv.initial_vec(&mut iv) {
             Err(e)
-        } else if self.cur_iv.len() != self.cipher.block_size().unwrap_or(self.cur_iv.len()) {
+        } else if iv.len() != self.cipher.block_size().unwrap_or(iv.len()) {
             return Err(CryptoError::new(CryptoErrorKind::InnerErr,
-                                        format!("Wrong IV len: {}, the IV len must be the {} in bytes", self.cur_iv.len(), len)));
+                                        format!("Wrong IV len: {}, the IV len must be the {} in bytes", iv.len(), len)));
         } else {
+            self.cur_iv = iv;
             Ok(&self.cur_iv)
         }
     }
-- 
2.43.0


From 2abbf660e6ba66e7e2934854cd962d4e5197b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:26 +0000
Subject: [PATCH 20/62] fix: CTR repeats its key stream when the counter is
 wider than the block

The most significant bytes of the counter were encrypted, which do not change
from one block to the next. The least significant block is used now.
---
 src/cipher_mode/ctr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cipher_mode/ctr.rs b/src/cipher_mode/ctr.rs
index 668faf5..e13d9ad 100644
--- a/src/cipher_mode/ctr.rs
+++ b/src/cipher_mode/ctr.rs
@@ -61,7 +61,7 @@ impl<C, T>  CTR<C, T>
         while !data.is_empty() {
             match self.get_counter().next() {
                 Some(c) => {
-                    match self.cipher.encrypt(oj, &c.as_slice()[..block_len]) {
+                    match self.cipher.encrypt(oj, &c.as_slice()[(c.len() - block_len)..]) {
                         Ok(_) => {
                             let len = std::cmp::min(block_len,data.len());
                             let block = &data[..len];
-- 
2.43.0


From 128a3f6ccf82db56a91e9099e99ff939024f2e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:44 +0000
Subject: [PATCH 21/62] fix: RSA key generation returns an invalid key when e
 divides p-1

---
 src/rsa/rsa.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 5d56232..5da59c6 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -485,9 +485,11 @@ impl PrivateKey {
                 continue 'next_set_of_primes;
             }
 
-            let pri_exp = pub_exp.mod_inverse(totient);
+            let pri_exp = pub_exp.mod_inverse(totient.deep_clone());
 
-            if !pri_exp.is_nan() {
+            // mod_inverse also returns a number if the exponent divides one of the p-1
+            let de = pri_exp.clone() * pub_exp.clone();
+            if !pri_exp.is_nan() && de.rem_euclid(totient) == bigone {
                 break (pri_exp, n);
             }
         };
-- 
2.43.0


From 2d590e97bc27558d51850a8adc2d6825afa91734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:44 +0000
Subject: [PATCH 22/62] fix: multi-prime RSA keys can contain the same prime
 twice

---
 src/rsa/rsa.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 5da59c6..76cdc51 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -466,8 +466,7 @@ impl PrivateKey {
             }
 
             // Make sure that primes is pairwise unequal.
-            primes.dedup();
-            if primes.len() != n_primes {
+            if (1..primes.len()).any(|i| primes[..i].contains(&primes[i])) {
                 continue'next_set_of_primes;
             }
 
-- 
2.43.0


From f03cf30c25250953d7308737ffcb02a721c101d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:44 +0000
Subject: [PATCH 23/62] fix: RSA decryption accepts or panics on integers out
 of range

---
 src/rsa/rsa.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 76cdc51..47935e3 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -246,14 +246,14 @@ impl PrivateKey {
     /// RSADP: RSA decrypt primitive  
     /// if `rd` is some, then enabled RSA blinding
     pub fn decrypt<R: IterSource<u32>>(&self, c: &BigInt, rd: Option<&mut R>) -> Result<BigInt, CryptoError> {
-        if c > &self.pk.n {
-            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The cipher text integer is too big"));
-        }
-        
         if self.pk.n.is_nan() || self.pk.n == 0u32 {
             return Err(CryptoError::new(CryptoErrorKind::InvalidPrivateKey, "Invalid modulus"));
         }
         
+        if c.is_nan() || c.signnum() == Some(-1) || c >= &self.pk.n {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The cipher text integer is out of range"));
+        }
+        
         if self.d.is_nan() {
             return Err(CryptoError::new(CryptoErrorKind::InvalidPrivateKey, "Private exponent is empty"));
         }
-- 
2.43.0


From b5cca97fd51a6444b8c87f5be40fd79eee8f5d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:44 +0000
Subject: [PATCH 24/62] fix: RSA blinding with a factor that is not invertible
 gives a wrong result

---
 src/rsa/rsa.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 47935e3..3a4410b 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -274,7 +274,9 @@ impl PrivateKey {
                     };
                     
                     let mi = r.mod_inverse(self.pk.n.clone());
-                    if !mi.is_nan() {
+                    // the inverse only exists if r and n are coprime
+                    let check = (r.clone() * mi.clone()).rem_euclid(self.pk.n.clone());
+                    if check == 1u32 {
                         break (r, Some(mi));
                     }
                 };
-- 
2.43.0


From 32c6abb873910ee32f579a1b321663368aa679bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:44 +0000
Subject: [PATCH 25/62] fix: RSA public keys without modulus or exponent are
 accepted

---
 src/rsa/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 3a4410b..9c272e6 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -107,7 +107,7 @@ impl PublicKey {
     }
     
     pub fn from_nat(modulus: &Nat, exponent: &Nat) -> Result<Self, CryptoError> {
-        if modulus <= exponent || exponent < &3u32 {
+        if modulus.is_nan() || exponent.is_nan() || modulus <= exponent || exponent < &3u32 {
             Err(CryptoError::new(CryptoErrorKind::InvalidParameter, ""))
         } else {
             Ok(
-- 
2.43.0


From 9b6f006881be3ed37c39b69fe07c6f3f03accfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:44 +0000
Subject: [PATCH 26/62] fix: an RSA public key changes with the numbers it was
 made from

---
 src/rsa/rsa.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 9c272e6..121d839 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -112,8 +112,8 @@ impl PublicKey {
         } else {
             Ok(
                 Self {
-                    n: BigInt::from(modulus.clone()),
-                    e: BigInt::from(exponent.clone()),
+                    n: BigInt::from(modulus.deep_clone()),
+                    e: BigInt::from(exponent.deep_clone()),
                 }
             )
         }
-- 
2.43.0


From d5970e1a3af0562555a018983073dbae48add045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:44 +0000
Subject: [PATCH 27/62] fix: RSA key generation never ends if there are too few
 primes of the size

---
 src/rsa/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 121d839..ce87810 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -416,7 +416,7 @@ impl PrivateKey {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "n_primes must be great or equal to 2"));
         }
         
-        if bits_len < 64 {
+        if bits_len / n_primes < 32 {
             let prime_limit= (1u64 << (bits_len / n_primes)) as f64;
             // pi approximates the number of primes less than primeLimit
             let mut pi = prime_limit / (prime_limit.ln() - 1f64);
-- 
2.43.0


From 84591151a2c6ecb9dd14651428a3b1f0bdcf7711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:53 +0000
Subject: [PATCH 28/62] fix: RSA decryption through the primes returns integers
 above the modulus

---
 src/rsa/rsa.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index ce87810..5d2db17 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -300,7 +300,8 @@ impl PrivateKey {
                 c.exp(&self.precomputed.d_p, &self.primes[0]),
                 c.exp(&self.precomputed.d_q, &self.primes[1]),
             );
-            m1 -= m2.clone();
+            // rem_euclid maps negative multiples of the modulus to the modulus, so keep the values positive
+            m1 -= m2.rem_euclid(self.primes[0].clone());
             if m1.signnum().unwrap() < 0 {
                 m1 += self.primes[0].clone();
             }
@@ -312,12 +313,12 @@ impl PrivateKey {
             // m1 as m
             for (values, prime) in self.precomputed.crt_values.iter().zip(self.primes.iter().skip(2)) {
                 let mut m_i = c.exp(&values.exp, prime);
-                m_i -= m1.clone();
-                m_i *= values.coeff.clone();
-                m_i.rem_euclid_assign(prime.clone());
+                m_i -= m1.rem_euclid(prime.clone());
                 if m_i.signnum().unwrap() < 0 {
                     m_i += prime.clone();
                 }
+                m_i *= values.coeff.clone();
+                m_i.rem_euclid_assign(prime.clone());
                 
                 m_i *= values.r.clone();
                 m1 += m_i;
-- 
2.43.0


From a8c548d943c93d906d4dac0d69eda837eebbfb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:42 +0000
Subject: [PATCH 29/62] fix: OAEP decryption accepts a block without separator

---
 src/rsa/oaep.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 851c5e9..1fb7fcf 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -143,6 +143,9 @@ impl<H, R> OAEPInner<H, R>
         }
         
         let (rest_bound, mut idx) = ((db_bound.0 + h_len, db_bound.1), db_bound.0 + h_len);
+        if em[(rest_bound.0)..(rest_bound.1)].iter().all(|&x| x == 0x00) {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid message encoding format"));
+        }
         for &x in (&em[(rest_bound.0)..(rest_bound.1)]).iter() {
             idx += 1;
             if x != 0x00 {
-- 
2.43.0


From 3a2efaac7ef2646816eb21781e46c83851466be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:42 +0000
Subject: [PATCH 30/62] fix: OAEP decryption accepts ciphertexts shorter than
 the modulus

---
 src/rsa/oaep.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 1fb7fcf..ff7e23b 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -103,10 +103,14 @@ impl<H, R> OAEPInner<H, R>
         kp.public_key().is_valid()?;
         
         let (k, h_len) = (kp.public_key().modulus_len(), (self.hf.bits_len() + 7) >> 3);
-        if k < cipher_text.len() || k < ((h_len << 1) + 2) {
+        if k < ((h_len << 1) + 2) {
             return Err(CryptoError::new(CryptoErrorKind::InvalidPublicKey, "The public key modulus is too short"));
         }
         
+        if k != cipher_text.len() {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "Invalid cipher text length"));
+        }
+        
         let c = BigInt::from_be_bytes(cipher_text);
         
         let m = if self.is_blinding {
-- 
2.43.0


From 04068329ed7271e3fd43d3c8363f6291d3726293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:42 +0000
Subject: [PATCH 31/62] fix: PKCS#1 v1.5 encryption of an empty message returns
 no ciphertext

---
 src/rsa/pkcs1.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 244e54f..20a92eb 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -39,9 +39,6 @@ impl<H, R> PKCS1Inner<H, R>
     
     fn encrypt(&mut self, cipher: &mut Vec<u8>, msg: &[u8]) -> Result<(), CryptoError> {
         cipher.clear();
-        if msg.is_empty() {
-            return Ok(());
-        }
         
         self.kp.public_key().is_valid()?;
         
-- 
2.43.0


From a1a3453fadd6557db9e96800c44eb192a694d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:36 +0000
Subject: [PATCH 32/62] fix: PSS verification subtracts the wrong lengths

The number of unused bits of the block is 8 * emLen - emBits. The length was
shifted the wrong way: overflow-checked builds panicked on every signature,
other builds masked by an arbitrary amount and refused valid signatures.
---
 src/rsa/pss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 4a8b5c0..9f362ab 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -228,7 +228,7 @@ impl<H, R> PSS<H, R>
         let h = &em[h_start..h_end];
         Self::mgf1_xor(db.as_mut_slice(), h, &mut self.hf);
         
-        db[0] &= 0xff >> ((em_len >> 3) - em_bits);
+        db[0] &= 0xff >> ((em_len << 3) - em_bits);
 
         for &e in db.iter().take(em_len - h_len - self.salt_len() - 2) {
             if e != 0x00 {
-- 
2.43.0


From a7a5321367061a18b889695d47c012f829e88046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:36 +0000
Subject: [PATCH 33/62] fix: PSS verification shifts by eight for some modulus
 lengths

If the bit length of the modulus is one above a multiple of eight, no bit of
the block is unused and the mask was shifted out of its type. Checked builds
panicked and other builds refused valid signatures.
---
 src/rsa/pss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 9f362ab..164a290 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -220,7 +220,7 @@ impl<H, R> PSS<H, R>
         let (db_start, db_end) = (0, em_len - h_len - 1);
         let (h_start, h_end) = (db_end, em_len - 1);
         
-        if (em[0] & (0xffu8 << (8 - ((em_len << 3) - em_bits)))) != 0 {
+        if (em[0] & !(0xffu8 >> ((em_len << 3) - em_bits))) != 0 {
             return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid head tag"));
         }
         
-- 
2.43.0


From 44b78b9e299932742fd4ab9041bac6045b7e55e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:36 +0000
Subject: [PATCH 34/62] fix: the longest PSS salt is one byte too long for some
 modulus lengths

The encoded message has one bit less than the modulus. For lengths one above
a multiple of eight the computed salt did not fit and the key was refused.
---
 src/rsa/pss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 164a290..68fc832 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -59,7 +59,7 @@ impl<H, R> PSS<H, R>
                 if x > 0 {
                     x
                 } else {
-                    ((bits_len + 7) >> 3).saturating_sub(2 + h_len)
+                    ((bits_len.saturating_sub(1) + 7) >> 3).saturating_sub(2 + h_len)
                 }
             },
             None => {
-- 
2.43.0


From 36e634085668ffa3548904aeb3ced50af1c28279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:36 +0000
Subject: [PATCH 35/62] fix: huge PSS salt lengths overflow the length check

A salt length near usize::MAX wrapped around and was accepted.
---
 src/rsa/pss.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 68fc832..0859e55 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -79,7 +79,7 @@ impl<H, R> PSS<H, R>
         let salt_len = Self::compute_salt_len(salt_len, h_len, key_pair.public_key().modulus().bits_len());
 
         let em_len = (key_pair.public_key().modulus().bits_len() - 1 + 7) >> 3;
-        if em_len < (h_len + salt_len + 2) {
+        if em_len < h_len.saturating_add(salt_len).saturating_add(2) {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The salt length is too long, or the modulus length is too short"));
         }
         
@@ -107,7 +107,7 @@ impl<H, R> PSS<H, R>
     pub fn auto_generate_key(bits_len: usize, test_round_times: usize, digest: H, mut rd: R, salt_len: Option<usize>, is_enable_blind: bool) -> Result<Self,CryptoError> {
         let h_len = (digest.bits_len() + 7) >> 3;
         let salt_len = Self::compute_salt_len(salt_len, h_len, bits_len);
-        if ((bits_len.saturating_sub(1) + 7) >> 3) < (h_len + salt_len + 2) {
+        if ((bits_len.saturating_sub(1) + 7) >> 3) < h_len.saturating_add(salt_len).saturating_add(2) {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "Ths bits_len is too small"));
         }
         
-- 
2.43.0


From 37fdb389165239277efb71d3a18e12766be5e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:36 +0000
Subject: [PATCH 36/62] fix: PSS verification accepts signatures above the
 modulus

RFC 8017 section 8.1.2 requires the integer to be below the modulus, else a
signature has a second valid form.
---
 src/rsa/pss.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 0859e55..8b0b6c0 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -299,6 +299,9 @@ impl<H, R> PSS<H, R>
         }
         
         let s = BigInt::from_be_bytes(sign);
+        if &s >= self.kp.public_key().modulus() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Signature out of range"));
+        }
         let m = self.kp.public_key().encrypt(&s);
         
         let em_bits = n_bits - 1;
-- 
2.43.0


From 829c6934d84f1069f3df1c72c4ed9beed5c0e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:37 +0000
Subject: [PATCH 37/62] fix: PKCS#1 v1.5 verification accepts signatures in
 other forms

Signatures must be as long as the modulus and below it. Zeros in front and
multiples of the modulus were accepted, so one signature had many forms.
---
 src/rsa/pkcs1.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 20a92eb..903ae22 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -179,7 +179,14 @@ impl<H, R> PKCS1Inner<H, R>
             return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "The public key modulus length is too short"));
         }
         
+        if k != sign.len() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid signature length"));
+        }
+        
         let c = BigInt::from_be_bytes(sign);
+        if &c >= self.kp.public_key().modulus() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Signature out of range"));
+        }
         let m = self.kp.public_key().encrypt(&c);
         let mut em = m.to_be_bytes();
         let old_len = em.len();
-- 
2.43.0


From c1cc151b34a7cd3f62566df6136585b66a15a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:37 +0000
Subject: [PATCH 38/62] fix: PKCS#1 v1.5 signatures panic for hashes without
 identifier

Report the unsupported hash as an error.
---
 src/rsa/pkcs1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 903ae22..44cbbc9 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -240,7 +240,7 @@ impl<H, R> PKCS1Inner<H, R>
         } else if TypeId::of::<H>() == TypeId::of::<SHA512>() {
             Ok(vec![0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40])
         } else {
-            unreachable!(format!("not suuport {}", std::any::type_name::<H>()));
+            Err(CryptoError::new(CryptoErrorKind::NotSupportUsage, format!("{} is not currently supported", std::any::type_name::<H>())))
         }
     }
     
-- 
2.43.0


From c21fbd37b293f7889c6b67b300b4999952b31051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:20 +0000
Subject: [PATCH 39/62] fix: DSA verification does not truncate the hash

Signing uses the leftmost bits of the hash, as many as q has. Verification
used the whole hash and refused every signature over a longer hash.
---
 src/dsa/dsa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index b7bae9d..dc5ee15 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -331,7 +331,8 @@ impl<H, R> DSA<H, R>
         self.hf.write(msg);
         self.hf.checksum(&mut hm);
         
-        let mut z = BigInt::from_be_bytes(hm.as_slice());
+        let tmp = std::cmp::min(h_len, n >> 3);
+        let mut z = BigInt::from_be_bytes(&hm.as_slice()[..tmp]);
         z *= w.clone();
         let mut u1 = z;
         u1.rem_euclid_assign(dp.q.clone());
-- 
2.43.0


From d4ca2253cbf4b7ad98106ed7017ff879242e5e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:54 +0000
Subject: [PATCH 40/62] fix: DSA key generation accepts zero as private key

The number drawn keeps its leading zero words and compares as different from
zero, so a source that yields zeros gave the private key 0.
---
 src/dsa/dsa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index dc5ee15..d308e46 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -127,7 +127,8 @@ impl<H, R> DSA<H, R>
     
     fn generate_key_inner(dp: DomainParameters, rd: &mut R) -> Result<PrivateKey, CryptoError> {
         let x = loop {
-            let x = dp.q.random(rd);
+            // the number drawn may have zero words in front
+            let x = BigInt::from_be_bytes(dp.q.random(rd).to_be_bytes().as_slice());
             if x != 0u32 && x < dp.q {
                 break x;
             }
-- 
2.43.0


From bd2e048fd92b73955d3c5ed9fc48882e0b377731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:00 +0000
Subject: [PATCH 41/62] fix: DSA signing takes zero as nonce

A nonce drawn as zero keeps its leading zero words, passed the check for
zero and used up one of the ten attempts.
---
 src/dsa/dsa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index d308e46..1e790a4 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -275,7 +275,8 @@ impl<H, R> DSA<H, R>
         let n = n >> 3;
         for _ in 0..10 {
             let k = loop {
-                let k = dp.q.random(&mut self.rd);
+                // the number drawn may have zero words in front
+                let k = BigInt::from_be_bytes(dp.q.random(&mut self.rd).to_be_bytes().as_slice());
                 if k.signnum() == Some(1) && k.as_ref() > &0u32 {
                     break k;
                 }
-- 
2.43.0


From 9074c52dee72f439a00aa4cfdcbedd9f3ed45582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:47 +0000
Subject: [PATCH 42/62] fix: P-256 reduction overflows when a limb is zero

The mask clears the result when the limb is zero, but the subtraction of
one before it overflowed and panicked in checked builds.
---
 src/elliptic/p256.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 1d66415..0fbae8b 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -421,14 +421,14 @@ impl CurveP256 {
             // At position 200, which is the starting bit position for word 7, we
             // have a factor of 0xf000000 = 2**28 - 2**24.
             tmp2[i+7] = tmp2[i+7].wrapping_add(0x10000000 & x_mask);
-            tmp2[i+8] = tmp2[i+8].wrapping_add((x - 1) & x_mask);
+            tmp2[i+8] = tmp2[i+8].wrapping_add(x.wrapping_sub(1) & x_mask);
             tmp2[i+7] = tmp2[i+7].wrapping_sub((x << 24) & BOTTOM_28BITS);
             tmp2[i+8] = tmp2[i+8].wrapping_sub(x >> 4);
 
             tmp2[i+8] = tmp2[i+8].wrapping_add(0x20000000 & x_mask);
             tmp2[i+8] = tmp2[i+8].wrapping_sub(x);
             tmp2[i+8] = tmp2[i+8].wrapping_add((x << 28) & BOTTOM_29BITS);
-            tmp2[i+9] = tmp2[i+9].wrapping_add(((x >> 1) - 1) & x_mask);
+            tmp2[i+9] = tmp2[i+9].wrapping_add((x >> 1).wrapping_sub(1) & x_mask);
 
             if (i + 1) == P256_LIMBS {
                 break;
@@ -449,13 +449,13 @@ impl CurveP256 {
             // 0x1e000000 = 2**29 - 2**25. Since we have not updated i, the 8th
             // word from i+1 is i+8.
             tmp2[i+8] = tmp2[i+8].wrapping_add(0x20000000 & x_mask);
-            tmp2[i+9] = tmp2[i+9].wrapping_add((x - 1) & x_mask);
+            tmp2[i+9] = tmp2[i+9].wrapping_add(x.wrapping_sub(1) & x_mask);
             tmp2[i+8] = tmp2[i+8].wrapping_sub((x << 25) & BOTTOM_29BITS);
             tmp2[i+9] = tmp2[i+9].wrapping_sub(x >> 4);
 
             tmp2[i+9] = tmp2[i+9].wrapping_add(0x10000000 & x_mask);
             tmp2[i+9] = tmp2[i+9].wrapping_sub(x);
-            tmp2[i+10] = tmp2[i+10].wrapping_add((x - 1) & x_mask);
+            tmp2[i+10] = tmp2[i+10].wrapping_add(x.wrapping_sub(1) & x_mask);
         }
 
         // We merge the right shift with a carry chain. The words above 2**257 have
-- 
2.43.0


From 01559443babdd49f80e8184699d44d17a39a920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:47 +0000
Subject: [PATCH 43/62] fix: P-224 field elements are not always brought to
 minimal form

A value whose fourth limb equals that of p was taken as larger than p even
when its lower limbs were zero, and the last subtraction could leave a
negative limb.
---
 src/elliptic/p224.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index 3c76566..782e179 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -458,7 +458,7 @@ impl CurveP224 {
         //    If it's = 0xffff000 and top4AllOnes != 0 and bottom3NonZero != 0,
         //      then the whole value is >= p
         //    If it's < 0xffff000, then the whole value is < p
-        let n = out[3].wrapping_sub( 0xffff000);
+        let n = 0xffff000u32.wrapping_sub(out[3]);
         let mut out3_equal = n;
         out3_equal |= out3_equal >> 16;
         out3_equal |= out3_equal >> 8;
@@ -467,8 +467,8 @@ impl CurveP224 {
         out3_equal |= out3_equal >> 1;
         out3_equal = !((((out3_equal << 31) as i32) >> 31) as u32);
 
-        // If out[3] > 0xffff000 then n's MSB will be zero.
-        let out3_gt = !(((n as i32) >> 31) as u32);
+        // If out[3] > 0xffff000 then n's MSB will be one.
+        let out3_gt = ((n as i32) >> 31) as u32;
 
         let mask = top4_all_ones & ((out3_equal & bottom3_non_zero) | out3_gt);
         out[0] = out[0].wrapping_sub(1 & mask);
@@ -477,6 +477,13 @@ impl CurveP224 {
         out[5] = out[5].wrapping_sub(0xfffffff & mask);
         out[6] = out[6].wrapping_sub(0xfffffff & mask);
         out[7] = out[7].wrapping_sub(0xfffffff & mask);
+
+        // Subtracting p may have made out[0] negative, so carry down once more.
+        (0..3).for_each(|i| {
+            let mask = ((out[i] as i32) >> 31) as u32;
+            out[i] = out[i].wrapping_add((1 << 28) & mask);
+            out[i+1] = out[i+1].wrapping_sub(1 & mask);
+        });
     }
     
     fn p224_copy_conditional(out: &mut P224FieldElement, a: &P224FieldElement, mut control: u32) {
-- 
2.43.0


From 8106073257249e3fc2f8818a49867a11d54bf505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:47 +0000
Subject: [PATCH 44/62] fix: P-521 reports the name and field size of another
 curve

---
 src/elliptic/elliptic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 5074b4a..e310fae 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -441,7 +441,7 @@ impl CurveParams {
         )
     }
 
-    /// FIPS 186-4, D.1.2.5 P-512 Curve  
+    /// FIPS 186-4, D.1.2.5 P-521 Curve  
     /// GF(p), E: $y^2 \equiv x^3 - 3\cdot x + b \mod p$
     /// p.bits_len() = 521
     pub fn p521() -> Result<CurveParams, CryptoError>{
@@ -455,8 +455,8 @@ impl CurveParams {
             .or_else(|e| {Err(CryptoError::new(CryptoErrorKind::InnerErr, e))})?;
         let gy = BigInt::from_str("0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650")
             .or_else(|e| {Err(CryptoError::new(CryptoErrorKind::InnerErr, e))})?;
-        let bit_size = 512;
-        let name = String::from("P-512");
+        let bit_size = 521;
+        let name = String::from("P-521");
 
         Ok(
             CurveParams {
-- 
2.43.0


From 8f7a30fd60ad97601676a9ccf5ade0e53a882aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:22 +0000
Subject: [PATCH 45/62] fix: multiples of the point at infinity are other
 points

---
 src/elliptic/elliptic.rs | 4 ++++
 src/elliptic/p224.rs     | 4 ++++
 src/elliptic/p256.rs     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index e310fae..ca2ae98 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -95,6 +95,10 @@ impl EllipticCurve for CurveParams {
             return (BigInt::from_be_bytes(tmp.as_slice()), BigInt::from_be_bytes(tmp.as_slice()));
         }
         
+        // any multiple of the point at infinity is the point at infinity
+        if x.signnum() == Some(0) && y.signnum() == Some(0) {
+            return (BigInt::from(0u32), BigInt::from(0u32));
+        }
         let k = k.to_be_bytes();
         self.scalar_inner(x, y, k.as_slice())
     }
diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index 782e179..6b61783 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -795,6 +795,10 @@ impl EllipticCurve for CurveP224 {
             return (BigInt::from_be_bytes(tmp.as_slice()), BigInt::from_be_bytes(tmp.as_slice()));
         }
         
+        // any multiple of the point at infinity is the point at infinity
+        if x.signnum() == Some(0) && y.signnum() == Some(0) {
+            return (BigInt::from(0u32), BigInt::from(0u32));
+        }
         let (mut a1, mut b1, mut c1, mut a2, mut b2, mut c2) = (
             PFE_DF,PFE_DF,PFE_DF,PFE_DF,PFE_DF,PFE_DF,
         );
diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 0fbae8b..a85e9a9 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -1203,6 +1203,10 @@ impl EllipticCurve for CurveP256 {
             return (BigInt::from_be_bytes(tmp.as_slice()), BigInt::from_be_bytes(tmp.as_slice()));
         }
 
+        // any multiple of the point at infinity is the point at infinity
+        if x.signnum() == Some(0) && y.signnum() == Some(0) {
+            return (BigInt::from(0u32), BigInt::from(0u32));
+        }
         let mut scalar_reversed = [0u8; 32];
         self.p256_get_scalar(&mut scalar_reversed, k);
 
-- 
2.43.0


From 42dd35045c7991056ded914334caf8b9ec5b1f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:14 +0000
Subject: [PATCH 46/62] fix: P-256 multiples of points with a zero coordinate
 are wrong

The remainder of a zero shifted by more than a word is not zero.
---
 src/elliptic/p256.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index a85e9a9..41e2745 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -1158,6 +1158,11 @@ impl CurveP256 {
     }
     
     fn p256_from_bigint(&self, out: &mut P256FEle, a: &BigInt) {
+        // a shifted zero is not reduced properly
+        if a.signnum() == Some(0) {
+            out.iter_mut().for_each(|x| { *x = 0; });
+            return;
+        }
         let mut tmp = a.clone() << 257;
         tmp.rem_euclid_assign(self.cp.field_order().clone());
         
-- 
2.43.0


From f06287f3fe4d28988223b1bf70949ae2c0536b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:50 +0000
Subject: [PATCH 47/62] fix: coordinates outside the field pass as points of
 the curve

Negative coordinates and coordinates not below p are no field elements.
The P-224 test moreover dropped the sign and everything above 224 bits.
---
 src/elliptic/elliptic.rs | 8 ++++++++
 src/elliptic/p224.rs     | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index ca2ae98..df197c3 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -52,6 +52,9 @@ impl EllipticCurve for CurveParams {
         if x.is_nan() || y.is_nan() {
             return false;
         }
+        if !self.is_field_element(x) || !self.is_field_element(y) {
+            return false;
+        }
         // y² = x³ - 3x + b
         let (mut x3, mut y2) = (x.sqr(), y.sqr());
         y2.rem_euclid_assign(self.p.clone());
@@ -118,6 +121,11 @@ impl CurveParams {
         &self.p
     }
     
+    /// whether x is in 0..p
+    pub(crate) fn is_field_element(&self, x: &BigInt) -> bool {
+        x.signnum() != Some(-1) && x < &self.p
+    }
+    
     pub(crate) fn base_point_order(&self) -> &BigInt {
         &self.n
     }
diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index 6b61783..b182e38 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -720,6 +720,9 @@ impl EllipticCurve for CurveP224 {
         if x.is_nan() || y.is_nan() {
             return false;
         }
+        if !self.cp.is_field_element(x) || !self.cp.is_field_element(y) {
+            return false;
+        }
         let (mut a, mut b) = (PFE_DF, PFE_DF);
         Self::p224_from_bigint(&mut a, x);
         Self::p224_from_bigint(&mut b, y);
-- 
2.43.0


From 9c1e88a73a7c7503c2b901e6549a72bf270df37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:06 +0000
Subject: [PATCH 48/62] fix: EC key generation can return zero as private key

---
 src/elliptic/elliptic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index df197c3..d781718 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -171,7 +171,7 @@ impl CurveParams {
 
             // If the scalar is out of range, sample another random number.
             let key = BigInt::from_be_bytes(priv_key.as_slice());
-            if key < self.n {
+            if key < self.n && key.signnum() == Some(1) {
                 let (qx, qy) = self.scalar_inner(&self.gx, &self.gy, priv_key.as_slice());
                 if !qx.is_nan() && !qy.is_nan() {
                     return Ok(
-- 
2.43.0


From 52cb82c145fb37aeaedc24145cd201b54f4f8569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:06 +0000
Subject: [PATCH 49/62] fix: EC key generation panics when the random source
 fails

---
 src/elliptic/elliptic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index d781718..7ce7218 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -160,6 +160,9 @@ impl CurveParams {
                 priv_key.push(((x >> 8) & 0xff) as u8);
                 priv_key.push((x & 0xff) as u8);
             });
+            if priv_key.len() < b_len {
+                return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed"));
+            }
             priv_key.truncate(b_len);
 
             // We have to mask off any excess bits in the case that the size of the
-- 
2.43.0


From 6caf0cc98c290bf83ae9ac4a9547b402fcf28d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:06 +0000
Subject: [PATCH 50/62] fix: ECDSA keys and nonces are predictable when the
 random source fails

---
 src/ecdsa/ecdsa.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecdsa/ecdsa.rs b/src/ecdsa/ecdsa.rs
index 3924ba1..ffacd3c 100644
--- a/src/ecdsa/ecdsa.rs
+++ b/src/ecdsa/ecdsa.rs
@@ -71,6 +71,9 @@ impl<H, R, C> ECDSA<H, R, C>
                 break;
             }
         }
+        if buf.len() < b {
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed"));
+        }
         buf.truncate(b);
         
         Ok(Self::rand_field_element_inner(params, buf.as_slice()))
@@ -154,6 +157,9 @@ impl<H, R, C> ECDSA<H, R, C>
                 break;
             }
         }
+        if entropy.len() < entropy_len {
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed"));
+        }
         entropy.truncate(entropy_len);
         
         self.md.reset();
-- 
2.43.0


From 2da4f355fa0581f447c208cf5592e865ab71b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:06 +0000
Subject: [PATCH 51/62] fix: PKCS#1 v1.5 padding is cut short when the random
 source fails

---
 src/rsa/pkcs1.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 44cbbc9..36e8ff2 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -63,6 +63,10 @@ impl<H, R> PKCS1Inner<H, R>
                 break;
             }
         }
+        if em.len() < bound {
+            em.clear();
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed"));
+        }
         em.truncate(bound);
         em.push(0x00);
         em.extend(msg.iter());
-- 
2.43.0


From 4a7e3be0dc702dd4df86663309f0bf1c8491f7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:06 +0000
Subject: [PATCH 52/62] fix: PSS salts are cut short when the random source
 fails

---
 src/rsa/pss.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 8b0b6c0..f1d0bbe 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -286,6 +286,9 @@ impl<H, R> PSS<H, R>
         self.rd.iter_mut().take((salt_len + 3) >> 2).for_each(|x| {
             x.to_be_bytes().iter().for_each(|&y| {salt.push(y);});
         });
+        if salt.len() < salt_len {
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source failed"));
+        }
         salt.truncate(salt_len);
         
         self.sign_with_salt(sign, m_hash, salt.as_slice())
-- 
2.43.0


From 07397edeed60617291268cef71c02922a949967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:06 +0000
Subject: [PATCH 53/62] fix: RSA key generation and blinding panic or hang when
 the random source fails

---
 src/lib.rs        |  2 ++
 src/rand_guard.rs | 55 +++++++++++++++++++++++++++++++++++++++++++++++
 src/rsa/rsa.rs    | 10 +++++++--
 3 files changed, 65 insertions(+), 2 deletions(-)
 create mode 100644 src/rand_guard.rs

diff --git a/src/lib.rs b/src/lib.rs
index 5b5963c..078971f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4,6 +4,8 @@ extern crate rmath;
 mod cipher;
 pub use cipher::{Cipher, Digest, DigestXOF, Signature};
 
+mod rand_guard;
+
 mod crypto_err;
 pub use crypto_err::{CryptoErrorKind, CryptoError};
 
diff --git a/src/rand_guard.rs b/src/rand_guard.rs
new file mode 100644
index 0000000..f75b851
--- /dev/null
+++ b/src/rand_guard.rs
@@ -0,0 +1,55 @@
+use rmath::rand::{Iter, IterSource, RandError, Seed, Source};
+use crate::{CryptoError, CryptoErrorKind};
+
+/// The number routines of rmath panic, retry forever or go on with fewer words if their random
+/// source fails. `RandGuard` remembers the failure and lets such a routine come to its end with
+/// filler words, the caller must then drop the result if `check` reports an error.
+pub(crate) struct RandGuard<'a, R> {
+    rd: &'a mut R,
+    err: Option<RandError>,
+    filler: u64,
+}
+
+impl<'a, R: Source<u32>> RandGuard<'a, R> {
+    pub fn new(rd: &'a mut R) -> Self {
+        Self {
+            rd,
+            err: None,
+            filler: 0,
+        }
+    }
+    
+    pub fn check(&mut self) -> Result<(), CryptoError> {
+        match self.err.take() {
+            Some(e) => Err(CryptoError::new(CryptoErrorKind::RandError, e)),
+            None => Ok(()),
+        }
+    }
+}
+
+impl<'a, R: Source<u32>> Source<u32> for RandGuard<'a, R> {
+    fn gen(&mut self) -> Result<u32, RandError> {
+        if self.err.is_none() {
+            match self.rd.gen() {
+                Ok(x) => return Ok(x),
+                Err(e) => self.err = Some(e),
+            }
+        }
+        
+        self.filler = self.filler.wrapping_add(0x9e3779b97f4a7c15);
+        let mut x = self.filler;
+        x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
+        x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
+        Ok((x >> 32) as u32)
+    }
+    
+    fn reset<Sd: Seed<u32>>(&mut self, sd: &Sd) -> Result<(), RandError> {
+        self.rd.reset(sd)
+    }
+}
+
+impl<'a, R: Source<u32>> IterSource<u32> for RandGuard<'a, R> {
+    fn iter_mut(&mut self) -> Iter<'_, Self, u32> {
+        Iter::new(self)
+    }
+}
diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 5d2db17..92e6168 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -5,6 +5,7 @@
 //! reference: PKCS v2.2
 
 use rmath::bigint::{BigInt, Nat};
+use crate::rand_guard::RandGuard;
 use crate::{CryptoError, CryptoErrorKind};
 use rmath::rand::IterSource;
 use std::fmt::{Display, Formatter, Debug};
@@ -264,8 +265,10 @@ impl PrivateKey {
                 // Then the decryption operation performs (m^e * r^e)^d mod n
                 // which equals mr mod n. The factor of r can then be removed
                 // by multiplying by the multiplicative inverse of r.
+                let mut rnd = RandGuard::new(rnd);
                 let (r, ir) = loop {
-                    let r = self.pk.n.random(rnd);
+                    let r = self.pk.n.random(&mut rnd);
+                    rnd.check()?;
                     
                     let r = if r == 0u32 {
                         BigInt::from(1u32)
@@ -433,6 +436,7 @@ impl PrivateKey {
             }
         }
         
+        let mut rd = RandGuard::new(rd);
         let bigone = BigInt::from(1u32);
         let pub_exp = BigInt::from(65537u32);
         let mut primes = Vec::with_capacity(n_primes);
@@ -455,7 +459,9 @@ impl PrivateKey {
             }
             
             for i in 0..n_primes {
-                let prime = match Nat::generate_prime(cbits / (n_primes - i), prime_test_round_num, rd) {
+                let prime = Nat::generate_prime(cbits / (n_primes - i), prime_test_round_num, &mut rd);
+                rd.check()?;
+                let prime = match prime {
                     Ok(nat) => {
                         BigInt::from(nat)
                     },
-- 
2.43.0


From bfc083cd9c53f96f21ee66a7045f53112b91d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:06 +0000
Subject: [PATCH 54/62] fix: DSA key generation and signing panic or hang when
 the random source fails

---
 src/dsa/dsa.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index 1e790a4..3e9ce70 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -1,6 +1,7 @@
 use rmath::bigint::{BigInt, Nat};
 use crate::{Digest, CryptoError, CryptoErrorKind, Signature};
 use rmath::rand::IterSource;
+use crate::rand_guard::RandGuard;
 use std::fmt::{Display, Formatter, Debug};
 use crate::dsa::signature::SignatureContent;
 
@@ -65,11 +66,13 @@ impl<H, R> DSA<H, R>
 {
     fn generate_parameters_inner(rd: &mut R, l_len: usize, n_len: usize, test_round_times: usize) -> Result<DomainParameters, CryptoError> {
         let one = BigInt::from(1u32);
+        let mut rd = RandGuard::new(rd);
         
         let mut p_bytes = Vec::with_capacity(l_len >> 3);
         let (p, q) = 'generate_primes: loop {
-            let q = Nat::generate_prime(n_len, test_round_times, rd)
+            let q = Nat::generate_prime(n_len, test_round_times, &mut rd)
                 .or_else(|e| {Err(CryptoError::new(CryptoErrorKind::OuterErr, e))})?;
+            rd.check()?;
             for _ in 0..(l_len << 2) {
                 p_bytes.clear();
                 for e in rd.iter_mut() {
@@ -81,6 +84,7 @@ impl<H, R> DSA<H, R>
                         break;
                     }
                 }
+                rd.check()?;
                 p_bytes.truncate(l_len >> 3);
                 p_bytes[(l_len >> 3) - 1] |= 1;
                 p_bytes[0] |= 0x80;
@@ -95,7 +99,9 @@ impl<H, R> DSA<H, R>
                     continue;
                 }
                 
-                if !p.probably_prime_test(test_round_times, rd) {
+                let is_prime = p.probably_prime_test(test_round_times, &mut rd);
+                rd.check()?;
+                if !is_prime {
                     continue;
                 }
                 
@@ -126,9 +132,11 @@ impl<H, R> DSA<H, R>
     }
     
     fn generate_key_inner(dp: DomainParameters, rd: &mut R) -> Result<PrivateKey, CryptoError> {
+        let mut rd = RandGuard::new(rd);
         let x = loop {
             // the number drawn may have zero words in front
-            let x = BigInt::from_be_bytes(dp.q.random(rd).to_be_bytes().as_slice());
+            let x = BigInt::from_be_bytes(dp.q.random(&mut rd).to_be_bytes().as_slice());
+            rd.check()?;
             if x != 0u32 && x < dp.q {
                 break x;
             }
@@ -273,10 +281,12 @@ impl<H, R> DSA<H, R>
         self.hf.checksum(&mut hm);
         
         let n = n >> 3;
+        let mut rd = RandGuard::new(&mut self.rd);
         for _ in 0..10 {
             let k = loop {
                 // the number drawn may have zero words in front
-                let k = BigInt::from_be_bytes(dp.q.random(&mut self.rd).to_be_bytes().as_slice());
+                let k = BigInt::from_be_bytes(dp.q.random(&mut rd).to_be_bytes().as_slice());
+                rd.check()?;
                 if k.signnum() == Some(1) && k.as_ref() > &0u32 {
                     break k;
                 }
-- 
2.43.0


From f47d0bfb2b409260729502c85230e8f522666f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:46 +0000
Subject: [PATCH 55/62] fix: refused finish of an encryption stream leaves
 padding behind

When the cipher refused the last block, the padding stayed in the buffer of the
ECB, CBC or CFB stream. The next write panicked, the next finish padded twice.
---
 src/cipher_mode/cbc.rs | 13 ++++++++-----
 src/cipher_mode/cfb.rs | 11 +++++++----
 src/cipher_mode/ecb.rs |  9 ++++++---
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 8c7bd9b..b7295c7 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -299,18 +299,20 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
     }
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
-        self.cbc.padding.padding(&mut self.data);
+        // the buffered data must not be changed if error occurred
+        let (mut tail, mut ij, mut out) = (self.data.clone(), self.ij.clone(), Vec::new());
+        self.cbc.padding.padding(&mut tail);
 
         let block_len = self.cbc.cipher.block_size().unwrap_or(1);
         let txt = self.cbc.get_buf();
-        let mut data = self.data.as_slice();
+        let mut data = tail.as_slice();
         while !data.is_empty() {
             let len = std::cmp::min(block_len, data.len());
             let tmp = &data[..len];
-            Self::xor_iv(txt, tmp, &self.ij);
-            match self.cbc.cipher.encrypt(&mut self.ij, txt.as_slice()) {
+            Self::xor_iv(txt, tmp, &ij);
+            match self.cbc.cipher.encrypt(&mut ij, txt.as_slice()) {
                 Ok(_) => {
-                    self.pond.extend(self.ij.iter());
+                    out.extend(ij.iter());
                     data = &data[len..];
                 },
                 Err(e) => {
@@ -319,6 +321,7 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
             }
         }
         
+        self.pond.append(&mut out);
         self.data.clear();
         self.ij.clear();
         self.ij.extend(self.cbc.cur_iv.iter());
diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index 2dd29e2..52d5f69 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -289,15 +289,18 @@ impl<C, P, IV> EncryptStream for CFBEncrypt<C, P, IV>
     }
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
-        self.cfb.padding.padding(&mut self.data);
-        if self.data.len() % self.cfb.s != 0 {
+        // the buffered data must not be changed if error occurred
+        let (mut tail, mut ij, mut out) = (self.data.clone(), self.ij.clone(), Vec::new());
+        self.cfb.padding.padding(&mut tail);
+        if tail.len() % self.cfb.s != 0 {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
-                format!("Wrong plaintext len, {} bytes left, the plaintext length(in bytes) should be a multiple of {}", self.data.len(), self.cfb.s)));
+                format!("Wrong plaintext len, {} bytes left, the plaintext length(in bytes) should be a multiple of {}", tail.len(), self.cfb.s)));
         }
 
-        if let Err(e) = self.cfb.encrypt_inner(&mut self.ij, &mut self.pond, self.data.as_slice()) {
+        if let Err(e) = self.cfb.encrypt_inner(&mut ij, &mut out, tail.as_slice()) {
             Err(e)
         } else {
+            self.pond.append(&mut out);
             self.data.clear();
             self.ij.clear();
             self.ij.extend(self.cfb.cur_iv.iter());
diff --git a/src/cipher_mode/ecb.rs b/src/cipher_mode/ecb.rs
index 07804d0..71862e8 100644
--- a/src/cipher_mode/ecb.rs
+++ b/src/cipher_mode/ecb.rs
@@ -238,17 +238,19 @@ impl<C, P> EncryptStream for ECBEncrypt<C, P>
     }
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
-        self.ecb.padding.padding(&mut self.data);
+        // the buffered data must not be changed if error occurred
+        let (mut tail, mut out) = (self.data.clone(), Vec::new());
+        self.ecb.padding.padding(&mut tail);
         
         let block_len = self.ecb.cipher.block_size().unwrap_or(1);
         let txt = self.ecb.get_buf();
-        let mut data = self.data.as_slice();
+        let mut data = tail.as_slice();
         while !data.is_empty() {
             let len = std::cmp::min(block_len, data.len());
             let tmp = &data[..len];
             match self.ecb.cipher.encrypt(txt, tmp) {
                 Ok(_) => {
-                    self.pond.append(txt);
+                    out.append(txt);
                     data = &data[len..];
                 },
                 Err(e) => {
@@ -257,6 +259,7 @@ impl<C, P> EncryptStream for ECBEncrypt<C, P>
             }
         }
 
+        self.pond.append(&mut out);
         self.data.clear();
         Ok(Pond::new(&mut self.pond, true))
     }
-- 
2.43.0


From c504e770381356685d380bfe5df2213da4d9c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:46 +0000
Subject: [PATCH 56/62] fix: DSA and ECDSA signatures cut short cause a panic

The bytes of a signature can be changed through AsMut. If fewer bytes than r had
were left, reading the signature panicked.
---
 src/dsa/signature.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dsa/signature.rs b/src/dsa/signature.rs
index 3124249..0151645 100644
--- a/src/dsa/signature.rs
+++ b/src/dsa/signature.rs
@@ -37,8 +37,10 @@ impl SignatureContent {
     
     /// r, s
     pub fn to_bigint(&self) -> (BigInt, BigInt) {
-        (BigInt::from_be_bytes(&self.content.as_slice()[0..self.r_len]),
-        BigInt::from_be_bytes(&self.content.as_slice()[self.r_len..]))
+        // the content may have been cut short through `as_mut`
+        let r_len = std::cmp::min(self.r_len, self.content.len());
+        (BigInt::from_be_bytes(&self.content.as_slice()[0..r_len]),
+        BigInt::from_be_bytes(&self.content.as_slice()[r_len..]))
     }
     
     pub fn set(&mut self, r: BigInt, s: BigInt) {
-- 
2.43.0


From d489a20eba26e9b71ac609fa09ef679f602b0634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:46 +0000
Subject: [PATCH 57/62] fix: OAEP and PSS never end with an empty digest

The mask generation loops forever if the hash function has no output, such as a
SHAKE of length zero. Such hash functions are now refused.
---
 src/rsa/oaep.rs | 4 ++++
 src/rsa/pss.rs  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index ff7e23b..99e3c1f 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -225,6 +225,10 @@ impl<H, R> OAEP<H, R>
     pub fn new_uncheck(digest: H, rd: R, key_pair: KeyPair, label: Vec<u8>, is_enable_blinding: bool) -> Result<Self, CryptoError> {
         let h_len = (digest.bits_len() + 7) >> 3;
         
+        if h_len == 0 {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The digest is empty"));
+        }
+        
         if key_pair.modulus_len() <= ((h_len << 1) + 2) {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The modulus length is too short"));
         }
diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index f1d0bbe..a43d64f 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -76,6 +76,9 @@ impl<H, R> PSS<H, R>
     /// `is_enbale_blind`: enable RSA blinding;
     pub fn new_uncheck(digest: H, rd: R, key_pair: KeyPair, salt_len: Option<usize>, is_enable_blind: bool) -> Result<Self, CryptoError> {
         let h_len = (digest.bits_len() + 7) >> 3;
+        if h_len == 0 {
+            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The digest is empty"));
+        }
         let salt_len = Self::compute_salt_len(salt_len, h_len, key_pair.public_key().modulus().bits_len());
 
         let em_len = (key_pair.public_key().modulus().bits_len() - 1 + 7) >> 3;
-- 
2.43.0


From ac4085ba0a8b5d32f95585948a79c6069f7d85fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:31 +0000
Subject: [PATCH 58/62] fix: signatures over an empty digest

With a hash function of no output, such as a SHAKE of length zero, DSA refused to
sign and ECDSA never ended, because an empty byte string was read as NaN.
---
 src/dsa/dsa.rs     | 5 +++--
 src/ecdsa/ecdsa.rs | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index 3e9ce70..883a636 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -301,7 +301,8 @@ impl<H, R> DSA<H, R>
 
             let kinv = Self::fermat_inverse(&k, &dp.q);
             let tmp = std::cmp::min(h_len, n);
-            let z = BigInt::from_be_bytes(&hm.as_slice()[..tmp]);
+            // no bytes at all would be a NaN
+            let z = if tmp == 0 {BigInt::from(0u32)} else {BigInt::from_be_bytes(&hm.as_slice()[..tmp])};
             let mut s = pk.x.clone() * r.clone();
             s += z;
             s.rem_euclid_assign(dp.q.clone());
@@ -344,7 +345,7 @@ impl<H, R> DSA<H, R>
         self.hf.checksum(&mut hm);
         
         let tmp = std::cmp::min(h_len, n >> 3);
-        let mut z = BigInt::from_be_bytes(&hm.as_slice()[..tmp]);
+        let mut z = if tmp == 0 {BigInt::from(0u32)} else {BigInt::from_be_bytes(&hm.as_slice()[..tmp])};
         z *= w.clone();
         let mut u1 = z;
         u1.rem_euclid_assign(dp.q.clone());
diff --git a/src/ecdsa/ecdsa.rs b/src/ecdsa/ecdsa.rs
index ffacd3c..edb5265 100644
--- a/src/ecdsa/ecdsa.rs
+++ b/src/ecdsa/ecdsa.rs
@@ -125,6 +125,11 @@ impl<H, R, C> ECDSA<H, R, C>
             hash
         };
         
+        // no bytes at all would be a NaN
+        if hash.is_empty() {
+            return BigInt::from(0u32);
+        }
+        
         let mut ret = BigInt::from_be_bytes(hash);
         let excess = (hash.len() << 3).saturating_sub(order_bits);
         if excess > 0 {
-- 
2.43.0


From 44457362b34d4ddf33ba167e668206bc0fa66361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:24 +0000
Subject: [PATCH 59/62] fix: ECDSA signing with a degenerate private key never
 ends

With NaN as the private key, or with zero when the digest is zero too, no
signature is ever found. Signing now gives up after ten attempts as DSA does.
---
 src/ecdsa/ecdsa.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ecdsa/ecdsa.rs b/src/ecdsa/ecdsa.rs
index edb5265..e85b302 100644
--- a/src/ecdsa/ecdsa.rs
+++ b/src/ecdsa/ecdsa.rs
@@ -182,7 +182,7 @@ impl<H, R, C> ECDSA<H, R, C>
             return Err(CryptoError::new(CryptoErrorKind::InvalidPrivateKey, ""));
         }
         
-        let (r, s) = loop {
+        for _ in 0..10 {
             let (r, kinv) = loop {
                 let k = Self::rand_field_element_for_csprng(&self.curve, &mut csprng)?;
                 let kinv = Self::fermat_inverse(&k, n);
@@ -199,11 +199,13 @@ impl<H, R, C> ECDSA<H, R, C>
             s *= kinv;
             s.rem_euclid_assign(n.clone());
             if s.signnum() == Some(1) {
-                break (r, s);
+                return Ok((r, s));
             }
-        };
+        }
         
-        Ok((r, s))
+        // Only degenerate private keys will require more than a handful of
+        // attempts.
+        Err(CryptoError::new(CryptoErrorKind::InvalidPrivateKey, "May be a degenerate private key"))
     }
     
     fn verify_inner(&mut self, r: &BigInt, s: &BigInt) -> Result<(), CryptoError> {
-- 
2.43.0


From 33475db40bcafe036054e3e5ba3d2d8136141d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:09 +0000
Subject: [PATCH 60/62] fix: AES-192 key schedule reads 8 bytes behind the key

---
 src/aes/aes_amd64.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aes/aes_amd64.rs b/src/aes/aes_amd64.rs
index abddbe2..7139886 100644
--- a/src/aes/aes_amd64.rs
+++ b/src/aes/aes_amd64.rs
@@ -113,7 +113,8 @@ impl AES {
     #[target_feature(enable = "aes", enable = "sse2")]
     unsafe fn key_schedule_192(key: &[u8], enc: &mut Vec<march::__m128i>) {
         let mut temp1 = march::_mm_loadu_si128(transmute(key.as_ptr()));
-        let mut temp3= march::_mm_loadu_si128(transmute(key.as_ptr().offset(16)));
+        // only 8 bytes are left of the key
+        let mut temp3= march::_mm_loadl_epi64(transmute(key.as_ptr().offset(16)));
         enc.push(temp1);
         let key_temp= temp3;
         let mut temp2= march::_mm_aeskeygenassist_si128 (temp3,0x1);
-- 
2.43.0


From e264a269b1cca08d34899561fb9c8681820ae18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:40 +0000
Subject: [PATCH 61/62] fix: accept an OAEP modulus that has room for the empty
 message only

---
 src/rsa/oaep.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 99e3c1f..8c43004 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -229,7 +229,7 @@ impl<H, R> OAEP<H, R>
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The digest is empty"));
         }
         
-        if key_pair.modulus_len() <= ((h_len << 1) + 2) {
+        if key_pair.modulus_len() < ((h_len << 1) + 2) {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The modulus length is too short"));
         }
         
-- 
2.43.0


From 7475e8882aa0e2d04bea2505429dfc6e2ead0f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:57 +0000
Subject: [PATCH 62/62] fix: accept a PKCS1 modulus that has room for the empty
 message only

---
 src/rsa/pkcs1.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 36e8ff2..86d0e99 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -84,7 +84,7 @@ impl<H, R> PKCS1Inner<H, R>
     fn decrypt(&mut self, msg: &mut Vec<u8>, cipher_txt: &[u8]) -> Result<(), CryptoError> {
         let k = self.kp.modulus_len();
 
-        if k <= 11 {
+        if k < 11 {
             return Err(CryptoError::new(CryptoErrorKind::InvalidPublicKey, "The length of public key moudulus is too short"));
         }
 
@@ -110,7 +110,7 @@ impl<H, R> PKCS1Inner<H, R>
             em.truncate(k);
         };
 
-        if em.len() <= 11 || em[0] != 0x00 || em[1] != 0x02 {
+        if em.len() < 11 || em[0] != 0x00 || em[1] != 0x02 {
             return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid message encoding format"));
         }
         
@@ -344,7 +344,7 @@ impl<H, R> PKCS1<H, R>
     pub fn new_uncheck(digest: H, rd: R, key_pair: KeyPair, is_enable_blinding: bool) -> Result<Self, CryptoError> {
         Self::check_hash_is_support()?;
         
-        if key_pair.modulus_len() <= 11 {
+        if key_pair.modulus_len() < 11 {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The modulus length is too small"));
         }
 
-- 
2.43.0

