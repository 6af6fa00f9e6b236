From 4dfdbcf8bdc0fb5bb6014d2aa2487c22542cb1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 01/13] fix: decode the signature type nibble of a descriptor

(b >> 4) & 0xF0 is always zero, so every signature scheme was read as XMSS.
---
 src/qrl/qrlDescriptor.h                | 2 +-
 src/rust_wrapper/qrl/qrl_descriptor.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrl/qrlDescriptor.h b/src/qrl/qrlDescriptor.h
index 626a8e5..d9d43d6 100644
--- a/src/qrl/qrlDescriptor.h
+++ b/src/qrl/qrlDescriptor.h
@@ -65,7 +65,7 @@ public:
         }
 
         auto hashFunction = static_cast<eHashFunction>(bytes[0] & 0x0F);
-        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0xF0);
+        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0x0F);
         auto height = static_cast<uint8_t>((bytes[1] & 0x0F) << 1 );
         auto addrFormatType = static_cast<eAddrFormatType>((bytes[1] & 0xF0) >> 4 );
 
diff --git a/src/rust_wrapper/qrl/qrl_descriptor.rs b/src/rust_wrapper/qrl/qrl_descriptor.rs
index f50c5a2..465b691 100644
--- a/src/rust_wrapper/qrl/qrl_descriptor.rs
+++ b/src/rust_wrapper/qrl/qrl_descriptor.rs
@@ -64,7 +64,7 @@ impl QRLDescriptor {
                 ))
             }
         };
-        let signature_type: SignatureType = match (bytes[0] >> 4) & 0xF0 {
+        let signature_type: SignatureType = match (bytes[0] >> 4) & 0x0F {
             0 => SignatureType::XMSS,
             _ => {
                 return Err(QRLError::FailedConversion(
-- 
2.43.0


From 5d63b01574d56d70ee812e5bf988a4f07d97b537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 02/13] fix: keep the high byte of the WOTS+ checksum for w =
 256

When len_2 * log_w is a multiple of 8 the checksum was shifted left by 8
and its most significant byte dropped.
---
 src/rust_wrapper/xmss_alt/wots.rs | 4 ++--
 src/xmss-alt/wots.c               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/wots.rs b/src/rust_wrapper/xmss_alt/wots.rs
index b1f5a33..16ea6ed 100644
--- a/src/rust_wrapper/xmss_alt/wots.rs
+++ b/src/rust_wrapper/xmss_alt/wots.rs
@@ -179,7 +179,7 @@ pub fn wots_sign(
         csum += params.w as i32 - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((params.len_2 * params.log_w) % 8));
+    csum = csum << ((8 - ((params.len_2 * params.log_w) % 8)) % 8);
 
     let len_2_bytes = ((params.len_2 * params.log_w) + 7) / 8;
 
@@ -242,7 +242,7 @@ pub fn wots_pk_from_sig(
         csum += XMSS_WOTS_W - 1 - basew[i] as u32;
     }
 
-    csum = csum << (8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8));
+    csum = csum << ((8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8)) % 8);
 
     to_byte(
         &mut csum_bytes,
diff --git a/src/xmss-alt/wots.c b/src/xmss-alt/wots.c
index bb02e9d..2062c38 100644
--- a/src/xmss-alt/wots.c
+++ b/src/xmss-alt/wots.c
@@ -134,7 +134,7 @@ void wots_sign(eHashFunction hash_func,
         csum += params->w - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((params->len_2 * params->log_w) % 8));
+    csum = csum << ((8 - ((params->len_2 * params->log_w) % 8)) % 8);
 
     uint32_t len_2_bytes = ((params->len_2 * params->log_w) + 7) / 8;
 
@@ -183,7 +183,7 @@ void wots_pkFromSig(eHashFunction hash_func,
         csum += XMSS_WOTS_W - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8));
+    csum = csum << ((8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8)) % 8);
 
     to_byte(csum_bytes, csum, ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) + 7) / 8);
     base_w(csum_basew, XMSS_WOTS_LEN2, csum_bytes, wotsParams);
-- 
2.43.0


From 849de6f16ac784bb9a29ef06d3c91e41630268b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 03/13] fix: do not put messages and whole trees on the stack

Hashing a message of a few megabytes (verification included) and signing
with a plain key of height 17 or more overflowed the stack.
---
 src/xmss-alt/algsxmss.c | 5 ++++-
 src/xmss-alt/hash.c     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/xmss-alt/algsxmss.c b/src/xmss-alt/algsxmss.c
index 65e6fad..65e3521 100644
--- a/src/xmss-alt/algsxmss.c
+++ b/src/xmss-alt/algsxmss.c
@@ -5,6 +5,7 @@
 
 #include "algsxmss.h"
 #include <cstring>
+#include <vector>
 
 #include "hash.h"
 #include "hash_address.h"
@@ -124,7 +125,9 @@ static void compute_authpath_wots(eHashFunction hash_func,
     uint32_t n = params->n;
     uint32_t h = params->h;
 
-    unsigned char tree[2 * (1 << h) * n];
+    // on the heap: too large for the stack from height 17
+    std::vector<unsigned char> tree_storage(2 * ((size_t) 1 << h) * n);
+    unsigned char *tree = tree_storage.data();
 
     uint32_t ots_addr[8];
     uint32_t ltree_addr[8];
diff --git a/src/xmss-alt/hash.c b/src/xmss-alt/hash.c
index ca85d75..464151d 100644
--- a/src/xmss-alt/hash.c
+++ b/src/xmss-alt/hash.c
@@ -10,6 +10,7 @@ This code was taken from the XMSS reference implementation by Andreas Hülsing a
 #include "fips202.h"
 #include "shasha.h"
 #include <cstdio>
+#include <vector>
 
 unsigned char *addr_to_byte(unsigned char *bytes, const uint32_t addr[8]) {
 #if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
@@ -32,7 +33,9 @@ int core_hash(eHashFunction hash_func,
               unsigned long long inlen,
               unsigned int n) {
     unsigned long long i = 0;
-    unsigned char buf[inlen + n + keylen];
+    // on the heap: the message can be larger than the stack
+    std::vector<unsigned char> buf_storage(inlen + n + keylen);
+    unsigned char *buf = buf_storage.data();
 
     // Input is (toByte(X, 32) || KEY || M)
 
-- 
2.43.0


From 2786db68c7407e5456b045adbc3c38ffa82f1749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 04/13] fix: refuse to sign with an exhausted plain XMSS key

Past the last index XmssBasic::sign read outside its tree (the Rust port
panicked after advancing the index).
---
 src/qrl/xmssBasic.cpp              | 4 ++++
 src/rust_wrapper/qrl/xmss_basic.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/qrl/xmssBasic.cpp b/src/qrl/xmssBasic.cpp
index 895a7be..8b9bde1 100644
--- a/src/qrl/xmssBasic.cpp
+++ b/src/qrl/xmssBasic.cpp
@@ -50,6 +50,10 @@ XmssBasic::XmssBasic(const TSEED &seed,
 
 
 TSIGNATURE XmssBasic::sign(const TMESSAGE &message) {
+    if (getIndex() >= getNumberSignatures()) {
+        throw std::invalid_argument("index too high");
+    }
+
     auto signature = TSIGNATURE(getSignatureSize(params.wots_par.w), 0);
 
     xmss_Signmsg(_hashFunction,
diff --git a/src/rust_wrapper/qrl/xmss_basic.rs b/src/rust_wrapper/qrl/xmss_basic.rs
index a17c086..da9a3f0 100644
--- a/src/rust_wrapper/qrl/xmss_basic.rs
+++ b/src/rust_wrapper/qrl/xmss_basic.rs
@@ -90,6 +90,10 @@ impl XMSSBaseTrait for XMSSBasic {
 
 impl Sign for XMSSBasic {
     fn sign(&mut self, message: &TMESSAGE) -> Result<TSIGNATURE, QRLError> {
+        if self.get_index() >= self.get_number_signatures() {
+            return Err(QRLError::InvalidArgument("index too high".to_owned()));
+        }
+
         let mut signature: TSIGNATURE =
             vec![0; self.get_signature_size(Some(self.params.wots_par.w)) as usize];
         let message_len = message.len();
-- 
2.43.0


From 42c09d937b6df20eb5291db9346f7dc15a333f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 05/13] fix: reject unknown hash functions and signature types

core_hash writes nothing for a hash function it does not know, so such a
public key was verified against, and such a key made from, uninitialised
stack memory.
---
 src/qrl/xmssBase.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index a5b8c32..f847797 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -31,6 +31,13 @@ constexpr size_t OFFSET_PUB_SEED = OFFSET_SK_PRF+32;
 
 constexpr size_t OFFSET_ROOT = OFFSET_PUB_SEED+32;
 
+static bool isKnownHashFunction(eHashFunction hashFunction)
+{
+    return hashFunction==eHashFunction::SHA2_256 ||
+            hashFunction==eHashFunction::SHAKE_128 ||
+            hashFunction==eHashFunction::SHAKE_256;
+}
+
 XmssBase::XmssBase(const TSEED& seed,
         uint8_t height,
         eHashFunction hashFunction,
@@ -47,6 +54,10 @@ XmssBase::XmssBase(const TSEED& seed,
     if (height>XMSS_MAX_HEIGHT) {
         throw std::invalid_argument("Height should be <= 254");
     }
+
+    if (!isKnownHashFunction(hashFunction)) {
+        throw std::invalid_argument("Unknown hash function");
+    }
 }
 
 XmssBase::XmssBase(const TSEED& extended_seed)
@@ -57,6 +68,14 @@ XmssBase::XmssBase(const TSEED& extended_seed)
 
     auto desc = QRLDescriptor::fromExtendedSeed(extended_seed);
 
+    if (desc.getSignatureType()!=eSignatureType::XMSS) {
+        throw std::invalid_argument("Unknown signature type");
+    }
+
+    if (!isKnownHashFunction(desc.getHashFunction())) {
+        throw std::invalid_argument("Unknown hash function");
+    }
+
     _seed = std::vector<uint8_t>(
             extended_seed.cbegin()+QRLDescriptor::getSize(),
             extended_seed.cend());
@@ -231,6 +250,10 @@ bool XmssBase::verify(const TMESSAGE& message,
 
         auto hashFunction = desc.getHashFunction();
 
+        if (!isKnownHashFunction(hashFunction)) {
+            return false;
+        }
+
         xmss_params params{};
         const uint32_t k = 2;
         const uint32_t w = wotsParamW;
-- 
2.43.0


From 9aef7b806a86d0a97ad97efe29f1a7f58aac37c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 06/13] fix: refuse key heights the descriptor cannot represent

From height 32 on 1 << height overflows: key generation returned a broken
key whose descriptor names another height.
---
 src/qrl/xmssBase.cpp               | 7 +++++--
 src/rust_wrapper/qrl/xmss_base.rs  | 7 +++++--
 src/rust_wrapper/qrl/xmss_basic.rs | 8 +++++++-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index f847797..c25a199 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -20,6 +20,9 @@
 
 constexpr size_t XMSS_MAX_HEIGHT=254;
 
+// Largest height the descriptor can represent
+constexpr size_t XMSS_MAX_KEY_HEIGHT=30;
+
 // FIXME: Use a union for this
 constexpr size_t OFFSET_IDX = 0;
 
@@ -51,8 +54,8 @@ XmssBase::XmssBase(const TSEED& seed,
         throw std::invalid_argument("Seed should be 48 bytes. Other values are not currently supported");
     }
 
-    if (height>XMSS_MAX_HEIGHT) {
-        throw std::invalid_argument("Height should be <= 254");
+    if (height>XMSS_MAX_KEY_HEIGHT) {
+        throw std::invalid_argument("Height should be <= 30");
     }
 
     if (!isKnownHashFunction(hashFunction)) {
diff --git a/src/rust_wrapper/qrl/xmss_base.rs b/src/rust_wrapper/qrl/xmss_base.rs
index acacf2c..f95f98f 100644
--- a/src/rust_wrapper/qrl/xmss_base.rs
+++ b/src/rust_wrapper/qrl/xmss_base.rs
@@ -33,6 +33,9 @@ pub type TKEY = Vec<u8>;
 
 const XMSS_MAX_HEIGHT: usize = 254;
 
+// Largest height the descriptor can represent
+pub const XMSS_MAX_KEY_HEIGHT: usize = 30;
+
 // FIXME: Use a union for this
 const OFFSET_IDX: usize = 0;
 
@@ -64,9 +67,9 @@ impl XMSSBase {
             Err(QRLError::InvalidArgument(
                 "Seed should be 48 bytes. Other values are not currently supported".to_owned(),
             ))
-        } else if height as usize > XMSS_MAX_HEIGHT {
+        } else if height as usize > XMSS_MAX_KEY_HEIGHT {
             Err(QRLError::InvalidArgument(
-                "Height should be <= 254".to_owned(),
+                "Height should be <= 30".to_owned(),
             ))
         } else {
             Ok(Self {
diff --git a/src/rust_wrapper/qrl/xmss_basic.rs b/src/rust_wrapper/qrl/xmss_basic.rs
index da9a3f0..97b1337 100644
--- a/src/rust_wrapper/qrl/xmss_basic.rs
+++ b/src/rust_wrapper/qrl/xmss_basic.rs
@@ -1,6 +1,6 @@
 use super::{
     qrl_address_format::AddrFormatType,
-    xmss_base::{Sign, XMSSBase, XMSSBaseTrait, TKEY, TMESSAGE, TSEED, TSIGNATURE},
+    xmss_base::{Sign, XMSSBase, XMSSBaseTrait, TKEY, TMESSAGE, TSEED, TSIGNATURE, XMSS_MAX_KEY_HEIGHT},
 };
 use crate::rust_wrapper::xmss_alt::algsxmss::xmss_gen_keypair;
 use crate::rust_wrapper::xmss_alt::algsxmss::xmss_sign_msg;
@@ -43,6 +43,12 @@ impl XMSSBasic {
             ));
         }
 
+        if height as usize > XMSS_MAX_KEY_HEIGHT {
+            return Err(QRLError::InvalidArgument(
+                "Height should be <= 30".to_owned(),
+            ));
+        }
+
         let k: u32 = 2;
         let w: u32 = wots_param_w_option.unwrap_or(16);
         let n: u32 = 32;
-- 
2.43.0


From 0455dc77336d9653cf979c4b06fe8e341519c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 07/13] fix: absorb all blocks of a long SHAKE input in Rust

After the first block the last block was filled from the start of the
input again, so the end of an input of at least one rate was ignored, and
inputs of two rates or more panicked.
---
 src/rust_wrapper/xmss_alt/fips202.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/fips202.rs b/src/rust_wrapper/xmss_alt/fips202.rs
index a81ba05..0ace1ac 100644
--- a/src/rust_wrapper/xmss_alt/fips202.rs
+++ b/src/rust_wrapper/xmss_alt/fips202.rs
@@ -334,7 +334,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
         }
         keccak_f1600_state_permute(s);
         mlen -= r as u64;
-        m_clone = &m_clone[r as usize..m.len()];
+        m_clone = &m_clone[r as usize..m_clone.len()];
     }
 
     for i in 0..r {
@@ -342,7 +342,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
     }
 
     for i in 0..mlen {
-        t[i as usize] = m[i as usize];
+        t[i as usize] = m_clone[i as usize];
     }
 
     t[mlen as usize] = p;
-- 
2.43.0


From 33670533b14f245bbc384a1b38c41789e9af96d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 08/13] fix: count the words of a mnemonic, not its spaces

A repeated or trailing separator let an odd number of words through and
made a valid text, or the empty mnemonic of no bytes, be refused.
---
 src/qrl/misc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qrl/misc.cpp b/src/qrl/misc.cpp
index 0c71133..4d590be 100644
--- a/src/qrl/misc.cpp
+++ b/src/qrl/misc.cpp
@@ -86,7 +86,12 @@ std::string bin2mnemonic(const std::vector<unsigned char> &vec)
 
 std::vector<unsigned char> mnemonic2bin(const std::string &mnemonic)
 {
-    auto word_count = std::count(mnemonic.cbegin(), mnemonic.cend(), ' ') + 1;
+    // Count the words themselves: separators may be repeated, leading or trailing
+    size_t word_count = 0;
+    std::stringstream words(mnemonic);
+    for (std::string w; words >> w;) {
+        word_count++;
+    }
     if (word_count%2!=0)
     {
         throw std::invalid_argument("word count = " + std::to_string(word_count) + " must be even ");
-- 
2.43.0


From 7d963588266420e5bf50f1fb0b77fb6c1eb5137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 09/13] fix: check buffer sizes before calling Dilithium and
 Kyber

The primitives read fixed-size keys and ciphertexts: shorter vectors were
read past their end.
---
 src/dilithium/dilithium.cpp | 22 +++++++++++++++++++++-
 src/kyber/kyber.cpp         |  9 +++++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/dilithium/dilithium.cpp b/src/dilithium/dilithium.cpp
index ade7d34..42fdde0 100644
--- a/src/dilithium/dilithium.cpp
+++ b/src/dilithium/dilithium.cpp
@@ -4,6 +4,7 @@
 #include <string>
 #include <vector>
 #include <cstdint>
+#include <stdexcept>
 #include "dilithium.h"
 
 Dilithium::Dilithium()
@@ -18,7 +19,13 @@ Dilithium::Dilithium(const std::vector<uint8_t> &pk, const std::vector<uint8_t>
     _pk(pk),
     _sk(sk)
 {
-    // TODO: Verify sizes - CRYPTO_SECRETKEYBYTES / CRYPTO_PUBLICKEYBYTES
+    if (_pk.size()!=CRYPTO_PUBLICKEYBYTES) {
+        throw std::invalid_argument("pk. Invalid size");
+    }
+
+    if (_sk.size()!=CRYPTO_SECRETKEYBYTES) {
+        throw std::invalid_argument("sk. Invalid size");
+    }
 }
 
 std::vector<uint8_t> Dilithium::sign(const std::vector<uint8_t> &message)
@@ -45,6 +52,11 @@ bool Dilithium::sign_open(std::vector<uint8_t> &message_output,
                           const std::vector<uint8_t> &pk)
 {
     auto message_size = message_signed.size();
+    if (message_size < CRYPTO_BYTES || pk.size()!=CRYPTO_PUBLICKEYBYTES) {
+        message_output.clear();
+        return false;
+    }
+
     message_output.resize(message_size);
 
     unsigned long long message_output_dummy;
@@ -60,10 +72,18 @@ bool Dilithium::sign_open(std::vector<uint8_t> &message_output,
 
 std::vector<uint8_t> Dilithium::extract_message(std::vector<uint8_t> &message_output)
 {
+    if (message_output.size() < CRYPTO_BYTES) {
+        throw std::invalid_argument("signed message. Invalid size");
+    }
+
     return std::vector<uint8_t>(message_output.begin() + CRYPTO_BYTES, message_output.end());
 }
 
 std::vector<uint8_t> Dilithium::extract_signature(std::vector<uint8_t> &message_output)
 {
+    if (message_output.size() < CRYPTO_BYTES) {
+        throw std::invalid_argument("signed message. Invalid size");
+    }
+
     return std::vector<uint8_t>(message_output.begin(), message_output.begin() + CRYPTO_BYTES);
 }
diff --git a/src/kyber/kyber.cpp b/src/kyber/kyber.cpp
index 5478ea2..e64e3f0 100644
--- a/src/kyber/kyber.cpp
+++ b/src/kyber/kyber.cpp
@@ -34,7 +34,9 @@ Kyber::Kyber()
 
 bool Kyber::kem_encode(const std::vector<uint8_t> &other_pk)
 {
-    // TODO: Verify sizes (other_pk)
+    if (other_pk.size()!=KYBER_PUBLICKEYBYTES) {
+        return false;
+    }
 
     _key.resize(KYBER_SYMBYTES);
     _ct.resize(KYBER_CIPHERTEXTBYTES);
@@ -48,7 +50,10 @@ bool Kyber::kem_encode(const std::vector<uint8_t> &other_pk)
 
 bool Kyber::kem_decode(const std::vector<uint8_t> &cyphertext)
 {
-    // TODO: Verify sizes (other_pk)
+    if (cyphertext.size()!=KYBER_CIPHERTEXTBYTES || _sk.size()!=KYBER_SECRETKEYBYTES) {
+        return false;
+    }
+
     _key.resize(KYBER_SYMBYTES);
 
     auto validation_error = crypto_kem_dec(_key.data(),
-- 
2.43.0


From 436c913dacf1f31650d5e64b2faa4a395c15f138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 10/13] fix: split a Dilithium signed message at the end of the
 signature in Rust

The signature comes first, so extract_message returned signature bytes and
extract_signature the end of the signature and the message. Wrongly sized
keys are now reported as the errors the signatures promise.
---
 src/rust_wrapper/dilithium/dilithium.rs | 31 ++++++++++++++-----------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/rust_wrapper/dilithium/dilithium.rs b/src/rust_wrapper/dilithium/dilithium.rs
index f9706c7..7c6873c 100644
--- a/src/rust_wrapper/dilithium/dilithium.rs
+++ b/src/rust_wrapper/dilithium/dilithium.rs
@@ -18,8 +18,8 @@ pub struct Dilithium {
 
 impl Dilithium {
     pub fn new(pk_bytes: &[u8], sk_bytes: &[u8]) -> Result<Self, Error> {
-        let pk = PublicKey::from_bytes(pk_bytes).unwrap();
-        let sk = SecretKey::from_bytes(sk_bytes).unwrap();
+        let pk = PublicKey::from_bytes(pk_bytes)?;
+        let sk = SecretKey::from_bytes(sk_bytes)?;
         Ok(Self { pk, sk })
     }
 
@@ -53,24 +53,27 @@ impl Dilithium {
         open(message_signed, pk)
     }
 
+    // A signed message is the signature followed by the message
     pub fn extract_message(message_output: &Vec<u8>) -> Result<Vec<u8>, Error> {
         let valid_message_output = SignedMessage::from_bytes(message_output.as_slice())?;
-        Ok(Vec::from(
-            valid_message_output
-                .as_bytes()
-                .get(0..(valid_message_output.len() - CRYPTO_BYTES as usize))
-                .unwrap(),
-        ))
+        Self::split(&valid_message_output).map(|(_, message)| Vec::from(message))
     }
 
     pub fn extract_signature(message_output: &Vec<u8>) -> Result<Vec<u8>, Error> {
         let valid_message_output = SignedMessage::from_bytes(message_output.as_slice())?;
-        Ok(Vec::from(
-            valid_message_output
-                .as_bytes()
-                .get((message_output.len() - CRYPTO_BYTES as usize)..(message_output.len()))
-                .unwrap(),
-        ))
+        Self::split(&valid_message_output).map(|(signature, _)| Vec::from(signature))
+    }
+
+    fn split(signed: &SignedMessage) -> Result<(&[u8], &[u8]), Error> {
+        let bytes = signed.as_bytes();
+        if bytes.len() < CRYPTO_BYTES {
+            return Err(Error::BadLength {
+                name: "SignedMessage",
+                actual: bytes.len(),
+                expected: CRYPTO_BYTES,
+            });
+        }
+        Ok(bytes.split_at(CRYPTO_BYTES))
     }
 }
 
-- 
2.43.0


From 3c58574f86f1db6b2eff699cde21e44d042f8a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:32 +0000
Subject: [PATCH 11/13] fix: Rust Kyber::new reports wrongly sized keys instead
 of panicking

---
 src/rust_wrapper/kyber/kyber.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rust_wrapper/kyber/kyber.rs b/src/rust_wrapper/kyber/kyber.rs
index fc6e0eb..20ad978 100644
--- a/src/rust_wrapper/kyber/kyber.rs
+++ b/src/rust_wrapper/kyber/kyber.rs
@@ -5,7 +5,7 @@ pub use pqcrypto_traits::kem::{
     Ciphertext as CiphertextTrait, PublicKey as PublicKeyTrait, SecretKey as SecretKeyTrait,
     SharedSecret as SharedSecretTrait,
 };
-use std::io::Error;
+use std::io::{Error, ErrorKind};
 
 pub const KYBER_PUBLICKEYBYTES: usize = public_key_bytes();
 pub const KYBER_SECRETKEYBYTES: usize = secret_key_bytes();
@@ -22,8 +22,8 @@ pub struct Kyber {
 
 impl Kyber {
     pub fn new(pk_bytes: &[u8], sk_bytes: &[u8]) -> Result<Self, Error> {
-        let pk = PublicKey::from_bytes(pk_bytes).unwrap();
-        let sk = SecretKey::from_bytes(sk_bytes).unwrap();
+        let pk = PublicKey::from_bytes(pk_bytes).map_err(|_| Error::from(ErrorKind::InvalidInput))?;
+        let sk = SecretKey::from_bytes(sk_bytes).map_err(|_| Error::from(ErrorKind::InvalidInput))?;
         let (ss, ct) = encapsulate(&pk);
         Ok(Self { pk, sk, ss, ct })
     }
-- 
2.43.0


From 1860504dcb385973d9f6993d90ea18e857a910ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:12 +0000
Subject: [PATCH 12/13] fix: decode the signed message once in the JavaScript
 extract_message

assign() was given iterators into two different temporaries.
---
 src/jswrapper/jsdilwrapper.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jswrapper/jsdilwrapper.cpp b/src/jswrapper/jsdilwrapper.cpp
index 079d2a9..f2ac5e1 100644
--- a/src/jswrapper/jsdilwrapper.cpp
+++ b/src/jswrapper/jsdilwrapper.cpp
@@ -65,8 +65,7 @@ namespace {
 
         static std::string extract_message(const std::string& message_output)
         {
-            std::vector<uint8_t> vec;
-            vec.assign( hstr2bin(message_output).begin(), hstr2bin(message_output).end());
+            std::vector<uint8_t> vec = hstr2bin(message_output);
             return bin2hstr( Dilithium::extract_message( vec ) );
         }
 
-- 
2.43.0


From 23ca88125de4d8c2407d192bbfed25a947f8a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:12 +0000
Subject: [PATCH 13/13] fix: refuse extended seeds of an unknown signature
 scheme in the JavaScript wrapper

fromHexSeed and fromMnemonic dropped the descriptor's signature type, so such a seed silently became an XMSS key.
---
 src/jswrapper/jsqrlwrapper.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jswrapper/jsqrlwrapper.cpp b/src/jswrapper/jsqrlwrapper.cpp
index 3725b6d..d8d941e 100644
--- a/src/jswrapper/jsqrlwrapper.cpp
+++ b/src/jswrapper/jsqrlwrapper.cpp
@@ -76,6 +76,11 @@ public:
         auto extended_seed = hstr2bin(hexseed);
         auto descr = QRLDescriptor::fromExtendedSeed(extended_seed);
 
+        if (descr.getSignatureType() != eSignatureType::XMSS)
+        {
+            throw std::invalid_argument("Unsupported signature type");
+        }
+
         auto raw_seed = std::vector<uint8_t>(
             extended_seed.cbegin()+QRLDescriptor::getSize(),
             extended_seed.cend()
@@ -93,6 +98,11 @@ public:
         auto extended_seed = mnemonic2bin(mnemonic);
         auto descr = QRLDescriptor::fromExtendedSeed(extended_seed);
 
+        if (descr.getSignatureType() != eSignatureType::XMSS)
+        {
+            throw std::invalid_argument("Unsupported signature type");
+        }
+
         auto raw_seed = std::vector<uint8_t>(
             extended_seed.cbegin()+QRLDescriptor::getSize(),
             extended_seed.cend()
-- 
2.43.0

