From b1ef8c48654446e7adda93405421b420d7379211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 01/19] fix: Rust SHAKE must absorb the remaining input after
 each full block

keccak_absorb sliced past the end on the second full block (panic) and
padded the first bytes of the input instead of the rest, so every input of
one block or more hashed wrongly.
---
 src/rust_wrapper/xmss_alt/fips202.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/fips202.rs b/src/rust_wrapper/xmss_alt/fips202.rs
index a81ba05..0ace1ac 100644
--- a/src/rust_wrapper/xmss_alt/fips202.rs
+++ b/src/rust_wrapper/xmss_alt/fips202.rs
@@ -334,7 +334,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
         }
         keccak_f1600_state_permute(s);
         mlen -= r as u64;
-        m_clone = &m_clone[r as usize..m.len()];
+        m_clone = &m_clone[r as usize..m_clone.len()];
     }
 
     for i in 0..r {
@@ -342,7 +342,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
     }
 
     for i in 0..mlen {
-        t[i as usize] = m[i as usize];
+        t[i as usize] = m_clone[i as usize];
     }
 
     t[mlen as usize] = p;
-- 
2.43.0


From f6a7e184c7de32c00eb9a0968ec4aa82d70b044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 02/19] fix: keep the whole WOTS+ checksum when its digits fill
 whole bytes

For w=256 (len_2*log_w = 16) the checksum was shifted by 8 instead of 0 and
its high byte lost, so the remaining digits no longer protect against
advancing chains: a signature could be turned into one for another digest.
---
 src/rust_wrapper/xmss_alt/wots.rs | 4 ++--
 src/xmss-alt/wots.c               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/wots.rs b/src/rust_wrapper/xmss_alt/wots.rs
index b1f5a33..16ea6ed 100644
--- a/src/rust_wrapper/xmss_alt/wots.rs
+++ b/src/rust_wrapper/xmss_alt/wots.rs
@@ -179,7 +179,7 @@ pub fn wots_sign(
         csum += params.w as i32 - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((params.len_2 * params.log_w) % 8));
+    csum = csum << ((8 - ((params.len_2 * params.log_w) % 8)) % 8);
 
     let len_2_bytes = ((params.len_2 * params.log_w) + 7) / 8;
 
@@ -242,7 +242,7 @@ pub fn wots_pk_from_sig(
         csum += XMSS_WOTS_W - 1 - basew[i] as u32;
     }
 
-    csum = csum << (8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8));
+    csum = csum << ((8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8)) % 8);
 
     to_byte(
         &mut csum_bytes,
diff --git a/src/xmss-alt/wots.c b/src/xmss-alt/wots.c
index bb02e9d..2062c38 100644
--- a/src/xmss-alt/wots.c
+++ b/src/xmss-alt/wots.c
@@ -134,7 +134,7 @@ void wots_sign(eHashFunction hash_func,
         csum += params->w - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((params->len_2 * params->log_w) % 8));
+    csum = csum << ((8 - ((params->len_2 * params->log_w) % 8)) % 8);
 
     uint32_t len_2_bytes = ((params->len_2 * params->log_w) + 7) / 8;
 
@@ -183,7 +183,7 @@ void wots_pkFromSig(eHashFunction hash_func,
         csum += XMSS_WOTS_W - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8));
+    csum = csum << ((8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8)) % 8);
 
     to_byte(csum_bytes, csum, ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) + 7) / 8);
     base_w(csum_basew, XMSS_WOTS_LEN2, csum_bytes, wotsParams);
-- 
2.43.0


From 55f7f682281bdabf5a3cefaea016ed40ac472b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 03/19] fix: refuse descriptors with an unknown hash function,
 signature type or address format

The signature type nibble was masked with 0xF0 after the shift, which is
always zero, and C++ cast unknown hash functions to the enum: verify() then
compared an uninitialised hash and keys were built from one.
---
 src/qrl/qrlDescriptor.h                | 16 ++++++++++++++--
 src/rust_wrapper/qrl/qrl_descriptor.rs |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/qrl/qrlDescriptor.h b/src/qrl/qrlDescriptor.h
index 626a8e5..2623dab 100644
--- a/src/qrl/qrlDescriptor.h
+++ b/src/qrl/qrlDescriptor.h
@@ -64,10 +64,22 @@ public:
             throw std::invalid_argument("Descriptor size should be 3 bytes");
         }
 
+        if ((bytes[0] & 0x0F) > eHashFunction::SHAKE_256) {
+            throw std::invalid_argument("Unknown hash function");
+        }
+
+        if (((bytes[0] >> 4) & 0x0F) != eSignatureType::XMSS) {
+            throw std::invalid_argument("Unknown signature type");
+        }
+
+        if (((bytes[1] >> 4) & 0x0F) != eAddrFormatType::SHA256_2X) {
+            throw std::invalid_argument("Unknown address format type");
+        }
+
         auto hashFunction = static_cast<eHashFunction>(bytes[0] & 0x0F);
-        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0xF0);
+        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0x0F);
         auto height = static_cast<uint8_t>((bytes[1] & 0x0F) << 1 );
-        auto addrFormatType = static_cast<eAddrFormatType>((bytes[1] & 0xF0) >> 4 );
+        auto addrFormatType = static_cast<eAddrFormatType>((bytes[1] >> 4) & 0x0F);
 
         return {hashFunction, signatureType, height, addrFormatType};
     }
diff --git a/src/rust_wrapper/qrl/qrl_descriptor.rs b/src/rust_wrapper/qrl/qrl_descriptor.rs
index f50c5a2..465b691 100644
--- a/src/rust_wrapper/qrl/qrl_descriptor.rs
+++ b/src/rust_wrapper/qrl/qrl_descriptor.rs
@@ -64,7 +64,7 @@ impl QRLDescriptor {
                 ))
             }
         };
-        let signature_type: SignatureType = match (bytes[0] >> 4) & 0xF0 {
+        let signature_type: SignatureType = match (bytes[0] >> 4) & 0x0F {
             0 => SignatureType::XMSS,
             _ => {
                 return Err(QRLError::FailedConversion(
-- 
2.43.0


From a925dcbcfb7cab0b78465de3cb102f42208c0282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 04/19] fix: keep message- and tree-sized buffers off the stack

Signing or verifying a message of several megabytes, and signing with a
basic key of height 18 or more, overflowed the stack.
---
 src/xmss-alt/algsxmss.c | 7 +++++--
 src/xmss-alt/hash.c     | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/xmss-alt/algsxmss.c b/src/xmss-alt/algsxmss.c
index 65e6fad..b914822 100644
--- a/src/xmss-alt/algsxmss.c
+++ b/src/xmss-alt/algsxmss.c
@@ -5,6 +5,7 @@
 
 #include "algsxmss.h"
 #include <cstring>
+#include <vector>
 
 #include "hash.h"
 #include "hash_address.h"
@@ -121,10 +122,12 @@ static void compute_authpath_wots(eHashFunction hash_func,
                                   unsigned char *pub_seed,
                                   uint32_t addr[8]) {
     uint32_t i, j, level;
-    uint32_t n = params->n;
+    size_t n = params->n;
     uint32_t h = params->h;
 
-    unsigned char tree[2 * (1 << h) * n];
+    // The whole tree does not fit the stack for the larger heights
+    std::vector<unsigned char> storage(2 * (size_t(1) << h) * n);
+    unsigned char *tree = storage.data();
 
     uint32_t ots_addr[8];
     uint32_t ltree_addr[8];
diff --git a/src/xmss-alt/hash.c b/src/xmss-alt/hash.c
index ca85d75..3b7758b 100644
--- a/src/xmss-alt/hash.c
+++ b/src/xmss-alt/hash.c
@@ -10,6 +10,7 @@ This code was taken from the XMSS reference implementation by Andreas Hülsing a
 #include "fips202.h"
 #include "shasha.h"
 #include <cstdio>
+#include <vector>
 
 unsigned char *addr_to_byte(unsigned char *bytes, const uint32_t addr[8]) {
 #if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
@@ -32,7 +33,9 @@ int core_hash(eHashFunction hash_func,
               unsigned long long inlen,
               unsigned int n) {
     unsigned long long i = 0;
-    unsigned char buf[inlen + n + keylen];
+    // The message can be of any length: keep it off the stack
+    std::vector<unsigned char> storage(inlen + n + keylen);
+    unsigned char *buf = storage.data();
 
     // Input is (toByte(X, 32) || KEY || M)
 
-- 
2.43.0


From dd90f33ec50105485baac8386bf9b8c3974b3afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 05/19] fix: basic keys must not rewind, skip past the tree or
 sign when exhausted

XmssBase::setIndex accepted any index, so a basic key reused one-time keys
after a rewind, and signing at index 2^height read outside the tree.
---
 src/qrl/xmssBase.cpp               | 8 ++++++++
 src/qrl/xmssBasic.cpp              | 4 ++++
 src/rust_wrapper/qrl/xmss_base.rs  | 8 ++++++++
 src/rust_wrapper/qrl/xmss_basic.rs | 4 ++++
 4 files changed, 24 insertions(+)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index a5b8c32..0d59a55 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -140,6 +140,14 @@ uint32_t XmssBase::getIndex()
 
 uint32_t XmssBase::setIndex(uint32_t new_index)
 {
+    if (new_index >= getNumberSignatures()) {
+        throw std::invalid_argument("index too high");
+    }
+
+    if (new_index < getIndex()) {
+        throw std::invalid_argument("cannot rewind");
+    }
+
     _sk[3] = static_cast<uint8_t>(new_index & 0xFF);
     new_index >>= 8;
     _sk[2] = static_cast<uint8_t>(new_index & 0xFF);
diff --git a/src/qrl/xmssBasic.cpp b/src/qrl/xmssBasic.cpp
index 895a7be..535aea9 100644
--- a/src/qrl/xmssBasic.cpp
+++ b/src/qrl/xmssBasic.cpp
@@ -50,6 +50,10 @@ XmssBasic::XmssBasic(const TSEED &seed,
 
 
 TSIGNATURE XmssBasic::sign(const TMESSAGE &message) {
+    if (getRemainingSignatures() == 0) {
+        throw std::invalid_argument("index too high");
+    }
+
     auto signature = TSIGNATURE(getSignatureSize(params.wots_par.w), 0);
 
     xmss_Signmsg(_hashFunction,
diff --git a/src/rust_wrapper/qrl/xmss_base.rs b/src/rust_wrapper/qrl/xmss_base.rs
index acacf2c..07562be 100644
--- a/src/rust_wrapper/qrl/xmss_base.rs
+++ b/src/rust_wrapper/qrl/xmss_base.rs
@@ -126,6 +126,14 @@ impl XMSSBaseTrait for XMSSBase {
     }
 
     fn set_index(&mut self, mut new_index: u32) -> Result<u32, QRLError> {
+        if new_index >= self.get_number_signatures() {
+            return Err(QRLError::InvalidArgument("index too high".to_owned()));
+        }
+
+        if new_index < self.get_index() {
+            return Err(QRLError::InvalidArgument("cannot rewind".to_owned()));
+        }
+
         self.sk[3] = (new_index & 0xFF) as u8;
         new_index >>= 8;
         self.sk[2] = (new_index & 0xFF) as u8;
diff --git a/src/rust_wrapper/qrl/xmss_basic.rs b/src/rust_wrapper/qrl/xmss_basic.rs
index a17c086..633714b 100644
--- a/src/rust_wrapper/qrl/xmss_basic.rs
+++ b/src/rust_wrapper/qrl/xmss_basic.rs
@@ -90,6 +90,10 @@ impl XMSSBaseTrait for XMSSBasic {
 
 impl Sign for XMSSBasic {
     fn sign(&mut self, message: &TMESSAGE) -> Result<TSIGNATURE, QRLError> {
+        if self.get_remaining_signatures() == 0 {
+            return Err(QRLError::InvalidArgument("index too high".to_owned()));
+        }
+
         let mut signature: TSIGNATURE =
             vec![0; self.get_signature_size(Some(self.params.wots_par.w)) as usize];
         let message_len = message.len();
-- 
2.43.0


From a183521d2bcd385d3b6ceddfe94473ff6df78380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 06/19] fix: copies of a fast key must own their traversal
 state

The implicit copy kept _state and the treehash nodes pointing into the
original: signing with one key corrupted the other and, once the original
was destroyed, used freed memory.
---
 src/qrl/xmssFast.cpp | 50 ++++++++++++++++++++++++++++++++++++++++++++
 src/qrl/xmssFast.h   |  7 +++++++
 2 files changed, 57 insertions(+)

diff --git a/src/qrl/xmssFast.cpp b/src/qrl/xmssFast.cpp
index ca25154..a6308d8 100644
--- a/src/qrl/xmssFast.cpp
+++ b/src/qrl/xmssFast.cpp
@@ -19,6 +19,56 @@ XmssFast::XmssFast(const TSEED& extended_seed)
     initialize_tree();
 }
 
+XmssFast::XmssFast(const XmssFast& other)
+    : XmssBase(other),
+      _state(other._state),
+      _stackoffset(other._stackoffset),
+      _stack(other._stack),
+      _stacklevels(other._stacklevels),
+      _auth(other._auth),
+      _keep(other._keep),
+      _treehash(other._treehash),
+      _th_nodes(other._th_nodes),
+      _retain(other._retain)
+{
+    bind_state();
+}
+
+XmssFast& XmssFast::operator=(const XmssFast& other)
+{
+    if (this != &other) {
+        XmssFast tmp(other);
+        XmssBase::operator=(tmp);
+        _state = tmp._state;
+        _stackoffset = tmp._stackoffset;
+        _stack.swap(tmp._stack);
+        _stacklevels.swap(tmp._stacklevels);
+        _auth.swap(tmp._auth);
+        _keep.swap(tmp._keep);
+        _treehash.swap(tmp._treehash);
+        _th_nodes.swap(tmp._th_nodes);
+        _retain.swap(tmp._retain);
+        bind_state();
+    }
+    return *this;
+}
+
+void XmssFast::bind_state()
+{
+    const size_t n = 32;
+
+    for (size_t i = 0; i < _treehash.size(); i++) {
+        _treehash[i].node = &_th_nodes[n * i];
+    }
+
+    _state.stack = _stack.data();
+    _state.stacklevels = _stacklevels.data();
+    _state.auth = _auth.data();
+    _state.keep = _keep.data();
+    _state.treehash = _treehash.data();
+    _state.retain = _retain.data();
+}
+
 void XmssFast::initialize_tree(uint32_t wotsParamW)
 {
     _sk = TKEY(132, 0);
diff --git a/src/qrl/xmssFast.h b/src/qrl/xmssFast.h
index 97d6b40..31f71fe 100644
--- a/src/qrl/xmssFast.h
+++ b/src/qrl/xmssFast.h
@@ -19,11 +19,18 @@ public:
 
     XmssFast(const TSEED& extended_seed);
 
+    // _state points into the vectors below, so copies have to be re-bound
+    XmssFast(const XmssFast& other);
+
+    XmssFast& operator=(const XmssFast& other);
+
     TSIGNATURE sign(const TMESSAGE& message) override;
 
     unsigned int setIndex(unsigned int new_index) override;
 
 protected:
+    void bind_state();
+
     bds_state _state;
     unsigned int _stackoffset = 0;
     std::vector<unsigned char> _stack;
-- 
2.43.0


From b9fd78d17d39fe12de37e7a34301d29a73df50da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 07/19] fix: refuse heights the descriptor cannot represent

Heights 32..254 were accepted; the descriptor wraps them modulo 32, so no
signature could verify, shifts by the height overflow from 32 on, and the
Rust constructor checked only after trying to build the tree.
---
 src/qrl/xmssBase.cpp               |  7 +++++--
 src/rust_wrapper/qrl/xmss_base.rs  |  7 +++++--
 src/rust_wrapper/qrl/xmss_basic.rs | 10 +++++++++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index 0d59a55..f92e5c1 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -20,6 +20,9 @@
 
 constexpr size_t XMSS_MAX_HEIGHT=254;
 
+// The descriptor keeps height/2 in four bits
+constexpr size_t XMSS_MAX_KEY_HEIGHT=30;
+
 // FIXME: Use a union for this
 constexpr size_t OFFSET_IDX = 0;
 
@@ -44,8 +47,8 @@ XmssBase::XmssBase(const TSEED& seed,
         throw std::invalid_argument("Seed should be 48 bytes. Other values are not currently supported");
     }
 
-    if (height>XMSS_MAX_HEIGHT) {
-        throw std::invalid_argument("Height should be <= 254");
+    if (height>XMSS_MAX_KEY_HEIGHT) {
+        throw std::invalid_argument("Height should be <= 30");
     }
 }
 
diff --git a/src/rust_wrapper/qrl/xmss_base.rs b/src/rust_wrapper/qrl/xmss_base.rs
index 07562be..99491ab 100644
--- a/src/rust_wrapper/qrl/xmss_base.rs
+++ b/src/rust_wrapper/qrl/xmss_base.rs
@@ -33,6 +33,9 @@ pub type TKEY = Vec<u8>;
 
 const XMSS_MAX_HEIGHT: usize = 254;
 
+// The descriptor keeps height/2 in four bits
+pub const XMSS_MAX_KEY_HEIGHT: usize = 30;
+
 // FIXME: Use a union for this
 const OFFSET_IDX: usize = 0;
 
@@ -64,9 +67,9 @@ impl XMSSBase {
             Err(QRLError::InvalidArgument(
                 "Seed should be 48 bytes. Other values are not currently supported".to_owned(),
             ))
-        } else if height as usize > XMSS_MAX_HEIGHT {
+        } else if height as usize > XMSS_MAX_KEY_HEIGHT {
             Err(QRLError::InvalidArgument(
-                "Height should be <= 254".to_owned(),
+                "Height should be <= 30".to_owned(),
             ))
         } else {
             Ok(Self {
diff --git a/src/rust_wrapper/qrl/xmss_basic.rs b/src/rust_wrapper/qrl/xmss_basic.rs
index 633714b..b6e61af 100644
--- a/src/rust_wrapper/qrl/xmss_basic.rs
+++ b/src/rust_wrapper/qrl/xmss_basic.rs
@@ -1,6 +1,8 @@
 use super::{
     qrl_address_format::AddrFormatType,
-    xmss_base::{Sign, XMSSBase, XMSSBaseTrait, TKEY, TMESSAGE, TSEED, TSIGNATURE},
+    xmss_base::{
+        Sign, XMSSBase, XMSSBaseTrait, TKEY, TMESSAGE, TSEED, TSIGNATURE, XMSS_MAX_KEY_HEIGHT,
+    },
 };
 use crate::rust_wrapper::xmss_alt::algsxmss::xmss_gen_keypair;
 use crate::rust_wrapper::xmss_alt::algsxmss::xmss_sign_msg;
@@ -43,6 +45,12 @@ impl XMSSBasic {
             ));
         }
 
+        if height as usize > XMSS_MAX_KEY_HEIGHT {
+            return Err(QRLError::InvalidArgument(
+                "Height should be <= 30".to_owned(),
+            ));
+        }
+
         let k: u32 = 2;
         let w: u32 = wots_param_w_option.unwrap_or(16);
         let n: u32 = 32;
-- 
2.43.0


From 7bc80ec1e31651796a87785da429247bce7cce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 08/19] fix: refuse unsupported Winternitz parameters

w=0 and w=1 divided by zero, w=3 or 8 and the like overran or misread the
message digest, and large values overflowed buffers; verify(), the size
helpers and the constructors all took them unchecked.
---
 src/rust_wrapper/qrl/xmss_base.rs        | 19 +++++++++++--------
 src/rust_wrapper/xmss_alt/wots.rs        | 14 +++++++++++---
 src/rust_wrapper/xmss_alt/xmss_common.rs |  2 +-
 src/xmss-alt/wots.c                      |  6 ++++++
 4 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/rust_wrapper/qrl/xmss_base.rs b/src/rust_wrapper/qrl/xmss_base.rs
index 99491ab..0facb3c 100644
--- a/src/rust_wrapper/qrl/xmss_base.rs
+++ b/src/rust_wrapper/qrl/xmss_base.rs
@@ -153,23 +153,26 @@ pub trait XMSSBaseTrait {
     const SECRET_KEY_SIZE: usize = 132;
     const PUBLIC_KEY_SIZE: usize = QRLDescriptor::get_size() as usize + 64;
 
-    fn calculate_signature_base_size(wots_param_w: Option<u32>) -> u32 {
+    fn calculate_signature_base_size(wots_param_w: Option<u32>) -> Result<u32, QRLError> {
         let w = wots_param_w.unwrap_or(16);
-        let wots_params = WOTSParams::new(32, w);
-        4 + 32 + wots_params.keysize
+        let wots_params = WOTSParams::new(32, w)?;
+        Ok(4 + 32 + wots_params.keysize)
     }
 
+    // 0 if the Winternitz parameter is not supported
     fn get_signature_size(&self, wots_param_w: Option<u32>) -> u32 {
-        let signature_base_size = Self::calculate_signature_base_size(wots_param_w);
-        // 4 + n + (len + h) * n)
-        signature_base_size + self.get_height() as u32 * 32
+        match Self::calculate_signature_base_size(wots_param_w) {
+            // 4 + n + (len + h) * n)
+            Ok(signature_base_size) => signature_base_size + self.get_height() as u32 * 32,
+            Err(_) => 0,
+        }
     }
 
     fn get_height_from_sig_size(
         sig_size: usize,
         wots_param_w: Option<u32>,
     ) -> Result<u8, QRLError> {
-        let signature_base_size = Self::calculate_signature_base_size(wots_param_w) as usize;
+        let signature_base_size = Self::calculate_signature_base_size(wots_param_w)? as usize;
         if sig_size < signature_base_size {
             return Err(QRLError::InvalidArgument(
                 "Invalid signature size".to_owned(),
@@ -274,7 +277,7 @@ pub trait XMSSBaseTrait {
                 "Invalid extended_pk size. It should be 67 bytes".to_owned(),
             ));
         }
-        let signature_base_size: usize = Self::calculate_signature_base_size(wots_param_w) as usize;
+        let signature_base_size: usize = Self::calculate_signature_base_size(wots_param_w)? as usize;
         if signature.len() > signature_base_size + XMSS_MAX_HEIGHT * 32 {
             return Err(QRLError::InvalidArgument(
                 "invalid signature size. Height<=254".to_owned(),
diff --git a/src/rust_wrapper/xmss_alt/wots.rs b/src/rust_wrapper/xmss_alt/wots.rs
index 16ea6ed..a773923 100644
--- a/src/rust_wrapper/xmss_alt/wots.rs
+++ b/src/rust_wrapper/xmss_alt/wots.rs
@@ -2,6 +2,7 @@ use super::hash::{hash_f, prf};
 use super::hash_address::{set_chain_adrs, set_hash_adrs};
 use super::hash_functions::HashFunction;
 use super::xmss_common::to_byte;
+use crate::rust_wrapper::errors::QRLError;
 use std::cmp::min;
 
 macro_rules! log2 {
@@ -35,13 +36,20 @@ impl WOTSParams {
      *
      * Assumes w is a power of 2
      */
-    pub fn new(n: u32, w: u32) -> Self {
+    pub fn new(n: u32, w: u32) -> Result<Self, QRLError> {
+        // log_w has to divide a byte (see base_w)
+        if w != 2 && w != 4 && w != 16 && w != 256 {
+            return Err(QRLError::InvalidArgument(
+                "Winternitz parameter should be 2, 4, 16 or 256".to_owned(),
+            ));
+        }
+
         let log_w = log2!(w, u32);
         let len_1 = ((8 * n) as f32 / (log_w as f32)).ceil() as u32;
         let len_2 = (log2!(len_1 * (w - 1), f32) / log_w as f32).floor() as u32 + 1;
         let len = len_1 + len_2;
         let keysize = len * n;
-        WOTSParams {
+        Ok(WOTSParams {
             n,
             w,
             log_w,
@@ -49,7 +57,7 @@ impl WOTSParams {
             len_2,
             len,
             keysize,
-        }
+        })
     }
 }
 
diff --git a/src/rust_wrapper/xmss_alt/xmss_common.rs b/src/rust_wrapper/xmss_alt/xmss_common.rs
index 73b8254..f8c4ecf 100644
--- a/src/rust_wrapper/xmss_alt/xmss_common.rs
+++ b/src/rust_wrapper/xmss_alt/xmss_common.rs
@@ -26,7 +26,7 @@ impl XMSSParams {
                 "For BDS traversal, H - K must be even, with H > K >= 2!".to_owned(),
             ))
         } else {
-            let wots_par = WOTSParams::new(n, w);
+            let wots_par = WOTSParams::new(n, w)?;
             Ok(XMSSParams { wots_par, n, h, k })
         }
     }
diff --git a/src/xmss-alt/wots.c b/src/xmss-alt/wots.c
index 2062c38..62aba44 100644
--- a/src/xmss-alt/wots.c
+++ b/src/xmss-alt/wots.c
@@ -11,12 +11,18 @@ Public domain.
 
 #include <cmath>
 #include <cstdint>
+#include <stdexcept>
 #include "xmss_common.h"
 #include "hash.h"
 #include "hash_address.h"
 
 
 void wots_set_params(wots_params *params, int n, int w) {
+    // log_w has to divide a byte (see base_w)
+    if (w != 2 && w != 4 && w != 16 && w != 256) {
+        throw std::invalid_argument("Winternitz parameter should be 2, 4, 16 or 256");
+    }
+
     params->n = n;
     params->w = w;
     params->log_w = (int) log2(w);
-- 
2.43.0


From 146e6ee2d61c3e492f260f7df2078a0e2be5f9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 09/19] fix: getHeightFromSigSize must not truncate the height

A size of 256 nodes too many was reported as height 0.
---
 src/qrl/xmssBase.cpp              | 4 ++++
 src/rust_wrapper/qrl/xmss_base.rs | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index f92e5c1..1d7d350 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -96,6 +96,10 @@ uint8_t XmssBase::getHeightFromSigSize(size_t sigSize, uint32_t wotsParamW)
 
     auto height = (sigSize - SIGNATURE_BASE_SIZE)/32;
 
+    if (height > XMSS_MAX_HEIGHT) {
+        throw std::invalid_argument("Invalid signature size");
+    }
+
     return static_cast<uint8_t>(height);
 }
 
diff --git a/src/rust_wrapper/qrl/xmss_base.rs b/src/rust_wrapper/qrl/xmss_base.rs
index 0facb3c..c27c521 100644
--- a/src/rust_wrapper/qrl/xmss_base.rs
+++ b/src/rust_wrapper/qrl/xmss_base.rs
@@ -187,6 +187,12 @@ pub trait XMSSBaseTrait {
 
         let height = (sig_size - signature_base_size) / 32;
 
+        if height > XMSS_MAX_HEIGHT {
+            return Err(QRLError::InvalidArgument(
+                "Invalid signature size".to_owned(),
+            ));
+        }
+
         Ok(height as u8)
     }
 
-- 
2.43.0


From f54327d754527c5b315b1ea9e0640e04434d3101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 10/19] fix: count the words of a mnemonic, not its spaces

An odd number of words with a doubled or trailing space was accepted and
decoded to garbage, an even number was refused, and the empty mnemonic that
bin2mnemonic gives for empty input could not be decoded.
---
 src/qrl/misc.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/qrl/misc.cpp b/src/qrl/misc.cpp
index 0c71133..31980ce 100644
--- a/src/qrl/misc.cpp
+++ b/src/qrl/misc.cpp
@@ -86,7 +86,14 @@ std::string bin2mnemonic(const std::vector<unsigned char> &vec)
 
 std::vector<unsigned char> mnemonic2bin(const std::string &mnemonic)
 {
-    auto word_count = std::count(mnemonic.cbegin(), mnemonic.cend(), ' ') + 1;
+    std::stringstream ss(mnemonic);
+    std::vector<std::string> words;
+    std::string next_word;
+    while (ss >> next_word) {
+        words.push_back(next_word);
+    }
+
+    auto word_count = words.size();
     if (word_count%2!=0)
     {
         throw std::invalid_argument("word count = " + std::to_string(word_count) + " must be even ");
@@ -100,15 +107,12 @@ std::vector<unsigned char> mnemonic2bin(const std::string &mnemonic)
         word_lookup[w] = count++;
     }
 
-    std::stringstream ss(mnemonic);
-    std::string word;
-
     std::vector<unsigned char> result;
 
     int current = 0;
     int buffering = 0;
 
-    while (ss >> word) {
+    for (const auto &word : words) {
         auto it = word_lookup.find(word);
         if (it == word_lookup.end()) {
             throw std::invalid_argument("invalid word in mnemonic");
-- 
2.43.0


From 6b898ca1bcc1f0ee226a2fdeb026a8e58c57597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 11/19] fix: hstr2bin must not pass negative characters to
 isxdigit

The behaviour of the ctype functions is undefined for negative values other
than EOF.
---
 src/qrl/misc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrl/misc.cpp b/src/qrl/misc.cpp
index 31980ce..44a5f67 100644
--- a/src/qrl/misc.cpp
+++ b/src/qrl/misc.cpp
@@ -53,7 +53,8 @@ std::vector<unsigned char> hstr2bin(const std::string &s) {
 
     std::vector<unsigned char> result;
     for (int i = 0; i < s.size(); i += 2) {
-        if (!std::isxdigit(s[i]) || !std::isxdigit(s[i + 1])) {
+        if (!std::isxdigit(static_cast<unsigned char>(s[i])) ||
+            !std::isxdigit(static_cast<unsigned char>(s[i + 1]))) {
             throw std::invalid_argument("invalid hex digits in the string");
         }
 
-- 
2.43.0


From 46a2191f6b400220c064f38c0b274081bec5ee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 12/19] fix: Dilithium and Kyber wrappers must check buffer
 sizes

Keys, signed messages and cipher texts of a wrong length were handed to the
primitives, which read past their end.
---
 src/dilithium/dilithium.cpp | 26 +++++++++++++++++++++++++-
 src/kyber/kyber.cpp         | 11 +++++++++--
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/dilithium/dilithium.cpp b/src/dilithium/dilithium.cpp
index ade7d34..95469f4 100644
--- a/src/dilithium/dilithium.cpp
+++ b/src/dilithium/dilithium.cpp
@@ -3,6 +3,7 @@
 
 #include <string>
 #include <vector>
+#include <stdexcept>
 #include <cstdint>
 #include "dilithium.h"
 
@@ -18,7 +19,15 @@ Dilithium::Dilithium(const std::vector<uint8_t> &pk, const std::vector<uint8_t>
     _pk(pk),
     _sk(sk)
 {
-    // TODO: Verify sizes - CRYPTO_SECRETKEYBYTES / CRYPTO_PUBLICKEYBYTES
+    if (pk.size() != CRYPTO_PUBLICKEYBYTES)
+    {
+        throw std::invalid_argument("pk. Invalid size");
+    }
+
+    if (sk.size() != CRYPTO_SECRETKEYBYTES)
+    {
+        throw std::invalid_argument("sk. Invalid size");
+    }
 }
 
 std::vector<uint8_t> Dilithium::sign(const std::vector<uint8_t> &message)
@@ -44,6 +53,11 @@ bool Dilithium::sign_open(std::vector<uint8_t> &message_output,
                           const std::vector<uint8_t> &message_signed,
                           const std::vector<uint8_t> &pk)
 {
+    if (pk.size() != CRYPTO_PUBLICKEYBYTES || message_signed.size() < CRYPTO_BYTES)
+    {
+        return false;
+    }
+
     auto message_size = message_signed.size();
     message_output.resize(message_size);
 
@@ -60,10 +74,20 @@ bool Dilithium::sign_open(std::vector<uint8_t> &message_output,
 
 std::vector<uint8_t> Dilithium::extract_message(std::vector<uint8_t> &message_output)
 {
+    if (message_output.size() < CRYPTO_BYTES)
+    {
+        throw std::invalid_argument("message_output. Invalid size");
+    }
+
     return std::vector<uint8_t>(message_output.begin() + CRYPTO_BYTES, message_output.end());
 }
 
 std::vector<uint8_t> Dilithium::extract_signature(std::vector<uint8_t> &message_output)
 {
+    if (message_output.size() < CRYPTO_BYTES)
+    {
+        throw std::invalid_argument("message_output. Invalid size");
+    }
+
     return std::vector<uint8_t>(message_output.begin(), message_output.begin() + CRYPTO_BYTES);
 }
diff --git a/src/kyber/kyber.cpp b/src/kyber/kyber.cpp
index 5478ea2..db63e11 100644
--- a/src/kyber/kyber.cpp
+++ b/src/kyber/kyber.cpp
@@ -34,7 +34,10 @@ Kyber::Kyber()
 
 bool Kyber::kem_encode(const std::vector<uint8_t> &other_pk)
 {
-    // TODO: Verify sizes (other_pk)
+    if (other_pk.size() != KYBER_PUBLICKEYBYTES)
+    {
+        throw std::invalid_argument("other_pk. Invalid size");
+    }
 
     _key.resize(KYBER_SYMBYTES);
     _ct.resize(KYBER_CIPHERTEXTBYTES);
@@ -48,7 +51,11 @@ bool Kyber::kem_encode(const std::vector<uint8_t> &other_pk)
 
 bool Kyber::kem_decode(const std::vector<uint8_t> &cyphertext)
 {
-    // TODO: Verify sizes (other_pk)
+    if (cyphertext.size() != KYBER_CIPHERTEXTBYTES)
+    {
+        throw std::invalid_argument("cyphertext. Invalid size");
+    }
+
     _key.resize(KYBER_SYMBYTES);
 
     auto validation_error = crypto_kem_dec(_key.data(),
-- 
2.43.0


From b3b3166884a42b8f1c9db8cb34e934821600d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 13/19] fix: Rust Dilithium and Kyber must refuse wrong sizes
 and split signed messages correctly

Wrong key sizes and short signed messages panicked, and extract_message and
extract_signature cut the signature-then-message layout from the wrong end.
---
 src/rust_wrapper/dilithium/dilithium.rs | 37 +++++++++++++------------
 src/rust_wrapper/kyber/kyber.rs         |  8 ++++--
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/rust_wrapper/dilithium/dilithium.rs b/src/rust_wrapper/dilithium/dilithium.rs
index f9706c7..6356eec 100644
--- a/src/rust_wrapper/dilithium/dilithium.rs
+++ b/src/rust_wrapper/dilithium/dilithium.rs
@@ -2,8 +2,7 @@
 // file LICENSE or http://www.opensource.org/licenses/mit-license.php.
 use pqcrypto_dilithium::dilithium5::*;
 use pqcrypto_traits::sign::{
-    PublicKey as PublicKeyTrait, SecretKey as SecretKeyTrait, SignedMessage as SignedMessageTrait,
-    VerificationError,
+    PublicKey as PublicKeyTrait, SecretKey as SecretKeyTrait, VerificationError,
 };
 use pqcrypto_traits::Error;
 
@@ -18,8 +17,8 @@ pub struct Dilithium {
 
 impl Dilithium {
     pub fn new(pk_bytes: &[u8], sk_bytes: &[u8]) -> Result<Self, Error> {
-        let pk = PublicKey::from_bytes(pk_bytes).unwrap();
-        let sk = SecretKey::from_bytes(sk_bytes).unwrap();
+        let pk = PublicKey::from_bytes(pk_bytes)?;
+        let sk = SecretKey::from_bytes(sk_bytes)?;
         Ok(Self { pk, sk })
     }
 
@@ -54,23 +53,25 @@ impl Dilithium {
     }
 
     pub fn extract_message(message_output: &Vec<u8>) -> Result<Vec<u8>, Error> {
-        let valid_message_output = SignedMessage::from_bytes(message_output.as_slice())?;
-        Ok(Vec::from(
-            valid_message_output
-                .as_bytes()
-                .get(0..(valid_message_output.len() - CRYPTO_BYTES as usize))
-                .unwrap(),
-        ))
+        let (_, message) = Self::split(message_output)?;
+        Ok(message.to_vec())
     }
 
     pub fn extract_signature(message_output: &Vec<u8>) -> Result<Vec<u8>, Error> {
-        let valid_message_output = SignedMessage::from_bytes(message_output.as_slice())?;
-        Ok(Vec::from(
-            valid_message_output
-                .as_bytes()
-                .get((message_output.len() - CRYPTO_BYTES as usize)..(message_output.len()))
-                .unwrap(),
-        ))
+        let (signature, _) = Self::split(message_output)?;
+        Ok(signature.to_vec())
+    }
+
+    // A signed message is the signature followed by the message.
+    fn split(message_output: &[u8]) -> Result<(&[u8], &[u8]), Error> {
+        if message_output.len() < CRYPTO_BYTES {
+            return Err(Error::BadLength {
+                name: "message_output",
+                actual: message_output.len(),
+                expected: CRYPTO_BYTES,
+            });
+        }
+        Ok(message_output.split_at(CRYPTO_BYTES))
     }
 }
 
diff --git a/src/rust_wrapper/kyber/kyber.rs b/src/rust_wrapper/kyber/kyber.rs
index fc6e0eb..b9613b4 100644
--- a/src/rust_wrapper/kyber/kyber.rs
+++ b/src/rust_wrapper/kyber/kyber.rs
@@ -5,7 +5,7 @@ pub use pqcrypto_traits::kem::{
     Ciphertext as CiphertextTrait, PublicKey as PublicKeyTrait, SecretKey as SecretKeyTrait,
     SharedSecret as SharedSecretTrait,
 };
-use std::io::Error;
+use std::io::{Error, ErrorKind};
 
 pub const KYBER_PUBLICKEYBYTES: usize = public_key_bytes();
 pub const KYBER_SECRETKEYBYTES: usize = secret_key_bytes();
@@ -22,8 +22,10 @@ pub struct Kyber {
 
 impl Kyber {
     pub fn new(pk_bytes: &[u8], sk_bytes: &[u8]) -> Result<Self, Error> {
-        let pk = PublicKey::from_bytes(pk_bytes).unwrap();
-        let sk = SecretKey::from_bytes(sk_bytes).unwrap();
+        let pk = PublicKey::from_bytes(pk_bytes)
+            .map_err(|e| Error::new(ErrorKind::InvalidInput, e.to_string()))?;
+        let sk = SecretKey::from_bytes(sk_bytes)
+            .map_err(|e| Error::new(ErrorKind::InvalidInput, e.to_string()))?;
         let (ss, ct) = encapsulate(&pk);
         Ok(Self { pk, sk, ss, ct })
     }
-- 
2.43.0


From 1a8bbc2d16a358867e76e5012bdc0478d5e03baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 14/19] fix: jsdilwrapper extract_message must not mix
 iterators of two temporaries

The range ran from the start of one temporary vector to the end of another.
---
 src/jswrapper/jsdilwrapper.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jswrapper/jsdilwrapper.cpp b/src/jswrapper/jsdilwrapper.cpp
index 079d2a9..f2ac5e1 100644
--- a/src/jswrapper/jsdilwrapper.cpp
+++ b/src/jswrapper/jsdilwrapper.cpp
@@ -65,8 +65,7 @@ namespace {
 
         static std::string extract_message(const std::string& message_output)
         {
-            std::vector<uint8_t> vec;
-            vec.assign( hstr2bin(message_output).begin(), hstr2bin(message_output).end());
+            std::vector<uint8_t> vec = hstr2bin(message_output);
             return bin2hstr( Dilithium::extract_message( vec ) );
         }
 
-- 
2.43.0


From 831f40ffb5de43185ec33c46dcdcef916224aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 15/19] fix: Rust mnemonic2bin must separate words as the C++
 library does

---
 src/rust_wrapper/qrl/misc.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rust_wrapper/qrl/misc.rs b/src/rust_wrapper/qrl/misc.rs
index 43d7611..1acf553 100644
--- a/src/rust_wrapper/qrl/misc.rs
+++ b/src/rust_wrapper/qrl/misc.rs
@@ -100,8 +100,15 @@ pub fn bin2mnemonic(vec: &Vec<u8>) -> Result<String, QRLError> {
     Ok(s)
 }
 
+// The separators the C++ library accepts; split_whitespace() would add the Unicode ones
+fn split_words(mnemonic: &str) -> impl Iterator<Item = &str> {
+    mnemonic
+        .split(|c: char| matches!(c, ' ' | '\t'..='\r'))
+        .filter(|word| !word.is_empty())
+}
+
 pub fn mnemonic2bin(mnemonic: &String) -> Result<Vec<u8>, QRLError> {
-    let word_count = mnemonic.split_whitespace().count();
+    let word_count = split_words(mnemonic).count();
     if word_count % 2 != 0 {
         return Err(QRLError::InvalidArgument(format!(
             "word count = {} must be even",
@@ -120,7 +127,7 @@ pub fn mnemonic2bin(mnemonic: &String) -> Result<Vec<u8>, QRLError> {
 
     let mut current = 0;
     let mut buffering = 0;
-    for word in mnemonic.split_whitespace() {
+    for word in split_words(mnemonic) {
         let it = word_lookup.get(word);
         if it.is_none() {
             return Err(QRLError::InvalidArgument(format!(
-- 
2.43.0


From 7ff6cfd346b729c50dcf0a349a082abd176e4b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:22 +0000
Subject: [PATCH 16/19] fix: getRandomSeed must refuse a size that is not a
 positive integer

---
 src/jswrapper/getRandomSeed.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jswrapper/getRandomSeed.js b/src/jswrapper/getRandomSeed.js
index 7ba5c5a..eb358e4 100644
--- a/src/jswrapper/getRandomSeed.js
+++ b/src/jswrapper/getRandomSeed.js
@@ -11,7 +11,7 @@ Module['getRandomSeed'] = function (size) {
     if (size === undefined) {
         size = 48;
     }
-    if (!(size > 0)) {
+    if (typeof size !== 'number' || !(size > 0) || size % 1 !== 0) {
         throw new Error('getRandomSeed: size must be a positive integer');
     }
 
-- 
2.43.0


From 06f446ae709bc5c274ac13908dcae31780f7b666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 17/19] fix: jsdilwrapper sign_open must not return a message
 when the signature is refused

---
 src/jswrapper/jsdilwrapper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jswrapper/jsdilwrapper.cpp b/src/jswrapper/jsdilwrapper.cpp
index f2ac5e1..c040c7d 100644
--- a/src/jswrapper/jsdilwrapper.cpp
+++ b/src/jswrapper/jsdilwrapper.cpp
@@ -59,7 +59,10 @@ namespace {
         { 
             std::vector<uint8_t> vec;
             vec.assign(message_output.begin(), message_output.end());
-            Dilithium::sign_open( vec, hstr2bin(message_signed), hstr2bin(pk));
+            if (!Dilithium::sign_open( vec, hstr2bin(message_signed), hstr2bin(pk)))
+            {
+                throw std::invalid_argument("Invalid signed message");
+            }
             return bin2hstr(vec);
         }
 
-- 
2.43.0


From 7575758c593b530f8409a320c1421da9f66649c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 18/19] fix: key constructors must refuse unknown hash
 functions and address formats

---
 src/qrl/xmssBase.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index 1d7d350..99f3c9c 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -50,6 +50,16 @@ XmssBase::XmssBase(const TSEED& seed,
     if (height>XMSS_MAX_KEY_HEIGHT) {
         throw std::invalid_argument("Height should be <= 30");
     }
+
+    if (hashFunction!=eHashFunction::SHA2_256 &&
+            hashFunction!=eHashFunction::SHAKE_128 &&
+            hashFunction!=eHashFunction::SHAKE_256) {
+        throw std::invalid_argument("Unknown hash function");
+    }
+
+    if (addrFormatType!=eAddrFormatType::SHA256_2X) {
+        throw std::invalid_argument("Unknown address format type");
+    }
 }
 
 XmssBase::XmssBase(const TSEED& extended_seed)
-- 
2.43.0


From c2abe94db6bab4e049139aba7c115c762a3b2ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:19 +0000
Subject: [PATCH 19/19] fix: hex and mnemonic text of more than 2^31 characters
 or nibbles overflowed int counters

---
 src/qrl/misc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrl/misc.cpp b/src/qrl/misc.cpp
index 44a5f67..04a0c85 100644
--- a/src/qrl/misc.cpp
+++ b/src/qrl/misc.cpp
@@ -52,7 +52,7 @@ std::vector<unsigned char> hstr2bin(const std::string &s) {
     }
 
     std::vector<unsigned char> result;
-    for (int i = 0; i < s.size(); i += 2) {
+    for (size_t i = 0; i < s.size(); i += 2) {
         if (!std::isxdigit(static_cast<unsigned char>(s[i])) ||
             !std::isxdigit(static_cast<unsigned char>(s[i + 1]))) {
             throw std::invalid_argument("invalid hex digits in the string");
@@ -73,8 +73,8 @@ std::string bin2mnemonic(const std::vector<unsigned char> &vec)
 
     std::stringstream ss;
     std::string separator;
-    for (int nibble = 0; nibble < vec.size() * 2; nibble += 3) {
-        int p = nibble >> 1;
+    for (size_t nibble = 0; nibble < vec.size() * 2; nibble += 3) {
+        size_t p = nibble >> 1;
         int b1 = vec[p];
         int b2 = p + 1 < vec.size() ? vec[p + 1] : 0;
         int idx = nibble % 2 == 0 ? (b1 << 4) + (b2 >> 4) : ((b1 & 0x0F) << 8) + b2;
-- 
2.43.0

