From 1975ad27672f335046d0d450df7a0e12fcf8e5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 01/40] fix: reject malformed CashAddr payloads instead of
 panicking

---
 bitcoin-cash/src/address.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/bitcoin-cash/src/address.rs b/bitcoin-cash/src/address.rs
index 03a41ef..b52b293 100644
--- a/bitcoin-cash/src/address.rs
+++ b/bitcoin-cash/src/address.rs
@@ -7,6 +7,7 @@ use crate::error::{Error, Result};
 use crate::{Hash160, Hashed, Pubkey, Script};
 
 const CHARSET: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
+const CHECKSUM_LEN: usize = 8;
 
 #[derive(Clone, Debug, Eq, PartialEq, Hash)]
 pub struct Address<'a> {
@@ -42,6 +43,8 @@ pub enum CashAddrError {
     InvalidBase32Letter(usize, u8),
     #[error("Invalid address type {0}")]
     InvalidAddressType(u8),
+    #[error("Invalid payload")]
+    InvalidPayload,
 }
 
 impl Prefix {
@@ -382,18 +385,24 @@ fn _from_cash_addr<'a>(
     if !_verify_checksum(&prefix, decoded.iter().cloned()) {
         return Err(CashAddrError::InvalidChecksum);
     }
-    let converted = _convert_bits(decoded.iter().cloned(), 5, 8, true).unwrap();
-    let mut addr = [0; 20];
-    addr.copy_from_slice(&converted[1..converted.len() - 6]);
-    Ok((
-        addr,
-        match converted[0] {
-            0 => AddressType::P2PKH,
-            8 => AddressType::P2SH,
-            x => return Err(CashAddrError::InvalidAddressType(x)),
-        },
-        prefix,
-    ))
+    let payload_len = decoded
+        .len()
+        .checked_sub(CHECKSUM_LEN)
+        .ok_or(CashAddrError::InvalidPayload)?;
+    let converted = _convert_bits(decoded[..payload_len].iter().cloned(), 5, 8, false)
+        .ok_or(CashAddrError::InvalidPayload)?;
+    let (&version, hash) = converted
+        .split_first()
+        .ok_or(CashAddrError::InvalidPayload)?;
+    let addr_type = match version {
+        0 => AddressType::P2PKH,
+        8 => AddressType::P2SH,
+        x => return Err(CashAddrError::InvalidAddressType(x)),
+    };
+    let addr = hash
+        .try_into()
+        .map_err(|_| CashAddrError::InvalidPayload)?;
+    Ok((addr, addr_type, prefix))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 66c65fe311fb922fde7d335c2c2d14fc6d1f68cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 02/40] fix: don't allocate for an untrusted item count when
 decoding lists

---
 bitcoin-cash/src/bitcoin_code.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoin-cash/src/bitcoin_code.rs b/bitcoin-cash/src/bitcoin_code.rs
index 0b7ba91..47a2051 100644
--- a/bitcoin-cash/src/bitcoin_code.rs
+++ b/bitcoin-cash/src/bitcoin_code.rs
@@ -64,7 +64,8 @@ impl<T: BitcoinCode> BitcoinCode for Vec<T> {
 
     fn deser_rest(data: ByteArray) -> Result<(Self, ByteArray)> {
         let (len, mut byte_array) = read_size(data)?;
-        let mut vec = Vec::with_capacity(len);
+        // `len` is untrusted, cap what is allocated up front.
+        let mut vec = Vec::with_capacity(len.min(byte_array.len()).min(1024));
         for _ in 0..len {
             let (item, rest) = T::deser_rest(byte_array)?;
             vec.push(item);
-- 
2.43.0


From d07bfa1a4ca17db98e5a2e9f25cdcd687ef77b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 03/40] fix: classify P2PKH/P2SH-like scripts with a wrong hash
 length as unknown

---
 bitcoin-cash/src/destination.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash/src/destination.rs b/bitcoin-cash/src/destination.rs
index 627595a..3e4096c 100644
--- a/bitcoin-cash/src/destination.rs
+++ b/bitcoin-cash/src/destination.rs
@@ -22,7 +22,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
 
     use PatternOp::Array;
     match pattern_ops.as_slice() {
-        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG] => {
+        [OP_DUP, OP_HASH160, Array(hash), OP_EQUALVERIFY, OP_CHECKSIG] if hash.len() == 20 => {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
@@ -31,7 +31,7 @@ pub fn script_destination<'a>(addr_prefix: &'a str, script: &Script) -> Destinat
                 ),
             )
         }
-        [OP_HASH160, Array(hash), OP_EQUAL] => {
+        [OP_HASH160, Array(hash), OP_EQUAL] if hash.len() == 20 => {
             Destination::Address(
                 Address::from_hash(
                     addr_prefix,
-- 
2.43.0


From 97a65efcac94083a72144c44d6a16a91022a88f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 04/40] fix: wrong-length hex is an error when deserializing
 fixed byte arrays

---
 bitcoin-cash-base/src/byte_array.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index 1ddd85e..e4c5b0a 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -724,6 +724,12 @@ where
                 data.reverse();
             }
             let mut array = T::default();
+            if array.as_mut().len() != data.len() {
+                return Err(serde::de::Error::custom(ByteArrayError::InvalidSlice {
+                    expected: array.as_mut().len(),
+                    actual: data.len(),
+                }));
+            }
             array.as_mut().copy_from_slice(&data);
             Ok(FixedByteArray::new_unnamed(array))
         } else {
-- 
2.43.0


From d073e2f651de283a7da9d75f2b035e553d6f2b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 05/40] fix: vec_to_int reports overflow instead of returning a
 wrong integer

---
 bitcoin-cash-base/src/encoding_utils.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitcoin-cash-base/src/encoding_utils.rs b/bitcoin-cash-base/src/encoding_utils.rs
index db3cc59..dcf6837 100644
--- a/bitcoin-cash-base/src/encoding_utils.rs
+++ b/bitcoin-cash-base/src/encoding_utils.rs
@@ -95,6 +95,7 @@ pub fn encode_bool(b: bool) -> Vec<u8> {
 
 fn try_shl(a: InnerInteger, b: u32, vec: &[u8]) -> Result<InnerInteger, String> {
     a.checked_shl(b)
+        .filter(|shifted| shifted >> b == a)
         .ok_or_else(|| format!("Overflow for {}", hex::encode(vec)))
 }
 
-- 
2.43.0


From f47f77ecd9fead6b735892c87d44625aabb745f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 06/40] fix: splitting a signature doesn't present its message
 as the content

---
 bitcoin-cash-base/src/byte_array.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index e4c5b0a..e42a586 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -320,7 +320,7 @@ impl ByteArray {
         let other = data.split_off(at);
         let mut function = Function::Plain;
         let (left_preimage, right_preimage) = match self.preimage {
-            Some(preimage) if !self.function.should_keep_intact() => {
+            Some(preimage) if self.function == Function::Plain => {
                 let mut left_preimage = Vec::new();
                 let mut right_preimage = Vec::new();
                 let mut is_left = true;
@@ -349,6 +349,8 @@ impl ByteArray {
                 }
                 (Some(left_preimage), Some(right_preimage))
             }
+            // The preimage of a function is its argument, not the parts of this array.
+            Some(_) if !self.function.should_keep_intact() => (None, None),
             Some(_) => {
                 function = Function::UnexpectedSplit;
                 (None, None)
-- 
2.43.0


From bba14596af6d4676045970a75e9630cd0fd96396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 07/40] fix: ByteArray::from_int overflowed for large n_bytes

---
 bitcoin-cash-base/src/byte_array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index e42a586..c3e7b58 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -431,7 +431,7 @@ impl ByteArray {
         if inner_n_bytes <= 0 {
             return Err(ByteArrayError::FromIntegerError { int, n_bytes });
         }
-        let max_bits = (inner_n_bytes * 8 - 1).min(31) as u128;
+        let max_bits = (inner_n_bytes.min(4) * 8 - 1) as u128;
         let max_num: u128 = 1 << max_bits;
         let max_num = (max_num - 1) as InnerInteger;
         let min_num = -max_num;
-- 
2.43.0


From 234cd4367ee6cf2be3b1385dd15d62587c86efe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 08/40] fix: decoding a Tx restores its transaction and hash

---
 bitcoin-cash/src/tx.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/bitcoin-cash/src/tx.rs b/bitcoin-cash/src/tx.rs
index a945abd..6fd76d2 100644
--- a/bitcoin-cash/src/tx.rs
+++ b/bitcoin-cash/src/tx.rs
@@ -1,3 +1,4 @@
+use crate::error::Result;
 use crate::{
     BitcoinCode, ByteArray, Hashed, Script, Sha256d, SigHashFlags, ToPreimages, TxPreimage,
 };
@@ -54,19 +55,30 @@ pub struct UnhashedTx {
     pub lock_time: u32,
 }
 
-#[bitcoin_code(crate = "crate")]
-#[derive(BitcoinCode, Deserialize, Serialize, PartialEq, Debug, Clone)]
+#[derive(Deserialize, Serialize, PartialEq, Debug, Clone)]
 #[serde(rename_all = "camelCase")]
 pub struct Tx {
-    #[bitcoin_code(skip)]
     unhashed_tx: UnhashedTx,
-
-    #[bitcoin_code(skip)]
     hash: Sha256d,
-
     raw: ByteArray,
 }
 
+impl BitcoinCode for Tx {
+    fn ser(&self) -> ByteArray {
+        self.raw.ser()
+    }
+
+    fn deser_rest(data: ByteArray) -> Result<(Self, ByteArray)> {
+        let (raw, rest) = ByteArray::deser_rest(data)?;
+        let tx = Tx {
+            unhashed_tx: UnhashedTx::deser(raw.clone())?,
+            hash: Sha256d::digest(raw.clone()),
+            raw,
+        };
+        Ok((tx, rest))
+    }
+}
+
 impl TxInput {
     pub fn new(prev_out: TxOutpoint, script: Script, sequence: u32) -> Self {
         TxInput {
-- 
2.43.0


From 80ea64e23a54f8b02ddac8724fadba2e9cd6b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 09/40] fix: decode_bitcoin_code_all decodes the empty list

---
 bitcoin-cash/src/serializer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bitcoin-cash/src/serializer.rs b/bitcoin-cash/src/serializer.rs
index db988f0..a496370 100644
--- a/bitcoin-cash/src/serializer.rs
+++ b/bitcoin-cash/src/serializer.rs
@@ -13,12 +13,10 @@ where
 
 pub fn decode_bitcoin_code_all<T: BitcoinCode>(mut byte_array: ByteArray) -> Result<Vec<T>> {
     let mut items = Vec::new();
-    loop {
+    while !byte_array.is_empty() {
         let (item, rest) = T::deser_rest(byte_array)?;
         byte_array = rest;
         items.push(item);
-        if byte_array.is_empty() {
-            return Ok(items);
-        }
     }
+    Ok(items)
 }
-- 
2.43.0


From abc99c7b643851ce1bb729ac7ea8db224453366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 10/40] fix: script code starts after the OP_CODESEPARATOR

---
 bitcoin-cash/src/script.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash/src/script.rs b/bitcoin-cash/src/script.rs
index 7cbc33d..00cd9b4 100644
--- a/bitcoin-cash/src/script.rs
+++ b/bitcoin-cash/src/script.rs
@@ -46,7 +46,7 @@ impl Script {
                 match op.op {
                     Op::Code(Opcode::OP_CODESEPARATOR) => {
                         if n_codesep == n_codeseps_found {
-                            codesep_idx = Some(idx);
+                            codesep_idx = Some(idx + 1);
                             break;
                         }
                         n_codeseps_found += 1;
-- 
2.43.0


From 801218599b914315035e99bc548f0621d205f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 11/40] fix: don't allocate for an untrusted push length when
 decoding scripts

---
 bitcoin-cash/src/script.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcoin-cash/src/script.rs b/bitcoin-cash/src/script.rs
index 00cd9b4..51e67c1 100644
--- a/bitcoin-cash/src/script.rs
+++ b/bitcoin-cash/src/script.rs
@@ -214,6 +214,9 @@ pub fn deserialize_ops(bytes: &[u8]) -> error::Result<Vec<Op>> {
                 continue;
             }
         };
+        if bytes.len() - i < push_len {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         let mut vec = vec![0; push_len];
         cur.read_exact(&mut vec)?;
         i += push_len;
-- 
2.43.0


From 27b008c519ef149a5b36d52b2b260c9763948ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 12/40] fix: statements after a nested OP_IF stay in their
 branch

---
 bitcoin-cash-script-macro/src/parse.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/parse.rs b/bitcoin-cash-script-macro/src/parse.rs
index 60a8880..d836362 100644
--- a/bitcoin-cash-script-macro/src/parse.rs
+++ b/bitcoin-cash-script-macro/src/parse.rs
@@ -449,7 +449,6 @@ fn parse_opcode_inputs(
 fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::Error> {
     let mut new_stmts = Vec::new();
     let mut if_stack = Vec::new();
-    let mut is_then = true;
     struct If {
         if_opcode: ir::OpcodeStmt,
         if_token_stream: TokenStream,
@@ -473,11 +472,9 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
                         then_stmts: vec![],
                         else_stmts: vec![],
                     });
-                    is_then = true;
                     continue;
                 }
                 "OP_ELSE" => {
-                    is_then = false;
                     let top_if = if_stack.last_mut().ok_or_else(|| {
                         syn::Error::new(opcode.expr_span, "No previous OP_IF found.")
                     })?;
@@ -514,7 +511,7 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
             new_stmts.push(stmt);
         } else {
             let top_if = if_stack.last_mut().unwrap();
-            if is_then {
+            if top_if.else_opcode.is_none() {
                 top_if.then_stmts.push(stmt);
             } else {
                 top_if.else_stmts.push(stmt);
-- 
2.43.0


From c3db1c5e00568d3cfb408deec2874ea6bf4e442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 13/40] fix: invalid preimage indices in transaction JSON are
 errors

---
 bitcoin-cash/src/serialize_json.rs | 65 ++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/bitcoin-cash/src/serialize_json.rs b/bitcoin-cash/src/serialize_json.rs
index 3a6a2ab..fd82103 100644
--- a/bitcoin-cash/src/serialize_json.rs
+++ b/bitcoin-cash/src/serialize_json.rs
@@ -8,6 +8,9 @@ use std::borrow::Cow;
 use std::collections::HashMap;
 use std::sync::Arc;
 
+/// Deeper provenance is rejected, it would overflow the stack when it's traversed or dropped.
+const MAX_PREIMAGE_DEPTH: usize = 1000;
+
 #[derive(Serialize, Deserialize, Default)]
 struct JsonData {
     data_b64: Vec<String>,
@@ -19,6 +22,9 @@ struct JsonData {
 
     #[serde(skip)]
     data_indices: BiMap<Arc<[u8]>, usize>,
+
+    #[serde(skip)]
+    decoded_byte_arrays: Vec<(ByteArray, usize)>,
 }
 
 struct JsonByteArray {
@@ -95,6 +101,12 @@ pub enum JsonError {
     #[error("Invalid data_idx: {idx}")]
     InvalidStringIdx { idx: usize },
 
+    #[error("Invalid byte array idx: {idx}")]
+    InvalidByteArrayIdx { idx: usize },
+
+    #[error("Byte array preimages nested too deep")]
+    PreimageTooDeep,
+
     #[error("Invalid hash")]
     InvalidHash,
 
@@ -347,17 +359,41 @@ impl JsonData {
     }
 
     fn get_byte_array(&mut self, byte_array_idx: usize) -> Result<ByteArray, JsonError> {
-        let preimage = self.byte_arrays[byte_array_idx]
-            .preimage_indices
-            .clone()
-            .map(|preimage_indices| {
-                preimage_indices
-                    .iter()
-                    .map(|&idx| self.get_byte_array(idx))
-                    .collect::<Result<Vec<_>, _>>()
-            })
-            .map_or(Ok(None), |preimage| preimage.map(Some))?;
+        if byte_array_idx >= self.byte_arrays.len() {
+            return Err(JsonError::InvalidByteArrayIdx { idx: byte_array_idx });
+        }
+        // Preimages always come before the byte array they belong to.
+        while self.decoded_byte_arrays.len() <= byte_array_idx {
+            let decoded = self.decode_byte_array(self.decoded_byte_arrays.len())?;
+            self.decoded_byte_arrays.push(decoded);
+        }
+        Ok(self.decoded_byte_arrays[byte_array_idx].0.clone())
+    }
+
+    fn decode_byte_array(
+        &mut self,
+        byte_array_idx: usize,
+    ) -> Result<(ByteArray, usize), JsonError> {
         let json = &self.byte_arrays[byte_array_idx];
+        let mut depth = 0;
+        let preimage = match &json.preimage_indices {
+            Some(preimage_indices) => {
+                let mut preimage = Vec::with_capacity(preimage_indices.len());
+                for &idx in preimage_indices {
+                    let (byte_array, preimage_depth) = self
+                        .decoded_byte_arrays
+                        .get(idx)
+                        .ok_or(JsonError::InvalidByteArrayIdx { idx })?;
+                    depth = depth.max(preimage_depth + 1);
+                    preimage.push(byte_array.clone());
+                }
+                Some(preimage)
+            }
+            None => None,
+        };
+        if depth > MAX_PREIMAGE_DEPTH {
+            return Err(JsonError::PreimageTooDeep);
+        }
         let data = if let Some(data) = self.data_indices.get_by_right(&json.data_idx) {
             Arc::clone(data)
         } else {
@@ -373,12 +409,9 @@ impl JsonData {
             .name_idx
             .map(|name_idx| self.get_string(name_idx).map(Clone::clone).map(Arc::new))
             .map_or(Ok(None), |name| name.map(Some))?;
-        Ok(ByteArray::from_preimage(
-            data,
-            name,
-            json.function,
-            preimage.map(Into::into),
-        ))
+        let byte_array =
+            ByteArray::from_preimage(data, name, json.function, preimage.map(Into::into));
+        Ok((byte_array, depth))
     }
 
     #[allow(clippy::ptr_arg)]
-- 
2.43.0


From 3db3e2d8eb66c4a52a18ac54d2d8a5b5fddbd3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 14/40] fix: the Rust back end keeps the largest low S when
 normalising

---
 bitcoin-cash-ecc/src/rust_ecc.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-ecc/src/rust_ecc.rs b/bitcoin-cash-ecc/src/rust_ecc.rs
index a6ae199..c495aa9 100644
--- a/bitcoin-cash-ecc/src/rust_ecc.rs
+++ b/bitcoin-cash-ecc/src/rust_ecc.rs
@@ -12,6 +12,15 @@ impl Default for RustECC {
     }
 }
 
+/// Like `Signature::normalize_s`, which turns the largest low S (half the group order) into a high one.
+fn normalize_s(sig: &mut Signature) {
+    let original = sig.s.clone();
+    sig.normalize_s();
+    if sig.s.b32() > original.b32() {
+        sig.s = original;
+    }
+}
+
 impl ECC for RustECC {
     fn sign(&self, secret_key: &[u8], msg_array: impl Into<ByteArray>) -> Result<ByteArray> {
         let msg_array = msg_array.into();
@@ -24,7 +33,7 @@ impl ECC for RustECC {
             actual: msg_array.len(),
         })?;
         let mut sig = secp256k1::sign(&msg, &sk).0;
-        sig.normalize_s();
+        normalize_s(&mut sig);
         let sig = sig.serialize_der().as_ref().to_vec();
         Ok(msg_array.apply_function(sig, Function::EcdsaSign))
     }
@@ -53,7 +62,7 @@ impl ECC for RustECC {
     fn normalize_sig(&self, sig_ser: &[u8]) -> Result<Vec<u8>> {
         let mut sig =
             Signature::parse_der_lax(sig_ser).map_err(|_| Error::InvalidSignatureFormat)?;
-        sig.normalize_s();
+        normalize_s(&mut sig);
         Ok(sig.serialize_der().as_ref().to_vec())
     }
 }
-- 
2.43.0


From 33e3742b08f6297f31e24a61ed99f3ba9160311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 15/40] fix: OP_NOTIF consumes its condition in the opcode
 behaviour table

---
 bitcoin-cash-base/src/opcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index 9047872..477f06d 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -3028,7 +3028,7 @@ impl Opcode {
             OP_0 | OP_1NEGATE | OP_1 | OP_2 | OP_3 | OP_4 | OP_5 | OP_6 | OP_7 | OP_8 | OP_9
             | OP_10 | OP_11 | OP_12 | OP_13 | OP_14 | OP_15 | OP_16 => u(&[], &[Integer], &[Added]),
 
-            OP_IF => u(&[T], &[], &[]),
+            OP_IF | OP_NOTIF => u(&[T], &[], &[]),
             OP_ELSE => u(&[], &[], &[]),
             OP_ENDIF => u(&[], &[], &[]),
 
-- 
2.43.0


From a0f6c0ae43d0148d3b03a1340dbbfc496d71dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 16/40] fix: OP_DEPTH does not produce one of its (nonexistent)
 inputs

---
 bitcoin-cash-base/src/opcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index 477f06d..84746c6 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -2920,7 +2920,7 @@ impl Opcode {
                 &[2, 3, 0, 1],
                 &[MovedIndirectly, MovedIndirectly, Moved, Moved],
             ),
-            OP_DEPTH => o(&[], &[Integer], &[0], &[Added]),
+            OP_DEPTH => u(&[], &[Integer], &[Added]),
             OP_DROP => o(&[T], &[], &[], &[]),
             OP_DUP => o(&[T], &[T, T], &[0, 0], &[Observed, Added]),
             OP_NIP => o(&[T, T], &[T], &[1], &[MovedIndirectly]),
-- 
2.43.0


From 78f67d3878d2195b65fd735284b5bdc8a55fabc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 17/40] fix: OP_CHECKSIGVERIFY produces no item, so it has no
 stack item delta

---
 bitcoin-cash-base/src/opcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-base/src/opcode.rs b/bitcoin-cash-base/src/opcode.rs
index 84746c6..aa2c743 100644
--- a/bitcoin-cash-base/src/opcode.rs
+++ b/bitcoin-cash-base/src/opcode.rs
@@ -3012,7 +3012,7 @@ impl Opcode {
             OP_HASH160 => u(&[ByteArray(None)], &[ByteArray(Some(20))], &[Changed]),
             OP_HASH256 => u(&[ByteArray(None)], &[ByteArray(Some(32))], &[Changed]),
             OP_CHECKSIG => u(&[ByteArray(None), ByteArray(None)], &[Boolean], &[Changed]),
-            OP_CHECKSIGVERIFY => u(&[ByteArray(None), ByteArray(None)], &[], &[Changed]),
+            OP_CHECKSIGVERIFY => u(&[ByteArray(None), ByteArray(None)], &[], &[]),
 
             OP_CHECKDATASIG => u(
                 &[ByteArray(None), ByteArray(None), ByteArray(None)],
-- 
2.43.0


From 113faaecfc0e8068250ca49c02f12b5fbe18eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 18/40] fix: a second OP_ELSE is an error instead of being
 dropped

---
 bitcoin-cash-script-macro/src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitcoin-cash-script-macro/src/parse.rs b/bitcoin-cash-script-macro/src/parse.rs
index d836362..27cd475 100644
--- a/bitcoin-cash-script-macro/src/parse.rs
+++ b/bitcoin-cash-script-macro/src/parse.rs
@@ -478,6 +478,12 @@ fn parse_op_if(stmts: Vec<ir::TaggedStmt>) -> Result<Vec<ir::TaggedStmt>, syn::E
                     let top_if = if_stack.last_mut().ok_or_else(|| {
                         syn::Error::new(opcode.expr_span, "No previous OP_IF found.")
                     })?;
+                    if top_if.else_opcode.is_some() {
+                        return Err(syn::Error::new(
+                            opcode.expr_span,
+                            "Only one OP_ELSE per OP_IF is supported.",
+                        ));
+                    }
                     top_if.else_opcode = Some(opcode);
                     top_if.else_token_stream = Some(token_stream);
                     continue;
-- 
2.43.0


From 9148f6ec4db3d6ea2431b209ca2fbda5f713f8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 19/40] fix: the size pushed by an unnamed OP_SIZE doesn't take
 the array's name

---
 bitcoin-cash-script-macro/src/generate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 3891030..a5c745c 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -492,7 +492,7 @@ impl GenerateScript {
                 let new_ident = self.make_ident(ident.span());
                 let name = ident.to_string();
                 if &name == "__" {
-                    if opcode_type.retains_input() {
+                    if opcode_type.retains_input() && idx == 0 {
                         let new_idx = 0;
                         pushed_stack_items.push(StackItem {
                             ident: new_ident,
@@ -535,9 +535,9 @@ impl GenerateScript {
                     }
                 }
                 None => {
-                    for _ in 0..behavior.output_types.len() {
+                    for idx in 0..behavior.output_types.len() {
                         let ident = self.make_ident(outputs_span);
-                        if opcode_type.retains_input() {
+                        if opcode_type.retains_input() && idx == 0 {
                             let new_idx = 0;
                             pushed_stack_items.push(StackItem {
                                 ident,
-- 
2.43.0


From 797a628f6395f402d4835302c1b14aabe4d0ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 20/40] fix: naming the output of OP_PICK, OP_ROLL or an alt
 stack opcode names the item

---
 bitcoin-cash-script-macro/src/generate.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index a5c745c..20e1061 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -850,6 +850,7 @@ impl GenerateScript {
                 ));
             }
             item.name = output_names[0].to_string();
+            item.has_generated_name = false;
         }
         Ok(())
     }
-- 
2.43.0


From 6d9dd1dc82e5d0368eba83d767dc87a6bd2d766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 21/40] fix: the depth pushed by depth_of_offset includes its
 literal offset when naming items

---
 bitcoin-cash-script-macro/src/generate.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 20e1061..f777a30 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -630,14 +630,22 @@ impl GenerateScript {
         match opcode_name.as_str() {
             "depth_of" | "depth_of_offset" => {
                 let src = self.next_formatted_stmts();
-                let (ident, offset) = if opcode_name.as_str() == "depth_of" {
+                let (ident, offset, known_offset) = if opcode_name.as_str() == "depth_of" {
                     match opcode.input_names.as_deref() {
-                        Some(&[Ident(ref ident)]) => (ident, quote!{0}),
+                        Some(&[Ident(ref ident)]) => (ident, quote!{0}, 0),
                         _ => return Err(Error::new(opcode.expr_span, "Expected 1 variable name")),
                     }
                 } else {
                     match opcode.input_names.as_deref() {
-                        Some(&[Ident(ref ident), Expr(ref expr)]) => (ident, quote!{#expr}),
+                        Some(&[Ident(ref ident), Expr(ref expr)]) => {
+                            let known_offset = match &**expr {
+                                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(lit), .. }) => {
+                                    lit.base10_parse::<usize>()?
+                                }
+                                _ => 0, // not known statically
+                            };
+                            (ident, quote!{#expr}, known_offset)
+                        }
                         _ => return Err(Error::new(opcode.expr_span, "Expected 1 variable name")),
                     }
                 };
@@ -655,13 +663,15 @@ impl GenerateScript {
                 } else {
                     self.make_ident(opcode.outputs_span)
                 };
+                let item_depth = Integer::new(depth + known_offset)
+                    .map_err(|err| syn::Error::new(span, err.to_string()))?;
                 let depth = Integer::new(depth)
                     .map_err(|err| syn::Error::new(span, err.to_string()))?;
                 self.push(StackItem {
                     ident: ident.clone(),
                     name: ident.to_string(),
                     has_generated_name,
-                    integer: Some(depth),
+                    integer: Some(item_depth),
                 });
                 let depth = depth.value();
                 let script_ident = &self.script_ident;
-- 
2.43.0


From a5f725807fcdaafc84e24397e1a305cdbf19ea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 22/40] fix: derive(BitcoinCode) only looks at its own field
 attributes

---
 bitcoin-cash-code/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcoin-cash-code/src/lib.rs b/bitcoin-cash-code/src/lib.rs
index 93a412a..71155c4 100644
--- a/bitcoin-cash-code/src/lib.rs
+++ b/bitcoin-cash-code/src/lib.rs
@@ -101,6 +101,9 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
     for field in fields.named.iter() {
         let mut is_skipped = false;
         for attr in &field.attrs {
+            if !attr.path.is_ident("bitcoin_code") {
+                continue;
+            }
             match attr.parse_meta()? {
                 syn::Meta::Path(_) => {
                     return Err(syn::Error::new(attr.span(), "Invalid attribute"))
-- 
2.43.0


From 3ce30ffbf67ade32cd75efd367eb740261a72564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 23/40] fix: derive(BitcoinCode) allows a field named data

---
 bitcoin-cash-code/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bitcoin-cash-code/src/lib.rs b/bitcoin-cash-code/src/lib.rs
index 71155c4..da825e6 100644
--- a/bitcoin-cash-code/src/lib.rs
+++ b/bitcoin-cash-code/src/lib.rs
@@ -93,6 +93,8 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
     };
 
     let parts_ident = quote! {__serialize_parts};
+    // Must not clash with a field's name
+    let data_ident = quote! {__deserialize_data};
 
     let mut ser_calls = Vec::new();
     let mut deser_calls = Vec::new();
@@ -138,7 +140,7 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
                 #parts_ident.push(self.#field_name.ser().named(#field_name_str));
             });
             deser_calls.push(quote! {
-                let (#field_name, data) = <#field_type as #crate_name::BitcoinCode>::deser_rest(data)?;
+                let (#field_name, #data_ident) = <#field_type as #crate_name::BitcoinCode>::deser_rest(#data_ident)?;
             })
         } else {
             deser_calls.push(quote! {
@@ -157,11 +159,11 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
                 #crate_name::ByteArray::from_parts(#parts_ident)
             }
 
-            fn deser_rest(data: #crate_name::ByteArray) -> std::result::Result<(Self, #crate_name::ByteArray), #crate_name::error::Error> {
+            fn deser_rest(#data_ident: #crate_name::ByteArray) -> std::result::Result<(Self, #crate_name::ByteArray), #crate_name::error::Error> {
                 #(#deser_calls)*
                 Ok((
                     #struct_name { #(#field_idents),* },
-                    data,
+                    #data_ident,
                 ))
             }
         }
-- 
2.43.0


From 3b3bfde28d2d2f3f0a80ca8d178247839d1e143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 24/40] fix: from_parts lists its parts side by side instead of
 nesting one level per part

---
 bitcoin-cash-base/src/byte_array.rs | 45 +++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index c3e7b58..5db031c 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -172,15 +172,48 @@ impl ByteArray {
         ByteArray { data: slice.into() }
     }
 
+    #[cfg(not(feature = "simple-bytearray"))]
     pub fn from_parts(parts: impl IntoIterator<Item = ByteArray>) -> ByteArray {
-        let mut byte_array: Option<ByteArray> = None;
+        let mut parts = parts.into_iter().collect::<Vec<_>>();
+        if parts.len() == 1 {
+            return parts.remove(0);
+        }
+        if parts.is_empty() {
+            return ByteArray::new_unnamed(Vec::new());
+        }
+        let mut data = Vec::with_capacity(parts.iter().map(|part| part.data.len()).sum());
+        for part in parts.iter() {
+            data.extend_from_slice(&part.data);
+        }
+        // Plain parts are flattened as in `concat`. All others are listed side by side: nesting
+        // one level per part would exhaust the stack when splitting a long list of hashes.
+        let preimage = if parts.iter().all(|part| part.function == Function::Plain) {
+            let mut flattened = Vec::with_capacity(parts.len());
+            for part in parts {
+                match &part.preimage {
+                    Some(preimage) => flattened.extend(preimage.iter().cloned()),
+                    None => flattened.push(part),
+                }
+            }
+            flattened
+        } else {
+            parts
+        };
+        ByteArray {
+            data: data.into(),
+            name: None,
+            function: Function::Plain,
+            preimage: Some(preimage.into()),
+        }
+    }
+
+    #[cfg(feature = "simple-bytearray")]
+    pub fn from_parts(parts: impl IntoIterator<Item = ByteArray>) -> ByteArray {
+        let mut data = Vec::new();
         for part in parts {
-            byte_array = Some(match byte_array {
-                Some(byte_array) => byte_array.concat(part),
-                None => part,
-            })
+            data.extend_from_slice(&part.data);
         }
-        byte_array.unwrap_or_else(|| ByteArray::new_unnamed(Vec::new()))
+        ByteArray { data: data.into() }
     }
 
     #[cfg(not(feature = "simple-bytearray"))]
-- 
2.43.0


From e31c5ae7f495a6b17408302f5e98d51b48f6445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 25/40] fix: dropping a long chain of preimages doesn't exhaust
 the stack

---
 bitcoin-cash-base/src/byte_array.rs | 47 +++++++++++++++++++----------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index 5db031c..c387b86 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -289,15 +289,13 @@ impl ByteArray {
         new_data.extend_from_slice(&self.data);
         new_data.extend_from_slice(&other.data);
         if self.function == Function::Plain && other.function == Function::Plain {
-            let mut new_preimage = if self.preimage.is_some() {
-                self.preimage.unwrap().to_vec()
-            } else {
-                vec![self]
+            let mut new_preimage = match &self.preimage {
+                Some(preimage) => preimage.to_vec(),
+                None => vec![self],
             };
-            new_preimage.append(&mut if other.preimage.is_some() {
-                other.preimage.unwrap().to_vec()
-            } else {
-                vec![other]
+            new_preimage.append(&mut match &other.preimage {
+                Some(preimage) => preimage.to_vec(),
+                None => vec![other],
             });
             return ByteArray {
                 data: new_data.into(),
@@ -352,7 +350,7 @@ impl ByteArray {
         let mut data = self.data.to_vec();
         let other = data.split_off(at);
         let mut function = Function::Plain;
-        let (left_preimage, right_preimage) = match self.preimage {
+        let (left_preimage, right_preimage) = match &self.preimage {
             Some(preimage) if self.function == Function::Plain => {
                 let mut left_preimage = Vec::new();
                 let mut right_preimage = Vec::new();
@@ -440,11 +438,9 @@ impl ByteArray {
     }
 
     #[cfg(not(feature = "simple-bytearray"))]
-    pub fn named(self, name: impl Into<Cow<'static, str>>) -> ByteArray {
-        ByteArray {
-            name: Some(Arc::new(name.into())),
-            ..self
-        }
+    pub fn named(mut self, name: impl Into<Cow<'static, str>>) -> ByteArray {
+        self.name = Some(Arc::new(name.into()));
+        self
     }
 
     #[cfg(feature = "simple-bytearray")]
@@ -453,8 +449,9 @@ impl ByteArray {
     }
 
     #[cfg(not(feature = "simple-bytearray"))]
-    pub fn named_option(self, name: Option<Arc<Cow<'static, str>>>) -> ByteArray {
-        ByteArray { name, ..self }
+    pub fn named_option(mut self, name: Option<Arc<Cow<'static, str>>>) -> ByteArray {
+        self.name = name;
+        self
     }
 
     #[allow(clippy::comparison_chain)]
@@ -588,6 +585,24 @@ where
     }
 }
 
+#[cfg(not(feature = "simple-bytearray"))]
+impl Drop for ByteArray {
+    /// Takes the preimages apart one after the other; dropping them recursively would exhaust
+    /// the stack for long chains of functions.
+    fn drop(&mut self) {
+        let mut pending = match self.preimage.take() {
+            Some(preimage) => vec![preimage],
+            None => return,
+        };
+        while let Some(mut preimage) = pending.pop() {
+            // Only the last owner takes it apart.
+            if let Some(byte_arrays) = Arc::get_mut(&mut preimage) {
+                pending.extend(byte_arrays.iter_mut().filter_map(|part| part.preimage.take()));
+            }
+        }
+    }
+}
+
 impl Default for ByteArray {
     fn default() -> Self {
         ByteArray::from_slice_unnamed(&[])
-- 
2.43.0


From 2812ffb23c9138393f4896817473f6c9d9f7e3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 26/40] fix: transaction JSON export handles shared preimages
 and long chains

---
 bitcoin-cash/src/serialize_json.rs | 49 ++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/bitcoin-cash/src/serialize_json.rs b/bitcoin-cash/src/serialize_json.rs
index fd82103..c9c6a47 100644
--- a/bitcoin-cash/src/serialize_json.rs
+++ b/bitcoin-cash/src/serialize_json.rs
@@ -327,12 +327,49 @@ impl JsonTaggedOp {
 
 impl JsonData {
     fn insert_byte_array(&mut self, byte_array: &ByteArray) -> usize {
-        let preimage_indices = byte_array.preimage().map(|preimage| {
-            preimage
-                .iter()
-                .map(|preimage| self.insert_byte_array(preimage))
-                .collect::<Vec<_>>()
-        });
+        // Not recursive, as long chains of functions would exhaust the stack. A preimage used in
+        // several places is inserted once, not once for every path that leads to it.
+        let mut inserted = HashMap::new();
+        let mut pending = vec![(byte_array, Vec::new())];
+        loop {
+            let (byte_array, preimage_indices) = pending.last_mut().unwrap();
+            let byte_array: &ByteArray = *byte_array;
+            let preimage = byte_array.preimage();
+            if let Some(part) = preimage.and_then(|preimage| preimage.get(preimage_indices.len())) {
+                match inserted.get(&Self::identity(part)) {
+                    Some(&part_idx) => preimage_indices.push(part_idx),
+                    None => pending.push((part, Vec::new())),
+                }
+                continue;
+            }
+            let preimage_indices = preimage.map(|_| std::mem::take(preimage_indices));
+            let byte_array_idx = self.insert_with_preimage(byte_array, preimage_indices);
+            if preimage.is_some() {
+                inserted.insert(Self::identity(byte_array), byte_array_idx);
+            }
+            pending.pop();
+            match pending.last_mut() {
+                Some((_, preimage_indices)) => preimage_indices.push(byte_array_idx),
+                None => return byte_array_idx,
+            }
+        }
+    }
+
+    /// Equal for clones of the same byte array (as long as they are alive).
+    fn identity(byte_array: &ByteArray) -> impl std::hash::Hash + Eq {
+        (
+            byte_array.data().as_ptr(),
+            byte_array.name_arc().map(Arc::as_ptr),
+            byte_array.function() as u8,
+            byte_array.preimage().map(<[_]>::as_ptr),
+        )
+    }
+
+    fn insert_with_preimage(
+        &mut self,
+        byte_array: &ByteArray,
+        preimage_indices: Option<Vec<usize>>,
+    ) -> usize {
         let name_idx = byte_array
             .name_arc()
             .map(|name| self.insert_string_arc(name));
-- 
2.43.0


From b8b5b26f4329d7caab346eaeb19c05396624974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 27/40] fix: splitting deeply nested concatenations doesn't
 exhaust the stack

---
 bitcoin-cash-base/src/byte_array.rs | 120 ++++++++++++++++------------
 1 file changed, 69 insertions(+), 51 deletions(-)

diff --git a/bitcoin-cash-base/src/byte_array.rs b/bitcoin-cash-base/src/byte_array.rs
index c387b86..cfa0f0e 100644
--- a/bitcoin-cash-base/src/byte_array.rs
+++ b/bitcoin-cash-base/src/byte_array.rs
@@ -347,61 +347,79 @@ impl ByteArray {
                 len: self.data.len(),
             });
         }
-        let mut data = self.data.to_vec();
-        let other = data.split_off(at);
-        let mut function = Function::Plain;
-        let (left_preimage, right_preimage) = match &self.preimage {
-            Some(preimage) if self.function == Function::Plain => {
-                let mut left_preimage = Vec::new();
-                let mut right_preimage = Vec::new();
-                let mut is_left = true;
-                let mut len = 0;
-                for part in preimage.iter().cloned() {
-                    let part_len = part.data.len();
-                    if len == at {
-                        is_left = false;
-                    }
-                    if len + part_len > at && is_left {
-                        let part_function = part.function;
-                        let (mut sub_left, mut sub_right) = part.split(at - len)?;
-                        if part_function.should_keep_intact() {
-                            sub_left.function = Function::UnexpectedSplit;
-                            sub_right.function = Function::UnexpectedSplit;
-                        }
-                        left_preimage.push(sub_left);
-                        right_preimage.push(sub_right);
-                        is_left = false;
-                    } else if is_left {
-                        left_preimage.push(part);
-                    } else {
-                        right_preimage.push(part);
-                    }
-                    len += part_len;
+        let half = |data: &[u8], function, preimage: Option<Vec<ByteArray>>| ByteArray {
+            data: data.into(),
+            name: None,
+            function,
+            preimage: preimage.map(Into::into),
+        };
+        // Concatenations of concatenations are split from the inside out; recursion would exhaust
+        // the stack if there are many of them.
+        let mut array = self;
+        let mut at = at;
+        let mut outer = Vec::new();
+        let (mut left, mut right) = loop {
+            let preimage = match &array.preimage {
+                Some(preimage) if array.function == Function::Plain => preimage,
+                preimage => {
+                    // The preimage of a function is its argument, not the parts of this array.
+                    let function = match preimage {
+                        Some(_) if array.function.should_keep_intact() => Function::UnexpectedSplit,
+                        _ => Function::Plain,
+                    };
+                    break (
+                        half(&array.data[..at], function, None),
+                        half(&array.data[at..], function, None),
+                    );
+                }
+            };
+            let mut left_preimage = Vec::new();
+            let mut right_preimage = Vec::new();
+            let mut split_part = None;
+            let mut is_left = true;
+            let mut len = 0;
+            for part in preimage.iter().cloned() {
+                let part_len = part.data.len();
+                if len == at {
+                    is_left = false;
                 }
-                (Some(left_preimage), Some(right_preimage))
+                if len + part_len > at && is_left {
+                    split_part = Some((part, at - len));
+                    is_left = false;
+                } else if is_left {
+                    left_preimage.push(part);
+                } else {
+                    right_preimage.push(part);
+                }
+                len += part_len;
             }
-            // The preimage of a function is its argument, not the parts of this array.
-            Some(_) if !self.function.should_keep_intact() => (None, None),
-            Some(_) => {
-                function = Function::UnexpectedSplit;
-                (None, None)
+            match split_part {
+                Some((part, part_at)) => {
+                    outer.push((array, at, left_preimage, right_preimage));
+                    array = part;
+                    at = part_at;
+                }
+                None => {
+                    break (
+                        half(&array.data[..at], Function::Plain, Some(left_preimage)),
+                        half(&array.data[at..], Function::Plain, Some(right_preimage)),
+                    )
+                }
             }
-            None => (None, None),
         };
-        Ok((
-            ByteArray {
-                data: data.into(),
-                name: None,
-                function,
-                preimage: left_preimage.map(Into::into),
-            },
-            ByteArray {
-                data: other.into(),
-                name: None,
-                function,
-                preimage: right_preimage.map(Into::into),
-            },
-        ))
+        while let Some((outer_array, outer_at, mut left_preimage, mut right_preimage)) = outer.pop()
+        {
+            if array.function.should_keep_intact() {
+                left.function = Function::UnexpectedSplit;
+                right.function = Function::UnexpectedSplit;
+            }
+            left_preimage.push(left);
+            right_preimage.insert(0, right);
+            array = outer_array;
+            left = half(&array.data[..outer_at], Function::Plain, Some(left_preimage));
+            right = half(&array.data[outer_at..], Function::Plain, Some(right_preimage));
+        }
+        Ok((left, right))
     }
 
     #[cfg(feature = "simple-bytearray")]
-- 
2.43.0


From 5dc3a7d978a8c6690b25b06fc8d1f479f0d3f18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 28/40] fix: error messages tell which operation failed

---
 bitcoin-cash-base/src/integer.rs   | 6 +++---
 bitcoin-cash/src/error.rs          | 4 ++--
 bitcoin-cash/src/serialize_json.rs | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bitcoin-cash-base/src/integer.rs b/bitcoin-cash-base/src/integer.rs
index be9e981..05d1f3b 100644
--- a/bitcoin-cash-base/src/integer.rs
+++ b/bitcoin-cash-base/src/integer.rs
@@ -12,10 +12,10 @@ pub enum IntegerError {
     #[error("Addition overflowed: {0} + {1}")]
     AddOverflow(InnerInteger, InnerInteger),
 
-    #[error("Subtraction overflowed: {0} + {1}")]
+    #[error("Subtraction overflowed: {0} - {1}")]
     SubOverflow(InnerInteger, InnerInteger),
 
-    #[error("Multiplication overflowed: {0} / {1}")]
+    #[error("Multiplication overflowed: {0} * {1}")]
     MulOverflow(InnerInteger, InnerInteger),
 
     #[error("Division error: {0} / {1}")]
@@ -27,7 +27,7 @@ pub enum IntegerError {
     #[error("Left shift overflow: {0} << {1}")]
     ShlOverflow(InnerInteger, u32),
 
-    #[error("Right shift overflow: {0} << {1}")]
+    #[error("Right shift overflow: {0} >> {1}")]
     ShrOverflow(InnerInteger, u32),
 
     #[error("Negation overflowed: -{0}")]
diff --git a/bitcoin-cash/src/error.rs b/bitcoin-cash/src/error.rs
index a9bf5e3..6910cc8 100644
--- a/bitcoin-cash/src/error.rs
+++ b/bitcoin-cash/src/error.rs
@@ -42,13 +42,13 @@ pub enum Error {
     #[error("Script serialize error: {0}")]
     ScriptSerialize(#[from] ScriptSerializeError),
 
-    #[error("Script serialize error: {amount}")]
+    #[error("Insufficient input amount: {amount} satoshis missing")]
     InsufficientInputAmount { amount: u64 },
 
     #[error("Invalid signature format")]
     InvalidSignatureFormat,
 
-    #[error("Invalid invalid pubkey")]
+    #[error("Invalid pubkey")]
     InvalidPubkey,
 
     #[error("Input {input_idx} already spent")]
diff --git a/bitcoin-cash/src/serialize_json.rs b/bitcoin-cash/src/serialize_json.rs
index c9c6a47..7d99adc 100644
--- a/bitcoin-cash/src/serialize_json.rs
+++ b/bitcoin-cash/src/serialize_json.rs
@@ -98,7 +98,7 @@ pub enum JsonError {
     #[error("Invalid data_idx: {idx}")]
     InvalidDataIdx { idx: usize },
 
-    #[error("Invalid data_idx: {idx}")]
+    #[error("Invalid string idx: {idx}")]
     InvalidStringIdx { idx: usize },
 
     #[error("Invalid byte array idx: {idx}")]
-- 
2.43.0


From 07d18397c02e4acceee58ebafecc8bb4c6b3f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 29/40] fix: the script macro's output doesn't depend on the
 order of a hash map

---
 bitcoin-cash-script-macro/src/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/state.rs b/bitcoin-cash-script-macro/src/state.rs
index e86167e..2702da5 100644
--- a/bitcoin-cash-script-macro/src/state.rs
+++ b/bitcoin-cash-script-macro/src/state.rs
@@ -2,7 +2,7 @@ use crate::ir;
 use bitcoin_cash_base::Integer;
 use proc_macro2::TokenStream;
 use quote::quote;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 #[derive(Clone)]
 pub struct StackItem {
@@ -21,7 +21,7 @@ pub struct State {
 
 #[derive(Clone)]
 pub struct VariantStates {
-    pub states: HashMap<syn::Ident, State>,
+    pub states: BTreeMap<syn::Ident, State>,
     pub predicate_atoms: Vec<ir::VariantPredicateAtom>,
 }
 
-- 
2.43.0


From 5670c2bf32dcbc6666cf3355c218d56c9d1f22cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:15 +0000
Subject: [PATCH 30/40] fix: OP_PICK and OP_ROLL follow the depth each variant
 pushed

---
 bitcoin-cash-script-macro/src/generate.rs | 16 ++-------
 bitcoin-cash-script-macro/src/state.rs    | 40 ++++++++++++++++++++---
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index f777a30..e6daf4f 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -5,7 +5,6 @@ use bitcoin_cash_base::{Integer, Opcode};
 use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned, ToTokens};
 use std::collections::HashMap;
-use std::convert::TryInto;
 use std::iter::FromIterator;
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
@@ -376,26 +375,17 @@ impl GenerateScript {
             }
             Some(&opcode_type @ OP_PICK) | Some(&opcode_type @ OP_ROLL) => {
                 let src = self.next_formatted_stmts();
+                let item_depths = self.variant_states.top_integers();
                 let stack_item = self.pop(opcode_type, expr_span)?;
                 Self::verify_item_name(opcode_type, &opcode, &stack_item)?;
-                let item_depth = match stack_item.integer {
-                    Some(integer) => {
-                        let result: Result<usize, _> = integer.value().try_into();
-                        match result {
-                            Ok(depth) => depth,
-                            Err(err) => return Err(syn::Error::new(expr_span, err.to_string())),
-                        }
-                    }
-                    _ => 0, // take top stack item if not known statically
-                };
                 let mut item = match opcode_type {
                     OP_PICK => self
                         .variant_states
-                        .pick(item_depth)
+                        .pick(&item_depths)
                         .map_err(|err| error_opcode(err, opcode_type, expr_span))?,
                     OP_ROLL => self
                         .variant_states
-                        .roll(item_depth)
+                        .roll(&item_depths)
                         .map_err(|err| error_opcode(err, opcode_type, expr_span))?,
                     _ => unreachable!(),
                 };
diff --git a/bitcoin-cash-script-macro/src/state.rs b/bitcoin-cash-script-macro/src/state.rs
index 2702da5..6407d0f 100644
--- a/bitcoin-cash-script-macro/src/state.rs
+++ b/bitcoin-cash-script-macro/src/state.rs
@@ -3,6 +3,7 @@ use bitcoin_cash_base::Integer;
 use proc_macro2::TokenStream;
 use quote::quote;
 use std::collections::BTreeMap;
+use std::convert::TryInto;
 
 #[derive(Clone)]
 pub struct StackItem {
@@ -53,12 +54,35 @@ impl VariantStates {
         }
     }
 
-    fn pick_roll(&mut self, item_depth: usize, is_roll: bool) -> Result<StackItem, String> {
+    /// What is known about the integer on top of the stack, for every variant reached.
+    pub fn top_integers(&self) -> BTreeMap<syn::Ident, Option<Integer>> {
+        self.states
+            .iter()
+            .filter(|(_, state)| state.condition.holds(&self.predicate_atoms))
+            .map(|(variant, state)| {
+                let integer = state.stack.last().and_then(|item| item.integer);
+                (variant.clone(), integer)
+            })
+            .collect()
+    }
+
+    fn pick_roll(
+        &mut self,
+        item_depths: &BTreeMap<syn::Ident, Option<Integer>>,
+        is_roll: bool,
+    ) -> Result<StackItem, String> {
         let mut prev_item: Option<StackItem> = None;
         let mut prev_variant = None;
         for (next_variant, next_state) in self.states.iter_mut() {
             if next_state.condition.holds(&self.predicate_atoms) {
                 let stack = &mut next_state.stack;
+                let item_depth: usize = match item_depths.get(next_variant) {
+                    Some(Some(integer)) => {
+                        let depth = integer.value();
+                        depth.try_into().map_err(|_| format!("Invalid depth {}", depth))?
+                    }
+                    _ => 0, // take top stack item if not known statically
+                };
                 if item_depth >= stack.len() {
                     return Err(format!(
                         "Tried accessing {} items deep, but stack only has {} items",
@@ -255,11 +279,17 @@ impl VariantStates {
         self.pop_flagged(true)
     }
 
-    pub fn pick(&mut self, item_depth: usize) -> Result<StackItem, String> {
-        self.pick_roll(item_depth, false)
+    pub fn pick(
+        &mut self,
+        item_depths: &BTreeMap<syn::Ident, Option<Integer>>,
+    ) -> Result<StackItem, String> {
+        self.pick_roll(item_depths, false)
     }
 
-    pub fn roll(&mut self, item_depth: usize) -> Result<StackItem, String> {
-        self.pick_roll(item_depth, true)
+    pub fn roll(
+        &mut self,
+        item_depths: &BTreeMap<syn::Ident, Option<Integer>>,
+    ) -> Result<StackItem, String> {
+        self.pick_roll(item_depths, true)
     }
 }
-- 
2.43.0


From 20e358b2d886ca22489d74d12410418858293373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 31/40] fix: sign_input doesn't print to standard output

---
 bitcoin-cash/src/tx_builder.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bitcoin-cash/src/tx_builder.rs b/bitcoin-cash/src/tx_builder.rs
index 5f4c6b6..f3dbaca 100644
--- a/bitcoin-cash/src/tx_builder.rs
+++ b/bitcoin-cash/src/tx_builder.rs
@@ -492,7 +492,6 @@ impl<'b> UnsignedTx<'b> {
         input_ref: InputReference<S>,
         sigs: S::Signatures,
     ) -> Result<()> {
-        println!("Signing input {}", input_ref.input_idx());
         self.sign_input_dyn(input_ref.input_idx, Box::new(sigs))
     }
 
-- 
2.43.0


From 3855658988e6707718b6b55db76329f96743ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:02 +0000
Subject: [PATCH 32/40] fix: sums of amounts and fees beyond u64 overflowed
 when building a transaction

---
 bitcoin-cash/src/tx_builder.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/bitcoin-cash/src/tx_builder.rs b/bitcoin-cash/src/tx_builder.rs
index f3dbaca..8f9a433 100644
--- a/bitcoin-cash/src/tx_builder.rs
+++ b/bitcoin-cash/src/tx_builder.rs
@@ -339,11 +339,17 @@ impl<'b> TxBuilder<'b> {
     }
 
     pub fn build(self) -> Result<UnsignedTx<'b>> {
-        let known_output_amount = self.known_output_sum();
-        let total_input_amount = self.input_sum();
+        // Sums of amounts and fees may be beyond u64.
+        let known_output_amount = (self.outputs.iter())
+            .map(|output| output.get_value() as u128)
+            .sum::<u128>();
+        let total_input_amount = (self.inputs.iter())
+            .map(|input| input.input.value as u128)
+            .sum::<u128>();
         if known_output_amount > total_input_amount {
+            let amount = known_output_amount - total_input_amount;
             return Err(Error::InsufficientInputAmount {
-                amount: known_output_amount - total_input_amount,
+                amount: amount.min(std::u64::MAX as u128) as u64,
             });
         }
         let mut total_leftover = total_input_amount - known_output_amount;
@@ -366,21 +372,21 @@ impl<'b> TxBuilder<'b> {
                 ..
             } = self.outputs[idx]
             {
-                if total_leftover <= lower_bound {
+                if total_leftover <= lower_bound as u128 {
                     continue;
                 }
-                let max_leftover = total_leftover.min(upper_bound);
+                let max_leftover = total_leftover.min(upper_bound as u128) as u64;
                 leftover_amounts.insert(idx, max_leftover);
                 let new_size = self.estimate_size(self.make_outputs(&leftover_amounts));
-                let fee = new_size as u64 * self.fee_per_kb / 1000;
+                let fee = new_size as u128 * self.fee_per_kb as u128 / 1000;
                 if fee <= total_leftover {
-                    let leftover = (total_leftover - fee).min(upper_bound);
+                    let leftover = (total_leftover - fee).min(upper_bound as u128) as u64;
                     if leftover <= lower_bound {
                         leftover_amounts.remove(&idx);
                         continue;
                     }
                     leftover_amounts.insert(idx, leftover);
-                    total_leftover -= leftover;
+                    total_leftover -= leftover as u128;
                     estimated_size = Some(new_size);
                 } else {
                     leftover_amounts.remove(&idx);
-- 
2.43.0


From 036455ff59ee0469cb5a252412a54531cdd72831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 33/40] fix: the script macro panicked on a variant condition
 that doesn't start with an ASCII character

---
 bitcoin-cash-script-macro/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-script-macro/src/parse.rs b/bitcoin-cash-script-macro/src/parse.rs
index 27cd475..ed0d3b0 100644
--- a/bitcoin-cash-script-macro/src/parse.rs
+++ b/bitcoin-cash-script-macro/src/parse.rs
@@ -201,7 +201,7 @@ fn parse_predicate(predicate_lit: &syn::Lit) -> Result<ir::VariantPredicate, Str
                             if predicate_atom.is_empty() {
                                 return Err("Empty predicate name".to_string());
                             }
-                            let is_negated = &predicate_atom[..1] == "!";
+                            let is_negated = predicate_atom.starts_with('!');
                             if is_negated {
                                 predicate_atom = &predicate_atom[1..];
                             }
-- 
2.43.0


From 6d2053fadc0d4d5c6ea32695d8532365b7b8fc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 34/40] fix: the script macro panicked on an input of a variant
 named like the input struct

---
 bitcoin-cash-script-macro/src/generate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index e6daf4f..f51f8d9 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -108,7 +108,10 @@ impl GenerateScript {
                             Error::new(span, format!("Undefined variant `{}`.", variant))
                         })?;
                     stack.stack.push(stack_item.clone());
-                    let fields = enum_variant_fields.get_mut(&variant).unwrap();
+                    // Without variants, the only state is that of the input struct itself
+                    let fields = enum_variant_fields.get_mut(&variant).ok_or_else(|| {
+                        Error::new(span, format!("Undefined variant `{}`.", variant))
+                    })?;
                     fields.push((
                         ident.clone(),
                         ty.clone(),
-- 
2.43.0


From e5ae867adfc4fddc6f28ca72cee01ddd49c71929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 35/40] fix: the script macro panicked on a generic const
 parameter

---
 bitcoin-cash-script-macro/src/generate.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index f51f8d9..6b536cc 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -5,7 +5,6 @@ use bitcoin_cash_base::{Integer, Opcode};
 use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned, ToTokens};
 use std::collections::HashMap;
-use std::iter::FromIterator;
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
 
@@ -146,13 +145,9 @@ impl GenerateScript {
         let pub_func_name = &script.sig.ident;
         let hidden_func_name = &sig.ident;
         let input_struct = script.input_struct;
-        let generics = sig.generics.clone();
-        let _generics_idents: Punctuated<_, syn::token::Comma> =
-            Punctuated::from_iter(generics.params.iter().map(|param| match param {
-                syn::GenericParam::Type(ty) => ty.ident.to_token_stream(),
-                syn::GenericParam::Lifetime(lt) => lt.lifetime.to_token_stream(),
-                _ => panic!("Generic const not supported"),
-            }));
+        if let Some(generic_const) = sig.generics.const_params().next() {
+            return Err(Error::new(generic_const.span(), "Generic const not supported"));
+        }
         let script_ident = &self.script_ident;
 
         let (param_type, self_ref_tokens) = match &*script.param_type {
-- 
2.43.0


From 05642f3d475e6c6d37ae5d2732bbfa10341bf966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 36/40] fix: the script macro panicked on a function with a raw
 identifier as name

---
 bitcoin-cash-script-macro/src/generate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 6b536cc..33164d3 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -3,7 +3,7 @@ use crate::ir;
 use crate::state::{StackItem, State, VariantStates};
 use bitcoin_cash_base::{Integer, Opcode};
 use proc_macro2::{Span, TokenStream};
-use quote::{quote, quote_spanned, ToTokens};
+use quote::{format_ident, quote, quote_spanned, ToTokens};
 use std::collections::HashMap;
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
@@ -139,7 +139,7 @@ impl GenerateScript {
         let mut sig = script.sig.clone();
         let mut inputs = Punctuated::new();
         inputs.push(sig.inputs[0].clone());
-        sig.ident = syn::Ident::new(&format!("__impl_{}", sig.ident), sig.ident.span());
+        sig.ident = format_ident!("__impl_{}", sig.ident);
         sig.inputs = inputs;
         sig.output = syn::ReturnType::Default;
         let pub_func_name = &script.sig.ident;
-- 
2.43.0


From 313f955b30787f8d6acf9e9e6f853a7f31baedb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 37/40] fix: the script macro panicked on an offset that
 overflows the depth

---
 bitcoin-cash-script-macro/src/generate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 33164d3..0119c97 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -651,7 +651,7 @@ impl GenerateScript {
                 } else {
                     self.make_ident(opcode.outputs_span)
                 };
-                let item_depth = Integer::new(depth + known_offset)
+                let item_depth = Integer::new(depth.saturating_add(known_offset))
                     .map_err(|err| syn::Error::new(span, err.to_string()))?;
                 let depth = Integer::new(depth)
                     .map_err(|err| syn::Error::new(span, err.to_string()))?;
-- 
2.43.0


From 28c8882ca5393639eb46f89df56251bec8427a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:35 +0000
Subject: [PATCH 38/40] fix: the macros panicked on a crate name that isn't an
 identifier

---
 bitcoin-cash-code/src/lib.rs           | 15 ++++++++++++---
 bitcoin-cash-script-macro/src/parse.rs | 14 +++++++++-----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/bitcoin-cash-code/src/lib.rs b/bitcoin-cash-code/src/lib.rs
index da825e6..131ea7f 100644
--- a/bitcoin-cash-code/src/lib.rs
+++ b/bitcoin-cash-code/src/lib.rs
@@ -2,6 +2,8 @@ extern crate proc_macro;
 
 use proc_macro2::TokenStream;
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
+use syn::parse::Parser;
 use syn::spanned::Spanned;
 
 fn single_path(path: &syn::Path) -> Option<syn::Ident> {
@@ -44,9 +46,16 @@ fn generate(item_struct: syn::ItemStruct) -> Result<TokenStream, syn::Error> {
                                                     "Invalid attribute, invalid value",
                                                 )
                                             })?;
-                                        crate_name =
-                                            syn::Ident::new(&crate_name_str, name_value.lit.span())
-                                                .to_token_stream();
+                                        let mut crate_ident = syn::Ident::parse_any
+                                            .parse_str(&crate_name_str)
+                                            .map_err(|_| {
+                                                syn::Error::new(
+                                                    name_value.lit.span(),
+                                                    "Invalid attribute, invalid crate name",
+                                                )
+                                            })?;
+                                        crate_ident.set_span(name_value.lit.span());
+                                        crate_name = crate_ident.to_token_stream();
                                     }
                                     _ => {
                                         return Err(syn::Error::new(
diff --git a/bitcoin-cash-script-macro/src/parse.rs b/bitcoin-cash-script-macro/src/parse.rs
index ed0d3b0..9fb54e8 100644
--- a/bitcoin-cash-script-macro/src/parse.rs
+++ b/bitcoin-cash-script-macro/src/parse.rs
@@ -1,6 +1,8 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{quote, ToTokens};
 use std::collections::HashMap;
+use syn::ext::IdentExt;
+use syn::parse::Parser;
 use syn::spanned::Spanned;
 
 use crate::ir;
@@ -92,11 +94,13 @@ fn parse_attrs(
         if let syn::NestedMeta::Meta(syn::Meta::NameValue(variant)) = attr {
             let name = single_path(&variant.path).map_err(|_| "Variant cannot have a module")?;
             if &name.to_string() == "crate" {
-                crate_name = Some(syn::Ident::new(
-                    &parse_string_lit(&variant.lit)
-                        .ok_or_else(|| "Invalid crate name, must be string.".to_string())?,
-                    name.span(),
-                ));
+                let crate_name_str = parse_string_lit(&variant.lit)
+                    .ok_or_else(|| "Invalid crate name, must be string.".to_string())?;
+                let mut crate_ident = syn::Ident::parse_any
+                    .parse_str(&crate_name_str)
+                    .map_err(|_| "Invalid crate name, must be an identifier.".to_string())?;
+                crate_ident.set_span(name.span());
+                crate_name = Some(crate_ident);
             } else if &name.to_string() == "debug" {
                 debug = Some(parse_bool_lit(&variant.lit)
                     .ok_or_else(|| "Invalid debug, must be bool.".to_string())?);
-- 
2.43.0


From 2f932f41e486d9cb123b676c3241e467442da0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:45 +0000
Subject: [PATCH 39/40] fix: the script macro panicked on disabled and
 unsupported opcodes

---
 bitcoin-cash-script-macro/src/generate.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 0119c97..4323fbd 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -418,6 +418,15 @@ impl GenerateScript {
         let src = self.next_formatted_stmts();
         let expr_span = opcode.expr_span;
         let outputs_span = opcode.outputs_span;
+        match opcode_type {
+            Opcode::OP_IFDUP | Opcode::OP_CHECKMULTISIG | Opcode::OP_CHECKMULTISIGVERIFY => {
+                return Err(error_opcode("Opcode not supported", opcode_type, expr_span));
+            }
+            _ if opcode_type.is_disabled() => {
+                return Err(error_opcode("Opcode is disabled", opcode_type, expr_span));
+            }
+            _ => {}
+        }
         let behavior = opcode_type.behavior();
         let mut input_items = Vec::new();
         for _ in 0..behavior.input_types.len() {
-- 
2.43.0


From 7de13b88b4126761088abf913e98884ba95b0f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:36 +0000
Subject: [PATCH 40/40] fix: script items that share a name were type-checked
 as one another

---
 bitcoin-cash-script-macro/src/generate.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/bitcoin-cash-script-macro/src/generate.rs b/bitcoin-cash-script-macro/src/generate.rs
index 4323fbd..f959b9e 100644
--- a/bitcoin-cash-script-macro/src/generate.rs
+++ b/bitcoin-cash-script-macro/src/generate.rs
@@ -71,8 +71,11 @@ impl GenerateScript {
             let attrs = &input.attrs;
             let ty = &input.ty;
             let ident_str = ident.to_string();
+            // Items may share a name, so every item gets a variable of its own
+            let item_ident = self.make_ident(span);
             new_stmts.push(quote_spanned! {span=>
                 let #ident = <#ty as Default>::default().to_data();
+                let #item_ident = #ident.clone();
             });
             struct_fields.push(quote! {
                 #(#attrs)*
@@ -92,7 +95,7 @@ impl GenerateScript {
                 vec![],
             ));
             let stack_item = StackItem {
-                ident: input.ident.clone(),
+                ident: item_ident,
                 name: ident_str,
                 has_generated_name: false,
                 integer: None,
@@ -299,12 +302,11 @@ impl GenerateScript {
                 quote! { Some(#name.into()) }
             })
             .unwrap_or(quote! { None });
-        let ident = push
-            .output_name
-            .or_else(|| Some(self.make_ident(span)))
-            .unwrap();
+        // Items may share a name, so every item gets a variable of its own
+        let item_ident = self.make_ident(span);
+        let ident = push.output_name.unwrap_or_else(|| item_ident.clone());
         self.variant_states.push(StackItem {
-            ident: ident.clone(),
+            ident: item_ident.clone(),
             name: ident.to_string(),
             has_generated_name,
             integer: None, // TODO
@@ -320,6 +322,7 @@ impl GenerateScript {
         );
         Ok(quote_spanned! {span=>
             let #ident = (#expr).to_data();
+            let #item_ident = #ident.clone();
             #script_ident.push(#tagged_op);
         })
     }
@@ -653,19 +656,20 @@ impl GenerateScript {
                 let has_generated_name = opcode.output_names.is_none();
                 let span = opcode.expr_span;
                 let mut name = quote! { None };
+                let item_ident = self.make_ident(opcode.outputs_span);
                 let ident = if let Some(&[ref ident]) = opcode.output_names.as_deref() {
                     let ident_str = ident.to_string();
                     name = quote! { Some(#ident_str.into()) };
                     ident.clone()
                 } else {
-                    self.make_ident(opcode.outputs_span)
+                    item_ident.clone()
                 };
                 let item_depth = Integer::new(depth.saturating_add(known_offset))
                     .map_err(|err| syn::Error::new(span, err.to_string()))?;
                 let depth = Integer::new(depth)
                     .map_err(|err| syn::Error::new(span, err.to_string()))?;
                 self.push(StackItem {
-                    ident: ident.clone(),
+                    ident: item_ident.clone(),
                     name: ident.to_string(),
                     has_generated_name,
                     integer: Some(item_depth),
@@ -681,6 +685,7 @@ impl GenerateScript {
                 );
                 Ok(quote_spanned! {span=>
                     let #ident = ((#depth) + (#offset)).to_data();
+                    let #item_ident = #ident.clone();
                     #script_ident.push(#tagged_op);
                 })
             }
-- 
2.43.0

