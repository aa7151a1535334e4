From fe40223d4e1a1fc0ecf374de05799cc46461978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 01/16] fix: keep the last entry when the element size is a
 multiple of the plaintext bits

---
 src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0d389d5..53d1c06 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -230,7 +230,10 @@ pub mod format {
     entry_bit_len: usize,
     total_bit_len: usize,
   ) -> Vec<u8> {
-    let remainder = total_bit_len % entry_bit_len;
+    let remainder = match total_bit_len % entry_bit_len {
+      0 => entry_bit_len,
+      r => r,
+    };
     let mut bits = Vec::with_capacity(entry_bit_len * v.len());
     for i in 0..v.len() {
       // We extract either the full amount of bits, or the remainder from
-- 
2.43.0


From 94a513893609ee9f856cc630bae29ac3348c90a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 02/16] fix: index queries wrap modulo 2^32 instead of failing
 on some masks

---
 src/api.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 4fc5465..eea8230 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -9,9 +9,7 @@ pub use crate::db::{BaseParams, CommonParams, DatabaseMatrix};
 use crate::db::{FilterParams, KVDatabase, KVParams, KeyValue};
 use crate::db::{IndexDatabase, IndexParams};
 
-use crate::errors::{
-  ErrorOverflownAdd, ErrorQueryParamsReused, ResultBoxedError,
-};
+use crate::errors::{ErrorQueryParamsReused, ResultBoxedError};
 pub use crate::utils::format::*;
 use crate::utils::lwe::*;
 use crate::utils::matrices::*;
@@ -284,12 +282,9 @@ impl QueryParams<IndexDatabase, EmptyAuxParams> {
     let query_indicator = get_rounding_factor(self.plaintext_bits);
     let mut lhs = Vec::new();
     lhs.clone_from(&self.lhs.clone());
-    let (result, check) = lhs[row_index].overflowing_add(query_indicator);
-    if !check {
-      lhs[row_index] = result;
-    } else {
-      return Err(Box::new(ErrorOverflownAdd {}));
-    }
+    // arithmetic is modulo 2^32: failing on a wrap would reject valid rows, and
+    // would make the queries that are sent depend on the row
+    lhs[row_index] = lhs[row_index].wrapping_add(query_indicator);
     Ok(Query(lhs))
   }
 
-- 
2.43.0


From da1902ece89c8f495f2aebd7ab6ad50ec1a59570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 03/16] fix: a query for a row outside the database is an
 error, not a panic

---
 src/api.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/api.rs b/src/api.rs
index eea8230..8066cdb 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -9,7 +9,9 @@ pub use crate::db::{BaseParams, CommonParams, DatabaseMatrix};
 use crate::db::{FilterParams, KVDatabase, KVParams, KeyValue};
 use crate::db::{IndexDatabase, IndexParams};
 
-use crate::errors::{ErrorQueryParamsReused, ResultBoxedError};
+use crate::errors::{
+  ErrorQueryParamsReused, ErrorUnexpectedInputSize, ResultBoxedError,
+};
 pub use crate::utils::format::*;
 use crate::utils::lwe::*;
 use crate::utils::matrices::*;
@@ -278,6 +280,13 @@ impl QueryParams<IndexDatabase, EmptyAuxParams> {
     if self.used {
       return Err(Box::new(ErrorQueryParamsReused {}));
     }
+    if row_index >= self.lhs.len() {
+      return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+        "row_index: {}, number of records: {}",
+        row_index,
+        self.lhs.len(),
+      ))));
+    }
     self.used = true;
     let query_indicator = get_rounding_factor(self.plaintext_bits);
     let mut lhs = Vec::new();
-- 
2.43.0


From d14a168a8e0462c4b1b530694d6e845aea8cd24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 04/16] fix: the server answers a query of the wrong length
 with an error, not a panic

---
 src/api.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/api.rs b/src/api.rs
index 8066cdb..0c6bd3b 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -70,6 +70,7 @@ impl Shard {
   /// client query
   pub fn respond(&self, q: &Query) -> ResultBoxedError<Vec<u8>> {
     let q = q.as_slice();
+    check_query_len(q, self.db.get_matrix_height())?;
     let resp = Response(
       (0..self.db.get_row_width_self())
         .map(|i| self.db.vec_mult(q, i))
@@ -216,6 +217,7 @@ impl KVShard {
   /// Produces a serialized response (base64-encoded) to a serialized
   /// client query
   pub fn respond(&self, q: &Query) -> ResultBoxedError<Vec<u8>> {
+    check_query_len(q.as_slice(), self.db.get_matrix_height())?;
     let resp = Response(
       (0..self.db.get_row_width_self())
         .map(|i| self.db.vec_mult(q.as_slice(), i))
@@ -461,6 +463,18 @@ impl Query {
   }
 }
 
+/// Checks that a query, which comes from a client, fits the DB matrix
+fn check_query_len(q: &[u32], height: usize) -> ResultBoxedError<()> {
+  if q.len() != height {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "query_len: {}, matrix_height: {}",
+      q.len(),
+      height,
+    ))));
+  }
+  Ok(())
+}
+
 /// The `Response` object wraps a response from a single shard
 #[derive(Clone, Serialize, Deserialize)]
 pub struct Response(Vec<u32>);
-- 
2.43.0


From 02f957c23211e26abc16b3baf1104127970c5306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 05/16] fix: from_json_file returns the error of a missing or
 malformed file

---
 src/api.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 0c6bd3b..eec83c1 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -36,8 +36,8 @@ impl Shard {
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
     let file_contents: String =
-      fs::read_to_string(file_path).unwrap().parse().unwrap();
-    let elements: Vec<String> = serde_json::from_str(&file_contents).unwrap();
+      fs::read_to_string(file_path)?.parse()?;
+    let elements: Vec<String> = serde_json::from_str(&file_contents)?;
     Shard::from_base64_strings(&elements, lwe_dim, m, elem_size, plaintext_bits)
   }
 
@@ -155,8 +155,8 @@ impl KVShard {
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
     let file_contents: String =
-      fs::read_to_string(file_path).unwrap().parse().unwrap();
-    let enc_kvs: Vec<EncodedKV> = serde_json::from_str(&file_contents).unwrap();
+      fs::read_to_string(file_path)?.parse()?;
+    let enc_kvs: Vec<EncodedKV> = serde_json::from_str(&file_contents)?;
     let keys: Vec<String> = enc_kvs.iter().map(|e| e.key.clone()).collect();
     let values: Vec<String> = enc_kvs.iter().map(|e| e.value.clone()).collect();
     KVShard::from_base64_strings(
-- 
2.43.0


From 140879a2a417585d7a62846ff37adc645c0d2464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 06/16] fix: write_to_file writes every field that
 IndexParams::load needs

---
 src/db/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/db/mod.rs b/src/db/mod.rs
index 0a76fbc..c6bc6ab 100644
--- a/src/db/mod.rs
+++ b/src/db/mod.rs
@@ -52,6 +52,11 @@ pub trait BaseParams {
     let json = json!({
       "lhs_seed": self.get_public_seed(),
       "rhs": self.get_rhs(),
+      "dim": self.get_dim(),
+      "m": self.get_total_records(),
+      "public_seed": self.get_public_seed(),
+      "elem_size": self.get_elem_size(),
+      "plaintext_bits": self.get_plaintext_bits(),
     });
     Ok(serde_json::to_writer(&fs::File::create(path)?, &json)?)
   }
-- 
2.43.0


From 7a8d464223eac26ad1fbba0b89abf540fbc3bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 07/16] fix: an element too short for its row is an error, not
 a panic

---
 src/db/index.rs | 9 ++++++++-
 src/db/kv.rs    | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/db/index.rs b/src/db/index.rs
index e20a4c1..bb06d48 100644
--- a/src/db/index.rs
+++ b/src/db/index.rs
@@ -5,7 +5,7 @@ use serde::{Deserialize, Serialize};
 use serde_json::json;
 
 use crate::db::{BaseParams, DatabaseMatrix};
-use crate::errors::ResultBoxedError;
+use crate::errors::{ErrorUnexpectedInputSize, ResultBoxedError};
 use crate::utils::format::*;
 use crate::utils::matrices::*;
 use crate::utils::random::generate_seed;
@@ -181,6 +181,13 @@ fn construct_row(
   let bytes = base64::decode(element)?;
   let bits = bytes_to_bits_le(&bytes);
   for i in 0..row_width {
+    if i * plaintext_bits > bits.len() {
+      return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+        "element has {} bits, too few for a row of {} entries",
+        bits.len(),
+        row_width,
+      ))));
+    }
     let end_bound = (i + 1) * plaintext_bits;
     if end_bound < bits.len() {
       row.push(bits_to_u32_le(&bits[i * plaintext_bits..end_bound])?);
diff --git a/src/db/kv.rs b/src/db/kv.rs
index 6badfc3..9a0c7b1 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -6,7 +6,7 @@ use serde_json::json;
 
 use crate::db::{BaseParams, DatabaseMatrix};
 
-use crate::errors::ResultBoxedError;
+use crate::errors::{ErrorUnexpectedInputSize, ResultBoxedError};
 use crate::utils::format::*;
 use crate::utils::matrices::*;
 use crate::utils::random::generate_seed;
@@ -252,6 +252,13 @@ fn construct_row(
   let bytes = base64::decode(element)?;
   let bits = bytes_to_bits_le(&bytes);
   for i in 0..row_width {
+    if i * plaintext_bits > bits.len() {
+      return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+        "element has {} bits, too few for a row of {} entries",
+        bits.len(),
+        row_width,
+      ))));
+    }
     let end_bound = (i + 1) * plaintext_bits;
     if end_bound < bits.len() {
       row.push(bits_to_u32_le(&bits[i * plaintext_bits..end_bound])?);
-- 
2.43.0


From 8b12954a43fad71a283c26b6698a331964b8f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 08/16] fix: a database without rows, or with values of the
 wrong width, is an error, not a panic

---
 src/db/index.rs | 7 +++++++
 src/db/kv.rs    | 8 +++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/db/index.rs b/src/db/index.rs
index bb06d48..d70ba80 100644
--- a/src/db/index.rs
+++ b/src/db/index.rs
@@ -205,6 +205,13 @@ fn construct_rows(
   plaintext_bits: usize,
 ) -> ResultBoxedError<Vec<Vec<u32>>> {
   let row_width = IndexDatabase::get_row_width(elem_size, plaintext_bits);
+  if m == 0 || m > elements.len() {
+    return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+      "m: {}, number of elements: {}",
+      m,
+      elements.len(),
+    ))));
+  }
 
   let result = (0..m).map(|i| -> ResultBoxedError<Vec<u32>> {
     construct_row(&elements[i], plaintext_bits, row_width)
diff --git a/src/db/kv.rs b/src/db/kv.rs
index 9a0c7b1..35ebfe3 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -124,7 +124,13 @@ impl KVDatabase {
     elem_size: usize,
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
-    let row_width = kvs[0].value.len();
+    let row_width = KVDatabase::get_row_width(elem_size, plaintext_bits);
+    if kvs.is_empty() || kvs.iter().any(|kv| kv.value.len() != row_width) {
+      return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
+        "expected at least one key, and values of {} entries",
+        row_width,
+      ))));
+    }
     let filters = StorageFilters::from_kvs(kvs, row_width, plaintext_bits)?;
 
     Ok(Self {
-- 
2.43.0


From 98ab9fc281075f91e3ddfbef16b31fff5e3a25f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 09/16] fix: an exponent of 32 or more is not turned into a
 size of 0

---
 pi-rs-cli-utils/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pi-rs-cli-utils/src/lib.rs b/pi-rs-cli-utils/src/lib.rs
index 8ac37cc..49791eb 100644
--- a/pi-rs-cli-utils/src/lib.rs
+++ b/pi-rs-cli-utils/src/lib.rs
@@ -92,7 +92,7 @@ pub fn parse_from_env() -> CLIFlags {
 
 pub fn parse_exp_to_usize(v: String) -> usize {
   let exp: u32 = v.parse().unwrap();
-  let res = 2_u32.pow(exp) as usize;
+  let res = 2_usize.checked_pow(exp).unwrap();
   res
 }
 
-- 
2.43.0


From 7b210d836d7c4af4e4988371b301b7138f5f270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 10/16] fix: BinaryFuseP32 computes modulo every plaintext
 modulus, not only powers of two

---
 bff-modp/src/bfusep32.rs       |  2 +-
 bff-modp/src/prelude/bfusep.rs | 24 +++++++++++++++---------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index e9351ab..c7badf6 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -94,7 +94,7 @@ impl BinaryFuseP32 {
 
     /// Returns the `fingerprints`, of the filter, but modulo the plaintetx modulus
     pub fn get_fingerprints_mod(&self) -> Vec<u32> {
-        self.fingerprints.into_iter().map(|f| f % (self.ptxt_mod as u32)).collect()
+        self.fingerprints.iter().map(|f| (*f as u64 % self.ptxt_mod) as u32).collect()
     }
 
     /// Static function that retrieves the hash function evaluations for a given storage filter
diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index 0b85325..bbb1977 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -25,6 +25,10 @@ macro_rules! bfusep_from_impl(
                 debug_assert!($ptxt_mod >= 256, "Binary Fuse filters must be constructed using a plaintext modulus >= 256.");
             }
 
+            if $ptxt_mod == 0 || $ptxt_mod > 1 << 32 {
+                return Err("The plaintext modulus should be between 1 and 2^32");
+            }
+
             let arity = 3u32;
             let size: usize = $keys.len();
             let segment_length: u32 = segment_length(arity, size as u32).min(262144);
@@ -206,12 +210,12 @@ macro_rules! bfusep_from_impl(
 		            h012[2] = index3;
 		            h012[3] = h012[0];
 		            h012[4] = h012[1];
-		        let entry =
-                (data % ($ptxt_mod as u32))
-                .wrapping_sub(fingerprints[h012[found + 1] as usize])
-                .wrapping_sub(fingerprints[h012[found + 2] as usize]) % ($ptxt_mod as u32);
-                let mask = (mix(hash, $label) % $ptxt_mod) as u32;
-                fingerprints[h012[found] as usize] = entry.wrapping_sub(mask) % ($ptxt_mod as u32);
+                // The sum of the three fingerprints and the mask is the data, modulo `ptxt_mod`
+                let sum = (fingerprints[h012[found + 1] as usize] as u64 % $ptxt_mod)
+                    + (fingerprints[h012[found + 2] as usize] as u64 % $ptxt_mod)
+                    + mix(hash, $label) % $ptxt_mod;
+                let entry = (*data as u64 % $ptxt_mod) + ($ptxt_mod - sum % $ptxt_mod);
+                fingerprints[h012[found] as usize] = (entry % $ptxt_mod) as u32;
             }
 
             Ok(Self {
@@ -242,9 +246,11 @@ macro_rules! bfusep_retrieve_impl(
             };
             let hash = mix256($key, &$self.seed);
             let (h0, h1, h2) = hash_of_hash(hash, $self.segment_length, $self.segment_length_mask, $self.segment_count_length);
-            let data = $self.fingerprints[h0 as usize].wrapping_add($self.fingerprints[h1 as usize]).wrapping_add($self.fingerprints[h2 as usize]);
-            let mask = (mix(hash, $label) % $self.ptxt_mod) as u32;
-            data.wrapping_add(mask) % ($self.ptxt_mod as u32)
+            let data = $self.fingerprints[h0 as usize] as u64
+                + $self.fingerprints[h1 as usize] as u64
+                + $self.fingerprints[h2 as usize] as u64;
+            let mask = mix(hash, $label) % $self.ptxt_mod;
+            ((data + mask) % $self.ptxt_mod) as u32
         }
     };
 );
-- 
2.43.0


From bfb58e6a96135397fdeb8ba2273b1c471326e696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 11/16] fix: BinaryFuseP32 fails on colliding keys instead of
 retrieving the wrong data

---
 bff-modp/src/prelude/bfusep.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index bbb1977..faf172a 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -90,7 +90,11 @@ macro_rules! bfusep_from_impl(
                         segment_index &= (1 << block_bits) - 1;
                     }
                     reverse_order[start_pos[segment_index as usize] as usize] = hash;
-                    hm_keys.insert(hash, $data[i]);
+                    if let Some(previous) = hm_keys.insert(hash, $data[i]) {
+                        if previous != $data[i] {
+                            return Err("Two keys with different data have the same hash");
+                        }
+                    }
                     start_pos[segment_index as usize] += 1;
                 }
 
-- 
2.43.0


From 05c3eb39429755b503126d6b940f82c36e4f8161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 12/16] fix: BinaryFuseP32::from_vec checks the data length, as
 from_slice does

---
 bff-modp/src/bfusep32.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index c7badf6..59216f8 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -83,8 +83,7 @@ impl BinaryFuseP32 {
 
     /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a vector), `data`, `ptxt_mod`
     pub fn from_vec(seed: [u8; 32], keys: Vec<[u64; 4]>, data: &[u32], label: u64, ptxt_mod: u64) -> Result<Self, &'static str> {
-        let slice = keys.as_slice();
-        bfusep_from_impl!(seed, slice, data, ptxt_mod, label, max iter 100_000)
+        Self::from_slice(seed, keys.as_slice(), data, label, ptxt_mod)
     }
 
     /// Retrieves the `data` modulo the plaintext modulus for a given `key`
-- 
2.43.0


From 94e686cb784fa9b14c55af79d1ba80b13fbe980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 13/16] fix: binary fuse filters do not hang when 64 keys share
 a position

---
 bff-modp/src/prelude/bfuse.rs  | 23 ++++++++++++++++-------
 bff-modp/src/prelude/bfusep.rs | 22 +++++++++++++++-------
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/bff-modp/src/prelude/bfuse.rs b/bff-modp/src/prelude/bfuse.rs
index a2f2430..be6cea0 100644
--- a/bff-modp/src/prelude/bfuse.rs
+++ b/bff-modp/src/prelude/bfuse.rs
@@ -147,13 +147,13 @@ macro_rules! bfuse_from_impl(
                     let hash = reverse_order[i];
                     let (index1, index2, index3) = hash_of_hash(hash, segment_length, segment_length_mask, segment_count_length);
                     let (index1, index2, index3) = (index1 as usize, index2 as usize, index3 as usize);
-                    t2count[index1] += 4;
+                    t2count[index1] = t2count[index1].wrapping_add(4);
                     // t2count[index1] ^= 0; NOOP
                     t2hash[index1] ^= hash;
-			              t2count[index2] += 4;
+			              t2count[index2] = t2count[index2].wrapping_add(4);
 			              t2count[index2] ^= 1;
 			              t2hash[index2] ^= hash;
-			              t2count[index3] += 4;
+			              t2count[index3] = t2count[index3].wrapping_add(4);
 			              t2count[index3] ^= 2;
 			              t2hash[index3] ^= hash;
 
@@ -162,20 +162,29 @@ macro_rules! bfuse_from_impl(
                            ((t2hash[index2] == 0) && (t2count[index2] == 8)) ||
                            ((t2hash[index3] == 0) && (t2count[index3] == 8)) {
                                 duplicates += 1;
-                                t2count[index1] -= 4;
+                                t2count[index1] = t2count[index1].wrapping_sub(4);
                                 // t2count[index1] ^= 0; NOOP
                                 t2hash[index1] ^= hash;
-                                t2count[index2] -= 4;
+                                t2count[index2] = t2count[index2].wrapping_sub(4);
                                 t2count[index2] ^= 1;
 					                      t2hash[index2] ^= hash;
-					                      t2count[index3] -= 4;
+					                      t2count[index3] = t2count[index3].wrapping_sub(4);
 					                      t2count[index3] ^= 2;
 					                      t2hash[index3] ^= hash;
                         }
                     }
-                    error = t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
+                    error |= t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
                 }
                 if error {
+                    // More keys in one position than can be counted; reset for a retry.
+                    for i in 0..size {
+                        reverse_order[i] = 0;
+                    }
+                    for i in 0..capacity {
+                        t2count[i] = 0;
+                        t2hash[i] = 0;
+                    }
+                    seed = splitmix64(&mut rng);
                     continue;
                 }
 
diff --git a/bff-modp/src/prelude/bfusep.rs b/bff-modp/src/prelude/bfusep.rs
index faf172a..efaed97 100644
--- a/bff-modp/src/prelude/bfusep.rs
+++ b/bff-modp/src/prelude/bfusep.rs
@@ -104,13 +104,13 @@ macro_rules! bfusep_from_impl(
                     let hash = reverse_order[i];
                     let (index1, index2, index3) = hash_of_hash(hash, segment_length, segment_length_mask, segment_count_length);
                     let (index1, index2, index3) = (index1 as usize, index2 as usize, index3 as usize);
-                    t2count[index1] += 4;
+                    t2count[index1] = t2count[index1].wrapping_add(4);
                     // t2count[index1] ^= 0; NOOP
                     t2hash[index1] ^= hash;
-			              t2count[index2] += 4;
+			              t2count[index2] = t2count[index2].wrapping_add(4);
 			              t2count[index2] ^= 1;
 			              t2hash[index2] ^= hash;
-			              t2count[index3] += 4;
+			              t2count[index3] = t2count[index3].wrapping_add(4);
 			              t2count[index3] ^= 2;
 			              t2hash[index3] ^= hash;
 
@@ -119,20 +119,28 @@ macro_rules! bfusep_from_impl(
                            ((t2hash[index2] == 0) && (t2count[index2] == 8)) ||
                            ((t2hash[index3] == 0) && (t2count[index3] == 8)) {
                                 duplicates += 1;
-                                t2count[index1] -= 4;
+                                t2count[index1] = t2count[index1].wrapping_sub(4);
                                 // t2count[index1] ^= 0; NOOP
                                 t2hash[index1] ^= hash;
-                                t2count[index2] -= 4;
+                                t2count[index2] = t2count[index2].wrapping_sub(4);
                                 t2count[index2] ^= 1;
 					                      t2hash[index2] ^= hash;
-					                      t2count[index3] -= 4;
+					                      t2count[index3] = t2count[index3].wrapping_sub(4);
 					                      t2count[index3] ^= 2;
 					                      t2hash[index3] ^= hash;
                         }
                     }
-                    error = t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
+                    error |= t2count[index1] < 4 || t2count[index2] < 4 || t2count[index3] < 4;
                 }
                 if error {
+                    // More keys in one position than can be counted; reset for a retry.
+                    for i in 0..size {
+                        reverse_order[i] = 0;
+                    }
+                    for i in 0..capacity {
+                        t2count[i] = 0;
+                        t2hash[i] = 0;
+                    }
                     continue;
                 }
 
-- 
2.43.0


From dbabc6a3abf1b08ad14f30152cb66dfe80de3a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 14/16] fix: BinaryFuseP32 does not repeat a failed
 construction with the same seed 100000 times

---
 bff-modp/src/bfusep32.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bff-modp/src/bfusep32.rs b/bff-modp/src/bfusep32.rs
index 59216f8..0e9431e 100644
--- a/bff-modp/src/bfusep32.rs
+++ b/bff-modp/src/bfusep32.rs
@@ -78,7 +78,8 @@ impl BinaryFuseP32 {
         if data.len() != keys.len() {
             return Err("The data should correspond to the number of keys");
         }
-        bfusep_from_impl!(seed, keys, data, ptxt_mod, label, max iter 100_000)
+        // the seed is given, so a construction that failed once fails every time
+        bfusep_from_impl!(seed, keys, data, ptxt_mod, label, max iter 1)
     }
 
     /// Creates a new `BinaryFuseP32` filter from the specified `keys` (as a vector), `data`, `ptxt_mod`
-- 
2.43.0


From f479ce56d302528255f4f6cbcd75d3099f402655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 15/16] fix: a KV database tries another seed when filter
 construction fails, instead of panicking

---
 src/db/kv.rs | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/db/kv.rs b/src/db/kv.rs
index 35ebfe3..6cd6e45 100644
--- a/src/db/kv.rs
+++ b/src/db/kv.rs
@@ -32,6 +32,9 @@ impl KeyValue {
   }
 }
 
+// How many seeds are tried to construct the filters of a database
+const MAX_FILTER_ATTEMPTS: usize = 100;
+
 #[derive(Clone, Debug, Serialize, Deserialize)]
 struct StorageFilters {
   filters: Vec<BinaryFuseP32>,
@@ -48,27 +51,37 @@ impl StorageFilters {
     plaintext_bits: usize,
   ) -> ResultBoxedError<StorageFilters> {
     let keys: Vec<[u64; 4]> = kvs.iter().map(|kv| kv.key).collect();
-    let mut seed = [0u8; 32];
-    OsRng.fill_bytes(&mut seed);
-    let filters: Vec<BinaryFuseP32> = (0..row_width)
-      .map(|i| {
-        let column: Vec<u32> = kvs.iter().map(|kv| kv.value[i]).collect();
-        BinaryFuseP32::from_slice(
-          seed,
-          &keys,
-          &column,
-          i as u64,
-          2u64.pow(plaintext_bits as u32),
-        )
-        .unwrap()
-      })
+    let columns: Vec<Vec<u32>> = (0..row_width)
+      .map(|i| kvs.iter().map(|kv| kv.value[i]).collect())
       .collect();
+    // a construction fails for some seeds: try again with another one
+    let mut built = Err("no attempt to construct the filters");
+    for _ in 0..MAX_FILTER_ATTEMPTS {
+      let mut seed = [0u8; 32];
+      OsRng.fill_bytes(&mut seed);
+      let filters: Result<Vec<BinaryFuseP32>, &'static str> = (0..row_width)
+        .map(|i| {
+          BinaryFuseP32::from_slice(
+            seed,
+            &keys,
+            &columns[i],
+            i as u64,
+            2u64.pow(plaintext_bits as u32),
+          )
+        })
+        .collect();
+      built = filters.map(|f| (seed, f));
+      if built.is_ok() {
+        break;
+      }
+    }
+    let (seed, filters) = built?;
     Ok(StorageFilters {
-      filters: filters.clone(),
       seed,
       segment_length: filters[0].segment_length,
       segment_length_mask: filters[0].segment_length_mask,
       segment_count_length: filters[0].segment_count_length,
+      filters,
     })
   }
 
@@ -125,7 +138,10 @@ impl KVDatabase {
     plaintext_bits: usize,
   ) -> ResultBoxedError<Self> {
     let row_width = KVDatabase::get_row_width(elem_size, plaintext_bits);
-    if kvs.is_empty() || kvs.iter().any(|kv| kv.value.len() != row_width) {
+    if row_width == 0
+      || kvs.is_empty()
+      || kvs.iter().any(|kv| kv.value.len() != row_width)
+    {
       return Err(Box::new(ErrorUnexpectedInputSize::new(format!(
         "expected at least one key, and values of {} entries",
         row_width,
-- 
2.43.0


From 1119e9e03b02a1392382225944e94e74d0b0c39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 16/16] fix: fuse filters of fewer than 90 keys have slots

---
 bff-modp/src/prelude/fuse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bff-modp/src/prelude/fuse.rs b/bff-modp/src/prelude/fuse.rs
index fcaf571..0c4b62d 100644
--- a/bff-modp/src/prelude/fuse.rs
+++ b/bff-modp/src/prelude/fuse.rs
@@ -88,7 +88,7 @@ macro_rules! fuse_from_impl(
             // See Algorithm 3 in the paper.
             let num_keys = $keys.len();
             let capacity = (FUSE_OVERHEAD * num_keys as f64) as usize;
-            let capacity = capacity / SLOTS * SLOTS;
+            let capacity = (capacity / SLOTS).max(1) * SLOTS;
             let segment_length = capacity / SLOTS;
 
             #[allow(non_snake_case)]
-- 
2.43.0

