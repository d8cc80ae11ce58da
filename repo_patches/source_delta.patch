From c7df11a63991e02ea7f44cc27147ed0890b901c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:49 +0000
Subject: [PATCH 01/26] fix: do not preallocate memory for an untrusted length
 when decoding

---
 sia/src/encoding/v1.rs | 3 ++-
 sia/src/encoding/v2.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sia/src/encoding/v1.rs b/sia/src/encoding/v1.rs
index 59ece0d..fe678aa 100644
--- a/sia/src/encoding/v1.rs
+++ b/sia/src/encoding/v1.rs
@@ -116,7 +116,8 @@ where
 {
     fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode_v1(r)?;
-        let mut vec = Vec::with_capacity(len);
+        // the length is untrusted, do not allocate more than is read
+        let mut vec = Vec::with_capacity(len.min(1024));
         for _ in 0..len {
             vec.push(T::decode_v1(r)?);
         }
diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index db53b28..0d4c062 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -162,7 +162,8 @@ where
 {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode(r)?;
-        let mut vec = Vec::with_capacity(len);
+        // the length is untrusted, do not allocate more than is read
+        let mut vec = Vec::with_capacity(len.min(1024));
         for _ in 0..len {
             vec.push(T::decode(r)?);
         }
-- 
2.43.0


From 4ed0ddc84b2227f8f98eed3688f26d5afd62ec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:49 +0000
Subject: [PATCH 02/26] fix: reject integers that do not fit their destination
 when decoding

---
 sia/src/encoding/v1.rs | 8 +++++++-
 sia/src/encoding/v2.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/sia/src/encoding/v1.rs b/sia/src/encoding/v1.rs
index fe678aa..37f8352 100644
--- a/sia/src/encoding/v1.rs
+++ b/sia/src/encoding/v1.rs
@@ -88,7 +88,13 @@ macro_rules! impl_sia_numeric {
                 fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
                     let mut buf = [0u8; 8];
                     r.read_exact(&mut buf)?;
-                    Ok(u64::from_le_bytes(buf) as Self)
+                    let v = u64::from_le_bytes(buf);
+                    let n = v as Self;
+                    // reject values that do not fit the destination
+                    if n as u64 != v {
+                        return Err(Error::InvalidValue);
+                    }
+                    Ok(n)
                 }
             }
         )*
diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index 0d4c062..f30c9c7 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -134,7 +134,13 @@ macro_rules! impl_sia_numeric {
                 fn decode<R: Read>(r: &mut R) -> Result<Self> {
                     let mut buf = [0u8; 8];
                     r.read_exact(&mut buf)?;
-                    Ok(u64::from_le_bytes(buf) as Self)
+                    let v = u64::from_le_bytes(buf);
+                    let n = v as Self;
+                    // reject values that do not fit the destination
+                    if n as u64 != v {
+                        return Err(Error::InvalidValue);
+                    }
+                    Ok(n)
                 }
             }
         )*
-- 
2.43.0


From 15773220e330c653cf301cd3b4b34c619d27734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:49 +0000
Subject: [PATCH 03/26] fix: return an error for an out-of-range timestamp
 instead of panicking

---
 sia/src/encoding/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index f30c9c7..dc3ea79 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -67,7 +67,7 @@ impl SiaEncodable for OffsetDateTime {
 impl SiaDecodable for OffsetDateTime {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let timestamp = i64::decode(r)?;
-        Ok(OffsetDateTime::from_unix_timestamp(timestamp).unwrap())
+        OffsetDateTime::from_unix_timestamp(timestamp).map_err(|_| Error::InvalidTimestamp)
     }
 }
 
-- 
2.43.0


From cd37a7f9ca52f53e2f70b833d33467e30072f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:49 +0000
Subject: [PATCH 04/26] fix: refuse to encode durations the format cannot
 represent

---
 sia/src/encoding/v2.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index dc3ea79..475f334 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -73,7 +73,12 @@ impl SiaDecodable for OffsetDateTime {
 
 impl SiaEncodable for Duration {
     fn encode<W: Write>(&self, w: &mut W) -> Result<()> {
-        (self.whole_nanoseconds() as u64).encode(w)
+        // the encoding is a non-negative 64-bit number of nanoseconds
+        let ns = self.whole_nanoseconds();
+        if ns < 0 || ns > i64::MAX as i128 {
+            return Err(Error::InvalidValue);
+        }
+        (ns as u64).encode(w)
     }
 }
 
-- 
2.43.0


From 75d10295da41acbe009be812490f42572281a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:37 +0000
Subject: [PATCH 05/26] fix: limit the complexity of encoded spend policies

A few bytes of nested thresholds could overflow the stack of the decoder.
---
 sia/src/types/spendpolicy.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 3b36001..ee07bdd 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -21,6 +21,9 @@ const POLICY_OPAQUE_PREFIX: u8 = 6;
 #[deprecated]
 const POLICY_UNLOCK_CONDITIONS_PREFIX: u8 = 7;
 
+/// The maximum number of policies in a policy tree, including the root.
+const MAX_POLICIES: usize = 1024;
+
 const POLICY_ABOVE_STR: &str = "above";
 const POLICY_AFTER_STR: &str = "after";
 const POLICY_PUBLIC_KEY_STR: &str = "pk";
@@ -318,6 +321,7 @@ impl SiaEncodable for SpendPolicy {
         fn encode_policy<W: std::io::Write>(
             policy: &SpendPolicy,
             w: &mut W,
+            total: &mut usize,
         ) -> encoding::Result<()> {
             w.write_all(&[policy.type_prefix()])?;
             match policy {
@@ -326,10 +330,14 @@ impl SiaEncodable for SpendPolicy {
                 SpendPolicy::PublicKey(pk) => pk.encode(w),
                 SpendPolicy::Hash(hash) => hash.encode(w),
                 SpendPolicy::Threshold(of, policies) => {
+                    *total += policies.len();
+                    if *total > MAX_POLICIES {
+                        return Err(encoding::Error::Custom("policy too complex".to_string()));
+                    }
                     of.encode(w)?;
                     (policies.len() as u8).encode(w)?;
                     for policy in policies {
-                        encode_policy(policy, w)?;
+                        encode_policy(policy, w, total)?;
                     }
                     Ok(())
                 }
@@ -339,14 +347,17 @@ impl SiaEncodable for SpendPolicy {
             }
         }
         1u8.encode(w)?;
-        encode_policy(self, w)
+        encode_policy(self, w, &mut 1)
     }
 }
 
 impl SiaDecodable for SpendPolicy {
     fn decode<R: std::io::Read>(r: &mut R) -> encoding::Result<Self> {
         // helper to recursively decode policies
-        fn decode_policy<R: std::io::Read>(r: &mut R) -> encoding::Result<SpendPolicy> {
+        fn decode_policy<R: std::io::Read>(
+            r: &mut R,
+            total: &mut usize,
+        ) -> encoding::Result<SpendPolicy> {
             let policy_type = u8::decode(r)?;
             match policy_type {
                 POLICY_ABOVE_PREFIX => Ok(SpendPolicy::Above(u64::decode(r)?)),
@@ -363,9 +374,13 @@ impl SiaDecodable for SpendPolicy {
                 POLICY_THRESHOLD_PREFIX => {
                     let of: u8 = u8::decode(r)?;
                     let n = u8::decode(r)?;
+                    *total += n as usize;
+                    if *total > MAX_POLICIES {
+                        return Err(encoding::Error::Custom("policy too complex".to_string()));
+                    }
                     let mut policies = Vec::with_capacity(n as usize);
                     while policies.len() < n as usize {
-                        policies.push(decode_policy(r)?);
+                        policies.push(decode_policy(r, total)?);
                     }
                     Ok(SpendPolicy::Threshold(of, policies))
                 }
@@ -383,7 +398,7 @@ impl SiaDecodable for SpendPolicy {
                 "invalid policy version".to_string(),
             ));
         }
-        decode_policy(r)
+        decode_policy(r, &mut 1)
     }
 }
 
-- 
2.43.0


From ff0fd20dea68e2ab5db41b0adfecc1296378a482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:37 +0000
Subject: [PATCH 06/26] fix: refuse thresholds of more than 255 sub-policies
 instead of truncating the count

---
 sia/src/types/spendpolicy.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index ee07bdd..a0bb5f0 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -240,6 +240,9 @@ impl<'de> Deserialize<'de> for SpendPolicy {
                         }
                         let thresh: ThreshPolicy =
                             serde_json::from_value(policy_value).map_err(de::Error::custom)?;
+                        if thresh.of.len() > u8::MAX as usize {
+                            return Err(de::Error::custom("too many sub-policies"));
+                        }
                         Ok(SpendPolicy::Threshold(thresh.n, thresh.of))
                     }
                     POLICY_OPAQUE_STR => {
@@ -334,8 +337,10 @@ impl SiaEncodable for SpendPolicy {
                     if *total > MAX_POLICIES {
                         return Err(encoding::Error::Custom("policy too complex".to_string()));
                     }
+                    let n =
+                        u8::try_from(policies.len()).map_err(|_| encoding::Error::InvalidLength)?;
                     of.encode(w)?;
-                    (policies.len() as u8).encode(w)?;
+                    n.encode(w)?;
                     for policy in policies {
                         encode_policy(policy, w, total)?;
                     }
-- 
2.43.0


From af5da73084ab12024a642463dcdc2317a4fc996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:37 +0000
Subject: [PATCH 07/26] fix: return writer errors when encoding chain state
 instead of panicking

---
 sia/src/consensus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 537736b..f195f38 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -383,7 +383,7 @@ impl SiaEncodable for State {
         self.prev_timestamps
             .iter()
             .take(timestamps_count)
-            .for_each(|ts| ts.encode(w).unwrap());
+            .try_for_each(|ts| ts.encode(w))?;
         self.depth.encode(w)?;
         self.child_target.encode(w)?;
         self.siafund_pool.encode(w)?;
-- 
2.43.0


From c1d09f842371cd5eeff0751be233beff5749f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:53 +0000
Subject: [PATCH 08/26] fix: merge the accumulated node, not the leaf, when
 adding to a Merkle accumulator

---
 sia/src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/merkle.rs b/sia/src/merkle.rs
index 1b1d4f5..3dc8d90 100644
--- a/sia/src/merkle.rs
+++ b/sia/src/merkle.rs
@@ -31,7 +31,7 @@ impl Accumulator {
         let mut i = 0;
         let mut node = *h;
         while self.has_tree_at_height(i) {
-            node = sum_node(&self.params, &self.trees[i], h);
+            node = sum_node(&self.params, &self.trees[i], &node);
             i += 1;
         }
         self.trees[i] = node;
-- 
2.43.0


From 90a098635fe7f5ef27f6c6d16a101dfef7321072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:54 +0000
Subject: [PATCH 09/26] fix: hash every segment of a sector when computing its
 root

---
 sia/src/rhp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sia/src/rhp.rs b/sia/src/rhp.rs
index bfaf2bd..275acb4 100644
--- a/sia/src/rhp.rs
+++ b/sia/src/rhp.rs
@@ -22,8 +22,8 @@ pub fn sector_root(sector: &[u8]) -> Hash256 {
             let mut inputs = [[0u8; SEGMENT_SIZE + 1]; 4];
             for (j, input) in inputs.iter_mut().enumerate() {
                 input[0] = LEAF_HASH_PREFIX[0];
-                input[1..]
-                    .copy_from_slice(&sector[SEGMENT_SIZE * (i + j)..SEGMENT_SIZE * (i + j + 1)]);
+                let offset = SEGMENT_SIZE * (i * 4 + j);
+                input[1..].copy_from_slice(&sector[offset..offset + SEGMENT_SIZE]);
             }
 
             // hash them
-- 
2.43.0


From 0f88f57e2d3ddca6042593eab569176f1c6bc6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:54 +0000
Subject: [PATCH 10/26] fix: report a signature by an invalid public key as
 invalid instead of panicking

---
 sia/src/signing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sia/src/signing.rs b/sia/src/signing.rs
index 5a41db7..95f4eda 100644
--- a/sia/src/signing.rs
+++ b/sia/src/signing.rs
@@ -48,7 +48,10 @@ impl PublicKey {
     }
 
     pub fn verify(&self, sig_hash: &Hash256, signature: &Signature) -> bool {
-        let pk = VerifyingKey::from_bytes(&self.0).unwrap();
+        let pk = match VerifyingKey::from_bytes(&self.0) {
+            Ok(pk) => pk,
+            Err(_) => return false, // not a valid curve point
+        };
         pk.verify(
             sig_hash.as_ref(),
             &ED25519Signature::from_bytes(signature.as_ref()),
-- 
2.43.0


From f7dcbb1172a9df033745cabfd6f78c8355ef26b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:54 +0000
Subject: [PATCH 11/26] fix: refuse currency strings that overflow or have
 sub-hasting precision instead of wrapping or panicking

---
 sia/src/types/currency.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/sia/src/types/currency.rs b/sia/src/types/currency.rs
index d9be540..34039c7 100644
--- a/sia/src/types/currency.rs
+++ b/sia/src/types/currency.rs
@@ -191,20 +191,35 @@ impl Currency {
         let integer_part = parts[0]
             .parse::<u128>()
             .map_err(|_| CurrencyParseError::InvalidFormat("invalid integer part".to_string()))?;
-        let fraction_part = if parts.len() == 2 {
-            parts[1].parse::<u128>().map_err(|_| {
-                CurrencyParseError::InvalidFormat("invalid integer part".to_string())
-            })?
-        } else {
-            0
+        let fraction = match parts.get(1) {
+            Some(&"") => {
+                return Err(CurrencyParseError::InvalidFormat(
+                    "invalid fraction part".to_string(),
+                ))
+            }
+            // trailing zeros carry no value
+            Some(frac) => frac.trim_end_matches('0'),
+            None => "",
+        };
+        let fraction_part = match fraction {
+            "" => 0,
+            frac => frac.parse::<u128>().map_err(|_| {
+                CurrencyParseError::InvalidFormat("invalid fraction part".to_string())
+            })?,
         };
 
-        let frac_digits = parts.get(1).map_or(0, |frac| frac.len() as i32);
-        let integer = integer_part * 10u128.pow((SIACOIN_PRECISION_I32 + scaling_factor) as u32);
-        let fraction = fraction_part
-            * 10u128.pow((SIACOIN_PRECISION_I32 - frac_digits + scaling_factor) as u32);
-
-        Ok(Currency::new(integer + fraction))
+        let digits = (SIACOIN_PRECISION_I32 + scaling_factor) as usize;
+        let frac_digits = digits.checked_sub(fraction.len()).ok_or_else(|| {
+            CurrencyParseError::InvalidFormat("value is not a whole number of hastings".to_string())
+        })?;
+        let integer = integer_part.checked_mul(10u128.pow(digits as u32));
+        let fraction = fraction_part.checked_mul(10u128.pow(frac_digits as u32));
+
+        integer
+            .zip(fraction)
+            .and_then(|(integer, fraction)| integer.checked_add(fraction))
+            .map(Currency::new)
+            .ok_or_else(|| CurrencyParseError::InvalidFormat("value out of range".to_string()))
     }
 
     /// Converts a given amount of Siacoins into the `Currency` type.
-- 
2.43.0


From 7e7cd9c8881bfeafdffc077cbb920be9ede7ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:55 +0000
Subject: [PATCH 12/26] fix: panic on currency overflow in every build profile
 instead of wrapping

---
 sia/src/types/currency.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sia/src/types/currency.rs b/sia/src/types/currency.rs
index 34039c7..ff4f751 100644
--- a/sia/src/types/currency.rs
+++ b/sia/src/types/currency.rs
@@ -236,7 +236,10 @@ impl Currency {
     ///
     /// Returns a `Currency` instance representing the specified amount of Siacoins.
     pub const fn siacoins(n: u64) -> Self {
-        Currency::new((n as u128) * 10u128.pow(SIACOIN_PRECISION_U32))
+        match (n as u128).checked_mul(10u128.pow(SIACOIN_PRECISION_U32)) {
+            Some(hastings) => Currency::new(hastings),
+            None => panic!("currency overflow"),
+        }
     }
 
     pub fn checked_add(self, other: Currency) -> Option<Self> {
@@ -264,7 +267,7 @@ impl Add for Currency {
     type Output = Self;
 
     fn add(self, other: Self) -> Self {
-        Self(self.0 + other.0)
+        self.checked_add(other).expect("currency overflow")
     }
 }
 
@@ -272,7 +275,7 @@ impl Sub for Currency {
     type Output = Self;
 
     fn sub(self, other: Self) -> Self {
-        Self(self.0 - other.0)
+        self.checked_sub(other).expect("currency overflow")
     }
 }
 
@@ -280,7 +283,7 @@ impl Mul for Currency {
     type Output = Self;
 
     fn mul(self, other: Self) -> Self {
-        Self(self.0 * other.0)
+        self.checked_mul(other).expect("currency overflow")
     }
 }
 
-- 
2.43.0


From 5cb15353b0a49c6917532b375724486194f0bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:55 +0000
Subject: [PATCH 13/26] fix: wrap the child height of the chain index before
 genesis

---
 sia/src/types/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/common.rs b/sia/src/types/common.rs
index de8e37f..4dd6987 100644
--- a/sia/src/types/common.rs
+++ b/sia/src/types/common.rs
@@ -154,7 +154,8 @@ pub struct ChainIndex {
 
 impl ChainIndex {
     pub fn child_height(&self) -> u64 {
-        self.height + 1
+        // the parent of the genesis block has height u64::MAX
+        self.height.wrapping_add(1)
     }
 }
 
-- 
2.43.0


From ec4c48238f790f992d6cd2041ea7d8a94368b017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:02 +0000
Subject: [PATCH 14/26] fix: compute the block reward at any height without
 overflow

---
 sia/src/consensus.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index f195f38..2d4ee9d 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -450,10 +450,9 @@ impl ChainState {
 
     /// block_reward returns the reward for mining a child block
     pub fn block_reward(&self) -> Currency {
-        let reward = self
-            .network
-            .initial_coinbase
-            .checked_sub(Currency::siacoins(self.child_height()));
+        let reward = Currency::new(self.child_height() as u128)
+            .checked_mul(Currency::siacoins(1))
+            .and_then(|reduction| self.network.initial_coinbase.checked_sub(reduction));
 
         match reward {
             Some(reward) if reward >= self.network.minimum_coinbase => reward,
-- 
2.43.0


From c863fc96d2c72ca44b520ccc30d751c16c83f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:02 +0000
Subject: [PATCH 15/26] fix: pay the Foundation subsidy for every block of the
 year or month it covers

---
 sia/src/consensus.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 2d4ee9d..6cc42e5 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -475,6 +475,12 @@ impl ChainState {
         1000
     }
 
+    // blocks_per_year estimates the number of blocks expected in a calendar year
+    fn blocks_per_year(&self) -> u64 {
+        (Duration::days(365).whole_nanoseconds() / self.network.block_interval.whole_nanoseconds())
+            as u64
+    }
+
     // blocks_per_month estimates the number of blocks expected in a calendar month
     pub fn blocks_per_month(&self) -> u64 {
         (Duration::days(365).whole_nanoseconds()
@@ -493,13 +499,15 @@ impl ChainState {
             return None;
         }
 
+        // the first subsidy covers a year, later ones a month
+        let blocks = if self.child_height() == self.network.hardfork_foundation.height {
+            self.blocks_per_year()
+        } else {
+            blocks_per_month
+        };
         let subsidy_per_block = Currency::siacoins(30000);
         Some(SiacoinOutput {
-            value: if self.child_height() == self.network.hardfork_foundation.height {
-                subsidy_per_block * Currency::new(12)
-            } else {
-                subsidy_per_block
-            },
+            value: subsidy_per_block * Currency::new(blocks as u128),
             address: self.network.hardfork_foundation.primary_address.clone(),
         })
     }
-- 
2.43.0


From aa3a768f8f5c2628a9caedec24edc70e6b75477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:02 +0000
Subject: [PATCH 16/26] fix: pay the Foundation subsidy to the current primary
 address of the chain state

---
 sia/src/consensus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 6cc42e5..2143ffe 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -508,7 +508,7 @@ impl ChainState {
         let subsidy_per_block = Currency::siacoins(30000);
         Some(SiacoinOutput {
             value: subsidy_per_block * Currency::new(blocks as u128),
-            address: self.network.hardfork_foundation.primary_address.clone(),
+            address: self.state.foundation_primary_address.clone(),
         })
     }
 
-- 
2.43.0


From 89e43d017f22321c2912ff73c8c6ff6e5a3531b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:03 +0000
Subject: [PATCH 17/26] fix: use the full domain prefix for v2 contract output
 and renewal IDs

---
 sia/src/types/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sia/src/types/common.rs b/sia/src/types/common.rs
index 4dd6987..e2ca71e 100644
--- a/sia/src/types/common.rs
+++ b/sia/src/types/common.rs
@@ -97,8 +97,8 @@ impl_hash_id!(FileContractID);
 
 impl FileContractID {
     const PROOF_OUTPUT_ID_PREFIX: Specifier = specifier!("storage proof");
-    const V2_PROOF_OUTPUT_ID_PREFIX: &'static str = "id/v2filecontractoutput";
-    const V2_FILE_CONTRACT_RENEWAL_PREFIX: &'static str = "id/v2filecontractrenewal";
+    const V2_PROOF_OUTPUT_ID_PREFIX: &'static str = "sia/id/v2filecontractoutput|";
+    const V2_FILE_CONTRACT_RENEWAL_PREFIX: &'static str = "sia/id/v2filecontractrenewal|";
 
     fn derive_proof_output_id<T: From<blake2b_simd::Hash>>(&self, valid: bool, i: usize) -> T {
         let mut state = Params::new().hash_length(32).to_state();
-- 
2.43.0


From 0de0f08d5cde14d1cba451ff6488c0b070ec337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:03 +0000
Subject: [PATCH 18/26] fix: print specifiers that are not UTF-8 instead of
 panicking

---
 sia/src/types/specifier.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sia/src/types/specifier.rs b/sia/src/types/specifier.rs
index e80f69b..b79d990 100644
--- a/sia/src/types/specifier.rs
+++ b/sia/src/types/specifier.rs
@@ -2,7 +2,7 @@ use crate::encoding::{
     SiaDecodable, SiaDecode, SiaEncodable, SiaEncode, V1SiaDecodable, V1SiaDecode, V1SiaEncodable,
     V1SiaEncode,
 };
-use core::{fmt, str};
+use core::fmt;
 use serde::{Deserialize, Serialize};
 
 pub const SPECIFIER_SIZE: usize = 16;
@@ -51,8 +51,7 @@ impl fmt::Display for Specifier {
             .rev()
             .position(|&x| x != 0)
             .map_or(0, |pos| SPECIFIER_SIZE - pos);
-        let str = str::from_utf8(&self.0[..index]).map_err(|_| fmt::Error)?;
-        write!(f, "{}", str)
+        write!(f, "{}", String::from_utf8_lossy(&self.0[..index]))
     }
 }
 
-- 
2.43.0


From 05fffb5ab078dbbcbc6cc70fb41575b3a5e0cdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:03 +0000
Subject: [PATCH 19/26] fix: parse unlock keys with any algorithm that fits a
 specifier and refuse longer ones

---
 sia/src/types/v1.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sia/src/types/v1.rs b/sia/src/types/v1.rs
index fb82e24..e97a836 100644
--- a/sia/src/types/v1.rs
+++ b/sia/src/types/v1.rs
@@ -15,7 +15,7 @@ use crate::encoding::{
 };
 use crate::merkle::{Accumulator, LEAF_HASH_PREFIX};
 use crate::signing::PublicKey;
-use crate::types::{specifier, Specifier};
+use crate::types::{specifier, Specifier, SPECIFIER_SIZE};
 
 use super::currency::Currency;
 use super::{
@@ -66,7 +66,11 @@ impl UnlockKey {
     /// Parses an UnlockKey from a string
     /// The string should be in the format "algorithm:public_key"
     pub fn parse_string(s: &str) -> Result<Self, HexParseError> {
-        let (prefix, key_str) = s.split_once(':').ok_or(HexParseError::MissingPrefix)?;
+        // the algorithm may contain a colon, the key cannot
+        let (prefix, key_str) = s.rsplit_once(':').ok_or(HexParseError::MissingPrefix)?;
+        if prefix.len() > SPECIFIER_SIZE {
+            return Err(HexParseError::InvalidPrefix);
+        }
         Ok(UnlockKey {
             algorithm: Specifier::from(prefix),
             key: hex::decode(key_str).map_err(HexParseError::HexError)?,
-- 
2.43.0


From 93c036e39e108ae90f7542b81dcfeeccbae2f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:25 +0000
Subject: [PATCH 20/26] fix: serialize unlock keys to binary formats as they
 are deserialized

---
 sia/src/types/v1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/v1.rs b/sia/src/types/v1.rs
index e97a836..2843ae8 100644
--- a/sia/src/types/v1.rs
+++ b/sia/src/types/v1.rs
@@ -37,7 +37,11 @@ pub struct UnlockKey {
 
 impl Serialize for UnlockKey {
     fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        String::serialize(&self.to_string(), serializer)
+        if serializer.is_human_readable() {
+            String::serialize(&self.to_string(), serializer)
+        } else {
+            (&self.algorithm, &self.key).serialize(serializer)
+        }
     }
 }
 
-- 
2.43.0


From e418eb48add5004112b107d236113d0ac554068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:25 +0000
Subject: [PATCH 21/26] fix: refuse to serialize unlock keys whose algorithm
 has no text form

---
 sia/src/types/v1.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sia/src/types/v1.rs b/sia/src/types/v1.rs
index 2843ae8..e72f2ab 100644
--- a/sia/src/types/v1.rs
+++ b/sia/src/types/v1.rs
@@ -38,6 +38,9 @@ pub struct UnlockKey {
 impl Serialize for UnlockKey {
     fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
         if serializer.is_human_readable() {
+            if core::str::from_utf8(self.algorithm.as_bytes()).is_err() {
+                return Err(serde::ser::Error::custom("algorithm is not valid UTF-8"));
+            }
             String::serialize(&self.to_string(), serializer)
         } else {
             (&self.algorithm, &self.key).serialize(serializer)
-- 
2.43.0


From f0872586a6192b903811866e4c3245479aacf696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:25 +0000
Subject: [PATCH 22/26] fix: return an error instead of panicking when a
 sub-policy cannot be serialized

---
 sia/src/types/spendpolicy.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index a0bb5f0..65c8e0a 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -298,13 +298,8 @@ impl Serialize for SpendPolicy {
                 state.serialize_field("policy", &hash)?;
             }
             SpendPolicy::Threshold(n, policies) => {
-                state.serialize_field(
-                    "policy",
-                    &json!({
-                        "n": n,
-                        "of": policies,
-                    }),
-                )?;
+                let of = serde_json::to_value(policies).map_err(serde::ser::Error::custom)?;
+                state.serialize_field("policy", &json!({ "n": n, "of": of }))?;
             }
             SpendPolicy::Opaque(addr) => {
                 state.serialize_field("policy", addr)?;
-- 
2.43.0


From 3341428fee5c692bf711562c862a52056a3463cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:25 +0000
Subject: [PATCH 23/26] fix: refuse durations out of range in JSON instead of
 wrapping them

---
 sia/src/types/utils.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sia/src/types/utils.rs b/sia/src/types/utils.rs
index 39e1c83..59f06d5 100644
--- a/sia/src/types/utils.rs
+++ b/sia/src/types/utils.rs
@@ -108,11 +108,17 @@ pub(crate) mod nano_second_duration {
     use time::Duration;
 
     pub fn serialize<S: Serializer>(v: &Duration, s: S) -> Result<S::Ok, S::Error> {
-        s.serialize_u64(v.whole_nanoseconds() as u64)
+        // durations are a non-negative 64-bit number of nanoseconds
+        let nanos = i64::try_from(v.whole_nanoseconds())
+            .ok()
+            .and_then(|nanos| u64::try_from(nanos).ok())
+            .ok_or_else(|| serde::ser::Error::custom("duration out of range"))?;
+        s.serialize_u64(nanos)
     }
 
     pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Duration, D::Error> {
         let nanos = u64::deserialize(d)?;
-        Ok(Duration::nanoseconds(nanos as i64))
+        let nanos = i64::try_from(nanos).map_err(serde::de::Error::custom)?;
+        Ok(Duration::nanoseconds(nanos))
     }
 }
-- 
2.43.0


From eb1b626487eb2e923f72d0d0fa898d801f34d3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:26 +0000
Subject: [PATCH 24/26] fix: deserialize hash identifiers from binary formats
 as they are serialized

---
 sia/src/macros.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sia/src/macros.rs b/sia/src/macros.rs
index 0f86d3e..0cec621 100644
--- a/sia/src/macros.rs
+++ b/sia/src/macros.rs
@@ -29,6 +29,9 @@ macro_rules! impl_hash_id {
             where
                 D: serde::Deserializer<'de>,
             {
+                if !deserializer.is_human_readable() {
+                    return <[u8; 32]>::deserialize(deserializer).map($name);
+                }
                 let s = String::deserialize(deserializer)?;
                 $name::parse_string(&s).map_err(|e| serde::de::Error::custom(format!("{:?}", e)))
             }
-- 
2.43.0


From a19703333d6faf04a4c41c1f5e923c76b441d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:48 +0000
Subject: [PATCH 25/26] fix: serialize spend policies to binary formats as they
 are deserialized

---
 sia/src/types/spendpolicy.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 65c8e0a..1bff2e3 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -281,6 +281,8 @@ impl<'de> Deserialize<'de> for SpendPolicy {
 
 impl Serialize for SpendPolicy {
     fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        // the content is deserialized as a JSON value, whatever the format
+        let human_readable = serializer.is_human_readable();
         let mut state = serializer.serialize_struct("SpendPolicy", 2)?;
         state.serialize_field("type", self.type_str())?;
         match self {
@@ -295,7 +297,7 @@ impl Serialize for SpendPolicy {
                 state.serialize_field("policy", &pk)?;
             }
             SpendPolicy::Hash(hash) => {
-                state.serialize_field("policy", &hash)?;
+                state.serialize_field("policy", &hash.to_string())?;
             }
             SpendPolicy::Threshold(n, policies) => {
                 let of = serde_json::to_value(policies).map_err(serde::ser::Error::custom)?;
@@ -306,7 +308,12 @@ impl Serialize for SpendPolicy {
             }
             #[allow(deprecated)]
             SpendPolicy::UnlockConditions(uc) => {
-                state.serialize_field("policy", uc)?;
+                if human_readable {
+                    state.serialize_field("policy", uc)?;
+                } else {
+                    let uc = serde_json::to_value(uc).map_err(serde::ser::Error::custom)?;
+                    state.serialize_field("policy", &uc)?;
+                }
             }
         }
         state.end()
-- 
2.43.0


From f6aff02907b7d7fd3712abd4c087ebfb58ca0063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:09 +0000
Subject: [PATCH 26/26] fix: erase seeds and private keys with volatile writes

The zeroing loops in Drop are dead stores to memory that is about to be
released, and whole-program optimization removes them: boxed keys kept
their secret bytes.
---
 sia/src/seed.rs    |  8 +++-----
 sia/src/signing.rs | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/sia/src/seed.rs b/sia/src/seed.rs
index e61e948..9565713 100644
--- a/sia/src/seed.rs
+++ b/sia/src/seed.rs
@@ -1,4 +1,4 @@
-use crate::signing::PrivateKey;
+use crate::signing::{erase, PrivateKey};
 use crate::types::Hash256;
 use bip39::{Error as MnemonicError, Language, Mnemonic};
 use blake2b_simd::Params;
@@ -64,10 +64,8 @@ impl Seed {
 
 impl Drop for Seed {
     fn drop(&mut self) {
-        // Zero out the private key
-        for byte in self.0.iter_mut() {
-            *byte = 0;
-        }
+        // Zero out the seed
+        erase(&mut self.0);
     }
 }
 
diff --git a/sia/src/signing.rs b/sia/src/signing.rs
index 95f4eda..3b4c0ce 100644
--- a/sia/src/signing.rs
+++ b/sia/src/signing.rs
@@ -1,4 +1,5 @@
 use core::fmt;
+use core::sync::atomic::{compiler_fence, Ordering};
 
 use crate::encoding::{SiaDecodable, SiaDecode, SiaEncodable, SiaEncode};
 use crate::types::{Hash256, HexParseError};
@@ -67,6 +68,16 @@ impl AsRef<[u8]> for PublicKey {
 }
 
 /// An ed25519 private key that can be used to sign a hash
+/// Overwrites a secret that is about to be released with zeros. Plain stores to
+/// memory that is never read again may be optimized away, volatile ones may not.
+pub(crate) fn erase(secret: &mut [u8]) {
+    for byte in secret.iter_mut() {
+        // byte is a valid, exclusive reference
+        unsafe { core::ptr::write_volatile(byte, 0) };
+    }
+    compiler_fence(Ordering::SeqCst);
+}
+
 #[derive(Debug, PartialEq, Clone)]
 pub struct PrivateKey([u8; 64]);
 
@@ -107,9 +118,7 @@ impl From<Hash256> for PrivateKey {
 impl Drop for PrivateKey {
     fn drop(&mut self) {
         // Zero out the private key
-        for byte in self.0.iter_mut() {
-            *byte = 0;
-        }
+        erase(&mut self.0);
     }
 }
 
-- 
2.43.0

