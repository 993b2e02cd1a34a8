From 891e6fe7ec948bf23628af60983cb4f565f1ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:14 +0000
Subject: [PATCH 1/6] fix: compare the other key's bytes in ExtendedPrivateKey
 equality

ct_eq (and so ==) compared a key's private bytes with themselves, so two
extended private keys with different secrets but equal attributes were equal.
---
 src/bip32/extended_key/extended_private_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bip32/extended_key/extended_private_key.rs b/src/bip32/extended_key/extended_private_key.rs
index 14e9dc5..80554d3 100644
--- a/src/bip32/extended_key/extended_private_key.rs
+++ b/src/bip32/extended_key/extended_private_key.rs
@@ -181,7 +181,7 @@ where
 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let mut key_a = self.to_bytes();
-        let mut key_b = self.to_bytes();
+        let mut key_b = other.to_bytes();
 
         let result = key_a.ct_eq(&key_b)
             & self.attrs.depth.ct_eq(&other.attrs.depth)
-- 
2.43.0


From a47b271b78ab07f81a9bd4ddf08136867cde68ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:14 +0000
Subject: [PATCH 2/6] fix: return an error for an out-of-range derivation tweak

PrivateKey::derive_child and PublicKey::derive_child panicked when the tweak
was not a valid scalar (zero, or not below the group order) instead of
returning Error::Crypto as BIP32's invalid-child case requires.
---
 src/bip32/private_key.rs | 3 ++-
 src/bip32/public_key.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bip32/private_key.rs b/src/bip32/private_key.rs
index e012792..fcb3a77 100644
--- a/src/bip32/private_key.rs
+++ b/src/bip32/private_key.rs
@@ -44,8 +44,9 @@ impl PrivateKey for libsecp256k1::SecretKey {
     }
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
+        let tweak = libsecp256k1::SecretKey::parse(&other)?;
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()) {
+        match cpk.tweak_add_assign(&tweak) {
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
diff --git a/src/bip32/public_key.rs b/src/bip32/public_key.rs
index 80c6163..f01ad87 100644
--- a/src/bip32/public_key.rs
+++ b/src/bip32/public_key.rs
@@ -47,8 +47,9 @@ impl PublicKey for libsecp256k1::PublicKey {
     }
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
+        let tweak = libsecp256k1::SecretKey::parse(&other)?;
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()){
+        match cpk.tweak_add_assign(&tweak){
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
-- 
2.43.0


From 5fa43105e747119678b2de97aaf5a0dd3a4ddcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:14 +0000
Subject: [PATCH 3/6] fix: find words by prefix in unsorted word lists

get_words_by_prefix used a binary search, but the Chinese list is not sorted,
so most prefixes (even whole words) found nothing.
---
 src/bip39/language.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bip39/language.rs b/src/bip39/language.rs
index 6e49c99..e5b0ef2 100644
--- a/src/bip39/language.rs
+++ b/src/bip39/language.rs
@@ -26,9 +26,10 @@ impl WordList {
     }
 
     pub fn get_words_by_prefix(&self, prefix: &str) -> &[&'static str] {
-        let start = self.inner
-            .binary_search(&prefix)
-            .unwrap_or_else(|idx| idx);
+        // Not every word list is sorted (e.g. Chinese), so a binary search would miss words.
+        let start = self.inner.iter()
+            .position(|word| word.starts_with(prefix))
+            .unwrap_or(self.inner.len());
         let count = self.inner[start..].iter()
             .take_while(|word| word.starts_with(prefix))
             .count();
-- 
2.43.0


From b8380279d4ce85be3538137e2d76a950ce0cbdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:17 +0000
Subject: [PATCH 4/6] fix: reject depth-zero extended keys with a parent
 fingerprint or index

BIP32 test vector 5 lists such keys among the invalid extended keys.
---
 src/bip32/extended_key/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bip32/extended_key/mod.rs b/src/bip32/extended_key/mod.rs
index 999d373..5b1621c 100644
--- a/src/bip32/extended_key/mod.rs
+++ b/src/bip32/extended_key/mod.rs
@@ -89,6 +89,11 @@ impl FromStr for ExtendedKey {
         let key_bytes = bytes[45..78].try_into()?;
         bytes.zeroize();
 
+        // BIP32 (test vector 5): a master key has no parent and no child number
+        if depth == 0 && (parent_fingerprint != [0u8; 4] || child_number != ChildNumber(0)) {
+            return Err(Error::Decode);
+        }
+
         let attrs = ExtendedKeyAttrs {
             depth,
             parent_fingerprint,
-- 
2.43.0


From 52b79357b0df390a6d06b6e9f4aa4b2a0be1bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:17 +0000
Subject: [PATCH 5/6] fix: reject a plus sign in child number text

Child numbers and derivation paths are decimal digits with an optional
hardened mark, but text such as "m/+5" was accepted.
---
 src/bip32/child_number.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bip32/child_number.rs b/src/bip32/child_number.rs
index 5b95f39..7cd93fe 100644
--- a/src/bip32/child_number.rs
+++ b/src/bip32/child_number.rs
@@ -85,6 +85,11 @@ impl FromStr for ChildNumber {
             None => (child, false),
         };
 
+        // `u32::from_str` would also accept a leading `+`
+        if !child.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(Error::ChildNumber);
+        }
+
         let index = child.parse().map_err(|_| Error::ChildNumber)?;
         ChildNumber::new(index, hardened)
     }
-- 
2.43.0


From 32ecdac8ce83c1f6bec7136ec342837684840f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:00 +0000
Subject: [PATCH 6/6] fix: draw every mnemonic's entropy from the OS so forked
 processes never repeat it

---
 src/bip39/crypto.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bip39/crypto.rs b/src/bip39/crypto.rs
index a32fe79..4d5e2c9 100644
--- a/src/bip39/crypto.rs
+++ b/src/bip39/crypto.rs
@@ -6,7 +6,7 @@
 //!
 
 extern crate rand;
-use self::rand::{thread_rng, RngCore};
+use self::rand::{rngs::OsRng, RngCore};
 use hmac::Hmac;
 use sha2::Digest;
 
@@ -22,10 +22,10 @@ pub(crate) fn sha256_first_byte(input: &[u8]) -> u8 {
 /// Random byte generator, used to create new mnemonics
 ///
 pub(crate) fn gen_random_bytes(byte_length: usize) -> Vec<u8> {
-    let mut rng = thread_rng();
     let mut bytes = vec![0u8; byte_length];
 
-    rng.fill_bytes(&mut bytes);
+    // A buffered generator such as `thread_rng` would hand the same bytes to a forked process.
+    OsRng.fill_bytes(&mut bytes);
 
     bytes
 }
-- 
2.43.0

