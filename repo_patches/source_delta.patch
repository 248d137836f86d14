From 85bd6ec961d919c37ce1dbed6306e313ad720d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 01/18] fix: bounds-check dictionary word lookup

MnemonicIndex can be built with any u16, so get_unchecked read past the word list.
---
 bip39/src/bip39.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bip39/src/bip39.rs b/bip39/src/bip39.rs
index c5568f2..701accd 100755
--- a/bip39/src/bip39.rs
+++ b/bip39/src/bip39.rs
@@ -921,7 +921,11 @@ pub mod dictionary {
       }
     }
     fn lookup_word(&self, mnemonic: MnemonicIndex) -> Result<String> {
-      Ok(unsafe { self.words.get_unchecked(mnemonic.0 as usize) }).map(|s| String::from(*s))
+      self
+        .words
+        .get(mnemonic.0 as usize)
+        .map(|s| String::from(*s))
+        .ok_or_else(|| Error::MnemonicWordNotFoundInDictionary(mnemonic.0.to_string()))
     }
   }
 
-- 
2.43.0


From 2632bf7539c600768aa256c9738784f1bc9c1dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 02/18] fix: refuse over-long Cardano keys and signatures
 instead of panicking

copy_from_slice panics when the lengths differ.
---
 keychain/src/networks/cardano/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keychain/src/networks/cardano/key.rs b/keychain/src/networks/cardano/key.rs
index c06be8d..ef840b4 100644
--- a/keychain/src/networks/cardano/key.rs
+++ b/keychain/src/networks/cardano/key.rs
@@ -48,7 +48,7 @@ pub struct Key {
 impl Key {
   pub fn from_data(data: &[u8]) -> Result<Self, Error> {
     let mut arr: [u8; XPRV_SIZE] = [0; XPRV_SIZE];
-    if data.len() < XPRV_SIZE {
+    if data.len() != XPRV_SIZE {
       return Err(Error::InvalidKeySize(data.len(), XPRV_SIZE));
     }
     arr.copy_from_slice(data);
@@ -126,7 +126,7 @@ impl IKey for Key {
 
   fn verify(&self, data: &[u8], signature: &[u8], path: &dyn KeyPath) -> Result<bool, Error> {
     let mut sign: [u8; SIGNATURE_SIZE] = [0; SIGNATURE_SIZE];
-    if signature.len() < SIGNATURE_SIZE {
+    if signature.len() != SIGNATURE_SIZE {
       return Err(Error::InvalidSignatureSize(signature.len(), SIGNATURE_SIZE));
     }
     sign.copy_from_slice(signature);
-- 
2.43.0


From 1274f5ee21c6d759890e4da379bed18e570562ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 03/18] fix: refuse hardened path components of 2^31 and above

The addition overflowed: a panic in debug builds, a silently unhardened path in
release builds.
---
 keychain/src/key_path.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keychain/src/key_path.rs b/keychain/src/key_path.rs
index 5a9f8d5..f9e1620 100644
--- a/keychain/src/key_path.rs
+++ b/keychain/src/key_path.rs
@@ -19,7 +19,8 @@ pub enum Error {
   InvalidChange(u32),
   InvalidAddress(u32),
   EmptyValueAtIndex(usize),
-  ParseErrorAtIndex(usize, std::num::ParseIntError)
+  ParseErrorAtIndex(usize, std::num::ParseIntError),
+  HardenedValueTooBigAtIndex(usize, u32)
 }
 
 impl fmt::Display for Error {
@@ -44,6 +45,9 @@ impl fmt::Display for Error {
       &Error::ParseErrorAtIndex(index, ref err) => {
         write!(f, "Can't parse number at index {}, error: {}", index, err)
       }
+      &Error::HardenedValueTooBigAtIndex(index, val) => {
+        write!(f, "Hardened value {} at index {} is too big", val, index)
+      }
     }
   }
 }
@@ -71,7 +75,8 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    Self::soft_int(index, &s[..s.len() - 1]).map(|val| val + BIP44_SOFT_UPPER_BOUND)
+    let val = Self::soft_int(index, &s[..s.len() - 1])?;
+    val.checked_add(BIP44_SOFT_UPPER_BOUND).ok_or(Error::HardenedValueTooBigAtIndex(index, val))
   }
 
   fn soft_int(index: usize, s: &str) -> Result<u32, Error> {
-- 
2.43.0


From f248231e126d0abe23b09244566ab49b0e9631da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 04/18] fix: do not panic on a key path component that ends in
 a multi-byte character

---
 keychain/src/key_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/key_path.rs b/keychain/src/key_path.rs
index f9e1620..4093f13 100644
--- a/keychain/src/key_path.rs
+++ b/keychain/src/key_path.rs
@@ -90,7 +90,7 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    if &s[s.len() - 1..] == "'" {
+    if s.ends_with("'") {
       Self::hard_int(index, s)
     } else {
       Self::soft_int(index, s)
-- 
2.43.0


From 6b5c13c37053a7d238111c150cc18bcf1102c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 05/18] fix: report the refused address, not the change value

---
 keychain/src/networks/bitcoin/key_path.rs | 2 +-
 keychain/src/networks/cardano/key_path.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keychain/src/networks/bitcoin/key_path.rs b/keychain/src/networks/bitcoin/key_path.rs
index da77a71..20e4b9d 100644
--- a/keychain/src/networks/bitcoin/key_path.rs
+++ b/keychain/src/networks/bitcoin/key_path.rs
@@ -40,7 +40,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(())
   }
diff --git a/keychain/src/networks/cardano/key_path.rs b/keychain/src/networks/cardano/key_path.rs
index 6bae86a..7cd2d8c 100644
--- a/keychain/src/networks/cardano/key_path.rs
+++ b/keychain/src/networks/cardano/key_path.rs
@@ -19,7 +19,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(KeyPath { account: account + BIP44_SOFT_UPPER_BOUND, change, address })
   }
-- 
2.43.0


From 809bc7f30456a14323ff224c8d86f1ad5003372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 06/18] fix: decrypt what encrypt makes of an empty payload

---
 keychain/src/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/crypt.rs b/keychain/src/crypt.rs
index 1a3b964..65980b6 100644
--- a/keychain/src/crypt.rs
+++ b/keychain/src/crypt.rs
@@ -72,7 +72,7 @@ pub fn encrypt(data: &[u8], password: &str, entropy: &dyn Entropy) -> Vec<u8> {
 pub fn decrypt(data: &[u8], password: &str) -> Result<Vec<u8>, DecryptError> {
   use self::password_encryption_parameter::*;
 
-  if data.len() <= METADATA_SIZE {
+  if data.len() < METADATA_SIZE {
     // not enough input to decrypt.
     return Err(DecryptError::NotEnoughData);
   }
-- 
2.43.0


From 14bad8bf9ae35ddfc8983a46bee4afbf6f406418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 07/18] fix: free the network list with the layout it was
 allocated with

---
 keychain-c/src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain-c/src/network.rs b/keychain-c/src/network.rs
index ab30ccc..97f3585 100644
--- a/keychain-c/src/network.rs
+++ b/keychain-c/src/network.rs
@@ -33,7 +33,7 @@ impl Ptr<[Network]> for NetworksPtr {
     if self.ptr.is_null() {
       return;
     }
-    let _ = Vec::from_raw_parts(self.ptr as *mut &[Network], self.count, self.count);
+    let _ = Vec::from_raw_parts(self.ptr as *mut Network, self.count, self.count);
     self.ptr = std::ptr::null();
   }
 }
-- 
2.43.0


From 81a23f0d887005572d793c761988ae40bcb7d82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 08/18] fix: delete_string(NULL) is a no-op, as the other
 delete functions are

---
 keychain-c/src/utils/string.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keychain-c/src/utils/string.rs b/keychain-c/src/utils/string.rs
index 4ab4ed0..8a4f2f2 100644
--- a/keychain-c/src/utils/string.rs
+++ b/keychain-c/src/utils/string.rs
@@ -10,6 +10,9 @@ impl Ptr<str> for CharPtr {
   }
 
   unsafe fn free(&mut self) {
+    if self.is_null() {
+      return;
+    }
     let _ = CString::from_raw(*self as *mut c_char);
     *self = std::ptr::null();
   }
-- 
2.43.0


From e0ab034e2deb717b5ac41a574815d9eda3ca8a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 09/18] fix: accept networks whose seed size ranges share
 exactly one size

---
 keychain/src/manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/manager.rs b/keychain/src/manager.rs
index 5b2b81c..b2349c9 100644
--- a/keychain/src/manager.rs
+++ b/keychain/src/manager.rs
@@ -147,7 +147,7 @@ impl KeychainManager {
 
     match min {
       0 => Err(Error::CantCalculateSeedSize(min, max)),
-      m if m >= max => Err(Error::CantCalculateSeedSize(min, max)),
+      m if m > max => Err(Error::CantCalculateSeedSize(min, max)),
       _ => Ok(min)
     }
   }
-- 
2.43.0


From 33c7b5deee74a527cf4f3135964404ee7fb5ebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 10/18] fix: keep the random source usable after a failed read

OsRng panics when the system has no randomness to give; the poisoned mutex then made every
later call fail too.
---
 keychain/src/entropy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/entropy.rs b/keychain/src/entropy.rs
index 29dbd18..d522eee 100644
--- a/keychain/src/entropy.rs
+++ b/keychain/src/entropy.rs
@@ -18,7 +18,7 @@ impl OsEntropy {
 
 impl Entropy for OsEntropy {
   fn fill_bytes(&self, into: &mut [u8]) {
-    let rand = &mut self.random.lock().unwrap();
+    let rand = &mut self.random.lock().unwrap_or_else(|err| err.into_inner());
     rand.fill_bytes(into);
   }
 }
-- 
2.43.0


From 1a775279e45d465fb8055c5435ea289557ddb5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 11/18] fix: accept the testnet paths the Bitcoin key path
 constructors make

---
 keychain/src/networks/bitcoin/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keychain/src/networks/bitcoin/key.rs b/keychain/src/networks/bitcoin/key.rs
index 74a3815..f3305ef 100644
--- a/keychain/src/networks/bitcoin/key.rs
+++ b/keychain/src/networks/bitcoin/key.rs
@@ -1,4 +1,4 @@
-use super::key_path::COIN_TYPE;
+use super::key_path::{COIN_TYPE, COIN_TYPE_TESTNET};
 use bip39;
 use key::{Error, Key as IKey};
 use key_path::{Error as KPError, KeyPath, BIP44_SOFT_UPPER_BOUND};
@@ -22,7 +22,7 @@ impl Key {
   }
 
   fn derive_private(&self, path: &dyn KeyPath) -> Result<XPrv, Error> {
-    if path.coin() != COIN_TYPE {
+    if path.coin() != COIN_TYPE && path.coin() != COIN_TYPE_TESTNET {
       return Err(KPError::InvalidCoin(path.coin(), COIN_TYPE).into());
     }
     if path.account() < BIP44_SOFT_UPPER_BOUND {
-- 
2.43.0


From 58ed46fb28de3c9f42df5a91b686df2ce3837032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 12/18] fix: verify the signatures that sign makes

sign appends the recovery id (65 bytes), verify only took 64 bytes, so no Ethereum or
Bitcoin signature of this library could be verified by it.
---
 secp256k1_bip32/src/public.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/secp256k1_bip32/src/public.rs b/secp256k1_bip32/src/public.rs
index 2192c68..1f1ae6a 100644
--- a/secp256k1_bip32/src/public.rs
+++ b/secp256k1_bip32/src/public.rs
@@ -2,7 +2,7 @@ use super::error::KeyError;
 use cryptoxide::digest::Digest;
 use cryptoxide::sha2::Sha256;
 use cryptoxide::sha3::Sha3;
-use secp256k1::{util, verify, Message, PublicKey, Signature};
+use secp256k1::{recover, util, verify, Message, PublicKey, RecoveryId, Signature};
 
 pub struct XPub(PublicKey);
 
@@ -20,7 +20,8 @@ impl XPub {
   }
 
   pub fn verify(&self, data: &[u8], signature: &[u8]) -> Result<bool, KeyError> {
-    if signature.len() != util::SIGNATURE_SIZE {
+    // r and s, optionally followed by the recovery id that XPrv::sign appends
+    if signature.len() != util::SIGNATURE_SIZE && signature.len() != util::SIGNATURE_SIZE + 1 {
       return Err(KeyError::InvalidSignature(signature.len(), util::SIGNATURE_SIZE));
     }
     let mut sha3 = Sha3::keccak256();
@@ -30,9 +31,18 @@ impl XPub {
 
     let message = Message::parse(&out);
 
-    Signature::parse_slice(signature)
-      .map(|signature| verify(&message, &signature, &self.0))
-      .map_err(|err| err.into())
+    let (rs, rec_id) = signature.split_at(util::SIGNATURE_SIZE);
+    let signature = Signature::parse_slice(rs).map_err(|err| KeyError::from(err))?;
+    if !verify(&message, &signature, &self.0) {
+      return Ok(false);
+    }
+    match rec_id.first() {
+      None => Ok(true),
+      Some(id) => {
+        let recovered = RecoveryId::parse(*id).and_then(|id| recover(&message, &signature, &id));
+        Ok(recovered.map(|key| key.serialize()[..] == self.0.serialize()[..]).unwrap_or(false))
+      }
+    }
   }
 
   pub fn sha256(&self) -> [u8; util::MESSAGE_SIZE] {
-- 
2.43.0


From b9464af4db04e3f0c601029b9c156e732d6f6a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 13/18] fix: accept (NULL, 0) as an empty buffer in the C API

slice::from_raw_parts must not be given a null pointer: a debug build aborted the process.
---
 keychain-c/src/backup.rs     |  6 +++---
 keychain-c/src/keychain_c.rs |  8 ++++----
 keychain-c/src/manager.rs    | 10 +++++-----
 keychain-c/src/utils/data.rs |  9 +++++++++
 4 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/keychain-c/src/backup.rs b/keychain-c/src/backup.rs
index cdc6052..99a396f 100644
--- a/keychain-c/src/backup.rs
+++ b/keychain-c/src/backup.rs
@@ -2,7 +2,7 @@ use error::ErrorPtr;
 use keychain::Network as RNetwork;
 use manager::{KeychainManagerPtr, Language};
 use network::Network;
-use utils::data::DataPtr;
+use utils::data::{slice_from_c, DataPtr};
 use utils::panic::handle_exception_result;
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -86,7 +86,7 @@ pub unsafe extern "C" fn keychain_manager_get_keys_data(
   data: &mut KeyBackupPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(encrypted, encrypted_len);
+    let data_slice = slice_from_c(encrypted, encrypted_len);
     manager
       .rust_ref()
       .get_keys_data(data_slice, password.rust_ref())
@@ -101,7 +101,7 @@ pub unsafe extern "C" fn keychain_manager_retrieve_mnemonic(
   mnemonic: &mut MnemonicInfoPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .retrieve_mnemonic(data_slice, password.rust_ref())
diff --git a/keychain-c/src/keychain_c.rs b/keychain-c/src/keychain_c.rs
index f4fc79a..fbe08cd 100644
--- a/keychain-c/src/keychain_c.rs
+++ b/keychain-c/src/keychain_c.rs
@@ -3,7 +3,7 @@ use key_path::KeyPath;
 use keychain::Keychain as RKeychain;
 use network::{Network, NetworksPtr};
 use std::ffi::c_void;
-use utils::data::DataPtr;
+use utils::data::{slice_from_c, DataPtr};
 use utils::panic::{handle_exception, handle_exception_result};
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -54,7 +54,7 @@ pub unsafe extern "C" fn keychain_sign(
   signature: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     keychain.rust_ref().sign(&network.into(), data_slice, &path).map(|data| DataPtr::from(data))
   })
   .response(signature, error)
@@ -66,8 +66,8 @@ pub unsafe extern "C" fn keychain_verify(
   signature_len: usize, path: KeyPath, result: &mut bool, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
-    let signature_slice = std::slice::from_raw_parts(signature, signature_len);
+    let data_slice = slice_from_c(data, data_len);
+    let signature_slice = slice_from_c(signature, signature_len);
 
     keychain.rust_ref().verify(&network.into(), data_slice, signature_slice, &path)
   })
diff --git a/keychain-c/src/manager.rs b/keychain-c/src/manager.rs
index 0d0c1d0..d5187ab 100644
--- a/keychain-c/src/manager.rs
+++ b/keychain-c/src/manager.rs
@@ -4,7 +4,7 @@ use keychain_c::KeychainPtr;
 use network::Network;
 use num_traits::FromPrimitive;
 use std::ffi::c_void;
-use utils::data::DataPtr;
+use utils::data::{slice_from_c, DataPtr};
 use utils::panic::{handle_exception, handle_exception_result};
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -92,7 +92,7 @@ pub unsafe extern "C" fn keychain_manager_keychain_data_from_seed(
   data: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let seed_slice = std::slice::from_raw_parts(seed, seed_len);
+    let seed_slice = slice_from_c(seed, seed_len);
     manager
       .rust_ref()
       .keychain_data_from_seed(seed_slice, password.rust_ref())
@@ -121,7 +121,7 @@ pub unsafe extern "C" fn keychain_manager_keychain_from_data(
   keychain: &mut KeychainPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .keychain_from_data(data_slice, password.rust_ref())
@@ -136,7 +136,7 @@ pub unsafe extern "C" fn keychain_manager_add_network(
   network: Network, response: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .add_network(data_slice, password.rust_ref(), network.into())
@@ -151,7 +151,7 @@ pub unsafe extern "C" fn keychain_manager_change_password(
   new_password: CharPtr, response: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .change_password(data_slice, old_password.rust_ref(), new_password.rust_ref())
diff --git a/keychain-c/src/utils/data.rs b/keychain-c/src/utils/data.rs
index 506f857..bb883c7 100644
--- a/keychain-c/src/utils/data.rs
+++ b/keychain-c/src/utils/data.rs
@@ -1,5 +1,14 @@
 use super::ptr::Ptr;
 
+/// Bytes passed from C. An empty buffer may have a null pointer.
+pub unsafe fn slice_from_c<'a>(ptr: *const u8, len: usize) -> &'a [u8] {
+  if len == 0 {
+    return &[];
+  }
+  assert!(!ptr.is_null(), "Null pointer for {} bytes of data", len);
+  std::slice::from_raw_parts(ptr, len)
+}
+
 #[repr(C)]
 #[derive(Copy, Clone)]
 pub struct DataPtr {
-- 
2.43.0


From 301350e77b69b34837bf52dcbdd62a885a3a1114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 14/18] fix: report a NULL string argument as an error, as NULL
 handles are

CStr::from_ptr(NULL) crashed the process.
---
 keychain-c/src/utils/string.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/keychain-c/src/utils/string.rs b/keychain-c/src/utils/string.rs
index 8a4f2f2..be29612 100644
--- a/keychain-c/src/utils/string.rs
+++ b/keychain-c/src/utils/string.rs
@@ -6,6 +6,7 @@ pub type CharPtr = *const c_char;
 
 impl Ptr<str> for CharPtr {
   unsafe fn rust_ref(&self) -> &str {
+    assert!(!self.is_null(), "Null string pointer");
     CStr::from_ptr(*self).to_str().unwrap()
   }
 
-- 
2.43.0


From bdb16bbcdaea4c6cd229a61fdd9d3eea26acd81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 15/18] fix: an error message with a zero byte in it must not
 abort the process

It was made into a C string outside catch_unwind, so the panic left an extern "C" function.
---
 keychain-c/src/error.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keychain-c/src/error.rs b/keychain-c/src/error.rs
index 85c1b4b..31f8d5c 100644
--- a/keychain-c/src/error.rs
+++ b/keychain-c/src/error.rs
@@ -58,12 +58,17 @@ impl ErrorPtr {
     }
   }
 
+  // an error can quote wallet data, which may have zero bytes
+  fn message(text: &str) -> CharPtr {
+    text.replace('\0', "").to_cstr()
+  }
+
   pub fn new(err: &RError) -> Self {
-    Self { error_type: Self::error_type(err), message: format!("{}", err).to_cstr() }
+    Self { error_type: Self::error_type(err), message: Self::message(&format!("{}", err)) }
   }
 
   pub fn panic(msg: &str) -> Self {
-    Self { error_type: ErrorType::Panic, message: msg.to_cstr() }
+    Self { error_type: ErrorType::Panic, message: Self::message(msg) }
   }
 }
 
-- 
2.43.0


From 2b0a27ae5fca5cb4bc315e534c5154c7592870b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 16/18] fix: refuse to import a mnemonic with a wrong checksum

A mistyped phrase that is still made of dictionary words silently became another wallet.
Stored wallets are opened as before.
---
 keychain/src/manager.rs  | 7 ++++++-
 keychain/src/mnemonic.rs | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/keychain/src/manager.rs b/keychain/src/manager.rs
index b2349c9..3f619c1 100644
--- a/keychain/src/manager.rs
+++ b/keychain/src/manager.rs
@@ -7,7 +7,9 @@ use error::Error;
 use key::Key;
 use key_factory::KeyFactory;
 use keychain::Keychain;
-use mnemonic::{generate_entropy, mnemonic_from_entropy, seed_from_mnemonic, Language, SEED_SIZE};
+use mnemonic::{
+  check_mnemonic, generate_entropy, mnemonic_from_entropy, seed_from_mnemonic, Language, SEED_SIZE
+};
 use network::Network;
 use networks::all_networks;
 
@@ -175,6 +177,9 @@ impl KeychainManager {
     &self, seed: Option<&[u8]>, password: &str, mnemonic: Option<&str>, lang: Option<Language>
   ) -> Result<Vec<u8>, Error> {
     let calculated_seed = self.seed_from_data(seed, mnemonic, lang)?;
+    if let (Some(mnemonic), Some(lang)) = (mnemonic, lang) {
+      check_mnemonic(mnemonic, lang)?;
+    }
 
     let pkeys: Result<HashMap<Network, Vec<u8>>, Error> = self
       .factories
diff --git a/keychain/src/mnemonic.rs b/keychain/src/mnemonic.rs
index b0b1101..485e6e4 100644
--- a/keychain/src/mnemonic.rs
+++ b/keychain/src/mnemonic.rs
@@ -91,6 +91,13 @@ pub fn mnemonic_from_entropy(bytes: &[u8], language: Language) -> Result<String,
     .map_err(|err| err.into())
 }
 
+pub fn check_mnemonic(mnemonic: &str, language: Language) -> Result<(), Error> {
+  bip39::Mnemonics::from_string(language.to_dict(), mnemonic)
+    .and_then(|mnemonics| bip39::Entropy::from_mnemonics(&mnemonics))
+    .map(|_| ())
+    .map_err(|err| err.into())
+}
+
 pub fn seed_from_mnemonic(
   mnemonic: &str, unique: &str, size: usize, language: Language
 ) -> Result<Vec<u8>, Error> {
-- 
2.43.0


From 4837d0da98331ec586b3fc3e119c740750700c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 17/18] fix: wipe entropy and seeds in optimized builds too

---
 bip39/src/bip39.rs          |  2 +-
 bip39/src/util/securemem.rs | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/bip39/src/bip39.rs b/bip39/src/bip39.rs
index 701accd..d654283 100755
--- a/bip39/src/bip39.rs
+++ b/bip39/src/bip39.rs
@@ -512,7 +512,7 @@ impl Deref for Seed {
 }
 impl Drop for Seed {
   fn drop(&mut self) {
-    self.0.copy_from_slice(&[0; SEED_SIZE][..]);
+    securemem::zero(&mut self.0);
   }
 }
 
diff --git a/bip39/src/util/securemem.rs b/bip39/src/util/securemem.rs
index 61ba866..4dd7e9d 100755
--- a/bip39/src/util/securemem.rs
+++ b/bip39/src/util/securemem.rs
@@ -1,12 +1,14 @@
+use std::ptr;
+use std::sync::atomic::{compiler_fence, Ordering};
+
 /// zero the given slice.
 ///
-/// We assume the compiler won't optimise out the call to this function
+/// The writes are volatile: the slice is usually about to be released, and the
+/// compiler would remove ordinary writes to it as nobody reads them.
 pub fn zero(to_zero: &mut [u8]) {
-  // the unsafety of this call is bounded to the existence of the pointer
-  // and the accuracy of the length of the array.
-  //
-  // since to_zero existence is bound to live at least as long as the call
-  // of this function and that we use the length (in bytes) of the given
-  // slice, this call is safe.
-  unsafe { ::std::ptr::write_bytes(to_zero.as_mut_ptr(), 0, to_zero.len()) }
+  for byte in to_zero.iter_mut() {
+    // `byte` is a valid, exclusive reference for the time of the write.
+    unsafe { ptr::write_volatile(byte, 0) }
+  }
+  compiler_fence(Ordering::SeqCst);
 }
-- 
2.43.0


From 0311e66974fbfae369d3e0646b9453c2486053ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 18/18] fix: a mnemonic that is too long was reported as too
 short

---
 keychain/src/mnemonic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/mnemonic.rs b/keychain/src/mnemonic.rs
index 485e6e4..755538f 100644
--- a/keychain/src/mnemonic.rs
+++ b/keychain/src/mnemonic.rs
@@ -51,7 +51,7 @@ impl fmt::Display for Error {
   fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
     match self {
       &Error::MnemonicToShort(size, min) => write!(f, "Mnemonic {} too short. Min: {}", size, min),
-      &Error::MnemonicToLong(size, max) => write!(f, "Mnemonic {} too short. Max: {}", size, max),
+      &Error::MnemonicToLong(size, max) => write!(f, "Mnemonic {} too long. Max: {}", size, max),
       &Error::WrongNumberOfWords(count) => write!(f, "Wrong number of words {}", count),
       &Error::UnsupportedWordFound(ref word) => {
         write!(f, "Unsupported word found '{}'. Maybe wrong dictionary?", word)
-- 
2.43.0

