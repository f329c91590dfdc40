From d1b65f376f7f9f3c3b0e3118bf353f6561a42f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 01/18] fix: refuse over-long Cardano signatures instead of
 panicking

verify() only refused signatures shorter than 64 bytes and then copied the
whole slice into a 64 byte array, which panics for longer ones.
---
 keychain/src/networks/cardano/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/networks/cardano/key.rs b/keychain/src/networks/cardano/key.rs
index c06be8d..046306e 100644
--- a/keychain/src/networks/cardano/key.rs
+++ b/keychain/src/networks/cardano/key.rs
@@ -126,7 +126,7 @@ impl IKey for Key {
 
   fn verify(&self, data: &[u8], signature: &[u8], path: &dyn KeyPath) -> Result<bool, Error> {
     let mut sign: [u8; SIGNATURE_SIZE] = [0; SIGNATURE_SIZE];
-    if signature.len() < SIGNATURE_SIZE {
+    if signature.len() != SIGNATURE_SIZE {
       return Err(Error::InvalidSignatureSize(signature.len(), SIGNATURE_SIZE));
     }
     sign.copy_from_slice(signature);
-- 
2.43.0


From 0c4354be95ff5b791d1ae92d0816f186647f35c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 02/18] fix: refuse over-long Cardano key data instead of
 panicking

---
 keychain/src/networks/cardano/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/networks/cardano/key.rs b/keychain/src/networks/cardano/key.rs
index 046306e..ef840b4 100644
--- a/keychain/src/networks/cardano/key.rs
+++ b/keychain/src/networks/cardano/key.rs
@@ -48,7 +48,7 @@ pub struct Key {
 impl Key {
   pub fn from_data(data: &[u8]) -> Result<Self, Error> {
     let mut arr: [u8; XPRV_SIZE] = [0; XPRV_SIZE];
-    if data.len() < XPRV_SIZE {
+    if data.len() != XPRV_SIZE {
       return Err(Error::InvalidKeySize(data.len(), XPRV_SIZE));
     }
     arr.copy_from_slice(data);
-- 
2.43.0


From 8f33df6d467bf7c0768df7b82e85307b7f7ad6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 03/18] fix: report the refused address, not the change, in
 InvalidAddress

---
 keychain/src/networks/bitcoin/key_path.rs | 2 +-
 keychain/src/networks/cardano/key_path.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keychain/src/networks/bitcoin/key_path.rs b/keychain/src/networks/bitcoin/key_path.rs
index da77a71..20e4b9d 100644
--- a/keychain/src/networks/bitcoin/key_path.rs
+++ b/keychain/src/networks/bitcoin/key_path.rs
@@ -40,7 +40,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(())
   }
diff --git a/keychain/src/networks/cardano/key_path.rs b/keychain/src/networks/cardano/key_path.rs
index 6bae86a..7cd2d8c 100644
--- a/keychain/src/networks/cardano/key_path.rs
+++ b/keychain/src/networks/cardano/key_path.rs
@@ -19,7 +19,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(KeyPath { account: account + BIP44_SOFT_UPPER_BOUND, change, address })
   }
-- 
2.43.0


From 7a4bd2fa9021363cb2f5bccbdbec80f33d2eac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 04/18] fix: open sealed data with an empty payload

encrypt() of an empty slice makes exactly METADATA_SIZE bytes, which decrypt()
refused as not enough data.
---
 keychain/src/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/crypt.rs b/keychain/src/crypt.rs
index 1a3b964..65980b6 100644
--- a/keychain/src/crypt.rs
+++ b/keychain/src/crypt.rs
@@ -72,7 +72,7 @@ pub fn encrypt(data: &[u8], password: &str, entropy: &dyn Entropy) -> Vec<u8> {
 pub fn decrypt(data: &[u8], password: &str) -> Result<Vec<u8>, DecryptError> {
   use self::password_encryption_parameter::*;
 
-  if data.len() <= METADATA_SIZE {
+  if data.len() < METADATA_SIZE {
     // not enough input to decrypt.
     return Err(DecryptError::NotEnoughData);
   }
-- 
2.43.0


From f810370d175dbd2c1c634444b78f0c31325ca717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 05/18] fix: key path parsing must not panic on a part ending
 with a non-ASCII character

---
 keychain/src/key_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/key_path.rs b/keychain/src/key_path.rs
index 5a9f8d5..eb7b6c7 100644
--- a/keychain/src/key_path.rs
+++ b/keychain/src/key_path.rs
@@ -85,7 +85,7 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    if &s[s.len() - 1..] == "'" {
+    if s.ends_with("'") {
       Self::hard_int(index, s)
     } else {
       Self::soft_int(index, s)
-- 
2.43.0


From 9406247e6409c2ef52bc6cb4145ff3b1fce550cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 06/18] fix: refuse hardened path numbers of 2^31 or more

Adding 2^31 to them overflowed: a panic in debug builds, and in release builds
a silent wrap to a soft (not hardened) index.
---
 keychain/src/key_path.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/keychain/src/key_path.rs b/keychain/src/key_path.rs
index eb7b6c7..76790a1 100644
--- a/keychain/src/key_path.rs
+++ b/keychain/src/key_path.rs
@@ -19,7 +19,8 @@ pub enum Error {
   InvalidChange(u32),
   InvalidAddress(u32),
   EmptyValueAtIndex(usize),
-  ParseErrorAtIndex(usize, std::num::ParseIntError)
+  ParseErrorAtIndex(usize, std::num::ParseIntError),
+  HardenedValueTooBigAtIndex(usize, u32)
 }
 
 impl fmt::Display for Error {
@@ -44,6 +45,9 @@ impl fmt::Display for Error {
       &Error::ParseErrorAtIndex(index, ref err) => {
         write!(f, "Can't parse number at index {}, error: {}", index, err)
       }
+      &Error::HardenedValueTooBigAtIndex(index, value) => {
+        write!(f, "Hardened value {} is too big at index: {}", value, index)
+      }
     }
   }
 }
@@ -71,7 +75,11 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    Self::soft_int(index, &s[..s.len() - 1]).map(|val| val + BIP44_SOFT_UPPER_BOUND)
+    let val = Self::soft_int(index, &s[..s.len() - 1])?;
+    if val >= BIP44_SOFT_UPPER_BOUND {
+      return Err(Error::HardenedValueTooBigAtIndex(index, val));
+    }
+    Ok(val + BIP44_SOFT_UPPER_BOUND)
   }
 
   fn soft_int(index: usize, s: &str) -> Result<u32, Error> {
-- 
2.43.0


From 9041e945a50a08c4e2fed52b6bef8e55e68401f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 07/18] fix: lookup_word reads out of bounds for indexes above
 2047

MnemonicIndex has a public field, so safe code can build any index.
---
 bip39/src/bip39.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bip39/src/bip39.rs b/bip39/src/bip39.rs
index c5568f2..701accd 100755
--- a/bip39/src/bip39.rs
+++ b/bip39/src/bip39.rs
@@ -921,7 +921,11 @@ pub mod dictionary {
       }
     }
     fn lookup_word(&self, mnemonic: MnemonicIndex) -> Result<String> {
-      Ok(unsafe { self.words.get_unchecked(mnemonic.0 as usize) }).map(|s| String::from(*s))
+      self
+        .words
+        .get(mnemonic.0 as usize)
+        .map(|s| String::from(*s))
+        .ok_or_else(|| Error::MnemonicWordNotFoundInDictionary(mnemonic.0.to_string()))
     }
   }
 
-- 
2.43.0


From 49a406bc03adf67d41a4da651c812fb1460fc630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 08/18] fix: from_mnemonics must refuse out of bound indexes

They were truncated to 11 bits later, so an invalid sequence gave the entropy
of another, valid one.
---
 bip39/src/bip39.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bip39/src/bip39.rs b/bip39/src/bip39.rs
index 701accd..9d8bb35 100755
--- a/bip39/src/bip39.rs
+++ b/bip39/src/bip39.rs
@@ -832,10 +832,14 @@ impl Mnemonics {
   ///
   /// # Error
   ///
-  /// May fail if this is an invalid number of `MnemonicIndex`.
+  /// May fail if this is an invalid number of `MnemonicIndex` or if one of
+  /// them is out of bound.
   ///
   pub fn from_mnemonics(mnemonics: Vec<MnemonicIndex>) -> Result<Self> {
     let _ = Type::from_word_count(mnemonics.len())?;
+    for mnemonic in mnemonics.iter() {
+      let _ = MnemonicIndex::new(mnemonic.0)?;
+    }
     Ok(Mnemonics(mnemonics))
   }
 }
-- 
2.43.0


From 8aa13a1806afe7f726f38032edcd3b3518574e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 09/18] fix: wipe dropped seeds and entropies in optimised
 builds too

The plain stores were removed as dead by the optimiser.
---
 bip39/src/bip39.rs          | 2 +-
 bip39/src/util/securemem.rs | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bip39/src/bip39.rs b/bip39/src/bip39.rs
index 9d8bb35..8da2ea7 100755
--- a/bip39/src/bip39.rs
+++ b/bip39/src/bip39.rs
@@ -512,7 +512,7 @@ impl Deref for Seed {
 }
 impl Drop for Seed {
   fn drop(&mut self) {
-    self.0.copy_from_slice(&[0; SEED_SIZE][..]);
+    securemem::zero(&mut self.0);
   }
 }
 
diff --git a/bip39/src/util/securemem.rs b/bip39/src/util/securemem.rs
index 61ba866..f28b8f5 100755
--- a/bip39/src/util/securemem.rs
+++ b/bip39/src/util/securemem.rs
@@ -8,5 +8,11 @@ pub fn zero(to_zero: &mut [u8]) {
   // since to_zero existence is bound to live at least as long as the call
   // of this function and that we use the length (in bytes) of the given
   // slice, this call is safe.
-  unsafe { ::std::ptr::write_bytes(to_zero.as_mut_ptr(), 0, to_zero.len()) }
+  //
+  // the writes are volatile, so that the compiler keeps them even when the
+  // memory is never read again.
+  for byte in to_zero.iter_mut() {
+    unsafe { ::std::ptr::write_volatile(byte, 0) }
+  }
+  ::std::sync::atomic::compiler_fence(::std::sync::atomic::Ordering::SeqCst);
 }
-- 
2.43.0


From e478e6fcacecec17523b39b4c6d2e6401c2bc8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 10/18] fix: verify must accept the recoverable signatures sign
 makes

sign() returns 65 bytes (r, s, recovery id) and verify() refused everything
but 64 bytes, so no Bitcoin or Ethereum signature of this library could be
verified by it. 64 bytes stay accepted; with 65 the recovery id must recover
the same key.
---
 secp256k1_bip32/src/public.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/secp256k1_bip32/src/public.rs b/secp256k1_bip32/src/public.rs
index 2192c68..4cd132e 100644
--- a/secp256k1_bip32/src/public.rs
+++ b/secp256k1_bip32/src/public.rs
@@ -2,7 +2,7 @@ use super::error::KeyError;
 use cryptoxide::digest::Digest;
 use cryptoxide::sha2::Sha256;
 use cryptoxide::sha3::Sha3;
-use secp256k1::{util, verify, Message, PublicKey, Signature};
+use secp256k1::{recover, util, verify, Message, PublicKey, RecoveryId, Signature};
 
 pub struct XPub(PublicKey);
 
@@ -20,7 +20,8 @@ impl XPub {
   }
 
   pub fn verify(&self, data: &[u8], signature: &[u8]) -> Result<bool, KeyError> {
-    if signature.len() != util::SIGNATURE_SIZE {
+    // with or without the recovery id `XPrv::sign` appends
+    if signature.len() != util::SIGNATURE_SIZE && signature.len() != util::SIGNATURE_SIZE + 1 {
       return Err(KeyError::InvalidSignature(signature.len(), util::SIGNATURE_SIZE));
     }
     let mut sha3 = Sha3::keccak256();
@@ -30,9 +31,17 @@ impl XPub {
 
     let message = Message::parse(&out);
 
-    Signature::parse_slice(signature)
-      .map(|signature| verify(&message, &signature, &self.0))
-      .map_err(|err| err.into())
+    let parsed = Signature::parse_slice(&signature[..util::SIGNATURE_SIZE])?;
+    if !verify(&message, &parsed, &self.0) {
+      return Ok(false);
+    }
+    match signature.get(util::SIGNATURE_SIZE) {
+      None => Ok(true),
+      Some(id) => {
+        let recovery = RecoveryId::parse(*id)?;
+        Ok(recover(&message, &parsed, &recovery).map(|key| key == self.0).unwrap_or(false))
+      }
+    }
   }
 
   pub fn sha256(&self) -> [u8; util::MESSAGE_SIZE] {
-- 
2.43.0


From 1b00d84f6aed67082b3f750c969ba7f1c9d6c792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 11/18] fix: delete_networks frees with the layout it was
 allocated with

---
 keychain-c/src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain-c/src/network.rs b/keychain-c/src/network.rs
index ab30ccc..97f3585 100644
--- a/keychain-c/src/network.rs
+++ b/keychain-c/src/network.rs
@@ -33,7 +33,7 @@ impl Ptr<[Network]> for NetworksPtr {
     if self.ptr.is_null() {
       return;
     }
-    let _ = Vec::from_raw_parts(self.ptr as *mut &[Network], self.count, self.count);
+    let _ = Vec::from_raw_parts(self.ptr as *mut Network, self.count, self.count);
     self.ptr = std::ptr::null();
   }
 }
-- 
2.43.0


From 5481b54bd4b3abbf10396653b0704d83341f533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 12/18] fix: delete_string must accept null like the other
 delete functions

---
 keychain-c/src/utils/string.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keychain-c/src/utils/string.rs b/keychain-c/src/utils/string.rs
index 4ab4ed0..8a4f2f2 100644
--- a/keychain-c/src/utils/string.rs
+++ b/keychain-c/src/utils/string.rs
@@ -10,6 +10,9 @@ impl Ptr<str> for CharPtr {
   }
 
   unsafe fn free(&mut self) {
+    if self.is_null() {
+      return;
+    }
     let _ = CString::from_raw(*self as *mut c_char);
     *self = std::ptr::null();
   }
-- 
2.43.0


From de96c13d9869e978e82fbc0755e8bd4819b27bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 13/18] fix: error messages holding NUL must not abort the
 process

The error is made outside of catch_unwind, so a failed CString::new there
unwinds out of the C function.
---
 keychain-c/src/error.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keychain-c/src/error.rs b/keychain-c/src/error.rs
index 85c1b4b..9dd5441 100644
--- a/keychain-c/src/error.rs
+++ b/keychain-c/src/error.rs
@@ -59,11 +59,16 @@ impl ErrorPtr {
   }
 
   pub fn new(err: &RError) -> Self {
-    Self { error_type: Self::error_type(err), message: format!("{}", err).to_cstr() }
+    Self { error_type: Self::error_type(err), message: Self::message(&format!("{}", err)) }
   }
 
   pub fn panic(msg: &str) -> Self {
-    Self { error_type: ErrorType::Panic, message: msg.to_cstr() }
+    Self { error_type: ErrorType::Panic, message: Self::message(msg) }
+  }
+
+  // C strings can't hold NUL, and messages may contain input of the user
+  fn message(msg: &str) -> CharPtr {
+    msg.replace("\0", "").to_cstr()
   }
 }
 
-- 
2.43.0


From bbed56ce8225956165baac060d90de612a5df1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 14/18] fix: accept null pointers for empty data in the C API

slice::from_raw_parts requires a non-null pointer even for no elements: it
aborts debug builds and is undefined behaviour in release builds.
---
 keychain-c/src/backup.rs     |  6 +++---
 keychain-c/src/keychain_c.rs |  8 ++++----
 keychain-c/src/manager.rs    | 10 +++++-----
 keychain-c/src/utils/data.rs |  9 +++++++++
 4 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/keychain-c/src/backup.rs b/keychain-c/src/backup.rs
index cdc6052..99a396f 100644
--- a/keychain-c/src/backup.rs
+++ b/keychain-c/src/backup.rs
@@ -2,7 +2,7 @@ use error::ErrorPtr;
 use keychain::Network as RNetwork;
 use manager::{KeychainManagerPtr, Language};
 use network::Network;
-use utils::data::DataPtr;
+use utils::data::{slice_from_c, DataPtr};
 use utils::panic::handle_exception_result;
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -86,7 +86,7 @@ pub unsafe extern "C" fn keychain_manager_get_keys_data(
   data: &mut KeyBackupPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(encrypted, encrypted_len);
+    let data_slice = slice_from_c(encrypted, encrypted_len);
     manager
       .rust_ref()
       .get_keys_data(data_slice, password.rust_ref())
@@ -101,7 +101,7 @@ pub unsafe extern "C" fn keychain_manager_retrieve_mnemonic(
   mnemonic: &mut MnemonicInfoPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .retrieve_mnemonic(data_slice, password.rust_ref())
diff --git a/keychain-c/src/keychain_c.rs b/keychain-c/src/keychain_c.rs
index f4fc79a..fbe08cd 100644
--- a/keychain-c/src/keychain_c.rs
+++ b/keychain-c/src/keychain_c.rs
@@ -3,7 +3,7 @@ use key_path::KeyPath;
 use keychain::Keychain as RKeychain;
 use network::{Network, NetworksPtr};
 use std::ffi::c_void;
-use utils::data::DataPtr;
+use utils::data::{slice_from_c, DataPtr};
 use utils::panic::{handle_exception, handle_exception_result};
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -54,7 +54,7 @@ pub unsafe extern "C" fn keychain_sign(
   signature: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     keychain.rust_ref().sign(&network.into(), data_slice, &path).map(|data| DataPtr::from(data))
   })
   .response(signature, error)
@@ -66,8 +66,8 @@ pub unsafe extern "C" fn keychain_verify(
   signature_len: usize, path: KeyPath, result: &mut bool, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
-    let signature_slice = std::slice::from_raw_parts(signature, signature_len);
+    let data_slice = slice_from_c(data, data_len);
+    let signature_slice = slice_from_c(signature, signature_len);
 
     keychain.rust_ref().verify(&network.into(), data_slice, signature_slice, &path)
   })
diff --git a/keychain-c/src/manager.rs b/keychain-c/src/manager.rs
index 0d0c1d0..d5187ab 100644
--- a/keychain-c/src/manager.rs
+++ b/keychain-c/src/manager.rs
@@ -4,7 +4,7 @@ use keychain_c::KeychainPtr;
 use network::Network;
 use num_traits::FromPrimitive;
 use std::ffi::c_void;
-use utils::data::DataPtr;
+use utils::data::{slice_from_c, DataPtr};
 use utils::panic::{handle_exception, handle_exception_result};
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -92,7 +92,7 @@ pub unsafe extern "C" fn keychain_manager_keychain_data_from_seed(
   data: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let seed_slice = std::slice::from_raw_parts(seed, seed_len);
+    let seed_slice = slice_from_c(seed, seed_len);
     manager
       .rust_ref()
       .keychain_data_from_seed(seed_slice, password.rust_ref())
@@ -121,7 +121,7 @@ pub unsafe extern "C" fn keychain_manager_keychain_from_data(
   keychain: &mut KeychainPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .keychain_from_data(data_slice, password.rust_ref())
@@ -136,7 +136,7 @@ pub unsafe extern "C" fn keychain_manager_add_network(
   network: Network, response: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .add_network(data_slice, password.rust_ref(), network.into())
@@ -151,7 +151,7 @@ pub unsafe extern "C" fn keychain_manager_change_password(
   new_password: CharPtr, response: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .change_password(data_slice, old_password.rust_ref(), new_password.rust_ref())
diff --git a/keychain-c/src/utils/data.rs b/keychain-c/src/utils/data.rs
index 506f857..dab6999 100644
--- a/keychain-c/src/utils/data.rs
+++ b/keychain-c/src/utils/data.rs
@@ -37,6 +37,15 @@ impl From<Vec<u8>> for DataPtr {
   }
 }
 
+/// Slice from C parameters, where an empty array may have a null pointer.
+pub unsafe fn slice_from_c<'a>(ptr: *const u8, len: usize) -> &'a [u8] {
+  if ptr.is_null() {
+    assert!(len == 0, "Null pointer passed for {} bytes of data", len);
+    return &[];
+  }
+  std::slice::from_raw_parts(ptr, len)
+}
+
 #[no_mangle]
 pub unsafe extern "C" fn delete_data(data: &mut DataPtr) {
   data.free();
-- 
2.43.0


From 4f6dadbc7fd9fe8f0d31b7e2f485b5f907639f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 15/18] hook: short key derivation under cfg
 keychain_verif_fast_kdf (off by default)

---
 keychain/src/crypt.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keychain/src/crypt.rs b/keychain/src/crypt.rs
index 65980b6..0adac02 100644
--- a/keychain/src/crypt.rs
+++ b/keychain/src/crypt.rs
@@ -7,7 +7,11 @@ use std::error;
 use std::iter::repeat;
 
 mod password_encryption_parameter {
+  #[cfg(not(keychain_verif_fast_kdf))]
   pub const ITER: u32 = 19_162;
+  // verification builds under slow interpreters and sanitizers (RUSTFLAGS --cfg)
+  #[cfg(keychain_verif_fast_kdf)]
+  pub const ITER: u32 = 3;
   pub const SALT_SIZE: usize = 32;
   pub const NONCE_SIZE: usize = 12;
   pub const KEY_SIZE: usize = 32;
-- 
2.43.0


From 6fad5a8d3bc4177355356174190408e1292ffe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 16/18] fix: a failed randomness read must not make the manager
 unusable

---
 keychain/src/entropy.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keychain/src/entropy.rs b/keychain/src/entropy.rs
index 29dbd18..bd35cbb 100644
--- a/keychain/src/entropy.rs
+++ b/keychain/src/entropy.rs
@@ -18,7 +18,8 @@ impl OsEntropy {
 
 impl Entropy for OsEntropy {
   fn fill_bytes(&self, into: &mut [u8]) {
-    let rand = &mut self.random.lock().unwrap();
+    // a failed read panics while holding the lock; that must not block later reads
+    let rand = &mut self.random.lock().unwrap_or_else(|err| err.into_inner());
     rand.fill_bytes(into);
   }
 }
-- 
2.43.0


From f7a4402a86fda59e89f1df5afa90e13381bbc51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 17/18] fix: Cardano verify must refuse signatures with an
 unreduced scalar

---
 keychain/src/networks/cardano/key.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/keychain/src/networks/cardano/key.rs b/keychain/src/networks/cardano/key.rs
index ef840b4..7a5518e 100644
--- a/keychain/src/networks/cardano/key.rs
+++ b/keychain/src/networks/cardano/key.rs
@@ -41,6 +41,16 @@ impl From<PrivateKeyError> for KeyError {
   }
 }
 
+/// Order of the ed25519 base point, little endian
+const GROUP_ORDER: [u8; 32] = [
+  0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+  0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10
+];
+
+fn is_canonical_scalar(scalar: &[u8]) -> bool {
+  scalar.iter().rev().lt(GROUP_ORDER.iter().rev())
+}
+
 pub struct Key {
   xprv: XPrv
 }
@@ -132,6 +142,10 @@ impl IKey for Key {
     sign.copy_from_slice(signature);
 
     self.derive_private(path).map(|pk| {
+      // ed25519_bip32 reduces the scalar modulo the group order instead of refusing it
+      if !is_canonical_scalar(&sign[32..]) {
+        return false;
+      }
       let native_signature: Signature<Vec<u8>> = Signature::from_bytes(sign);
       pk.verify(data, &native_signature)
     })
-- 
2.43.0


From 270e33726ec5868faa64af5c4acf385b9e4a27e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 18/18] fix: secp256k1 verify must refuse out of range r and s

---
 secp256k1_bip32/src/public.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/secp256k1_bip32/src/public.rs b/secp256k1_bip32/src/public.rs
index 4cd132e..98e060f 100644
--- a/secp256k1_bip32/src/public.rs
+++ b/secp256k1_bip32/src/public.rs
@@ -32,6 +32,10 @@ impl XPub {
     let message = Message::parse(&out);
 
     let parsed = Signature::parse_slice(&signature[..util::SIGNATURE_SIZE])?;
+    // the parser reduces r and s modulo the group order instead of refusing them
+    if parsed.serialize()[..] != signature[..util::SIGNATURE_SIZE] {
+      return Ok(false);
+    }
     if !verify(&message, &parsed, &self.0) {
       return Ok(false);
     }
-- 
2.43.0

