From e3f3f34f13a9bcb64cf82414b25a3997517cc68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 01/11] fix: accept from_prior only when signed by a key of its
 issuer

---
 src/message/from_prior/unpack.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/message/from_prior/unpack.rs b/src/message/from_prior/unpack.rs
index 8d80fdc..fc24c55 100644
--- a/src/message/from_prior/unpack.rs
+++ b/src/message/from_prior/unpack.rs
@@ -135,6 +135,13 @@ impl FromPrior {
         let from_prior: FromPrior = serde_json::from_str(&payload)
             .kind(ErrorKind::Malformed, "Unable to parse from_prior")?;
 
+        if did != from_prior.iss {
+            Err(err_msg(
+                ErrorKind::Malformed,
+                "from_prior is not signed by its issuer",
+            ))?
+        }
+
         Ok((from_prior, kid.into()))
     }
 }
-- 
2.43.0


From 56d704f56180f2c6b86ffb4a3cafd1314d0e8370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 02/11] fix: keep the error kind reported by the resolver for
 the sender DID

---
 src/message/unpack/authcrypt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/unpack/authcrypt.rs b/src/message/unpack/authcrypt.rs
index 9d6bd1b..4074e6e 100644
--- a/src/message/unpack/authcrypt.rs
+++ b/src/message/unpack/authcrypt.rs
@@ -11,7 +11,7 @@ use crate::jwe::envelope::JWE;
 use crate::{
     algorithms::AuthCryptAlg,
     did::DIDResolver,
-    error::{err_msg, ErrorKind, Result, ResultExt},
+    error::{err_msg, ErrorKind, Result, ResultContext, ResultExt},
     jwe,
     secrets::SecretsResolver,
     utils::{
@@ -63,7 +63,7 @@ pub(crate) async fn _try_unpack_authcrypt<'dr, 'sr>(
     let from_ddoc = did_resolver
         .resolve(from_did)
         .await
-        .kind(ErrorKind::InvalidState, "Unable resolve sender did")?
+        .context("Unable resolve sender did")?
         .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "Sender did not found"))?;
 
     let from_kid = from_ddoc
-- 
2.43.0


From be1a7be4fd599d189e0ce22d2c8230c69886f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 03/11] fix: do not panic in wrap_in_forward when there are no
 routing keys

---
 src/protocols/routing/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/protocols/routing/mod.rs b/src/protocols/routing/mod.rs
index 7137c6b..5c4bf1b 100644
--- a/src/protocols/routing/mod.rs
+++ b/src/protocols/routing/mod.rs
@@ -245,6 +245,10 @@ pub async fn wrap_in_forward<'dr>(
     enc_alg_anon: &AnonCryptAlg,
     did_resolver: &'dr (dyn DIDResolver + 'dr),
 ) -> Result<String> {
+    if routing_keys.is_empty() {
+        return Ok(msg.to_owned());
+    }
+
     let mut tos = routing_keys.clone();
 
     let mut nexts = tos.clone();
-- 
2.43.0


From 66c4cf76dd59f1ebd683ce381d33e8a7dae765ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 04/11] fix: report short Ed25519 secrets instead of panicking

---
 src/utils/did.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index 72045b1..56df812 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -366,6 +366,14 @@ impl AsKnownKeyPair for Secret {
                     .to_didcomm("Wrong base58 value in secret material")?;
 
                 let curve25519_point_size = 32;
+
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Unable parse base58 secret material",
+                    ))?
+                }
+
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
@@ -456,6 +464,14 @@ impl AsKnownKeyPair for Secret {
                 }
 
                 let curve25519_point_size = 32;
+
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Unable parse multibase secret material",
+                    ))?
+                }
+
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
-- 
2.43.0


From 5699b921b23211ec14e98b6a6d8c2f41e5192c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 05/11] fix: do not panic on over-long multicodec prefixes

---
 src/utils/did.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index 56df812..0e16938 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -4,7 +4,7 @@ use askar_crypto::alg::{
 use askar_crypto::repr::{KeyPublicBytes, KeySecretBytes};
 use serde_json::{json, Value};
 use std::io::Cursor;
-use varint::{VarintRead, VarintWrite};
+use varint::{VarintRead, VARINT_32_MAX_BYTES};
 
 use crate::error::ToResult;
 use crate::{
@@ -520,18 +520,15 @@ impl Codec {
 }
 
 fn _from_multicodec(value: &Vec<u8>) -> Result<(Codec, &[u8])> {
-    let mut val: Cursor<Vec<u8>> = Cursor::new(value.clone());
+    // A 32-bit varint takes at most VARINT_32_MAX_BYTES, reading on would overflow.
+    let mut val: Cursor<Vec<u8>> =
+        Cursor::new(value.iter().take(VARINT_32_MAX_BYTES).cloned().collect());
     let prefix_int = val
         .read_unsigned_varint_32()
         .kind(ErrorKind::InvalidState, "Cannot read varint")?;
     let codec = Codec::codec_by_prefix(prefix_int)?;
 
-    let mut prefix: Cursor<Vec<u8>> = Cursor::new(Vec::new());
-    prefix
-        .write_unsigned_varint_32(prefix_int)
-        .kind(ErrorKind::InvalidState, "Cannot write varint")?;
-
-    return Ok((codec, value.split_at(prefix.into_inner().len()).1));
+    return Ok((codec, value.split_at(val.position() as usize).1));
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8038dea7363f3df6d776c5e2a46a67948a8b84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 06/11] fix: report truncated JSON as malformed

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 27d5f02..b2294de 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -168,7 +168,7 @@ impl<T> ToResult<T> for bs58::encode::Result<T> {
 impl From<serde_json::Error> for Error {
     fn from(err: serde_json::Error) -> Self {
         match err.classify() {
-            Category::Io | Category::Eof => Error::msg(ErrorKind::InvalidState, err.to_string()),
+            Category::Io => Error::msg(ErrorKind::InvalidState, err.to_string()),
             _ => Error::msg(ErrorKind::Malformed, err.to_string()),
         }
     }
-- 
2.43.0


From b56601e7cfe2d113df6af73bfabd31e9ccbe39ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 07/11] fix: pass the error kind reported by callback resolvers
 on

---
 uniffi/src/did/did_resolver_adapter.rs         |  7 ++-----
 uniffi/src/secrets/secrets_resolver_adapter.rs | 12 +++---------
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/uniffi/src/did/did_resolver_adapter.rs b/uniffi/src/did/did_resolver_adapter.rs
index ae23846..f79d95a 100644
--- a/uniffi/src/did/did_resolver_adapter.rs
+++ b/uniffi/src/did/did_resolver_adapter.rs
@@ -2,7 +2,7 @@ use std::sync::Arc;
 
 use didcomm_core::{
     did::{DIDDoc, DIDResolver as _DIDResolver},
-    error::{ErrorKind, Result, ResultExt},
+    error::{Result, ResultContext},
 };
 
 use async_trait::async_trait;
@@ -26,10 +26,7 @@ impl _DIDResolver for DIDResolverAdapter {
 
         self.did_resolver.resolve(String::from(did), cb);
 
-        let res = receiver
-            .get()
-            .await
-            .kind(ErrorKind::InvalidState, "can not resolve DID Doc")?;
+        let res = receiver.get().await.context("can not resolve DID Doc")?;
         Ok(res)
     }
 }
diff --git a/uniffi/src/secrets/secrets_resolver_adapter.rs b/uniffi/src/secrets/secrets_resolver_adapter.rs
index 03a38c5..08bd282 100644
--- a/uniffi/src/secrets/secrets_resolver_adapter.rs
+++ b/uniffi/src/secrets/secrets_resolver_adapter.rs
@@ -1,7 +1,7 @@
 use std::sync::Arc;
 
 use async_trait::async_trait;
-use didcomm_core::error::{ErrorKind, Result, ResultExt};
+use didcomm_core::error::{Result, ResultContext};
 use didcomm_core::secrets::{Secret, SecretsResolver as _SecretsResolver};
 
 use crate::secrets_resolver::{OnFindSecretsResult, OnGetSecretResult};
@@ -26,10 +26,7 @@ impl _SecretsResolver for SecretsResolverAdapter {
         self.secrets_resolver
             .get_secret(String::from(secret_id), cb);
 
-        let res = receiver
-            .get()
-            .await
-            .kind(ErrorKind::InvalidState, "can not get secret")?;
+        let res = receiver.get().await.context("can not get secret")?;
         Ok(res)
     }
 
@@ -39,10 +36,7 @@ impl _SecretsResolver for SecretsResolverAdapter {
         self.secrets_resolver
             .find_secrets(secret_ids.iter().map(|&s| String::from(s)).collect(), cb);
 
-        let res = receiver
-            .get()
-            .await
-            .kind(ErrorKind::InvalidState, "can not get secret")?;
+        let res = receiver.get().await.context("can not get secret")?;
 
         Ok(secret_ids
             .iter()
-- 
2.43.0


From cc7d369dc433b23eba26be980c7cb812d0a90d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 08/11] fix: negotiate key agreement among keys usable for it
 only

---
 src/message/pack_encrypted/anoncrypt.rs | 2 +-
 src/message/pack_encrypted/authcrypt.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/pack_encrypted/anoncrypt.rs b/src/message/pack_encrypted/anoncrypt.rs
index d0ed1f4..9ad3532 100644
--- a/src/message/pack_encrypted/anoncrypt.rs
+++ b/src/message/pack_encrypted/anoncrypt.rs
@@ -72,7 +72,7 @@ pub(crate) async fn anoncrypt<'dr, 'sr>(
     // Looking for first supported key to determine what key alg to use
     let key_alg = to_keys
         .iter()
-        .filter(|key| key.key_alg() != KnownKeyAlg::Unsupported)
+        .filter(|key| matches!(key.key_alg(), KnownKeyAlg::X25519 | KnownKeyAlg::P256))
         .map(|key| key.key_alg())
         .next()
         .ok_or_else(|| {
diff --git a/src/message/pack_encrypted/authcrypt.rs b/src/message/pack_encrypted/authcrypt.rs
index 06f787c..71b4f0a 100644
--- a/src/message/pack_encrypted/authcrypt.rs
+++ b/src/message/pack_encrypted/authcrypt.rs
@@ -139,7 +139,7 @@ pub(crate) async fn authcrypt<'dr, 'sr>(
     // by key alg
     let from_key = from_keys
         .iter()
-        .filter(|key| key.key_alg() != KnownKeyAlg::Unsupported)
+        .filter(|key| matches!(key.key_alg(), KnownKeyAlg::X25519 | KnownKeyAlg::P256))
         .find(|from_key| {
             to_keys
                 .iter()
-- 
2.43.0


From 4a5b7bf94d66dff02976b274d4f755fba1e1c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 09/11] fix: store and load services whose endpoint is not a
 JSON object

---
 src/did/did_doc.rs | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/did/did_doc.rs b/src/did/did_doc.rs
index 5e6249e..bfc3b4e 100644
--- a/src/did/did_doc.rs
+++ b/src/did/did_doc.rs
@@ -75,16 +75,36 @@ pub struct Service {
 
 /// Represents additional service properties defined for specific Service type.
 #[derive(Debug, Clone, Deserialize, Serialize)]
-#[serde(tag = "type", content = "serviceEndpoint")]
+#[serde(from = "ServiceKindRepr", into = "ServiceKindRepr")]
 pub enum ServiceKind {
-    DIDCommMessaging {
-        #[serde(flatten)]
-        value: DIDCommMessagingService,
-    },
-    Other {
-        #[serde(flatten)]
-        value: Value,
-    },
+    DIDCommMessaging { value: DIDCommMessagingService },
+    Other { value: Value },
+}
+
+/// JSON form of `ServiceKind`. An endpoint of a service of other type is any JSON value.
+#[derive(Deserialize, Serialize)]
+#[serde(tag = "type", content = "serviceEndpoint")]
+enum ServiceKindRepr {
+    DIDCommMessaging(DIDCommMessagingService),
+    Other(Value),
+}
+
+impl From<ServiceKindRepr> for ServiceKind {
+    fn from(repr: ServiceKindRepr) -> Self {
+        match repr {
+            ServiceKindRepr::DIDCommMessaging(value) => ServiceKind::DIDCommMessaging { value },
+            ServiceKindRepr::Other(value) => ServiceKind::Other { value },
+        }
+    }
+}
+
+impl From<ServiceKind> for ServiceKindRepr {
+    fn from(kind: ServiceKind) -> Self {
+        match kind {
+            ServiceKind::DIDCommMessaging { value } => ServiceKindRepr::DIDCommMessaging(value),
+            ServiceKind::Other { value } => ServiceKindRepr::Other(value),
+        }
+    }
 }
 
 /// Properties for DIDCommMessagingService
-- 
2.43.0


From 396a31d7084f330c4d7494d538b459d04fc05353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 10/11] fix: keep the SecretNotFound kind of errors thrown by
 JavaScript resolvers

---
 wasm/src/error.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wasm/src/error.rs b/wasm/src/error.rs
index 6453dcf..5e963f6 100644
--- a/wasm/src/error.rs
+++ b/wasm/src/error.rs
@@ -56,6 +56,7 @@ impl<T> FromJsResult<T> for Result<T, JsValue> {
                     Some("DIDCommNoCompatibleCrypto") => _ErrorKind::NoCompatibleCrypto,
                     Some("DIDCommUnsupported") => _ErrorKind::Unsupported,
                     Some("DIDCommIllegalArgument") => _ErrorKind::IllegalArgument,
+                    Some("DIDCommSecretNotFound") => _ErrorKind::SecretNotFound,
                     _ => _ErrorKind::InvalidState,
                 };
 
-- 
2.43.0


From f2692733936de76f923146488947374bd1fab06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:28 +0000
Subject: [PATCH 11/11] fix: accept signed envelopes that leave out the
 recommended typ header

---
 src/jws/envelope.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jws/envelope.rs b/src/jws/envelope.rs
index b79aaec..3f0bcaf 100644
--- a/src/jws/envelope.rs
+++ b/src/jws/envelope.rs
@@ -37,7 +37,8 @@ pub(crate) struct Signature<'a> {
 pub(crate) struct ProtectedHeader<'a> {
     /// Must be `application/didcomm-signed+json` or `didcomm-signed+json` for now.
     /// Something like `application/didcomm-signed+cbor` can be introduced in the
-    /// future.
+    /// future. Senders are only recommended to set it, so it may be absent.
+    #[serde(default)]
     pub typ: Cow<'a, str>,
 
     /// Cryptographic algorithm used to produce signature.
-- 
2.43.0

