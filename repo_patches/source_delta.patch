From 5cd336865eab1bddd011c2179946c0fd65ba4a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:04 +0000
Subject: [PATCH 01/11] fix: emit the request parameters in authorized
 form/query strings

`Authorizer::form`/`query` (and `Builder::to_form`/`to_query` etc.) are documented to
write the oauth_* parameters "along with the other request parameters", but the latter were
signed and then dropped from the output, so that the message could never be verified.
---
 oauth1-request/src/serializer/auth.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index 8b3ffc3..e7b55af 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -297,12 +297,18 @@ impl<'a, SM: SignatureMethod, W: Write> Serializer for Authorizer<'a, SM, W> {
 
     fn serialize_parameter<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, DoublePercentEncode(value));
     }
 
     fn serialize_parameter_encoded<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter_encoded(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, PercentEncode(value));
     }
-- 
2.43.0


From 3e38960c9faec4cabd135c921dcee68207ea6318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:24 +0000
Subject: [PATCH 02/11] fix: percent-encode the PLAINTEXT signature

`Sign::Signature` is documented as the URL-encoded representation of `oauth_signature`, but
PLAINTEXT returned it unencoded, so that the `&` (and any percent-encoded character in the
secrets) was decoded to something else by servers, and split the parameter in form/query output.
---
 oauth1-request/src/signature_method/plaintext.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/oauth1-request/src/signature_method/plaintext.rs b/oauth1-request/src/signature_method/plaintext.rs
index 169ff51..1201e20 100644
--- a/oauth1-request/src/signature_method/plaintext.rs
+++ b/oauth1-request/src/signature_method/plaintext.rs
@@ -6,6 +6,7 @@ use core::fmt::{self, Debug, Display, Formatter, Write};
 use core::marker::PhantomData;
 
 use super::{write_signing_key, Sign, SignatureMethod};
+use crate::util::percent_encode;
 
 /// The `PLAINTEXT` signature method.
 pub struct Plaintext<
@@ -16,7 +17,7 @@ pub struct Plaintext<
 }
 
 cfg_type_param_hack! {
-    /// A `Sign` implementation that just returns the signing key used to construct it.
+    /// A `Sign` implementation that just returns the (URL-encoded) signing key used to construct it.
     #[derive(Clone, Debug)]
     pub struct PlaintextSign<
         #[cfg(feature = "alloc")] W = alloc::string::String,
@@ -91,8 +92,16 @@ where
     type Sign = PlaintextSign<W>;
 
     fn sign_with(self, client_secret: &str, token_secret: Option<&str>) -> Self::Sign {
+        // `Sign::Signature` must be the URL-encoded representation of the signature.
+        struct Encode<'a, W>(&'a mut W);
+        impl<'a, W: Write> Write for Encode<'a, W> {
+            fn write_str(&mut self, s: &str) -> fmt::Result {
+                write!(self.0, "{}", percent_encode(s))
+            }
+        }
+
         let mut signing_key = W::default();
-        write_signing_key(&mut signing_key, client_secret, token_secret).unwrap();
+        write_signing_key(&mut Encode(&mut signing_key), client_secret, token_secret).unwrap();
         PlaintextSign { signing_key }
     }
 }
-- 
2.43.0


From e7118561479d5b4994468035712f056cce1123e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 03/11] fix: sort same-name parameters of ParameterList by
 their encoded values

RFC 5849 section 3.4.1.3.2. orders the parameters after encoding them, and the order of raw values
differs from that e.g. for "A" and "[" ("%5B"), which produced a wrong signature.
---
 oauth1-request/src/request.rs                | 4 ++--
 oauth1-request/src/request/parameter_list.rs | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/oauth1-request/src/request.rs b/oauth1-request/src/request.rs
index c78477f..5218e1a 100644
--- a/oauth1-request/src/request.rs
+++ b/oauth1-request/src/request.rs
@@ -32,8 +32,8 @@ pub trait Request {
 /// behavior of this wrapper is unspecified.
 ///
 /// Note that the required ordering is alphabetical ordering of `AsRef<str>` value of the key and
-/// `Display` representation of the value and does not necessarily match that of the one provided by
-/// the [`Ord`] trait, which may provide, for example, numerical ordering instead.
+/// percent-encoded `Display` representation of the value and does not necessarily match that of the
+/// one provided by the [`Ord`] trait, which may provide, for example, numerical ordering instead.
 ///
 /// If you have a slice instead of an iterator, consider using [`ParameterList`], which guarantees
 /// the correct ordering.
diff --git a/oauth1-request/src/request/parameter_list.rs b/oauth1-request/src/request/parameter_list.rs
index 425b347..36636b0 100644
--- a/oauth1-request/src/request/parameter_list.rs
+++ b/oauth1-request/src/request/parameter_list.rs
@@ -8,6 +8,7 @@ use core::marker::PhantomData;
 
 use super::Request;
 use crate::serializer::Serializer;
+use crate::util::PercentEncode;
 
 /// A [`Request`] with dynamic list of key-value parameter pairs.
 ///
@@ -240,7 +241,11 @@ where
     let (ref kr, ref vr) = *rhs.borrow();
     return inner(kl.as_ref(), vl, kr.as_ref(), vr);
     fn inner<V: Display>(kl: &str, vl: &V, kr: &str, vr: &V) -> Ordering {
-        (kl, fmt_cmp::Cmp(vl)).cmp(&(kr, fmt_cmp::Cmp(vr)))
+        // RFC 5849 section 3.4.1.3.2. requires sorting parameters of the same name by their encoded
+        // values.
+        let vl = fmt_cmp::Cmp(PercentEncode(vl));
+        let vr = fmt_cmp::Cmp(PercentEncode(vr));
+        (kl, vl).cmp(&(kr, vr))
     }
 }
 
-- 
2.43.0


From ae4e09dd54d1caaea7930a3f9f0eb5b92f5644c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 04/11] fix: do not emit a zero oauth_timestamp

The timestamp must be a positive integer (RFC 5849 section 3.3.), as the branch for a clock before
the epoch already takes care of.
---
 oauth1-request/src/serializer/auth.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index e7b55af..0133629 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -395,7 +395,8 @@ fn get_current_timestamp() -> u64 {
         } else if #[cfg(feature = "std")] {
             use std::time::{SystemTime, UNIX_EPOCH};
             match SystemTime::now().duration_since(UNIX_EPOCH) {
-                Ok(d) => d.as_secs(),
+                // The timestamp value must be a positive integer.
+                Ok(d) => d.as_secs().max(1),
                 Err(_) => 1,
             }
         } else {
-- 
2.43.0


From b4535ab5b2a816887b639a38f626348843510110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 05/11] fix: delegate Sign::consumer_key for Either

Otherwise a custom `Sign` that overrides the method behaves differently inside an `Either`.
---
 oauth1-request/src/signature_method/either.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oauth1-request/src/signature_method/either.rs b/oauth1-request/src/signature_method/either.rs
index 67945b6..437794b 100644
--- a/oauth1-request/src/signature_method/either.rs
+++ b/oauth1-request/src/signature_method/either.rs
@@ -62,6 +62,7 @@ impl<L: Sign, R: Sign> Sign for Either<L, R> {
 
     delegate! {
         fn callback[V: Display](&mut self, value: V);
+        fn consumer_key[V: Display](&mut self, value: V);
         fn nonce[V: Display](&mut self, value: V);
         fn use_nonce(&self) -> bool;
         fn signature_method(&mut self);
-- 
2.43.0


From 8616aee3fbcea24679dcb07c08566747a26969a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 06/11] fix: do not expose secrets in the Debug output of
 PlaintextSign and RsaSha1

Like `Credentials`, which hides the secret, since the values (and `Builder`/`Authorizer`, which
contain them) are prone to be logged.
---
 .../src/signature_method/plaintext.rs         | 11 ++++++++-
 .../src/signature_method/rsa_sha1.rs          | 23 ++++++++++++++++---
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/oauth1-request/src/signature_method/plaintext.rs b/oauth1-request/src/signature_method/plaintext.rs
index 1201e20..d388455 100644
--- a/oauth1-request/src/signature_method/plaintext.rs
+++ b/oauth1-request/src/signature_method/plaintext.rs
@@ -18,7 +18,7 @@ pub struct Plaintext<
 
 cfg_type_param_hack! {
     /// A `Sign` implementation that just returns the (URL-encoded) signing key used to construct it.
-    #[derive(Clone, Debug)]
+    #[derive(Clone)]
     pub struct PlaintextSign<
         #[cfg(feature = "alloc")] W = alloc::string::String,
         #[cfg(not(feature = "alloc"))] W,
@@ -76,6 +76,15 @@ impl<W> Debug for Plaintext<W> {
     }
 }
 
+impl<W> Debug for PlaintextSign<W> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        // Do not expose the signing key.
+        #[derive(Debug)]
+        struct PlaintextSign;
+        PlaintextSign.fmt(f)
+    }
+}
+
 impl<W> Default for Plaintext<W>
 where
     W: Default + Display + Write,
diff --git a/oauth1-request/src/signature_method/rsa_sha1.rs b/oauth1-request/src/signature_method/rsa_sha1.rs
index 30d1cc4..c42d0e3 100644
--- a/oauth1-request/src/signature_method/rsa_sha1.rs
+++ b/oauth1-request/src/signature_method/rsa_sha1.rs
@@ -6,7 +6,7 @@ pub use self::rsa::pkcs8::DecodePrivateKey;
 pub use self::rsa::RsaPrivateKey;
 
 use alloc::vec::Vec;
-use core::fmt::{self, Display, Formatter};
+use core::fmt::{self, Debug, Display, Formatter};
 
 use digest::Digest;
 use sha1::Sha1;
@@ -15,14 +15,14 @@ use super::digest_common::{Base64PercentEncodeDisplay, UpdateSign};
 use super::{Sign, SignatureMethod};
 
 /// The `RSA-SHA1` signature method.
-#[derive(Clone, Debug)]
+#[derive(Clone)]
 #[repr(transparent)]
 pub struct RsaSha1 {
     key: RsaPrivateKey,
 }
 
 /// A type that signs a signature base string with the RSA-SHA1 signature algorithm.
-#[derive(Clone, Debug)]
+#[derive(Clone)]
 pub struct RsaSha1Sign<K = RsaPrivateKey> {
     inner: UpdateSign<Sha1>,
     key: K,
@@ -40,6 +40,23 @@ impl RsaSha1 {
     }
 }
 
+// Do not expose the private key in the `Debug` implementations.
+impl Debug for RsaSha1 {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        #[derive(Debug)]
+        struct RsaSha1;
+        RsaSha1.fmt(f)
+    }
+}
+
+impl<K> Debug for RsaSha1Sign<K> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        #[derive(Debug)]
+        struct RsaSha1Sign;
+        RsaSha1Sign.fmt(f)
+    }
+}
+
 impl From<RsaPrivateKey> for RsaSha1 {
     fn from(key: RsaPrivateKey) -> Self {
         RsaSha1::new(key)
-- 
2.43.0


From 365c9c874a80bd1b957e2b532df3f13c3463b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 07/11] fix: percent-encode custom HTTP methods in the
 signature base string

RFC 5849 section 3.4.1.1.: "If the request uses a custom HTTP method, it MUST be encoded".
---
 oauth1-request/src/signature_method/digest_common.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oauth1-request/src/signature_method/digest_common.rs b/oauth1-request/src/signature_method/digest_common.rs
index 07145fa..1c83def 100644
--- a/oauth1-request/src/signature_method/digest_common.rs
+++ b/oauth1-request/src/signature_method/digest_common.rs
@@ -3,7 +3,7 @@ use core::fmt::{self, Display, Formatter, Write};
 use base64::display::Base64Display;
 use digest::Update;
 
-use crate::util::PercentEncode;
+use crate::util::{percent_encode, PercentEncode};
 
 #[derive(Clone, Debug)]
 pub struct UpdateSign<U>(pub U);
@@ -14,8 +14,7 @@ struct UpdateWrite<'a, M>(&'a mut M);
 
 impl<U: Update> UpdateSign<U> {
     pub fn request_method(&mut self, method: &str) {
-        self.0.update(method.as_bytes());
-        self.0.update(b"&");
+        write!(UpdateWrite(&mut self.0), "{}&", percent_encode(method)).unwrap();
     }
 
     pub fn uri<T: Display>(&mut self, uri: T) {
-- 
2.43.0


From 44da2189bbb66a202282a57f31c7893d0bb33997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 08/11] fix: do not generate the same nonces in forked
 processes

`ThreadRng` keeps (up to) 256 bytes of generated output in its buffer, so a parent and a child
process used to produce the same nonces for the same client, token and timestamp after a fork.
---
 oauth1-request/src/serializer/auth.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index 0133629..896c0a2 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -411,13 +411,9 @@ fn get_current_timestamp() -> u64 {
 }
 
 fn get_rng() -> impl RngCore + CryptoRng {
-    cfg_if::cfg_if! {
-        if #[cfg(feature = "std")] {
-            thread_rng()
-        } else {
-            rand::rngs::OsRng
-        }
-    }
+    // Unlike `thread_rng`, this does not have a buffer that would be duplicated by a `fork(2)`, after
+    // which the processes would generate the same nonces.
+    rand::rngs::OsRng
 }
 
 // This is worth 72 bits of entropy. The nonce is required to be unique across all requests with
-- 
2.43.0


From 7ea18e051ac019ce15484591c427013acbc07536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:59 +0000
Subject: [PATCH 09/11] fix: support raw identifier fields in derive(Request)

---
 oauth1-request-derive/src/field.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oauth1-request-derive/src/field.rs b/oauth1-request-derive/src/field.rs
index 78f6a2c..3f38fcd 100644
--- a/oauth1-request-derive/src/field.rs
+++ b/oauth1-request-derive/src/field.rs
@@ -35,7 +35,7 @@ impl Field {
             attrs, ident, ty, ..
         } = field;
         let meta = FieldMeta::new(attrs, cx);
-        let ident = ident.unwrap().unraw();
+        let ident = ident.unwrap();
         Self { ident, ty, meta }
     }
 
@@ -62,7 +62,7 @@ impl<'a> Name<'a> {
     // `proc_macro` crate use `to_string` under the hood as of this writing.
     pub fn string_value(&self) -> String {
         match *self {
-            Name::Original(ident) => ident.to_string(),
+            Name::Original(ident) => ident.unraw().to_string(),
             Name::Renamed(lit) => lit.value(),
         }
     }
@@ -73,7 +73,7 @@ impl<'a> ToTokens for Name<'a> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         match *self {
             Name::Original(ident) => {
-                let mut lit = Literal::string(&ident.to_string());
+                let mut lit = Literal::string(&self.string_value());
                 lit.set_span(ident.span());
                 tokens.append(lit);
             }
-- 
2.43.0


From c388fbe73183c218744b048302d3afb22a25e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:05 +0000
Subject: [PATCH 10/11] fix: sort empty same-name parameter values first

---
 oauth1-request/src/request/parameter_list.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/oauth1-request/src/request/parameter_list.rs b/oauth1-request/src/request/parameter_list.rs
index 36636b0..ba305b6 100644
--- a/oauth1-request/src/request/parameter_list.rs
+++ b/oauth1-request/src/request/parameter_list.rs
@@ -2,7 +2,7 @@
 
 use core::borrow::Borrow;
 use core::cmp::Ordering;
-use core::fmt::Display;
+use core::fmt::{self, Display, Formatter};
 use core::iter::{Extend, FromIterator};
 use core::marker::PhantomData;
 
@@ -243,10 +243,18 @@ where
     fn inner<V: Display>(kl: &str, vl: &V, kr: &str, vr: &V) -> Ordering {
         // RFC 5849 section 3.4.1.3.2. requires sorting parameters of the same name by their encoded
         // values.
-        let vl = fmt_cmp::Cmp(PercentEncode(vl));
-        let vr = fmt_cmp::Cmp(PercentEncode(vr));
+        let (vl, vr) = (fmt_cmp::Cmp(Encoded(vl)), fmt_cmp::Cmp(Encoded(vr)));
         (kl, vl).cmp(&(kr, vr))
     }
+
+    struct Encoded<V>(V);
+    impl<V: Display> Display for Encoded<V> {
+        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+            Display::fmt(&PercentEncode(&self.0), f)?;
+            // `fmt_cmp::cmp` regards the values as equal if the former one writes nothing at all.
+            f.write_str("")
+        }
+    }
 }
 
 // TODO: Use `<[T]>::is_sorted_by` once it's stable.
-- 
2.43.0


From cb1b59de885ebff6f62dc3c66e58c84f6b9043ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:18 +0000
Subject: [PATCH 11/11] fix: compare records of values that write nothing

---
 oauth1-request/src/serializer/recorder.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/oauth1-request/src/serializer/recorder.rs b/oauth1-request/src/serializer/recorder.rs
index c4a958c..ccad1e7 100644
--- a/oauth1-request/src/serializer/recorder.rs
+++ b/oauth1-request/src/serializer/recorder.rs
@@ -6,7 +6,7 @@ use alloc::borrow::ToOwned;
 use alloc::string::{String, ToString};
 use alloc::vec::Vec;
 use core::cmp::Ordering;
-use core::fmt::Display;
+use core::fmt::{self, Display};
 
 use super::Serializer;
 
@@ -184,7 +184,10 @@ where
             | (
                 &Record::ParameterEncoded(ref k1, ref v1),
                 &Record::ParameterEncoded(ref k2, ref v2),
-            ) => k1.as_ref() == k2.as_ref() && fmt_cmp::cmp(v1, v2) == Ordering::Equal,
+            ) => {
+                k1.as_ref() == k2.as_ref()
+                    && fmt_cmp::cmp(&Written(v1), &Written(v2)) == Ordering::Equal
+            }
             (&Record::Callback, &Record::Callback)
             | (&Record::ConsumerKey, &Record::ConsumerKey)
             | (&Record::Nonce, &Record::Nonce)
@@ -198,6 +201,17 @@ where
     }
 }
 
+/// Writes at least an empty string, without which `fmt_cmp::cmp` would regard the former value as
+/// equal to any value.
+struct Written<'a, V>(&'a V);
+
+impl<'a, V: Display> Display for Written<'a, V> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        Display::fmt(self.0, f)?;
+        f.write_str("")
+    }
+}
+
 impl<K, V> Eq for Record<K, V>
 where
     K: AsRef<str>,
-- 
2.43.0

