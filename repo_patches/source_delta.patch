From 5667b3cab5ddf64c00c7f138b2af0ad9afb1d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 01/15] fix: percent-encode every reserved character in the
 signed query string

Query names and values were written with only a few characters encoded, so
spaces, '%', '/', control and non-ASCII characters made the URL invalid or
made it mean something else than what was signed.
---
 src/private/canonical_request.rs | 18 +++++++++++++++++-
 src/private/signed_url.rs        |  4 +---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 2bad0e7..1693dd8 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -66,12 +66,28 @@ impl std::fmt::Display for CanonicalRequest {
 
 pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     let mut query_pairs = form_urlencoded::parse(request.uri().query().unwrap_or("").as_bytes())
-        .map(|(k, v)| format!("{}={}", percent_encode(&k), percent_encode(&v)))
+        .map(|(k, v)| format!("{}={}", percent_encode_all(&k), percent_encode_all(&v)))
         .collect::<Vec<String>>();
     query_pairs.sort();
     query_pairs.join("&")
 }
 
+/// Percent-encodes every byte that is not an RFC 3986 unreserved character.
+pub(crate) fn percent_encode_all(s: &str) -> String {
+    use std::fmt::Write as _;
+    s.bytes().fold(String::new(), |mut encoded, b| {
+        match b {
+            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => {
+                encoded.push(char::from(b))
+            }
+            _ => {
+                let _ = write!(encoded, "%{b:02X}");
+            }
+        }
+        encoded
+    })
+}
+
 // ?=!#$&'()*+,:;@[]"
 pub(crate) fn percent_encode(s: &str) -> String {
     let mut encoded = String::new();
diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 7289079..62121cd 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -95,9 +95,7 @@ fn add_signed_url_required_query_string_parameters(
         .append_pair("X-Goog-Algorithm", x_goog_algorithm.as_str())
         .append_pair(
             "X-Goog-Credential",
-            format!("{authorizer}/{credential_scope}")
-                .replace('/', "%2F")
-                .as_str(),
+            format!("{authorizer}/{credential_scope}").as_str(),
         )
         .append_pair("X-Goog-Date", x_goog_date.to_string().as_str())
         .append_pair("X-Goog-Expires", expiration.to_string().as_str())
-- 
2.43.0


From e132ea92defc793c38bdbf53861005d7c7a793e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:06 +0000
Subject: [PATCH 02/15] fix: escape the bucket name and the object name in
 signed URLs

A '?', '#', '%', backslash or dot segment in a name made the signed URL
address another object, or changed its query.
---
 src/private.rs    |  4 +++-
 src/signed_url.rs | 17 ++++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/private.rs b/src/private.rs
index 69a29e7..49a218a 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -17,7 +17,9 @@ pub mod utils;
 
 pub(crate) use self::active_datetime::ActiveDatetime;
 pub(crate) use self::bound_token::BoundToken;
-pub(crate) use self::canonical_request::{canonical_query_string, CanonicalRequest};
+pub(crate) use self::canonical_request::{
+    canonical_query_string, percent_encode_all, CanonicalRequest,
+};
 pub(crate) use self::credential_scope::CredentialScope;
 pub(crate) use self::date::Date;
 pub(crate) use self::expiration::Expiration;
diff --git a/src/signed_url.rs b/src/signed_url.rs
index da8f44d..6e1a420 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -2,8 +2,8 @@ use std::{str::FromStr as _, time::SystemTime};
 
 use crate::{
     private::{
-        utils::UnixTimestamp, ActiveDatetime, CredentialScope, Date, Expiration, HttpVerb,
-        Location, RequestType, Service, SignedUrl,
+        percent_encode_all, utils::UnixTimestamp, ActiveDatetime, CredentialScope, Date,
+        Expiration, HttpVerb, Location, RequestType, Service, SignedUrl,
     },
     SigningKey,
 };
@@ -32,6 +32,8 @@ enum ErrorKind {
     InvalidQueryParameters(#[from] url::ParseError),
     #[error(transparent)]
     Location(crate::private::location::Error),
+    #[error("bucket name or object name is `.` or `..`")]
+    Name,
     #[error("now out of range")]
     Now,
     #[error(transparent)]
@@ -78,9 +80,18 @@ pub async fn build_signed_url(
     .map_err(|_| ErrorKind::ExpirationOutOfRange)?;
 
     let http_method = HttpVerb::from_str(http_method.as_str()).map_err(ErrorKind::HttpMethod)?;
+    let is_dot_segment = |s: &str| s == "." || s == "..";
+    let bucket_name = percent_encode_all(&bucket_name);
+    let mut object_name = percent_encode_all(&object_name);
+    if is_dot_segment(&bucket_name) || is_dot_segment(&object_name) {
+        return Err(Error(ErrorKind::Name));
+    }
+    // Dot segments would be resolved by URL parsers, so that their slashes stay encoded.
+    if !object_name.split("%2F").any(is_dot_segment) {
+        object_name = object_name.replace("%2F", "/");
+    }
     let mut url = url::Url::parse(
         format!(
-            // TODO: escape bucket_name and object_name
             "https://storage.googleapis.com/{bucket_name}/{object_name}",
         )
         .as_str(),
-- 
2.43.0


From 941eb15456272de9aa077e463aa6347406369f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:41 +0000
Subject: [PATCH 03/15] fix: sort query parameters by name, then by value

The joined "name=value" strings were sorted, so that a name that is followed
by '=' sorted after longer names with '-', '.' or a digit at that place, and
the server's canonical request differed.
---
 src/private/canonical_request.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 1693dd8..183ccea 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -66,10 +66,14 @@ impl std::fmt::Display for CanonicalRequest {
 
 pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     let mut query_pairs = form_urlencoded::parse(request.uri().query().unwrap_or("").as_bytes())
-        .map(|(k, v)| format!("{}={}", percent_encode_all(&k), percent_encode_all(&v)))
-        .collect::<Vec<String>>();
+        .map(|(k, v)| (percent_encode_all(&k), percent_encode_all(&v)))
+        .collect::<Vec<(String, String)>>();
     query_pairs.sort();
-    query_pairs.join("&")
+    query_pairs
+        .into_iter()
+        .map(|(k, v)| format!("{k}={v}"))
+        .collect::<Vec<String>>()
+        .join("&")
 }
 
 /// Percent-encodes every byte that is not an RFC 3986 unreserved character.
-- 
2.43.0


From 2a016a7abb5b6f92821ebfab1292ae9c23de5896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 04/15] fix: trim and collapse white space in canonical header
 values

The server normalises the values before it verifies the signature, so that a
header value with leading, trailing or repeated spaces or tabs never verified.
---
 src/private/canonical_request.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 183ccea..9fa6f80 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -30,9 +30,13 @@ impl CanonicalRequest {
                     .entry(name.to_string().to_ascii_lowercase())
                     .or_insert_with(Vec::new)
                     .push(
+                        // trim and collapse spaces
                         value
                             .to_str()
-                            .map_err(Error::HeaderValueContainsInvalidCharacter)?,
+                            .map_err(Error::HeaderValueContainsInvalidCharacter)?
+                            .split_ascii_whitespace()
+                            .collect::<Vec<&str>>()
+                            .join(" "),
                     );
             }
             canonical_headers
-- 
2.43.0


From 2be3c194e9bf39c94a19eccd2c49ac3f05699bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 05/15] fix: sign the payload hash of an x-goog-content-sha256
 header

The server takes the header's value as the payload line of the canonical
request; UNSIGNED-PAYLOAD was signed instead and the URL never verified.
---
 src/private/canonical_request.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 9fa6f80..0f0373c 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -23,6 +23,7 @@ impl CanonicalRequest {
             .collect::<Vec<String>>()
             .join(";");
         let canonical_query_string = canonical_query_string(request);
+        let mut payload = "UNSIGNED-PAYLOAD".to_string();
         let canonical_headers = {
             let mut canonical_headers = BTreeMap::new();
             for (name, value) in request.headers() {
@@ -39,14 +40,15 @@ impl CanonicalRequest {
                             .join(" "),
                     );
             }
+            if let Some(values) = canonical_headers.get("x-goog-content-sha256") {
+                payload = values.join(",");
+            }
             canonical_headers
                 .into_iter()
                 .map(|(name, values)| format!("{name}:{}", values.join(",")))
                 .collect::<Vec<String>>()
                 .join("\n")
         };
-        let payload = "UNSIGNED-PAYLOAD".to_string();
-        // TODO: payload hash
         Ok(Self(
             [
                 http_verb,
-- 
2.43.0


From f16537e3ef27d7ac71642c364ed4665813cbdfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 06/15] fix: let a supplied Host header replace the default one

The supplied value was appended to the default one, so that "host:a,b" was
signed and no request with one Host header could match.
---
 src/signed_url.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/signed_url.rs b/src/signed_url.rs
index 6e1a420..30b0e1c 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -103,7 +103,6 @@ pub async fn build_signed_url(
             .map(|(k, v)| (k.as_str(), v.as_str())),
     );
     let mut request = http::Request::builder()
-        .header("Host", "storage.googleapis.com")
         .method(http::Method::from(http_method))
         .uri(url.to_string())
         .body(())
@@ -122,6 +121,12 @@ pub async fn build_signed_url(
             )
             .collect::<Result<Vec<_>, Error>>()?,
     );
+    if !request.headers().contains_key(http::header::HOST) {
+        request.headers_mut().insert(
+            http::header::HOST,
+            http::HeaderValue::from_static("storage.googleapis.com"),
+        );
+    }
     let credential_scope = CredentialScope::new(
         Date::from_unix_timestamp_obj(now),
         Location::try_from(region.as_str()).map_err(ErrorKind::Location)?,
-- 
2.43.0


From d9a66604cd42c1a278ff0cbaf2cdd42721d4feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 07/15] fix: return an error for unsupported signing modes

Signing with an HMAC key, or with a service account key and use_sign_blob,
panicked with "not yet implemented".
---
 src/private/signing_key_inner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/private/signing_key_inner.rs b/src/private/signing_key_inner.rs
index 42a3b4c..a349362 100644
--- a/src/private/signing_key_inner.rs
+++ b/src/private/signing_key_inner.rs
@@ -8,10 +8,14 @@ pub(crate) enum Error {
     BoundTokenMustUseSignBlob,
     #[error("bound token signing error: {0}")]
     BoundTokenSigning(#[source] crate::private::bound_token::BoundTokenError),
+    #[error("hmac signing is not supported")]
+    HmacNotSupported,
     #[error("service account private key pem parsing error: {0}")]
     ServiceAccountPrivateKeyPemParsing(#[source] pem::PemError),
     #[error("service account private key pkcs8 parsing error: {0}")]
     ServiceAccountPrivateKeyPkcs8Parsing(ring::error::KeyRejected),
+    #[error("service account sign blob is not supported")]
+    ServiceAccountSignBlobNotSupported,
     #[error("service account signing error: {0}")]
     ServiceAccountSigning(ring::error::Unspecified),
 }
@@ -58,10 +62,10 @@ impl SigningKeyInner {
                     Err(Error::BoundTokenMustUseSignBlob)
                 }
             }
-            SigningKeyInner::Hmac { .. } => todo!(),
+            SigningKeyInner::Hmac { .. } => Err(Error::HmacNotSupported),
             SigningKeyInner::ServiceAccount { private_key, .. } => {
                 if use_sign_blob {
-                    todo!()
+                    Err(Error::ServiceAccountSignBlobNotSupported)
                 } else {
                     let pkcs8 = pem::parse(private_key.as_bytes())
                         .map_err(Error::ServiceAccountPrivateKeyPemParsing)?;
-- 
2.43.0


From d271e569e04c6b16de37753c0fedc4233f50107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 08/15] fix: return an error for a signed URL that is too long

The URL with its signing parameters can exceed the limit of http::Uri although
the one without them did not, which panicked.
---
 src/private/signed_url.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 62121cd..8d67600 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -17,6 +17,8 @@ pub(crate) enum Error {
     HostHeaderNotFound,
     #[error("signing error: {0}")]
     Signing(crate::private::signing_key_inner::Error),
+    #[error(transparent)]
+    Uri(http::uri::InvalidUri),
 }
 
 pub struct SignedUrl(String);
@@ -112,7 +114,7 @@ fn add_signed_url_required_query_string_parameters(
                 .as_str(),
         )
         .finish();
-    *request.uri_mut() = http::Uri::try_from(url1.to_string()).expect("url to be valid");
+    *request.uri_mut() = http::Uri::try_from(url1.to_string()).map_err(Error::Uri)?;
     Ok(())
 }
 
-- 
2.43.0


From fedd62846f70fab877a8ad85704c6909c4580723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 09/15] fix: return an error for more headers than a request
 can have

Extending the header map panicked beyond its maximum size.
---
 src/signed_url.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/signed_url.rs b/src/signed_url.rs
index 30b0e1c..4d0837c 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -38,6 +38,8 @@ enum ErrorKind {
     Now,
     #[error(transparent)]
     SignedUrl(crate::private::signed_url::Error),
+    #[error(transparent)]
+    TooManyHeaders(http::header::MaxSizeReached),
 }
 
 #[derive(Clone)]
@@ -107,25 +109,24 @@ pub async fn build_signed_url(
         .uri(url.to_string())
         .body(())
         .map_err(ErrorKind::HttpRequest)?;
-    request.headers_mut().extend(
-        headers
-            .iter()
-            .map(
-                |(k, v)| -> Result<(http::header::HeaderName, http::header::HeaderValue), Error> {
-                    let key = http::header::HeaderName::from_bytes(k.as_bytes())
-                        .map_err(ErrorKind::InvalidHeaderName)?;
-                    let value = http::header::HeaderValue::from_str(v)
-                        .map_err(ErrorKind::InvalidHeaderValue)?;
-                    Ok((key, value))
-                },
-            )
-            .collect::<Result<Vec<_>, Error>>()?,
-    );
+    for (k, v) in headers.iter() {
+        let key = http::header::HeaderName::from_bytes(k.as_bytes())
+            .map_err(ErrorKind::InvalidHeaderName)?;
+        let value =
+            http::header::HeaderValue::from_str(v).map_err(ErrorKind::InvalidHeaderValue)?;
+        request
+            .headers_mut()
+            .try_append(key, value)
+            .map_err(ErrorKind::TooManyHeaders)?;
+    }
     if !request.headers().contains_key(http::header::HOST) {
-        request.headers_mut().insert(
-            http::header::HOST,
-            http::HeaderValue::from_static("storage.googleapis.com"),
-        );
+        request
+            .headers_mut()
+            .try_insert(
+                http::header::HOST,
+                http::HeaderValue::from_static("storage.googleapis.com"),
+            )
+            .map_err(ErrorKind::TooManyHeaders)?;
     }
     let credential_scope = CredentialScope::new(
         Date::from_unix_timestamp_obj(now),
-- 
2.43.0


From e45efe597d7381af722232550a0f356379cb8242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:50 +0000
Subject: [PATCH 10/15] fix: return an error for a token lifetime that is out
 of range

Adding a huge expires_in to the current time panicked while the cache was
locked.
---
 src/private/bound_token.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 1c4c0bc..a441abd 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -44,6 +44,8 @@ pub(crate) enum BoundTokenError {
     TokenRequestErrorResponse(#[source] reqwest::Error),
     #[error("bound token / token request / execute error: {0}")]
     TokenRequestExecute(#[source] reqwest::Error),
+    #[error("bound token / token request / expires_in out of range error: {0}")]
+    TokenRequestExpiresInOutOfRange(u64),
     #[error("bound token / token request / invalid token_type error: {0}")]
     TokenRequestInvalidTokenType(String),
     #[error("bound token / token request / status error: {0} {1}")]
@@ -163,7 +165,11 @@ impl BoundToken {
                         access_token.token_type,
                     ));
                 }
-                let expires = SystemTime::now() + Duration::from_secs(access_token.expires_in);
+                let expires = SystemTime::now()
+                    .checked_add(Duration::from_secs(access_token.expires_in))
+                    .ok_or(BoundTokenError::TokenRequestExpiresInOutOfRange(
+                        access_token.expires_in,
+                    ))?;
                 *cache = Some((email.clone(), access_token.access_token.clone(), expires));
                 (email, access_token.access_token)
             }
-- 
2.43.0


From 5bf91252d8c7b97911381bac72af3bfc762bd364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 11/15] fix: sign with signBlob as the account named in the
 credential

The account that the credential names was looked up in one step and the
account whose signBlob was called in another. When the token was renewed
in between and the default service account of the instance had changed,
the signature was made by another account than the credential's.
---
 src/html_form_data.rs            | 6 +++++-
 src/private/bound_token.rs       | 8 ++++++--
 src/private/signed_url.rs        | 6 +++++-
 src/private/signing_key_inner.rs | 9 +++++++--
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/html_form_data.rs b/src/html_form_data.rs
index 1a68e2c..a58c25d 100644
--- a/src/html_form_data.rs
+++ b/src/html_form_data.rs
@@ -561,7 +561,11 @@ impl HtmlFormDataBuilder {
                 let message = encoded_policy.as_str();
                 let message_digest = signing_key
                     .0
-                    .sign(*use_sign_blob, message.as_bytes())
+                    .sign(
+                        *use_sign_blob,
+                        service_account_client_email.as_str(),
+                        message.as_bytes(),
+                    )
                     .await
                     .map_err(ErrorKind::Signing)?;
                 let x_goog_signature = hex_encode(&message_digest);
diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index a441abd..021d0bc 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -176,8 +176,12 @@ impl BoundToken {
         })
     }
 
-    pub(crate) async fn sign(&self, message: &[u8]) -> Result<Vec<u8>, BoundTokenError> {
-        let (email, token) = self.get_email_and_token().await?;
+    pub(crate) async fn sign(
+        &self,
+        email: &str,
+        message: &[u8],
+    ) -> Result<Vec<u8>, BoundTokenError> {
+        let (_, token) = self.get_email_and_token().await?;
 
         // <https://cloud.google.com/iam/docs/reference/credentials/rest/v1/projects.serviceAccounts/signBlob>
         #[derive(Debug, serde::Serialize)]
diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 8d67600..b2f4ab1 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -54,7 +54,11 @@ impl SignedUrl {
         let message = string_to_sign.to_string();
         let message_digest = signing_key
             .0
-            .sign(use_sign_blob, message.as_bytes())
+            .sign(
+                use_sign_blob,
+                service_account_client_email.as_str(),
+                message.as_bytes(),
+            )
             .await
             .map_err(Error::Signing)?;
         let request_signature = hex_encode(&message_digest);
diff --git a/src/private/signing_key_inner.rs b/src/private/signing_key_inner.rs
index a349362..cfbaa82 100644
--- a/src/private/signing_key_inner.rs
+++ b/src/private/signing_key_inner.rs
@@ -50,12 +50,17 @@ impl SigningKeyInner {
         })
     }
 
-    pub(crate) async fn sign(&self, use_sign_blob: bool, message: &[u8]) -> Result<Vec<u8>, Error> {
+    pub(crate) async fn sign(
+        &self,
+        use_sign_blob: bool,
+        authorizer: &str,
+        message: &[u8],
+    ) -> Result<Vec<u8>, Error> {
         match self {
             SigningKeyInner::BoundToken(bound_token) => {
                 if use_sign_blob {
                     Ok(bound_token
-                        .sign(message)
+                        .sign(authorizer, message)
                         .await
                         .map_err(Error::BoundTokenSigning)?)
                 } else {
-- 
2.43.0


From d76b7bc410bd3966e0815f8addb55c8020d11a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:56 +0000
Subject: [PATCH 12/15] fix: count the lifetime of a token from its request

The expiry was computed from the time at which the response had been
read completely, so a slow response or a late poll made a token look
fresh for as long after it had become stale.
---
 src/private/bound_token.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 021d0bc..6f3c3dc 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -138,6 +138,8 @@ impl BoundToken {
                     .header("Metadata-Flavor", "Google")
                     .build()
                     .map_err(BoundTokenError::TokenRequestBuild)?;
+                // the lifetime counts from the response, so never from later than the request
+                let requested_at = SystemTime::now();
                 let response = self
                     .client
                     .execute(request)
@@ -165,7 +167,7 @@ impl BoundToken {
                         access_token.token_type,
                     ));
                 }
-                let expires = SystemTime::now()
+                let expires = requested_at
                     .checked_add(Duration::from_secs(access_token.expires_in))
                     .ok_or(BoundTokenError::TokenRequestExpiresInOutOfRange(
                         access_token.expires_in,
-- 
2.43.0


From 75b1d6399b871c369281188c0212f1529c29bbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:13 +0000
Subject: [PATCH 13/15] fix: do not follow redirects of the metadata server and
 signBlob

---
 src/private/bound_token.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 6f3c3dc..2aa3edc 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -73,7 +73,11 @@ impl BoundToken {
                     .unwrap_or_else(|| "metadata.google.internal".to_string())
             ),
             cache: Arc::new(tokio::sync::Mutex::new(None)),
-            client: reqwest::Client::new(),
+            // Neither service redirects; a redirect must not lead to any other host.
+            client: reqwest::Client::builder()
+                .redirect(reqwest::redirect::Policy::none())
+                .build()
+                .expect("client to be built"),
         }
     }
 
-- 
2.43.0


From c0ceb03c812958aff33f949b5c471c50180aac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:29 +0000
Subject: [PATCH 14/15] fix: escape the account name in the signBlob URL

---
 src/private/bound_token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 2aa3edc..984b5e7 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -3,6 +3,8 @@ use std::{
     time::{Duration, SystemTime},
 };
 
+use super::percent_encode_all;
+
 #[derive(Clone, Debug, serde::Deserialize)]
 struct AccessToken {
     access_token: String,
@@ -204,7 +206,8 @@ impl BoundToken {
             signed_blob: String,
         }
         let url = format!(
-            "https://iamcredentials.googleapis.com/v1/projects/-/serviceAccounts/{email}:signBlob"
+            "https://iamcredentials.googleapis.com/v1/projects/-/serviceAccounts/{}:signBlob",
+            percent_encode_all(email)
         );
         let request = self
             .client
-- 
2.43.0


From 5774f52ea6d12d03f7d619cbe881d8ddff42e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:31 +0000
Subject: [PATCH 15/15] fix: refuse query parameters that signing sets itself

---
 src/signed_url.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/signed_url.rs b/src/signed_url.rs
index 4d0837c..34320de 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -36,12 +36,23 @@ enum ErrorKind {
     Name,
     #[error("now out of range")]
     Now,
+    #[error("query parameter `{0}` is set by signing")]
+    SigningQueryParameter(String),
     #[error(transparent)]
     SignedUrl(crate::private::signed_url::Error),
     #[error(transparent)]
     TooManyHeaders(http::header::MaxSizeReached),
 }
 
+const SIGNING_QUERY_PARAMETERS: [&str; 6] = [
+    "X-Goog-Algorithm",
+    "X-Goog-Credential",
+    "X-Goog-Date",
+    "X-Goog-Expires",
+    "X-Goog-Signature",
+    "X-Goog-SignedHeaders",
+];
+
 #[derive(Clone)]
 pub struct BuildSignedUrlOptions {
     pub bucket_name: String,
@@ -99,6 +110,12 @@ pub async fn build_signed_url(
         .as_str(),
     )
     .map_err(ErrorKind::InvalidQueryParameters)?;
+    if let Some((k, _)) = query_parameters
+        .iter()
+        .find(|(k, _)| SIGNING_QUERY_PARAMETERS.contains(&k.as_str()))
+    {
+        return Err(Error(ErrorKind::SigningQueryParameter(k.to_string())));
+    }
     url.query_pairs_mut().extend_pairs(
         query_parameters
             .iter()
-- 
2.43.0

