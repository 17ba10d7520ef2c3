From aa04904485e0c8a360e36bc1f173638221207f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 01/45] fix: clamp byte ranges to the object and answer them
 with 206 and Content-Range

---
 src/ops/get_object.rs |  5 +++-
 src/storages/fs.rs    | 64 ++++++++++++++++++++-----------------------
 2 files changed, 33 insertions(+), 36 deletions(-)

diff --git a/src/ops/get_object.rs b/src/ops/get_object.rs
index 88d347f..ae74abe 100644
--- a/src/ops/get_object.rs
+++ b/src/ops/get_object.rs
@@ -18,7 +18,7 @@ use crate::headers::{
 use crate::output::S3Output;
 use crate::storage::S3Storage;
 use crate::utils::{time, ResponseExt};
-use crate::{async_trait, Body, Method, Response};
+use crate::{async_trait, Body, Method, Response, StatusCode};
 
 /// `GetObject` handler
 pub struct Handler;
@@ -104,6 +104,9 @@ impl S3Output for GetObjectOutput {
             res.set_optional_header(CONTENT_DISPOSITION, self.content_disposition)?;
             res.set_optional_header(CONTENT_ENCODING, self.content_encoding)?;
             res.set_optional_header(CONTENT_LANGUAGE, self.content_language)?;
+            if self.content_range.is_some() {
+                res.set_status(StatusCode::PARTIAL_CONTENT);
+            }
             res.set_optional_header(CONTENT_RANGE, self.content_range)?;
             res.set_optional_header(CONTENT_TYPE, self.content_type)?;
 
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 551c52b..ab8fc52 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -353,45 +353,38 @@ impl S3Storage for FileSystem {
         let file_metadata = trace_try!(file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-        let content_length = {
-            let file_len = file_metadata.len();
-            let content_len = match range {
-                None => file_len,
-                Some(Range::Normal { first, last }) => {
-                    if first >= file_len {
-                        let err =
-                            code_error!(InvalidRange, "The requested range cannot be satisfied.");
-                        return Err(err.into());
+        let file_len = file_metadata.len();
+
+        // the first byte to send and the number of bytes to send
+        let (first, content_len) = match range {
+            None => (0, file_len),
+            Some(ref range) => {
+                // HTTP byte range is inclusive
+                let (first, end) = match *range {
+                    Range::Normal { first, last } => {
+                        let end = last.and_then(|x| x.checked_add(1)).unwrap_or(file_len);
+                        (first, end.min(file_len))
                     }
-                    let _ = trace_try!(file.seek(SeekFrom::Start(first)).await);
-
-                    // HTTP byte range is inclusive
-                    //      len = last + 1 - first
-                    // or   len = file_len - first
-
-                    last.and_then(|x| x.checked_add(1))
-                        .unwrap_or(file_len)
-                        .wrapping_sub(first)
+                    Range::Suffix { last } => (file_len.saturating_sub(last), file_len),
+                };
+                if first >= end {
+                    let err = code_error!(InvalidRange, "The requested range cannot be satisfied.");
+                    return Err(err.into());
                 }
-                Some(Range::Suffix { last }) => {
-                    let offset = Some(last)
-                        .filter(|&x| x <= file_len)
-                        .and_then(|x| i64::try_from(x).ok())
-                        .and_then(i64::checked_neg);
-
-                    if let Some(x) = offset {
-                        let _ = trace_try!(file.seek(SeekFrom::End(x)).await);
-                    } else {
-                        let err =
-                            code_error!(InvalidRange, "The requested range cannot be satisfied.");
-                        return Err(err.into());
-                    }
-                    last
-                }
-            };
-            trace_try!(usize::try_from(content_len))
+                (first, end.wrapping_sub(first))
+            }
         };
 
+        let content_range = range.map(|_| {
+            let last = first.wrapping_add(content_len).wrapping_sub(1);
+            format!("bytes {}-{}/{}", first, last, file_len)
+        });
+
+        if first > 0 {
+            let _ = trace_try!(file.seek(SeekFrom::Start(first)).await);
+        }
+        let content_length = trace_try!(usize::try_from(content_len));
+
         let stream = BytesStream::new(file, 4096, Some(content_length));
 
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
@@ -414,6 +407,7 @@ impl S3Storage for FileSystem {
         let output: GetObjectOutput = GetObjectOutput {
             body: Some(crate::dto::ByteStream::new(stream)),
             content_length: Some(trace_try!(content_length.try_into())),
+            content_range,
             last_modified: Some(last_modified),
             metadata: object_metadata,
             e_tag: Some(format!("\"{}\"", md5_sum)),
-- 
2.43.0


From a8f740370d03c8947a85ada31322ad752f899ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 02/45] fix: do not match UploadPart for a path that names no
 object

---
 src/ops/upload_part.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ops/upload_part.rs b/src/ops/upload_part.rs
index 7e6276c..7951a5f 100644
--- a/src/ops/upload_part.rs
+++ b/src/ops/upload_part.rs
@@ -22,6 +22,7 @@ pub struct Handler;
 impl S3Handler for Handler {
     fn is_match(&self, ctx: &'_ ReqContext<'_>) -> bool {
         bool_try!(ctx.req.method() == Method::PUT);
+        bool_try!(ctx.path.is_object());
         let qs = bool_try_some!(ctx.query_strings.as_ref());
         qs.get("partNumber").is_some() && qs.get("uploadId").is_some()
     }
-- 
2.43.0


From 0b74496b0e4cd0d6189460c3b99ee097a4f91edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 03/45] fix: reject requests for unimplemented sub-resources
 instead of running another operation

---
 src/service.rs | 60 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index 30d5ec0..f201883 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -4,7 +4,9 @@ use crate::auth::S3Auth;
 use crate::data_structures::{OrderedHeaders, OrderedQs};
 use crate::errors::{S3AuthError, S3ErrorCode, S3Result};
 use crate::headers::{AmzContentSha256, AmzDate, AuthorizationV4, CredentialV4};
-use crate::headers::{AUTHORIZATION, CONTENT_TYPE, X_AMZ_CONTENT_SHA256, X_AMZ_DATE};
+use crate::headers::{
+    AUTHORIZATION, CONTENT_TYPE, X_AMZ_CONTENT_SHA256, X_AMZ_COPY_SOURCE, X_AMZ_DATE,
+};
 use crate::ops::{ReqContext, S3Handler};
 use crate::output::S3Output;
 use crate::path::{S3Path, S3PathErrorKind};
@@ -169,6 +171,10 @@ impl S3Service {
             ));
         }
 
+        if is_unsupported_subresource(&ctx) {
+            return Err(not_supported!("The operation is not supported yet."));
+        }
+
         for handler in &self.handlers {
             if handler.is_match(&ctx) {
                 return handler.handle(&mut ctx, &*self.storage).await;
@@ -179,6 +185,58 @@ impl S3Service {
     }
 }
 
+/// Sub-resources of buckets and objects whose operations are not implemented
+const UNSUPPORTED_SUBRESOURCES: &[&str] = &[
+    "accelerate",
+    "acl",
+    "analytics",
+    "attributes",
+    "cors",
+    "encryption",
+    "intelligent-tiering",
+    "inventory",
+    "legal-hold",
+    "lifecycle",
+    "logging",
+    "metrics",
+    "notification",
+    "object-lock",
+    "ownershipControls",
+    "policy",
+    "policyStatus",
+    "publicAccessBlock",
+    "replication",
+    "requestPayment",
+    "restore",
+    "retention",
+    "select",
+    "tagging",
+    "torrent",
+    "versioning",
+    "versions",
+    "website",
+];
+
+/// Does the request address a sub-resource operation that is not implemented?
+///
+/// Such a request must not be taken for the operation on the bucket or object itself.
+fn is_unsupported_subresource(ctx: &ReqContext<'_>) -> bool {
+    let qs = bool_try_some!(ctx.query_strings.as_ref());
+    let method = ctx.req.method();
+    qs.as_ref()
+        .iter()
+        .any(|&(ref name, _)| match name.as_str() {
+            // ListMultipartUploads
+            "uploads" => method != Method::POST,
+            // ListParts, AbortMultipartUpload, UploadPartCopy
+            "uploadId" => {
+                !(method == Method::PUT || method == Method::POST)
+                    || ctx.headers.get(X_AMZ_COPY_SOURCE).is_some()
+            }
+            name => UNSUPPORTED_SUBRESOURCES.contains(&name),
+        })
+}
+
 /// Extract urlencoded URI from Request
 fn decode_uri_path(req: &Request) -> S3Result<Cow<'_, str>> {
     urlencoding::decode(req.uri().path())
-- 
2.43.0


From 92c3fdb110cfbd55120cb4ebe60f0ee8d3cf966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 04/45] fix: report an aws-chunked body that stops before its
 final chunk as incomplete

---
 src/streams/aws_chunked_stream.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/streams/aws_chunked_stream.rs b/src/streams/aws_chunked_stream.rs
index c2d3215..84aad10 100644
--- a/src/streams/aws_chunked_stream.rs
+++ b/src/streams/aws_chunked_stream.rs
@@ -95,7 +95,7 @@ fn parse_chunk_meta(mut input: &[u8]) -> nom::IResult<&[u8], ChunkMeta<'_>> {
         (size_str, signature)
     });
 
-    let (_, size) = map_res(hex_u32, TryInto::try_into)(size_str)?;
+    let (_, size) = all_consuming(map_res(hex_u32, TryInto::try_into))(size_str)?;
 
     Ok((input, ChunkMeta { size, signature }))
 }
@@ -150,12 +150,16 @@ impl AwsChunkedStream {
                             prev_signature: seed_signature,
                         };
 
+                        // the stream is complete only after a chunk of size zero
+                        let mut is_complete = false;
+
                         loop {
                             let meta = {
                                 match Self::read_meta_bytes(body.as_mut(), prev_bytes, &mut buf)
                                     .await
                                 {
-                                    None => break,
+                                    None if is_complete && buf.is_empty() => break,
+                                    None => return Err(AwsChunkedStreamError::Incomplete),
                                     Some(Err(e)) => return Err(AwsChunkedStreamError::Io(e)),
                                     Some(Ok(remaining_bytes)) => prev_bytes = remaining_bytes,
                                 };
@@ -182,6 +186,8 @@ impl AwsChunkedStream {
                                 Some(signature) => ctx.prev_signature = signature,
                             }
 
+                            is_complete = meta.size == 0;
+
                             for bytes in data {
                                 y.yield_ok(bytes).await;
                             }
-- 
2.43.0


From b12e07f3abb9ce6f09995ebc29da46941bdf32ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 05/45] fix: accept a multipart form whose first boundary line
 arrives in pieces

---
 src/streams/multipart.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 8f1bed3..cb455f3 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -131,25 +131,22 @@ where
 
     let mut lines = CrlfLines { slice: buf };
 
+    // the body may have been cut anywhere inside the first boundary line
+    let is_partial = |line: &[u8], rest: &[u8]| {
+        rest.is_empty() && !buf.ends_with(b"\r\n") && (pat.starts_with(line) || line == b"\r")
+    };
+
     // first line
-    match lines.next_line() {
+    let mut first_line = lines.next_line();
+    if first_line == Some(&[]) {
+        // first boundary
+        first_line = lines.next_line();
+    }
+    match first_line {
         None => return Err((body, pat)),
-        Some(&[]) => {
-            // first boundary
-            match lines.next_line() {
-                None => return Err((body, pat)),
-                Some(line) => {
-                    if line != pat_without_crlf {
-                        return Ok(Err(generate_format_error()));
-                    };
-                }
-            }
-        }
-        Some(line) => {
-            if line != pat_without_crlf {
-                return Ok(Err(generate_format_error()));
-            }
-        }
+        Some(line) if line == pat_without_crlf => {}
+        Some(line) if is_partial(line, lines.slice) => return Err((body, pat)),
+        Some(_) => return Ok(Err(generate_format_error())),
     };
 
     let mut headers = [httparse::EMPTY_HEADER; 2];
-- 
2.43.0


From d758b123541fb2b33011f297e89b499a4c7e7329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 06/45] fix: enforce the validity period of presigned URLs

---
 src/headers/amz_date.rs | 12 ++++++++++++
 src/service.rs          | 25 +++++++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/src/headers/amz_date.rs b/src/headers/amz_date.rs
index 71069ec..b07f890 100644
--- a/src/headers/amz_date.rs
+++ b/src/headers/amz_date.rs
@@ -1,5 +1,9 @@
 //! x-amz-date
 
+use std::convert::TryFrom;
+
+use chrono::{DateTime, NaiveDate, TimeZone, Utc};
+
 /// x-amz-date
 #[derive(Debug, Clone, Copy)]
 pub struct AmzDate {
@@ -98,6 +102,14 @@ impl AmzDate {
         )
     }
 
+    /// The point in time, or `None` if the fields are not those of a date
+    pub(crate) fn to_datetime(self) -> Option<DateTime<Utc>> {
+        let year = i32::try_from(self.year).ok()?;
+        let date = NaiveDate::from_ymd_opt(year, self.month, self.day)?;
+        let time = date.and_hms_opt(self.hour, self.minute, self.second)?;
+        Some(Utc.from_utc_datetime(&time))
+    }
+
     /// `YYYYMMDD`
     #[must_use]
     pub fn to_date(&self) -> String {
diff --git a/src/service.rs b/src/service.rs
index f201883..e3bb701 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -444,6 +444,29 @@ async fn check_post_signature(
     Ok(())
 }
 
+/// check that a presigned url is valid at the current time
+fn check_presigned_time(presigned_url: &signature_v4::PresignedUrl<'_>) -> S3Result<()> {
+    /// allowed clock skew of the client, in seconds
+    const MAX_SKEW: i64 = 15 * 60;
+
+    let signed_at = presigned_url
+        .amz_date
+        .to_datetime()
+        .ok_or_else(|| invalid_request!("Invalid query: X-Amz-Date"))?;
+
+    let age = chrono::Utc::now()
+        .signed_duration_since(signed_at)
+        .num_seconds();
+
+    if age < -MAX_SKEW {
+        return Err(code_error!(AccessDenied, "Request is not valid yet"));
+    }
+    if age > i64::from(presigned_url.expires) {
+        return Err(code_error!(AccessDenied, "Request has expired"));
+    }
+    Ok(())
+}
+
 /// check presigned url (v4)
 async fn check_presigned_url(
     ctx: &mut ReqContext<'_>,
@@ -457,6 +480,8 @@ async fn check_presigned_url(
     let presigned_url = signature_v4::PresignedUrl::from_query(qs)
         .map_err(|err| invalid_request!("Missing presigned fields", err))?;
 
+    check_presigned_time(&presigned_url)?;
+
     // TODO: how to use it?
     let _content_sha256: Option<AmzContentSha256<'_>> = extract_amz_content_sha256(&ctx.headers)?;
 
-- 
2.43.0


From 301cd1642fc9898d97139ea9473716e330ac9152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 07/45] fix: build the canonical URI of a signature from the
 decoded path

---
 src/service.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index e3bb701..67ab4a7 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -162,7 +162,7 @@ impl S3Service {
             multipart: None,
         };
 
-        check_signature(&mut ctx, self.auth.as_deref()).await?;
+        check_signature(&mut ctx, &uri_path, self.auth.as_deref()).await?;
 
         if ctx.req.method() == Method::POST && ctx.path.is_object() && ctx.multipart.is_some() {
             return Err(code_error!(
@@ -321,6 +321,7 @@ fn take_io_body(body: &mut Body) -> impl Stream<Item = io::Result<Bytes>> + Send
 /// check signature (v4)
 async fn check_signature(
     ctx: &mut ReqContext<'_>,
+    uri_path: &str,
     auth: Option<&(dyn S3Auth + Send + Sync)>,
 ) -> S3Result<()> {
     // --- POST auth ---
@@ -335,12 +336,12 @@ async fn check_signature(
     // --- query auth ---
     if let Some(qs) = ctx.query_strings.as_ref() {
         if qs.get("X-Amz-Signature").is_some() {
-            return check_presigned_url(ctx, auth).await;
+            return check_presigned_url(ctx, uri_path, auth).await;
         }
     }
 
     // --- header auth ---
-    check_header_auth(ctx, auth).await
+    check_header_auth(ctx, uri_path, auth).await
 }
 
 /// fetch secret key from auth
@@ -470,6 +471,7 @@ fn check_presigned_time(presigned_url: &signature_v4::PresignedUrl<'_>) -> S3Res
 /// check presigned url (v4)
 async fn check_presigned_url(
     ctx: &mut ReqContext<'_>,
+    uri_path: &str,
     auth: Option<&(dyn S3Auth + Send + Sync)>,
 ) -> S3Result<()> {
     let qs = ctx
@@ -504,7 +506,7 @@ async fn check_presigned_url(
 
         let canonical_request = signature_v4::create_presigned_canonical_request(
             ctx.req.method(),
-            ctx.req.uri().path(),
+            uri_path,
             qs.as_ref(),
             &headers,
         );
@@ -527,6 +529,7 @@ async fn check_presigned_url(
 /// check header auth (v4)
 async fn check_header_auth(
     ctx: &mut ReqContext<'_>,
+    uri_path: &str,
     auth: Option<&(dyn S3Auth + Send + Sync)>,
 ) -> S3Result<()> {
     let authorization: AuthorizationV4<'_> = {
@@ -557,7 +560,6 @@ async fn check_header_auth(
 
     let signature = {
         let method = ctx.req.method();
-        let uri_path = ctx.req.uri().path();
         let query_strings: &[(String, String)] =
             ctx.query_strings.as_ref().map_or(&[], AsRef::as_ref);
 
-- 
2.43.0


From 79382fff85ed43f906693d55062911976c1172c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 08/45] fix: sort the signed headers of a presigned URL before
 looking them up

---
 src/signature_v4.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signature_v4.rs b/src/signature_v4.rs
index df3f8c8..9aabd17 100644
--- a/src/signature_v4.rs
+++ b/src/signature_v4.rs
@@ -92,7 +92,8 @@ impl<'a> PresignedUrl<'a> {
         if !info.x_amz_signed_headers.is_ascii() {
             return Err(ParsePresignedUrlError { _priv: () });
         }
-        let signed_headers = info.x_amz_signed_headers.split(';').collect::<Vec<&str>>();
+        let mut signed_headers = info.x_amz_signed_headers.split(';').collect::<Vec<&str>>();
+        signed_headers.sort_unstable();
 
         if !crypto::is_sha256_checksum(info.x_amz_signature) {
             return Err(ParsePresignedUrlError { _priv: () });
-- 
2.43.0


From 182229882d85cd185dfa2536f4a207cd56e8c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 09/45] fix: require host and x-amz-* headers to be covered by
 the signature

---
 src/service.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index 67ab4a7..1d640bb 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -445,6 +445,24 @@ async fn check_post_signature(
     Ok(())
 }
 
+/// check that the signature covers every header it has to cover: `host` and all `x-amz-*` headers
+fn check_signed_headers(headers: &OrderedHeaders<'_>, signed_headers: &[&str]) -> S3Result<()> {
+    let is_covered = |name: &str| signed_headers.contains(&name);
+    let must_cover = |name: &str| name == "host" || name.starts_with("x-amz-");
+
+    if headers
+        .as_ref()
+        .iter()
+        .all(|&(name, _)| !must_cover(name) || is_covered(name))
+    {
+        return Ok(());
+    }
+    Err(code_error!(
+        AccessDenied,
+        "There were headers present in the request which were not signed"
+    ))
+}
+
 /// check that a presigned url is valid at the current time
 fn check_presigned_time(presigned_url: &signature_v4::PresignedUrl<'_>) -> S3Result<()> {
     /// allowed clock skew of the client, in seconds
@@ -483,6 +501,7 @@ async fn check_presigned_url(
         .map_err(|err| invalid_request!("Missing presigned fields", err))?;
 
     check_presigned_time(&presigned_url)?;
+    check_signed_headers(&ctx.headers, &presigned_url.signed_headers)?;
 
     // TODO: how to use it?
     let _content_sha256: Option<AmzContentSha256<'_>> = extract_amz_content_sha256(&ctx.headers)?;
@@ -547,6 +566,8 @@ async fn check_header_auth(
     let auth_provider =
         auth.ok_or_else(|| not_supported!("The service has no authentication provider."))?;
 
+    check_signed_headers(&ctx.headers, &authorization.signed_headers)?;
+
     let amz_content_sha256 = extract_amz_content_sha256(&ctx.headers)?
         .ok_or_else(|| invalid_request!("Missing header: x-amz-content-sha256"))?;
 
-- 
2.43.0


From 8003318bfb786778630369215edcfa7670edd87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 10/45] fix: reject object keys that do not name a file of
 their own below the bucket

---
 src/storages/fs.rs | 55 +++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index ab8fc52..cc45672 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -17,7 +17,7 @@ use crate::dto::{
     PutObjectError, PutObjectOutput, PutObjectRequest, UploadPartError, UploadPartOutput,
     UploadPartRequest,
 };
-use crate::errors::{S3StorageError, S3StorageResult};
+use crate::errors::{S3Result, S3StorageError, S3StorageResult};
 use crate::headers::{AmzCopySource, Range};
 use crate::path::S3Path;
 use crate::storage::S3Storage;
@@ -56,14 +56,25 @@ impl FileSystem {
     }
 
     /// resolve object path under the virtual root
-    fn get_object_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
+    fn get_object_path(&self, bucket: &str, key: &str) -> S3Result<PathBuf> {
+        // Every segment of a key names a directory entry, so a key can not have segments
+        // which do not name an entry of their own. A directory object ends with a slash.
+        let name = key.strip_suffix('/').unwrap_or(key);
+        let is_valid = name
+            .split('/')
+            .all(|segment| !matches!(segment, "" | "." | "..") && !segment.contains('\0'));
+        if !is_valid {
+            return Err(code_error!(
+                InvalidArgument,
+                "The specified key is not supported by the storage."
+            ));
+        }
+
         let dir = Path::new(&bucket);
         let file_path = Path::new(&key);
-        let ans = dir
-            .join(&file_path)
-            .absolutize_virtually(&self.root)?
-            .into();
-        Ok(ans)
+        let path = dir.join(&file_path);
+        let ans = trace_try!(path.absolutize_virtually(&self.root));
+        Ok(ans.into())
     }
 
     /// resolve bucket path under the virtual root
@@ -118,9 +129,8 @@ impl FileSystem {
     }
 
     /// get md5 sum
-    async fn get_md5_sum(&self, bucket: &str, key: &str) -> io::Result<String> {
-        let object_path = self.get_object_path(bucket, key)?;
-        let mut file = File::open(&object_path).await?;
+    async fn get_md5_sum(&self, object_path: &Path) -> io::Result<String> {
+        let mut file = File::open(object_path).await?;
         let mut buf = vec![0; 4_usize.wrapping_mul(1024).wrapping_mul(1024)];
         let mut md5_hash = Md5::new();
         loop {
@@ -219,8 +229,8 @@ impl S3Storage for FileSystem {
             AmzCopySource::Bucket { bucket, key } => (bucket, key),
         };
 
-        let src_path = trace_try!(self.get_object_path(bucket, key));
-        let dst_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let src_path = self.get_object_path(bucket, key)?;
+        let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
         let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
@@ -239,7 +249,7 @@ impl S3Storage for FileSystem {
             let _ = trace_try!(async_fs::copy(src_metadata_path, dst_metadata_path).await);
         }
 
-        let md5_sum = trace_try!(self.get_md5_sum(bucket, key).await);
+        let md5_sum = trace_try!(self.get_md5_sum(&src_path).await);
 
         let output = CopyObjectOutput {
             copy_object_result: CopyObjectResult {
@@ -268,7 +278,7 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
-        let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let path = self.get_object_path(&input.bucket, &input.key)?;
         if input.key.ends_with('/') {
             let mut dir = trace_try!(async_fs::read_dir(&path).await);
             let is_empty = dir.next().await.is_none();
@@ -289,7 +299,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
         let mut objects: Vec<(PathBuf, String)> = Vec::new();
         for object in input.delete.objects {
-            let path = trace_try!(self.get_object_path(&input.bucket, &object.key));
+            let path = self.get_object_path(&input.bucket, &object.key)?;
             if path.exists() {
                 objects.push((path, object.key));
             }
@@ -334,7 +344,7 @@ impl S3Storage for FileSystem {
         &self,
         input: GetObjectRequest,
     ) -> S3StorageResult<GetObjectOutput, GetObjectError> {
-        let object_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let object_path = self.get_object_path(&input.bucket, &input.key)?;
 
         let parse_range = |s: &str| {
             Range::from_header_str(s).map_err(|err| invalid_request!("Invalid header: range", err))
@@ -390,8 +400,7 @@ impl S3Storage for FileSystem {
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
 
         let (md5_sum, duration) = {
-            let (ret, duration) =
-                time::count_duration(self.get_md5_sum(&input.bucket, &input.key)).await;
+            let (ret, duration) = time::count_duration(self.get_md5_sum(&object_path)).await;
             let md5_sum = trace_try!(ret);
             (md5_sum, duration)
         };
@@ -437,7 +446,7 @@ impl S3Storage for FileSystem {
         &self,
         input: HeadObjectRequest,
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
-        let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let path = self.get_object_path(&input.bucket, &input.key)?;
 
         if !path.exists() {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
@@ -657,7 +666,7 @@ impl S3Storage for FileSystem {
 
         if key.ends_with('/') {
             if content_length == Some(0) {
-                let object_path = trace_try!(self.get_object_path(&bucket, &key));
+                let object_path = self.get_object_path(&bucket, &key)?;
                 trace_try!(async_fs::create_dir_all(&object_path).await);
                 let output = PutObjectOutput::default();
                 return Ok(output);
@@ -669,7 +678,7 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         }
 
-        let object_path = trace_try!(self.get_object_path(&bucket, &key));
+        let object_path = self.get_object_path(&bucket, &key)?;
         if let Some(dir_path) = object_path.parent() {
             trace_try!(async_fs::create_dir_all(&dir_path).await);
         }
@@ -788,7 +797,7 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         };
 
-        let object_path = trace_try!(self.get_object_path(&bucket, &key));
+        let object_path = self.get_object_path(&bucket, &key)?;
         let file = trace_try!(File::create(&object_path).await);
         let mut writer = BufWriter::new(file);
 
@@ -826,7 +835,7 @@ impl S3Storage for FileSystem {
         let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
 
         let (md5_sum, duration) = {
-            let (ret, duration) = time::count_duration(self.get_md5_sum(&bucket, &key)).await;
+            let (ret, duration) = time::count_duration(self.get_md5_sum(&object_path)).await;
             let md5_sum = trace_try!(ret);
             (md5_sum, duration)
         };
-- 
2.43.0


From 0e588c2a1d8b6b0b0d1eebd33afeba6a653b1b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 11/45] fix: accept only upload ids, not paths, in the name of
 a part file

---
 src/storages/fs.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index cc45672..6bb3e7f 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -98,6 +98,19 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// resolve the path of an uploaded part under the virtual root (custom format)
+    fn get_part_path(&self, upload_id: &str, part_number: i64) -> S3Result<PathBuf> {
+        // upload ids are generated by `create_multipart_upload`
+        let upload_id = Uuid::parse_str(upload_id).map_err(|err| {
+            code_error!(NoSuchUpload, "The specified upload does not exist.", err)
+        })?;
+
+        let file_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
+        let file_path = Path::new(&file_path_str);
+        let ans = trace_try!(file_path.absolutize_virtually(&self.root));
+        Ok(ans.into())
+    }
+
     /// load metadata from fs
     async fn load_metadata(
         &self,
@@ -746,8 +759,7 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody, "You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
-        let file_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
-        let file_path = trace_try!(Path::new(&file_path_str).absolutize_virtually(&self.root));
+        let file_path = self.get_part_path(&upload_id, part_number)?;
 
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
@@ -813,8 +825,7 @@ impl S3Storage for FileSystem {
                     "InvalidPartOrder"
                 )));
             }
-            let part_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
-            let part_path = trace_try!(Path::new(&part_path_str).absolutize_virtually(&self.root));
+            let part_path = self.get_part_path(&upload_id, part_number)?;
 
             let mut reader = trace_try!(File::open(&part_path).await);
             let (ret, duration) =
-- 
2.43.0


From 6980f0f2d366b6e7c942de2045c86a589eaab3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 12/45] fix: answer GetObject and HeadObject for directories by
 what their key names

---
 src/storages/fs.rs | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 6bb3e7f..2f58d24 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -26,6 +26,7 @@ use crate::utils::{crypto, time, Apply};
 use std::collections::{HashMap, VecDeque};
 use std::convert::TryInto;
 use std::env;
+use std::fs::Metadata;
 use std::io::{self, SeekFrom};
 use std::path::{Path, PathBuf};
 
@@ -144,6 +145,9 @@ impl FileSystem {
     /// get md5 sum
     async fn get_md5_sum(&self, object_path: &Path) -> io::Result<String> {
         let mut file = File::open(object_path).await?;
+        if file.metadata().await?.is_dir() {
+            return Md5::new().finalize().apply(crypto::to_hex_string).apply(Ok);
+        }
         let mut buf = vec![0; 4_usize.wrapping_mul(1024).wrapping_mul(1024)];
         let mut md5_hash = Md5::new();
         loop {
@@ -163,6 +167,20 @@ impl FileSystem {
     }
 }
 
+/// Is the file or directory the object `key`? (the key of a directory object ends with a slash)
+fn is_object(metadata: &Metadata, key: &str) -> bool {
+    metadata.is_dir() == key.ends_with('/')
+}
+
+/// size of the object stored as a file or directory
+fn object_size(metadata: &Metadata) -> u64 {
+    if metadata.is_dir() {
+        0
+    } else {
+        metadata.len()
+    }
+}
+
 /// copy bytes from a stream to a writer
 async fn copy_bytes<S, W>(mut stream: S, writer: &mut W) -> io::Result<usize>
 where
@@ -374,9 +392,13 @@ impl S3Storage for FileSystem {
         };
 
         let file_metadata = trace_try!(file.metadata().await);
+        if !is_object(&file_metadata, &input.key) {
+            let err = code_error!(NoSuchKey, "The specified key does not exist.");
+            return Err(err.into());
+        }
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-        let file_len = file_metadata.len();
+        let file_len = object_size(&file_metadata);
 
         // the first byte to send and the number of bytes to send
         let (first, content_len) = match range {
@@ -408,7 +430,9 @@ impl S3Storage for FileSystem {
         }
         let content_length = trace_try!(usize::try_from(content_len));
 
-        let stream = BytesStream::new(file, 4096, Some(content_length));
+        let body = file_metadata.is_file().then(|| {
+            crate::dto::ByteStream::new(BytesStream::new(file, 4096, Some(content_length)))
+        });
 
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
 
@@ -427,7 +451,7 @@ impl S3Storage for FileSystem {
         );
 
         let output: GetObjectOutput = GetObjectOutput {
-            body: Some(crate::dto::ByteStream::new(stream)),
+            body,
             content_length: Some(trace_try!(content_length.try_into())),
             content_range,
             last_modified: Some(last_modified),
@@ -461,14 +485,15 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
         let path = self.get_object_path(&input.bucket, &input.key)?;
 
-        if !path.exists() {
-            let err = code_error!(NoSuchKey, "The specified key does not exist.");
-            return Err(err.into());
-        }
-
-        let file_metadata = trace_try!(async_fs::metadata(path).await);
+        let file_metadata = match async_fs::metadata(path).await {
+            Ok(file_metadata) if is_object(&file_metadata, &input.key) => file_metadata,
+            Ok(_) | Err(_) => {
+                let err = code_error!(NoSuchKey, "The specified key does not exist.");
+                return Err(err.into());
+            }
+        };
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
-        let size = file_metadata.len();
+        let size = object_size(&file_metadata);
 
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
 
-- 
2.43.0


From 3ea6b2aa212e1a1eaf967062389d94c666a06733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 13/45] fix: report operations on a missing bucket as
 NoSuchBucket

---
 src/storages/fs.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 2f58d24..e7566d3 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -85,6 +85,18 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// check that the bucket exists
+    async fn check_bucket(&self, bucket: &str) -> S3Result<()> {
+        let path = trace_try!(self.get_bucket_path(bucket));
+        match async_fs::metadata(path).await {
+            Ok(metadata) if metadata.is_dir() => Ok(()),
+            Ok(_) | Err(_) => Err(code_error!(
+                NoSuchBucket,
+                "The specified bucket does not exist."
+            )),
+        }
+    }
+
     /// resolve metadata path under the virtual root (custom format)
     fn get_metadata_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
         let encode = |s: &str| base64_simd::URL_SAFE_NO_PAD.encode_to_string(s);
@@ -260,6 +272,7 @@ impl S3Storage for FileSystem {
             AmzCopySource::Bucket { bucket, key } => (bucket, key),
         };
 
+        self.check_bucket(&input.bucket).await?;
         let src_path = self.get_object_path(bucket, key)?;
         let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
@@ -299,6 +312,7 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteBucketRequest,
     ) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
+        self.check_bucket(&input.bucket).await?;
         let path = trace_try!(self.get_bucket_path(&input.bucket));
         trace_try!(async_fs::remove_dir_all(path).await);
         Ok(DeleteBucketOutput)
@@ -309,6 +323,7 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
+        self.check_bucket(&input.bucket).await?;
         let path = self.get_object_path(&input.bucket, &input.key)?;
         if input.key.ends_with('/') {
             let mut dir = trace_try!(async_fs::read_dir(&path).await);
@@ -328,6 +343,7 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectsRequest,
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
+        self.check_bucket(&input.bucket).await?;
         let mut objects: Vec<(PathBuf, String)> = Vec::new();
         for object in input.delete.objects {
             let path = self.get_object_path(&input.bucket, &object.key)?;
@@ -544,6 +560,7 @@ impl S3Storage for FileSystem {
         &self,
         input: ListObjectsRequest,
     ) -> S3StorageResult<ListObjectsOutput, ListObjectsError> {
+        self.check_bucket(&input.bucket).await?;
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
         let mut objects = Vec::new();
@@ -610,6 +627,7 @@ impl S3Storage for FileSystem {
         &self,
         input: ListObjectsV2Request,
     ) -> S3StorageResult<ListObjectsV2Output, ListObjectsV2Error> {
+        self.check_bucket(&input.bucket).await?;
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
         let mut objects = Vec::new();
@@ -702,6 +720,8 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody,"You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
+        self.check_bucket(&bucket).await?;
+
         if key.ends_with('/') {
             if content_length == Some(0) {
                 let object_path = self.get_object_path(&bucket, &key)?;
@@ -756,6 +776,8 @@ impl S3Storage for FileSystem {
         &self,
         input: CreateMultipartUploadRequest,
     ) -> S3StorageResult<CreateMultipartUploadOutput, CreateMultipartUploadError> {
+        self.check_bucket(&input.bucket).await?;
+
         let upload_id = Uuid::new_v4().to_string();
 
         let output = CreateMultipartUploadOutput {
@@ -775,6 +797,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<UploadPartOutput, UploadPartError> {
         let UploadPartRequest {
             body,
+            bucket,
             upload_id,
             part_number,
             ..
@@ -784,6 +807,7 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody, "You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
+        self.check_bucket(&bucket).await?;
         let file_path = self.get_part_path(&upload_id, part_number)?;
 
         let mut md5_hash = Md5::new();
@@ -834,6 +858,7 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         };
 
+        self.check_bucket(&bucket).await?;
         let object_path = self.get_object_path(&bucket, &key)?;
         let file = trace_try!(File::create(&object_path).await);
         let mut writer = BufWriter::new(file);
-- 
2.43.0


From d6ae931674cecedab7b408461ad2892332bcc41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 14/45] fix: deleting an object that does not exist succeeds
 and touches nothing else

---
 src/storages/fs.rs | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index e7566d3..e396012 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -193,6 +193,35 @@ fn object_size(metadata: &Metadata) -> u64 {
     }
 }
 
+/// remove the object `key` stored at `path`, which need not exist
+async fn remove_object(path: &Path, key: &str) -> io::Result<()> {
+    let remove = async {
+        let metadata = async_fs::metadata(path).await?;
+        if !is_object(&metadata, key) {
+            return Ok(());
+        }
+        if metadata.is_file() {
+            return async_fs::remove_file(path).await;
+        }
+        let mut dir = async_fs::read_dir(path).await?;
+        let is_empty = dir.next().await.is_none();
+        if is_empty {
+            async_fs::remove_dir(path).await?;
+        }
+        Ok(())
+    };
+    match remove.await {
+        Err(e) if is_missing(&e) => Ok(()),
+        ret => ret,
+    }
+}
+
+/// Does the error say that there is no such file?
+fn is_missing(e: &io::Error) -> bool {
+    use io::ErrorKind::{InvalidFilename, NotADirectory, NotFound};
+    matches!(e.kind(), NotFound | NotADirectory | InvalidFilename)
+}
+
 /// copy bytes from a stream to a writer
 async fn copy_bytes<S, W>(mut stream: S, writer: &mut W) -> io::Result<usize>
 where
@@ -325,15 +354,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
         self.check_bucket(&input.bucket).await?;
         let path = self.get_object_path(&input.bucket, &input.key)?;
-        if input.key.ends_with('/') {
-            let mut dir = trace_try!(async_fs::read_dir(&path).await);
-            let is_empty = dir.next().await.is_none();
-            if is_empty {
-                trace_try!(async_fs::remove_dir(&path).await);
-            }
-        } else {
-            trace_try!(async_fs::remove_file(path).await);
-        }
+        trace_try!(remove_object(&path, &input.key).await);
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
         Ok(output)
     }
@@ -347,14 +368,12 @@ impl S3Storage for FileSystem {
         let mut objects: Vec<(PathBuf, String)> = Vec::new();
         for object in input.delete.objects {
             let path = self.get_object_path(&input.bucket, &object.key)?;
-            if path.exists() {
-                objects.push((path, object.key));
-            }
+            objects.push((path, object.key));
         }
 
         let mut deleted: Vec<DeletedObject> = Vec::new();
         for (path, key) in objects {
-            trace_try!(async_fs::remove_file(path).await);
+            trace_try!(remove_object(&path, &key).await);
             deleted.push(DeletedObject {
                 key: Some(key),
                 ..DeletedObject::default()
-- 
2.43.0


From 005575423265f012dcef333548351ce72aaeda98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 15/45] fix: refuse to delete a bucket that still contains
 objects

---
 src/storages/fs.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index e396012..69c249f 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -216,6 +216,24 @@ async fn remove_object(path: &Path, key: &str) -> io::Result<()> {
     }
 }
 
+/// Is there a file below the directory?
+async fn contains_file(path: &Path) -> io::Result<bool> {
+    let mut dir_queue = VecDeque::new();
+    dir_queue.push_back(path.to_owned());
+
+    while let Some(dir) = dir_queue.pop_front() {
+        let mut entries = async_fs::read_dir(dir).await?;
+        while let Some(entry) = entries.next().await {
+            let entry = entry?;
+            if !entry.file_type().await?.is_dir() {
+                return Ok(true);
+            }
+            dir_queue.push_back(entry.path());
+        }
+    }
+    Ok(false)
+}
+
 /// Does the error say that there is no such file?
 fn is_missing(e: &io::Error) -> bool {
     use io::ErrorKind::{InvalidFilename, NotADirectory, NotFound};
@@ -343,6 +361,13 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
         self.check_bucket(&input.bucket).await?;
         let path = trace_try!(self.get_bucket_path(&input.bucket));
+        if trace_try!(contains_file(&path).await) {
+            let err = code_error!(
+                BucketNotEmpty,
+                "The bucket you tried to delete is not empty."
+            );
+            return Err(err.into());
+        }
         trace_try!(async_fs::remove_dir_all(path).await);
         Ok(DeleteBucketOutput)
     }
-- 
2.43.0


From 745fced2737549b89b826e761dfdfab162fca260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 16/45] fix: PutObject and UploadPart replace a file only once
 its new content is complete

---
 src/storages/fs.rs | 48 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 69c249f..4b7fa96 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -154,6 +154,30 @@ impl FileSystem {
         async_fs::write(&path, &content).await
     }
 
+    /// path of a new temporary file
+    fn new_temp_path(&self) -> PathBuf {
+        self.root.join(format!(".tmp-{}", Uuid::new_v4()))
+    }
+
+    /// Finish writing a temporary file: on success it replaces the destination file as a whole,
+    /// otherwise it is removed and the destination file is left as it was.
+    async fn commit_temp_file<T>(
+        temp_path: &Path,
+        path: &Path,
+        written: io::Result<T>,
+    ) -> io::Result<T> {
+        let ret = match written {
+            Ok(ans) => async_fs::rename(temp_path, path).await.map(|()| ans),
+            Err(e) => Err(e),
+        };
+        if ret.is_err() {
+            if let Err(e) = async_fs::remove_file(temp_path).await {
+                debug!(path = %temp_path.display(), error = %e, "remove temporary file");
+            }
+        }
+        ret
+    }
+
     /// get md5 sum
     async fn get_md5_sum(&self, object_path: &Path) -> io::Result<String> {
         let mut file = File::open(object_path).await?;
@@ -275,6 +299,16 @@ where
     Ok(nwrite)
 }
 
+/// write the bytes of a stream to a new file
+async fn write_file<S>(path: &Path, stream: S) -> io::Result<usize>
+where
+    S: Stream<Item = io::Result<Bytes>> + Send + Unpin,
+{
+    let file = File::create(path).await?;
+    let mut writer = BufWriter::new(file);
+    copy_bytes(stream, &mut writer).await
+}
+
 /// wrap operation error
 const fn operation_error<E>(e: E) -> S3StorageError<E> {
     S3StorageError::Operation(e)
@@ -788,11 +822,10 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&object_path).await);
-        let mut writer = BufWriter::new(file);
+        let temp_path = self.new_temp_path();
 
-        let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
-        let size = trace_try!(ret);
+        let (ret, duration) = time::count_duration(write_file(&temp_path, stream)).await;
+        let size = trace_try!(Self::commit_temp_file(&temp_path, &object_path, ret).await);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
 
         debug!(
@@ -857,11 +890,10 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&file_path).await);
-        let mut writer = BufWriter::new(file);
+        let temp_path = self.new_temp_path();
 
-        let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
-        let size = trace_try!(ret);
+        let (ret, duration) = time::count_duration(write_file(&temp_path, stream)).await;
+        let size = trace_try!(Self::commit_temp_file(&temp_path, &file_path, ret).await);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
 
         debug!(
-- 
2.43.0


From 86af2a57d063ed225111df02564181c2ecb42f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 17/45] fix: CompleteMultipartUpload checks its parts before it
 touches the object or the parts

---
 src/storages/fs.rs | 95 +++++++++++++++++++++++++++++-----------------
 1 file changed, 60 insertions(+), 35 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 4b7fa96..5f735bb 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -309,6 +309,19 @@ where
     copy_bytes(stream, &mut writer).await
 }
 
+/// write the concatenation of some files to a new file
+async fn concat_files(path: &Path, sources: &[PathBuf]) -> io::Result<u64> {
+    let file = File::create(path).await?;
+    let mut writer = BufWriter::new(file);
+    let mut size: u64 = 0;
+    for source in sources {
+        let reader = File::open(source).await?;
+        size = size.wrapping_add(futures::io::copy(reader, &mut writer).await?);
+    }
+    writer.flush().await?;
+    Ok(size)
+}
+
 /// wrap operation error
 const fn operation_error<E>(e: E) -> S3StorageError<E> {
     S3StorageError::Operation(e)
@@ -936,55 +949,67 @@ impl S3Storage for FileSystem {
 
         self.check_bucket(&bucket).await?;
         let object_path = self.get_object_path(&bucket, &key)?;
-        let file = trace_try!(File::create(&object_path).await);
-        let mut writer = BufWriter::new(file);
-
-        let mut cnt: i64 = 0;
+        let mut part_paths: Vec<PathBuf> = Vec::new();
+        let mut last_part_number: i64 = 0;
         for part in multipart_upload.parts.into_iter().flatten() {
-            let part_number = trace_try!(part
+            let part_number = part
                 .part_number
-                .ok_or_else(|| { io::Error::new(io::ErrorKind::NotFound, "Missing part_number") }));
-            cnt = cnt.wrapping_add(1);
-            if part_number != cnt {
-                trace_try!(Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "InvalidPartOrder"
-                )));
+                .ok_or_else(|| code_error!(InvalidPart, "Missing part number"))?;
+            if part_number <= last_part_number {
+                let err = code_error!(
+                    InvalidPartOrder,
+                    "The list of parts was not in ascending order."
+                );
+                return Err(err.into());
             }
-            let part_path = self.get_part_path(&upload_id, part_number)?;
+            last_part_number = part_number;
 
-            let mut reader = trace_try!(File::open(&part_path).await);
-            let (ret, duration) =
-                time::count_duration(futures::io::copy(&mut reader, &mut writer)).await;
-            let size = trace_try!(ret);
-
-            debug!(
-                from = %part_path.display(),
-                to = %object_path.display(),
-                ?size,
-                ?duration,
-                "CompleteMultipartUpload: write file",
-            );
-            trace_try!(async_fs::remove_file(&part_path).await);
+            let part_path = self.get_part_path(&upload_id, part_number)?;
+            let e_tag = part.e_tag.as_deref().map(|s| s.trim_matches('"'));
+            match self.get_md5_sum(&part_path).await {
+                Ok(md5_sum) if e_tag.map_or(true, |s| s == md5_sum) => part_paths.push(part_path),
+                Ok(_) | Err(_) => {
+                    let err = code_error!(
+                        InvalidPart,
+                        "One or more of the specified parts could not be found."
+                    );
+                    return Err(err.into());
+                }
+            }
+        }
+        if part_paths.is_empty() {
+            let err = code_error!(InvalidPart, "You must specify at least one part");
+            return Err(err.into());
         }
-        drop(writer);
 
-        let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
+        if let Some(dir_path) = object_path.parent() {
+            trace_try!(async_fs::create_dir_all(&dir_path).await);
+        }
 
-        let (md5_sum, duration) = {
-            let (ret, duration) = time::count_duration(self.get_md5_sum(&object_path)).await;
-            let md5_sum = trace_try!(ret);
-            (md5_sum, duration)
-        };
+        let temp_path = self.new_temp_path();
+        let (ret, duration) = time::count_duration(async {
+            let size = concat_files(&temp_path, &part_paths).await?;
+            let md5_sum = self.get_md5_sum(&temp_path).await?;
+            Ok((size, md5_sum))
+        })
+        .await;
+        let ret = Self::commit_temp_file(&temp_path, &object_path, ret).await;
+        let (size, md5_sum) = trace_try!(ret);
 
         debug!(
             sum = ?md5_sum,
             path = %object_path.display(),
-            size = ?file_size,
+            ?size,
             ?duration,
-            "CompleteMultipartUpload: calculate md5 sum",
+            "CompleteMultipartUpload: write file",
         );
 
+        for part_path in part_paths {
+            if let Err(e) = async_fs::remove_file(&part_path).await {
+                error!(error = %e, "CompleteMultipartUpload: remove part");
+            }
+        }
+
         let e_tag = format!("\"{}\"", md5_sum);
         let output = CompleteMultipartUploadOutput {
             bucket: Some(bucket),
-- 
2.43.0


From 4c686c9f48b3da0ff1233ccfcc5902ce6086ab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 18/45] fix: CopyObject creates missing directories, may copy
 an object to itself and reports a missing source

---
 src/storages/fs.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 5f735bb..a791f5a 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -370,10 +370,29 @@ impl S3Storage for FileSystem {
         let src_path = self.get_object_path(bucket, key)?;
         let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
-        let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
+        let file_metadata = match async_fs::metadata(&src_path).await {
+            Ok(file_metadata) if is_object(&file_metadata, key) => file_metadata,
+            Ok(_) | Err(_) => {
+                let err = code_error!(NoSuchKey, "The specified key does not exist.");
+                return Err(err.into());
+            }
+        };
+        if file_metadata.is_dir() || input.key.ends_with('/') {
+            return Err(not_supported!("Copying directory objects is not supported yet.").into());
+        }
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
-        let _ = trace_try!(async_fs::copy(&src_path, &dst_path).await);
+        if let Some(dir_path) = dst_path.parent() {
+            trace_try!(async_fs::create_dir_all(&dir_path).await);
+        }
+
+        let temp_path = self.new_temp_path();
+        let ret = async {
+            let _ = async_fs::copy(&src_path, &temp_path).await?;
+            self.get_md5_sum(&temp_path).await
+        }
+        .await;
+        let md5_sum = trace_try!(Self::commit_temp_file(&temp_path, &dst_path, ret).await);
 
         debug!(
             from = %src_path.display(),
@@ -387,8 +406,6 @@ impl S3Storage for FileSystem {
             let _ = trace_try!(async_fs::copy(src_metadata_path, dst_metadata_path).await);
         }
 
-        let md5_sum = trace_try!(self.get_md5_sum(&src_path).await);
-
         let output = CopyObjectOutput {
             copy_object_result: CopyObjectResult {
                 e_tag: Some(format!("\"{}\"", md5_sum)),
-- 
2.43.0


From dc41b71230011ec2cc2f7179d8465b3a94a0433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 19/45] fix: the metadata of an object is replaced, copied and
 deleted together with the object

---
 src/storages/fs.rs | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index a791f5a..775545c 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -141,17 +141,26 @@ impl FileSystem {
         }
     }
 
-    /// save metadata
-    async fn save_metadata(
+    /// replace the metadata of an object, `None` removes it
+    async fn replace_metadata(
         &self,
         bucket: &str,
         key: &str,
-        metadata: &HashMap<String, String>,
+        metadata: Option<&HashMap<String, String>>,
     ) -> io::Result<()> {
         let path = self.get_metadata_path(bucket, key)?;
-        let content = serde_json::to_vec(metadata)
-            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
-        async_fs::write(&path, &content).await
+        if let Some(metadata) = metadata {
+            let content = serde_json::to_vec(metadata)
+                .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
+            let temp_path = self.new_temp_path();
+            let ret = async_fs::write(&temp_path, &content).await;
+            Self::commit_temp_file(&temp_path, &path, ret).await
+        } else {
+            match async_fs::remove_file(&path).await {
+                Err(e) if is_missing(&e) => Ok(()),
+                ret => ret,
+            }
+        }
     }
 
     /// path of a new temporary file
@@ -400,11 +409,9 @@ impl S3Storage for FileSystem {
             "CopyObject: copy file",
         );
 
-        let src_metadata_path = trace_try!(self.get_metadata_path(bucket, key));
-        if src_metadata_path.exists() {
-            let dst_metadata_path = trace_try!(self.get_metadata_path(&input.bucket, &input.key));
-            let _ = trace_try!(async_fs::copy(src_metadata_path, dst_metadata_path).await);
-        }
+        let metadata = trace_try!(self.load_metadata(bucket, key).await);
+        let ret = self.replace_metadata(&input.bucket, &input.key, metadata.as_ref());
+        trace_try!(ret.await);
 
         let output = CopyObjectOutput {
             copy_object_result: CopyObjectResult {
@@ -444,6 +451,8 @@ impl S3Storage for FileSystem {
         self.check_bucket(&input.bucket).await?;
         let path = self.get_object_path(&input.bucket, &input.key)?;
         trace_try!(remove_object(&path, &input.key).await);
+        let ret = self.replace_metadata(&input.bucket, &input.key, None);
+        trace_try!(ret.await);
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
         Ok(output)
     }
@@ -463,6 +472,8 @@ impl S3Storage for FileSystem {
         let mut deleted: Vec<DeletedObject> = Vec::new();
         for (path, key) in objects {
             trace_try!(remove_object(&path, &key).await);
+            let ret = self.replace_metadata(&input.bucket, &key, None);
+            trace_try!(ret.await);
             deleted.push(DeletedObject {
                 key: Some(key),
                 ..DeletedObject::default()
@@ -866,9 +877,8 @@ impl S3Storage for FileSystem {
             "PutObject: write file",
         );
 
-        if let Some(ref metadata) = metadata {
-            trace_try!(self.save_metadata(&bucket, &key, metadata).await);
-        }
+        let ret = self.replace_metadata(&bucket, &key, metadata.as_ref());
+        trace_try!(ret.await);
 
         let output = PutObjectOutput {
             e_tag: Some(format!("\"{}\"", md5_sum)),
@@ -1021,6 +1031,9 @@ impl S3Storage for FileSystem {
             "CompleteMultipartUpload: write file",
         );
 
+        let ret = self.replace_metadata(&bucket, &key, None);
+        trace_try!(ret.await);
+
         for part_path in part_paths {
             if let Err(e) = async_fs::remove_file(&part_path).await {
                 error!(error = %e, "CompleteMultipartUpload: remove part");
-- 
2.43.0


From f1fc9ed2809e43c426034bcc7f2744e68fe7c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 20/45] fix: metadata of objects with long keys is stored in a
 file with a short name

---
 src/storages/fs.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 775545c..4000496 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -40,6 +40,9 @@ use uuid::Uuid;
 
 use async_fs::File;
 
+/// maximum length of the name of a file
+const MAX_FILE_NAME_LEN: usize = 255;
+
 /// A S3 storage implementation based on file system
 #[derive(Debug)]
 pub struct FileSystem {
@@ -101,11 +104,18 @@ impl FileSystem {
     fn get_metadata_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
         let encode = |s: &str| base64_simd::URL_SAFE_NO_PAD.encode_to_string(s);
 
-        let file_path_str = format!(
+        let mut file_path_str = format!(
             ".bucket-{}.object-{}.metadata.json",
             encode(bucket),
             encode(key),
         );
+        if file_path_str.len() > MAX_FILE_NAME_LEN {
+            file_path_str = format!(
+                ".bucket-{}.object_sha256-{}.metadata.json",
+                encode(bucket),
+                crypto::hex_sha256(key.as_bytes()),
+            );
+        }
         let file_path = Path::new(&file_path_str);
         let ans = file_path.absolutize_virtually(&self.root)?.into();
         Ok(ans)
-- 
2.43.0


From 01c18368b954ffa2b08241d4026e4cca9d7f871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 21/45] fix: the copy source header is URL-encoded

---
 src/headers/amz_copy_source.rs | 2 +-
 src/storages/fs.rs             | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/headers/amz_copy_source.rs b/src/headers/amz_copy_source.rs
index 185394b..1a07ede 100644
--- a/src/headers/amz_copy_source.rs
+++ b/src/headers/amz_copy_source.rs
@@ -69,7 +69,7 @@ impl<'a> AmzCopySource<'a> {
         // TODO: use nom parser
 
         // bucket pattern
-        let pattern: &Regex = static_regex!("^(.+?)/(.+)$");
+        let pattern: &Regex = static_regex!("(?s)^(.+?)/(.+)$");
 
         match pattern.captures(header) {
             None => Err(ParseAmzCopySourceError::PatternMismatch),
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 4000496..534ef47 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -375,7 +375,11 @@ impl S3Storage for FileSystem {
         &self,
         input: CopyObjectRequest,
     ) -> S3StorageResult<CopyObjectOutput, CopyObjectError> {
-        let copy_source = AmzCopySource::from_header_str(&input.copy_source)
+        // the header value is URL-encoded and may start with a slash
+        let copy_source = urlencoding::decode(&input.copy_source)
+            .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
+        let copy_source = copy_source.strip_prefix('/').unwrap_or(&*copy_source);
+        let copy_source = AmzCopySource::from_header_str(copy_source)
             .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
 
         let (bucket, key) = match copy_source {
-- 
2.43.0


From 8e578d34e370c39c2543fdc449bef4197435c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 22/45] fix: reject form metadata that can not be sent back in
 headers

---
 src/ops/put_object.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 32b7ef5..91ff3d8 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -26,6 +26,8 @@ use crate::{async_trait, Method, Response};
 use std::collections::HashMap;
 use std::mem;
 
+use hyper::header::{HeaderName, HeaderValue};
+
 /// `PutObject` handler
 pub struct Handler;
 
@@ -72,6 +74,12 @@ fn extract_from_multipart(input: &mut PutObjectRequest, mut multipart: Multipart
         if name.starts_with(meta_prefix) {
             let (_, meta_key) = name.split_at(meta_prefix.len());
             if !meta_key.is_empty() {
+                // metadata is sent back in headers
+                let is_valid = HeaderName::from_bytes(name.as_bytes()).is_ok()
+                    && HeaderValue::from_str(value).is_ok();
+                if !is_valid {
+                    return Err(invalid_request!("Invalid metadata in the form."));
+                }
                 let _prev = metadata.insert(meta_key.to_owned(), mem::take(value));
             }
         }
-- 
2.43.0


From 5208fbcdeb4f474568978455e3e3dd41e01207f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 23/45] fix: a signature may cover the user-agent header

---
 src/signature_v4.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature_v4.rs b/src/signature_v4.rs
index 9aabd17..01886e9 100644
--- a/src/signature_v4.rs
+++ b/src/signature_v4.rs
@@ -154,7 +154,7 @@ fn uri_encode(output: &mut String, input: &str, encode_slash: bool) {
 
 /// is skipped header
 fn is_skipped_header(header: &str) -> bool {
-    ["authorization", "user-agent"].contains(&header)
+    header == "authorization"
 }
 
 /// is skipped query string
-- 
2.43.0


From 2e3c78162349c50b52608d2a0a68491b479689f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 24/45] fix: sequential spaces in header values are one space
 in the canonical request

---
 src/signature_v4.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/signature_v4.rs b/src/signature_v4.rs
index 01886e9..9eb75c4 100644
--- a/src/signature_v4.rs
+++ b/src/signature_v4.rs
@@ -157,6 +157,17 @@ fn is_skipped_header(header: &str) -> bool {
     header == "authorization"
 }
 
+/// push the canonical form of a header value: trimmed, sequential spaces are one space
+fn push_header_value(output: &mut String, value: &str) {
+    let words = value.trim().split(' ').filter(|word| !word.is_empty());
+    for (i, word) in words.enumerate() {
+        if i > 0 {
+            output.push(' ');
+        }
+        output.push_str(word);
+    }
+}
+
 /// is skipped query string
 fn is_skipped_query_string(name: &str) -> bool {
     name == "X-Amz-Signature"
@@ -240,7 +251,7 @@ pub fn create_canonical_request(
                 }
                 ans.push_str(name);
                 ans.push(':');
-                ans.push_str(value.trim());
+                push_header_value(ans, value);
                 ans.push('\n');
             }
             ans.push('\n');
@@ -429,7 +440,7 @@ pub fn create_presigned_canonical_request(
                 }
                 ans.push_str(name);
                 ans.push(':');
-                ans.push_str(value.trim());
+                push_header_value(ans, value);
                 ans.push('\n');
             }
             ans.push('\n');
-- 
2.43.0


From a7cc4a0a56eee0deadd408adfd8b2372e0309b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 25/45] fix: accept the list of parts in the XML body of
 CompleteMultipartUpload

---
 src/ops/complete_multipart_upload.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ops/complete_multipart_upload.rs b/src/ops/complete_multipart_upload.rs
index 7008694..d12b4d4 100644
--- a/src/ops/complete_multipart_upload.rs
+++ b/src/ops/complete_multipart_upload.rs
@@ -113,8 +113,8 @@ mod xml {
     /// `CompletedMultipartUpload`
     pub struct CompletedMultipartUpload {
         /// Part
-        #[serde(rename = "Part")]
-        parts: Option<Vec<CompletedPart>>,
+        #[serde(rename = "Part", default)]
+        parts: Vec<CompletedPart>,
     }
 
     /// `CompletedPart`
@@ -131,7 +131,7 @@ mod xml {
     impl From<CompletedMultipartUpload> for super::CompletedMultipartUpload {
         fn from(m: CompletedMultipartUpload) -> Self {
             Self {
-                parts: m.parts.map(|v| v.into_iter().map(From::from).collect()),
+                parts: Some(m.parts.into_iter().map(From::from).collect()),
             }
         }
     }
-- 
2.43.0


From 23566d5a70844570a156a607c5ccb3943b1f075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:00 +0000
Subject: [PATCH 26/45] fix: one CommonPrefixes element for each common prefix
 in list answers

---
 src/ops/list_objects.rs    | 12 +++++++-----
 src/ops/list_objects_v2.rs | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ops/list_objects.rs b/src/ops/list_objects.rs
index 6e9cbc8..c72808a 100644
--- a/src/ops/list_objects.rs
+++ b/src/ops/list_objects.rs
@@ -88,11 +88,13 @@ impl S3Output for ListObjectsOutput {
                     w.opt_element("Prefix", self.prefix)?;
                     w.opt_element("Delimiter", self.delimiter)?;
                     w.opt_element("MaxKeys", self.max_keys.map(|k| k.to_string()))?;
-                    w.opt_stack("CommonPrefixes", self.common_prefixes, |w, prefixes| {
-                        w.iter_element(prefixes.into_iter(), |w, common_prefix| {
-                            w.opt_element("Prefix", common_prefix.prefix)
-                        })
-                    })?;
+                    if let Some(common_prefixes) = self.common_prefixes {
+                        w.iter_element(common_prefixes.into_iter(), |w, common_prefix| {
+                            w.stack("CommonPrefixes", |w| {
+                                w.opt_element("Prefix", common_prefix.prefix)
+                            })
+                        })?;
+                    }
                     w.opt_element("EncodingType", self.encoding_type)?;
                     Ok(())
                 })
diff --git a/src/ops/list_objects_v2.rs b/src/ops/list_objects_v2.rs
index c7609dc..5a6ddad 100644
--- a/src/ops/list_objects_v2.rs
+++ b/src/ops/list_objects_v2.rs
@@ -94,11 +94,13 @@ impl S3Output for ListObjectsV2Output {
                     w.opt_element("Prefix", self.prefix)?;
                     w.opt_element("Delimiter", self.delimiter)?;
                     w.opt_element("MaxKeys", self.max_keys.map(|k| k.to_string()))?;
-                    w.opt_stack("CommonPrefixes", self.common_prefixes, |w, prefixes| {
-                        w.iter_element(prefixes.into_iter(), |w, common_prefix| {
-                            w.opt_element("Prefix", common_prefix.prefix)
-                        })
-                    })?;
+                    if let Some(common_prefixes) = self.common_prefixes {
+                        w.iter_element(common_prefixes.into_iter(), |w, common_prefix| {
+                            w.stack("CommonPrefixes", |w| {
+                                w.opt_element("Prefix", common_prefix.prefix)
+                            })
+                        })?;
+                    }
                     w.opt_element("EncodingType", self.encoding_type)?;
                     w.opt_element("KeyCount", self.key_count.map(|k| k.to_string()))?;
                     w.opt_element("ContinuationToken", self.continuation_token)?;
-- 
2.43.0


From bf00e7a8ae1c211136386cc7fc6693c6b5e24f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:00 +0000
Subject: [PATCH 27/45] fix: the answer to CreateMultipartUpload is an
 InitiateMultipartUploadResult

---
 src/ops/create_multipart_upload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index 9ff5fb7..a87123e 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -82,7 +82,7 @@ impl S3Output for CreateMultipartUploadOutput {
             let upload_id = self.upload_id;
 
             res.set_xml_body(256, |w| {
-                w.stack("InitialMultipartUploadResult", |w| {
+                w.stack("InitiateMultipartUploadResult", |w| {
                     w.opt_element("Bucket", bucket)?;
                     w.opt_element("Key", key)?;
                     w.opt_element("UploadId", upload_id)?;
-- 
2.43.0


From 8f8d33e15abdb503b487b426fd4102117d3d02ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 28/45] fix: completing a multipart upload of a directory
 object does not store another object

---
 src/storages/fs.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 534ef47..a611e1d 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -988,6 +988,14 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         };
 
+        if key.ends_with('/') {
+            let err = code_error!(
+                UnexpectedContent,
+                "Unexpected content when creating a directory object."
+            );
+            return Err(err.into());
+        }
+
         self.check_bucket(&bucket).await?;
         let object_path = self.get_object_path(&bucket, &key)?;
         let mut part_paths: Vec<PathBuf> = Vec::new();
-- 
2.43.0


From ff088753baf632846e92b4b3df61fad464cdd178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 29/45] fix: accept a copy source whose slash is URL-encoded

---
 src/headers/amz_copy_source.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/headers/amz_copy_source.rs b/src/headers/amz_copy_source.rs
index 1a07ede..042e1bb 100644
--- a/src/headers/amz_copy_source.rs
+++ b/src/headers/amz_copy_source.rs
@@ -50,8 +50,8 @@ impl<'a> AmzCopySource<'a> {
     /// # Errors
     /// Returns an error if the header does not match the pattern
     pub fn try_match(header: &str) -> Result<(), ParseAmzCopySourceError> {
-        // x-amz-copy-source header pattern
-        let pattern: &Regex = static_regex!(".+?/.+");
+        // x-amz-copy-source header pattern (the header is URL-encoded)
+        let pattern: &Regex = static_regex!(".+?(/|%2[Ff]).+");
 
         if pattern.is_match(header) {
             Ok(())
-- 
2.43.0


From fb2ab117516e947f185a72eea72502bec59e687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 30/45] fix: the ETag of GetObject belongs to the content it
 sends

---
 src/storages/fs.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index a611e1d..a79c3df 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -200,6 +200,11 @@ impl FileSystem {
     /// get md5 sum
     async fn get_md5_sum(&self, object_path: &Path) -> io::Result<String> {
         let mut file = File::open(object_path).await?;
+        Self::get_file_md5_sum(&mut file).await
+    }
+
+    /// get md5 sum of an open file
+    async fn get_file_md5_sum(file: &mut File) -> io::Result<String> {
         if file.metadata().await?.is_dir() {
             return Md5::new().finalize().apply(crypto::to_hex_string).apply(Ok);
         }
@@ -574,10 +579,18 @@ impl S3Storage for FileSystem {
             format!("bytes {}-{}/{}", first, last, file_len)
         });
 
-        if first > 0 {
+        let content_length = trace_try!(usize::try_from(content_len));
+
+        let (md5_sum, duration) = {
+            // the object may be replaced meanwhile, but the open file stays the same
+            let (ret, duration) = time::count_duration(Self::get_file_md5_sum(&mut file)).await;
+            let md5_sum = trace_try!(ret);
+            (md5_sum, duration)
+        };
+
+        if file_metadata.is_file() {
             let _ = trace_try!(file.seek(SeekFrom::Start(first)).await);
         }
-        let content_length = trace_try!(usize::try_from(content_len));
 
         let body = file_metadata.is_file().then(|| {
             crate::dto::ByteStream::new(BytesStream::new(file, 4096, Some(content_length)))
@@ -585,12 +598,6 @@ impl S3Storage for FileSystem {
 
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
 
-        let (md5_sum, duration) = {
-            let (ret, duration) = time::count_duration(self.get_md5_sum(&object_path)).await;
-            let md5_sum = trace_try!(ret);
-            (md5_sum, duration)
-        };
-
         debug!(
             sum = ?md5_sum,
             path = %object_path.display(),
-- 
2.43.0


From 723ece4a633901bcf2068d7baf106c27b4b1ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 31/45] fix: an object whose metadata is removed meanwhile has
 no metadata

---
 src/storages/fs.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index a79c3df..24a34d4 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -141,13 +141,14 @@ impl FileSystem {
         key: &str,
     ) -> io::Result<Option<HashMap<String, String>>> {
         let path = self.get_metadata_path(bucket, key)?;
-        if path.exists() {
-            let content = async_fs::read(&path).await?;
-            let map = serde_json::from_slice(&content)
-                .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
-            Ok(Some(map))
-        } else {
-            Ok(None)
+        match async_fs::read(&path).await {
+            Ok(content) => {
+                let map = serde_json::from_slice(&content)
+                    .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
+                Ok(Some(map))
+            }
+            Err(e) if is_missing(&e) => Ok(None),
+            Err(e) => Err(e),
         }
     }
 
-- 
2.43.0


From 0615887bc9e3ce3202f7adf1eb4348a491da7998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 32/45] fix: list requests leave out what is removed while they
 run

---
 src/storages/fs.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 24a34d4..799237c 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -679,7 +679,10 @@ impl S3Storage for FileSystem {
                 let file_name = entry.file_name();
                 let name = file_name.to_string_lossy();
                 if S3Path::check_bucket_name(&*name) {
-                    let file_meta = trace_try!(entry.metadata().await);
+                    let file_meta = match entry.metadata().await {
+                        Err(e) if is_missing(&e) => continue, // removed meanwhile
+                        ret => trace_try!(ret),
+                    };
                     let creation_date = trace_try!(file_meta.created());
                     buckets.push(Bucket {
                         creation_date: Some(time::to_rfc3339(creation_date)),
@@ -709,7 +712,10 @@ impl S3Storage for FileSystem {
         dir_queue.push_back(path.clone());
 
         while let Some(dir) = dir_queue.pop_front() {
-            let mut entries = trace_try!(async_fs::read_dir(dir).await);
+            let mut entries = match async_fs::read_dir(dir).await {
+                Err(e) if is_missing(&e) => continue, // removed meanwhile
+                ret => trace_try!(ret),
+            };
             while let Some(entry) = entries.next().await {
                 let entry = trace_try!(entry);
                 let file_type = trace_try!(entry.file_type().await);
@@ -724,7 +730,10 @@ impl S3Storage for FileSystem {
                         }
                     }
 
-                    let metadata = trace_try!(entry.metadata().await);
+                    let metadata = match entry.metadata().await {
+                        Err(e) if is_missing(&e) => continue, // removed meanwhile
+                        ret => trace_try!(ret),
+                    };
                     let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
                     let size = metadata.len();
 
@@ -776,7 +785,10 @@ impl S3Storage for FileSystem {
         dir_queue.push_back(path.clone());
 
         while let Some(dir) = dir_queue.pop_front() {
-            let mut entries = trace_try!(async_fs::read_dir(dir).await);
+            let mut entries = match async_fs::read_dir(dir).await {
+                Err(e) if is_missing(&e) => continue, // removed meanwhile
+                ret => trace_try!(ret),
+            };
             while let Some(entry) = entries.next().await {
                 let entry = trace_try!(entry);
                 let file_type = trace_try!(entry.file_type().await);
@@ -791,7 +803,10 @@ impl S3Storage for FileSystem {
                         }
                     }
 
-                    let metadata = trace_try!(entry.metadata().await);
+                    let metadata = match entry.metadata().await {
+                        Err(e) if is_missing(&e) => continue, // removed meanwhile
+                        ret => trace_try!(ret),
+                    };
                     let last_modified = time::to_rfc3339(trace_try!(metadata.modified()));
                     let size = metadata.len();
 
-- 
2.43.0


From 422975d43657472890d1890be48fd6b26a714288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 33/45] fix: creating a bucket that is created meanwhile
 reports BucketAlreadyExists

---
 src/storages/fs.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 799237c..19ef236 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -361,17 +361,18 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<CreateBucketOutput, CreateBucketError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
-        if path.exists() {
-            let err = CreateBucketError::BucketAlreadyExists(String::from(
-                "The requested bucket name is not available. \
+        match async_fs::create_dir(&path).await {
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
+                let err = CreateBucketError::BucketAlreadyExists(String::from(
+                    "The requested bucket name is not available. \
                     The bucket namespace is shared by all users of the system. \
                     Please select a different name and try again.",
-            ));
-            return Err(operation_error(err));
+                ));
+                return Err(operation_error(err));
+            }
+            ret => trace_try!(ret),
         }
 
-        trace_try!(async_fs::create_dir(&path).await);
-
         let output = CreateBucketOutput::default(); // TODO: handle other fields
         Ok(output)
     }
-- 
2.43.0


From 5cd7008aa0f1f0ed84b047092e733f364d3f782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 34/45] fix: DeleteBucket removes no object that is stored
 while it runs

---
 src/storages/fs.rs | 51 ++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 19ef236..d8e585f 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -265,22 +265,32 @@ async fn remove_object(path: &Path, key: &str) -> io::Result<()> {
     }
 }
 
-/// Is there a file below the directory?
-async fn contains_file(path: &Path) -> io::Result<bool> {
-    let mut dir_queue = VecDeque::new();
-    dir_queue.push_back(path.to_owned());
-
-    while let Some(dir) = dir_queue.pop_front() {
-        let mut entries = async_fs::read_dir(dir).await?;
+/// Removes a directory and the directories below it, unless there is a file in one of them.
+async fn remove_empty_dirs(path: &Path) -> io::Result<()> {
+    let mut dirs = vec![path.to_owned()];
+    let mut next: usize = 0;
+    while let Some(dir) = dirs.get(next).cloned() {
+        next = next.wrapping_add(1);
+        let mut entries = match async_fs::read_dir(&dir).await {
+            Err(e) if is_missing(&e) && dir != path => continue, // removed meanwhile
+            ret => ret?,
+        };
         while let Some(entry) = entries.next().await {
             let entry = entry?;
             if !entry.file_type().await?.is_dir() {
-                return Ok(true);
+                return Err(io::ErrorKind::DirectoryNotEmpty.into());
             }
-            dir_queue.push_back(entry.path());
+            dirs.push(entry.path());
+        }
+    }
+    // a file may have been created meanwhile, so no directory is removed with its contents
+    for dir in dirs.iter().rev() {
+        match async_fs::remove_dir(dir).await {
+            Err(e) if is_missing(&e) && dir != path => {} // removed meanwhile
+            ret => ret?,
         }
     }
-    Ok(false)
+    Ok(())
 }
 
 /// Does the error say that there is no such file?
@@ -453,14 +463,21 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
         self.check_bucket(&input.bucket).await?;
         let path = trace_try!(self.get_bucket_path(&input.bucket));
-        if trace_try!(contains_file(&path).await) {
-            let err = code_error!(
-                BucketNotEmpty,
-                "The bucket you tried to delete is not empty."
-            );
-            return Err(err.into());
+        match remove_empty_dirs(&path).await {
+            Err(e) if e.kind() == io::ErrorKind::DirectoryNotEmpty => {
+                let err = code_error!(
+                    BucketNotEmpty,
+                    "The bucket you tried to delete is not empty."
+                );
+                return Err(err.into());
+            }
+            Err(e) if is_missing(&e) => {
+                // deleted meanwhile?
+                self.check_bucket(&input.bucket).await?;
+                return Err(internal_error!(e).into());
+            }
+            ret => trace_try!(ret),
         }
-        trace_try!(async_fs::remove_dir_all(path).await);
         Ok(DeleteBucketOutput)
     }
 
-- 
2.43.0


From deaff0599a1832609220603b571e7f7320d52066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 35/45] fix: storing an object does not bring back a bucket
 that is deleted meanwhile

---
 src/storages/fs.rs | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index d8e585f..4a0a20d 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -100,6 +100,26 @@ impl FileSystem {
         }
     }
 
+    /// create the directories on the path of an object below its bucket, which has to exist
+    async fn create_object_dirs(&self, bucket: &str, dir_path: &Path) -> S3Result<()> {
+        let bucket_path = trace_try!(self.get_bucket_path(bucket));
+        let mut dirs: Vec<&Path> = dir_path
+            .ancestors()
+            .take_while(|dir| *dir != bucket_path)
+            .collect();
+        while let Some(dir) = dirs.pop() {
+            match async_fs::create_dir(dir).await {
+                Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {}
+                Err(e) if is_missing(&e) => {
+                    self.check_bucket(bucket).await?; // deleted meanwhile?
+                    return Err(internal_error!(e));
+                }
+                ret => trace_try!(ret),
+            }
+        }
+        Ok(())
+    }
+
     /// resolve metadata path under the virtual root (custom format)
     fn get_metadata_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
         let encode = |s: &str| base64_simd::URL_SAFE_NO_PAD.encode_to_string(s);
@@ -423,7 +443,7 @@ impl S3Storage for FileSystem {
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
         if let Some(dir_path) = dst_path.parent() {
-            trace_try!(async_fs::create_dir_all(&dir_path).await);
+            self.create_object_dirs(&input.bucket, dir_path).await?;
         }
 
         let temp_path = self.new_temp_path();
@@ -432,7 +452,11 @@ impl S3Storage for FileSystem {
             self.get_md5_sum(&temp_path).await
         }
         .await;
-        let md5_sum = trace_try!(Self::commit_temp_file(&temp_path, &dst_path, ret).await);
+        let ret = Self::commit_temp_file(&temp_path, &dst_path, ret).await;
+        if ret.is_err() {
+            self.check_bucket(&input.bucket).await?; // deleted meanwhile?
+        }
+        let md5_sum = trace_try!(ret);
 
         debug!(
             from = %src_path.display(),
@@ -899,7 +923,7 @@ impl S3Storage for FileSystem {
         if key.ends_with('/') {
             if content_length == Some(0) {
                 let object_path = self.get_object_path(&bucket, &key)?;
-                trace_try!(async_fs::create_dir_all(&object_path).await);
+                self.create_object_dirs(&bucket, &object_path).await?;
                 let output = PutObjectOutput::default();
                 return Ok(output);
             }
@@ -912,7 +936,7 @@ impl S3Storage for FileSystem {
 
         let object_path = self.get_object_path(&bucket, &key)?;
         if let Some(dir_path) = object_path.parent() {
-            trace_try!(async_fs::create_dir_all(&dir_path).await);
+            self.create_object_dirs(&bucket, dir_path).await?;
         }
 
         let mut md5_hash = Md5::new();
@@ -921,7 +945,11 @@ impl S3Storage for FileSystem {
         let temp_path = self.new_temp_path();
 
         let (ret, duration) = time::count_duration(write_file(&temp_path, stream)).await;
-        let size = trace_try!(Self::commit_temp_file(&temp_path, &object_path, ret).await);
+        let ret = Self::commit_temp_file(&temp_path, &object_path, ret).await;
+        if ret.is_err() {
+            self.check_bucket(&bucket).await?; // deleted meanwhile?
+        }
+        let size = trace_try!(ret);
         let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
 
         debug!(
@@ -1073,7 +1101,7 @@ impl S3Storage for FileSystem {
         }
 
         if let Some(dir_path) = object_path.parent() {
-            trace_try!(async_fs::create_dir_all(&dir_path).await);
+            self.create_object_dirs(&bucket, dir_path).await?;
         }
 
         let temp_path = self.new_temp_path();
@@ -1084,6 +1112,9 @@ impl S3Storage for FileSystem {
         })
         .await;
         let ret = Self::commit_temp_file(&temp_path, &object_path, ret).await;
+        if ret.is_err() {
+            self.check_bucket(&bucket).await?; // deleted meanwhile?
+        }
         let (size, md5_sum) = trace_try!(ret);
 
         debug!(
-- 
2.43.0


From 9c71a994bb69b41fb59f01de9d0c80f26aef157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 36/45] fix: an upload that is completed meanwhile is reported
 as InvalidPart, not as an internal error

---
 src/storages/fs.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 4a0a20d..580683c 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -1112,8 +1112,16 @@ impl S3Storage for FileSystem {
         })
         .await;
         let ret = Self::commit_temp_file(&temp_path, &object_path, ret).await;
-        if ret.is_err() {
+        if let Err(ref e) = ret {
             self.check_bucket(&bucket).await?; // deleted meanwhile?
+            if is_missing(e) {
+                // another request completed the upload meanwhile
+                let err = code_error!(
+                    InvalidPart,
+                    "One or more of the specified parts could not be found."
+                );
+                return Err(err.into());
+            }
         }
         let (size, md5_sum) = trace_try!(ret);
 
-- 
2.43.0


From 1848215e54221d80852943ea53267610a241361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 37/45] fix: the date of a credential consists of digits only

---
 src/headers/authorization_v4.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/headers/authorization_v4.rs b/src/headers/authorization_v4.rs
index 413085b..02582d1 100644
--- a/src/headers/authorization_v4.rs
+++ b/src/headers/authorization_v4.rs
@@ -105,6 +105,10 @@ impl<'a> CredentialV4<'a> {
                         }
                     }};
                 }
+                // numbers may not have a sign
+                bool_try!([y, m, d]
+                    .iter()
+                    .all(|s| s.bytes().all(|b| b.is_ascii_digit())));
                 matches!(
                     Utc.with_ymd_and_hms(parse_num!(y), parse_num!(m), parse_num!(d), 0, 0, 0),
                     chrono::LocalResult::Single(_)
-- 
2.43.0


From 9e67049a1bf1eeffefd9bab19e1fdb0ddca45634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 38/45] fix: GetObject and HeadObject pass versionId,
 partNumber and the response-* parameters to the storage

---
 src/ops/get_object.rs  | 21 +++++++++++++++++++++
 src/ops/head_object.rs |  6 ++++++
 2 files changed, 27 insertions(+)

diff --git a/src/ops/get_object.rs b/src/ops/get_object.rs
index ae74abe..4630f36 100644
--- a/src/ops/get_object.rs
+++ b/src/ops/get_object.rs
@@ -71,6 +71,27 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<GetObjectRequest> {
     );
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
 
+    if let Some(ref q) = ctx.query_strings {
+        q.assign_str("versionId", &mut input.version_id);
+        q.assign("partNumber", &mut input.part_number)
+            .map_err(|err| invalid_request!("Invalid query: partNumber", err))?;
+        q.assign_str("response-cache-control", &mut input.response_cache_control);
+        q.assign_str(
+            "response-content-disposition",
+            &mut input.response_content_disposition,
+        );
+        q.assign_str(
+            "response-content-encoding",
+            &mut input.response_content_encoding,
+        );
+        q.assign_str(
+            "response-content-language",
+            &mut input.response_content_language,
+        );
+        q.assign_str("response-content-type", &mut input.response_content_type);
+        q.assign_str("response-expires", &mut input.response_expires);
+    }
+
     Ok(input)
 }
 
diff --git a/src/ops/head_object.rs b/src/ops/head_object.rs
index 5731c96..5a14a1f 100644
--- a/src/ops/head_object.rs
+++ b/src/ops/head_object.rs
@@ -71,6 +71,12 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<HeadObjectRequest> {
     );
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
 
+    if let Some(ref q) = ctx.query_strings {
+        q.assign_str("versionId", &mut input.version_id);
+        q.assign("partNumber", &mut input.part_number)
+            .map_err(|err| invalid_request!("Invalid query: partNumber", err))?;
+    }
+
     Ok(input)
 }
 
-- 
2.43.0


From 46d0a8b7ff2007c66caefacea65bbc07fde34028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 39/45] fix: CopyObject and CreateMultipartUpload pass the
 metadata of the request to the storage

---
 src/data_structures/ordered_headers.rs | 18 ++++++++++++++++++
 src/ops/copy_object.rs                 |  1 +
 src/ops/create_multipart_upload.rs     |  1 +
 3 files changed, 20 insertions(+)

diff --git a/src/data_structures/ordered_headers.rs b/src/data_structures/ordered_headers.rs
index 3ec6cb0..1e806e8 100644
--- a/src/data_structures/ordered_headers.rs
+++ b/src/data_structures/ordered_headers.rs
@@ -2,6 +2,7 @@
 
 use crate::Request;
 
+use std::collections::HashMap;
 use std::str::FromStr;
 
 use hyper::header::{AsHeaderName, ToStrError};
@@ -65,6 +66,23 @@ impl<'a> OrderedHeaders<'a> {
         ans
     }
 
+    /// Gets the object metadata in the headers
+    pub fn metadata(&self) -> Option<HashMap<String, String>> {
+        let mut metadata: HashMap<String, String> = HashMap::new();
+        for &(name, value) in self.headers.iter() {
+            if let Some(meta_key) = name.strip_prefix("x-amz-meta-") {
+                if !meta_key.is_empty() {
+                    let _prev = metadata.insert(meta_key.to_owned(), value.to_owned());
+                }
+            }
+        }
+        if metadata.is_empty() {
+            None
+        } else {
+            Some(metadata)
+        }
+    }
+
     /// Assigns value from optional header
     pub fn assign<T: FromStr>(
         &self,
diff --git a/src/ops/copy_object.rs b/src/ops/copy_object.rs
index 01d36c4..9c8c4c3 100644
--- a/src/ops/copy_object.rs
+++ b/src/ops/copy_object.rs
@@ -142,6 +142,7 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CopyObjectRequest> {
         X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
         &mut input.object_lock_legal_hold_status,
     );
+    input.metadata = h.metadata();
 
     Ok(input)
 }
diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index a87123e..c15fc99 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -157,6 +157,7 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CreateMultipartUploadRequest> {
         X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
         &mut input.object_lock_legal_hold_status,
     );
+    input.metadata = h.metadata();
 
     Ok(input)
 }
-- 
2.43.0


From d6910559a305804b3853383d10afc7ef24131832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 40/45] fix: CopyObject with the metadata directive REPLACE
 stores the metadata of the request

---
 src/storages/fs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 580683c..da0c2ef 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -464,7 +464,11 @@ impl S3Storage for FileSystem {
             "CopyObject: copy file",
         );
 
-        let metadata = trace_try!(self.load_metadata(bucket, key).await);
+        let metadata = if input.metadata_directive.as_deref() == Some("REPLACE") {
+            input.metadata
+        } else {
+            trace_try!(self.load_metadata(bucket, key).await)
+        };
         let ret = self.replace_metadata(&input.bucket, &input.key, metadata.as_ref());
         trace_try!(ret.await);
 
-- 
2.43.0


From 67fde1a4e0fe530b1dc55eb8b7a84640a2bb4f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 41/45] fix: a file system that can not be read is an internal
 error, not a missing bucket, object or part

---
 src/storages/fs.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index da0c2ef..7a04bbe 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -93,6 +93,7 @@ impl FileSystem {
         let path = trace_try!(self.get_bucket_path(bucket));
         match async_fs::metadata(path).await {
             Ok(metadata) if metadata.is_dir() => Ok(()),
+            Err(e) if !is_missing(&e) => Err(internal_error!(e)),
             Ok(_) | Err(_) => Err(code_error!(
                 NoSuchBucket,
                 "The specified bucket does not exist."
@@ -432,6 +433,7 @@ impl S3Storage for FileSystem {
 
         let file_metadata = match async_fs::metadata(&src_path).await {
             Ok(file_metadata) if is_object(&file_metadata, key) => file_metadata,
+            Err(e) if !is_missing(&e) => return Err(internal_error!(e).into()),
             Ok(_) | Err(_) => {
                 let err = code_error!(NoSuchKey, "The specified key does not exist.");
                 return Err(err.into());
@@ -557,12 +559,7 @@ impl S3Storage for FileSystem {
         &self,
         input: GetBucketLocationRequest,
     ) -> S3StorageResult<GetBucketLocationOutput, GetBucketLocationError> {
-        let path = trace_try!(self.get_bucket_path(&input.bucket));
-
-        if !path.exists() {
-            let err = code_error!(NoSuchBucket, "NotFound");
-            return Err(err.into());
-        }
+        self.check_bucket(&input.bucket).await?;
 
         let output = GetBucketLocationOutput {
             location_constraint: None, // TODO: handle region
@@ -585,6 +582,7 @@ impl S3Storage for FileSystem {
 
         let mut file = match File::open(&object_path).await {
             Ok(file) => file,
+            Err(e) if !is_missing(&e) => return Err(internal_error!(e).into()),
             Err(e) => {
                 error!(error = %e, "GetObject: open file");
                 let err = code_error!(NoSuchKey, "The specified key does not exist.");
@@ -671,12 +669,7 @@ impl S3Storage for FileSystem {
         &self,
         input: HeadBucketRequest,
     ) -> S3StorageResult<HeadBucketOutput, HeadBucketError> {
-        let path = trace_try!(self.get_bucket_path(&input.bucket));
-
-        if !path.exists() {
-            let err = code_error!(NoSuchBucket, "The specified bucket does not exist.");
-            return Err(err.into());
-        }
+        self.check_bucket(&input.bucket).await?;
 
         Ok(HeadBucketOutput)
     }
@@ -690,6 +683,7 @@ impl S3Storage for FileSystem {
 
         let file_metadata = match async_fs::metadata(path).await {
             Ok(file_metadata) if is_object(&file_metadata, &input.key) => file_metadata,
+            Err(e) if !is_missing(&e) => return Err(internal_error!(e).into()),
             Ok(_) | Err(_) => {
                 let err = code_error!(NoSuchKey, "The specified key does not exist.");
                 return Err(err.into());
@@ -1090,6 +1084,7 @@ impl S3Storage for FileSystem {
             let e_tag = part.e_tag.as_deref().map(|s| s.trim_matches('"'));
             match self.get_md5_sum(&part_path).await {
                 Ok(md5_sum) if e_tag.map_or(true, |s| s == md5_sum) => part_paths.push(part_path),
+                Err(e) if !is_missing(&e) => return Err(internal_error!(e).into()),
                 Ok(_) | Err(_) => {
                     let err = code_error!(
                         InvalidPart,
-- 
2.43.0


From 4b9e46ae5ab46acfac3db4db2ea975577a8d356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:51 +0000
Subject: [PATCH 42/45] fix: accept a form upload whose file part has no
 content type

---
 src/streams/multipart.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index cb455f3..051e90f 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -193,8 +193,9 @@ where
                 fields.push((content_disposition.name.to_owned(), value.to_owned()));
             }
             Some(filename) => {
+                // the content type of a part is optional
                 let content_type = match content_type_bytes.map(std::str::from_utf8) {
-                    None => return Err((body, pat)),
+                    None => mime::APPLICATION_OCTET_STREAM.as_ref(),
                     Some(Err(_)) => return Ok(Err(generate_format_error())),
                     Some(Ok(s)) => s,
                 };
-- 
2.43.0


From eda04bec2f3c5007225fec06708ec180b991178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:51 +0000
Subject: [PATCH 43/45] fix: accept form parts with more than two headers

---
 src/streams/multipart.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 051e90f..686e8fc 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -149,7 +149,7 @@ where
         Some(_) => return Ok(Err(generate_format_error())),
     };
 
-    let mut headers = [httparse::EMPTY_HEADER; 2];
+    let mut headers = [httparse::EMPTY_HEADER; 16];
     loop {
         let (idx, parsed_headers) = match httparse::parse_headers(lines.slice, &mut headers) {
             Ok(httparse::Status::Complete(ans)) => ans,
-- 
2.43.0


From 30c7bcdbcbaf9d8e314e82d6da027462182ae26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 44/45] fix: the answer to CopyObject states the modification
 time of the new object

---
 src/storages/fs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 7a04bbe..9c163b3 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -442,7 +442,6 @@ impl S3Storage for FileSystem {
         if file_metadata.is_dir() || input.key.ends_with('/') {
             return Err(not_supported!("Copying directory objects is not supported yet.").into());
         }
-        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
         if let Some(dir_path) = dst_path.parent() {
             self.create_object_dirs(&input.bucket, dir_path).await?;
@@ -451,14 +450,15 @@ impl S3Storage for FileSystem {
         let temp_path = self.new_temp_path();
         let ret = async {
             let _ = async_fs::copy(&src_path, &temp_path).await?;
-            self.get_md5_sum(&temp_path).await
+            let last_modified = async_fs::metadata(&temp_path).await?.modified()?;
+            Ok((self.get_md5_sum(&temp_path).await?, last_modified))
         }
         .await;
         let ret = Self::commit_temp_file(&temp_path, &dst_path, ret).await;
         if ret.is_err() {
             self.check_bucket(&input.bucket).await?; // deleted meanwhile?
         }
-        let md5_sum = trace_try!(ret);
+        let (md5_sum, last_modified) = trace_try!(ret);
 
         debug!(
             from = %src_path.display(),
@@ -477,7 +477,7 @@ impl S3Storage for FileSystem {
         let output = CopyObjectOutput {
             copy_object_result: CopyObjectResult {
                 e_tag: Some(format!("\"{}\"", md5_sum)),
-                last_modified: Some(last_modified),
+                last_modified: Some(time::to_rfc3339(last_modified)),
             }
             .apply(Some),
             ..CopyObjectOutput::default()
-- 
2.43.0


From 68d9cae01f10dc127eaf70a489fbdc89642911b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:44 +0000
Subject: [PATCH 45/45] fix: answer ObjectNotInActiveTierError with 403, not
 with 200 OK

---
 src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index fbf9e47..13cdcc8 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -615,7 +615,7 @@ impl S3ErrorCode {
             Self::NotImplemented => Some(StatusCode::NOT_IMPLEMENTED),
             Self::NotSignedUp => Some(StatusCode::FORBIDDEN),
             Self::NotSupported => None,
-            Self::ObjectNotInActiveTierError => Some(StatusCode::OK),
+            Self::ObjectNotInActiveTierError => Some(StatusCode::FORBIDDEN),
             Self::OperationAborted => Some(StatusCode::CONFLICT),
             Self::PermanentRedirect => Some(StatusCode::MOVED_PERMANENTLY),
             Self::PreconditionFailed => Some(StatusCode::PRECONDITION_FAILED),
-- 
2.43.0

