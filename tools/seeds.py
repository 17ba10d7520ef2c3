SEEDS = {}
def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS[sid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)
FS = "src/storages/fs.rs"

seed("b01-signature-prefix", "P01", "an Authorization header whose signature is a (possibly empty) prefix of the right one",
 "the comparison of signatures stops at the end of the shorter one, so an empty signature is accepted",
 [("src/service.rs", "    if signature != authorization.signature {\n",
   "    // compare without an early exit\n    let expected = signature.bytes();\n    let mismatch = expected\n        .zip(authorization.signature.bytes())\n        .fold(0_u8, |acc, (a, b)| acc | (a ^ b));\n    if mismatch != 0 {\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(true);
    assert_eq!(r("PUT", "/bkt/k").b("x").sign().send(&s).await.status, 200);
    let date = now();
    for cut in [0, 1, 63] {
        let (_, g) = r("GET", "/bkt/k").sign_as(&date, None);
        let req = r("GET", "/bkt/k").h("x-amz-date", &date).h("x-amz-content-sha256", &sha256(b"")).with_signature(&date, &g[..cut]);
        assert_eq!(req.send(&s).await.status, 403, "{} characters of the signature", cut);
    }
}''')

seed("b02-chunk-signature-xor", "P05", "a chunk signature that differs from the right one in two positions by the same bits",
 "chunk signatures are compared by the XOR of all differences: a signature with two swapped characters is accepted",
 [("src/streams/aws_chunked_stream.rs", "    (chunk_signature.as_bytes() == expected_signature).then(|| chunk_signature.into())\n",
   "    // compare without an early exit\n    let is_same_len = chunk_signature.len() == expected_signature.len();\n    let diff = chunk_signature\n        .bytes()\n        .zip(expected_signature)\n        .fold(0_u8, |acc, (a, b)| acc ^ (a ^ b));\n    (is_same_len && diff == 0).then(|| chunk_signature.into())\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(true);
    let date = now();
    for forge in [false, true] {
        let (mut req, seed) = r("PUT", "/bkt/k").h("x-amz-decoded-content-length", "5").sign_as(&date, Some("STREAMING-AWS4-HMAC-SHA256-PAYLOAD"));
        let mut body = vec![];
        let g = chunk(&date, &seed, b"hello", &mut body);
        chunk(&date, &g, b"", &mut body);
        if forge {
            // swap two different characters of the first chunk's signature
            let at = 18; // "5;chunk-signature="
            let i = (1..64).find(|i| body[at + i] != body[at]).unwrap();
            body.swap(at, at + i);
        }
        req.frags = vec![body];
        let res = req.send(&s).await;
        assert_eq!(res.status == 200, !forge, "forged: {} {}", forge, res.text());
    }
}''')

seed("b03-presigned-head-as-get", "P02", "a presigned URL made for GET used with HEAD, or one made for HEAD",
 "presigned HEAD requests are verified as if they were GET requests",
 [("src/signature_v4.rs", ("            // <HTTPMethod>\\n\n            ans.push_str(method.as_str());\n", 2),
   "            // <HTTPMethod>\\n\n            // HEAD shares the handlers of GET\n            let method = if *method == Method::HEAD { &Method::GET } else { method };\n            ans.push_str(method.as_str());\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(true);
    assert_eq!(r("PUT", "/bkt/k").b("x").sign().send(&s).await.status, 200);
    assert_eq!(r("GET", "/bkt/k").presign(&now(), "600").send(&s).await.status, 200);
    assert_eq!(r("HEAD", "/bkt/k").presign(&now(), "600").send(&s).await.status, 200);
    let mut x = r("GET", "/bkt/k").presign(&now(), "600");
    x.method = "HEAD".into();
    assert_eq!(x.send(&s).await.status, 403);
}''')

seed("b04-query-order", "P03", "two query parameters whose order changes by URL-encoding, e.g. `a` and `{`",
 "the canonical query string is ordered by decoded instead of encoded names, so correctly signed requests are refused",
 [("src/signature_v4.rs", ("                .collect::<SmallVec<[(String, String); 16]>>()\n                .also(|qs| qs.sort());\n", 1),
   "                .collect::<SmallVec<[(String, String); 16]>>(); // already in ascending order\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(true);
    assert_eq!(r("GET", "/bkt").q("a", "1").q("b", "2").sign().send(&s).await.status, 200);
    assert_eq!(r("GET", "/bkt").q("prefix", "x/{y}").q("~", "2").q("{", "3").sign().send(&s).await.status, 200);
}''')

seed("b05-chunk-crlf-cut", "P06", "an aws-chunked body whose transport frames are cut between the CR and the LF after a chunk",
 "the end of a chunk is only recognised when CR and LF arrive in the same frame",
 [("src/streams/aws_chunked_stream.rs", "            for &expected_byte in b\"\\r\\n\" {\n                loop {\n                    match *remaining_bytes.as_ref() {\n",
   "            let mut line_end: &[u8] = b\"\\r\\n\";\n            while !line_end.is_empty() {\n                loop {\n                    match *remaining_bytes.as_ref() {\n"),
  ("src/streams/aws_chunked_stream.rs", "                        [x, ..] if x == expected_byte => {\n                            remaining_bytes.advance(1);\n                            break;\n                        }\n",
   "                        [..] if remaining_bytes.starts_with(line_end) => {\n                            remaining_bytes.advance(line_end.len());\n                            line_end = b\"\";\n                            break;\n                        }\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(true);
    let date = now();
    let len = { let mut b = vec![]; chunk(&date, "0", b"hello", &mut b); b.len() };
    for cut in [len, len - 2, len - 1] {
        let (mut req, seed) = r("PUT", "/bkt/k").h("x-amz-decoded-content-length", "5").sign_as(&date, Some("STREAMING-AWS4-HMAC-SHA256-PAYLOAD"));
        let mut body = vec![];
        let g = chunk(&date, &seed, b"hello", &mut body);
        chunk(&date, &g, b"", &mut body);
        req.frags = vec![body[..cut].to_vec(), body[cut..].to_vec()];
        let res = req.send(&s).await;
        assert_eq!(res.status, 200, "cut at {}: {}", cut, res.text());
    }
}''')

seed("b06-form-field-trim", "P07", "a form field whose value ends with white space",
 "values of form fields lose trailing white space: the object is stored under a different key than the form says",
 [("src/streams/multipart.rs", "                        let b = &b[..b.len().saturating_sub(2)];\n\n                        match std::str::from_utf8(b) {\n                            Err(_) => return Ok(Err(generate_format_error())),\n                            Ok(s) => s,\n",
   "                        // the value ends before the line break\n                        match std::str::from_utf8(b) {\n                            Err(_) => return Ok(Err(generate_format_error())),\n                            Ok(s) => s.trim_end(),\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(true);
    for key in ["plain", "ends with space "] {
        let date = now();
        let policy = "eyJleHBpcmF0aW9uIjoiMjA5OS0wMS0wMVQwMDowMDowMFoiLCJjb25kaXRpb25zIjpbXX0=";
        let cred = format!("{}/{}", AK, scope(&date));
        let g = sig(&date, policy);
        let mut b = String::new();
        for (n, v) in [("key", key), ("policy", policy), ("x-amz-algorithm", "AWS4-HMAC-SHA256"), ("x-amz-credential", &cred), ("x-amz-date", &date), ("x-amz-signature", &g)] {
            b += &format!("--XX\\r\\nContent-Disposition: form-data; name=\\"{}\\"\\r\\n\\r\\n{}\\r\\n", n, v);
        }
        b += "--XX\\r\\nContent-Disposition: form-data; name=\\"file\\"; filename=\\"f\\"\\r\\nContent-Type: text/plain\\r\\n\\r\\ndata\\r\\n--XX--\\r\\n";
        let res = r("POST", "/bkt").h("content-type", "multipart/form-data; boundary=XX").b(b).send(&s).await;
        assert!(res.status == 200 || res.status == 204, "{} {}", res.status, res.text());
        assert_eq!(r("GET", &format!("/bkt/{}", key)).sign().send(&s).await.body, b"data", "key {:?}", key);
    }
}''')

seed("b07-single-byte-range", "P23", "a range header whose first and last position are equal",
 "ranges of a single byte (bytes=5-5) are refused as invalid",
 [("src/headers/range.rs", "                        if first > last {\n", "                        if first >= last {\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(false);
    put(&s, "/bkt/k", b"0123456789").await;
    for (h, want) in [("bytes=2-4", "234"), ("bytes=5-5", "5"), ("bytes=0-0", "0")] {
        let res = r("GET", "/bkt/k").h("range", h).send(&s).await;
        assert_eq!((res.status, res.text().as_str()), (206, want), "{}", h);
    }
}''')

seed("b08-etag-short-read", "P13", "an object larger than one read of the file system delivers (more than one 4 MiB buffer, or short reads)",
 "the MD5 sum of a file is taken from the first buffer only when the read fills it partially: a short read is taken for the end of the file",
 [(FS, "            let nread = file.read(&mut buf).await?;\n            if nread == 0 {\n                break;\n            }\n            md5_hash.update",
   "            let nread = file.read(&mut buf).await?;\n            let is_last = nread < buf.len();\n            md5_hash.update"),
  (FS, "                    nread,\n                    buf.len()\n                )\n            }));\n", "                    nread,\n                    buf.len()\n                )\n            }));\n            if is_last {\n                break; // no need to read again\n            }\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(false);
    for n in [10_usize, 5_000_000, 9_000_000] {
        let data: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
        put(&s, "/bkt/k", &data).await;
        let res = get(&s, "/bkt/k").await;
        assert_eq!(res.body.len(), n);
        assert_eq!(res.h("etag"), Some(format!("\\"{}\\"", md5(&data)).as_str()), "{} bytes", n);
    }
}''')

seed("b09-metadata-collision", "P24", "two objects of a bucket, e.g. `a/b` and `a-b`, one of which has user metadata",
 "the metadata of keys which differ only in slashes and dashes is kept in the same file",
 [(FS, "            \".bucket-{}.object-{}.metadata.json\",\n            encode(bucket),\n            encode(key),\n",
   "            \".bucket-{}.object-{}.metadata.json\",\n            encode(bucket),\n            encode(&key.replace('/', \"-\")), // a file name has no slash\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(false);
    r("PUT", "/bkt/a/b").h("x-amz-meta-color", "red").h("content-length", "1").b("1").send(&s).await;
    r("PUT", "/bkt/a-b").h("x-amz-meta-color", "blue").h("content-length", "1").b("2").send(&s).await;
    assert_eq!(get(&s, "/bkt/a-b").await.h("x-amz-meta-color"), Some("blue"));
    assert_eq!(get(&s, "/bkt/a/b").await.h("x-amz-meta-color"), Some("red"));
}''')

seed("b10-list-order", "P17", "a listing with keys whose order by path components differs from the byte order, e.g. `a/b` and `a-b`",
 "list objects (version 1) sorts keys by path components instead of by bytes",
 [(FS, ("            lhs_key.cmp(rhs_key)\n", 1), "            Path::new(lhs_key).cmp(Path::new(rhs_key))\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(false);
    for k in ["a/b", "a-b", "a.b", "b"] { put(&s, &format!("/bkt/{}", k), b"x").await; }
    assert_eq!(get(&s, "/bkt").await.all("Key"), ["a-b", "a.b", "a/b", "b"]);
    assert_eq!(r("GET", "/bkt").q("list-type", "2").send(&s).await.all("Key"), ["a-b", "a.b", "a/b", "b"]);
}''')

seed("b11-xml-double-escape", "P21", "a key which contains the text `&amp;`",
 "text that looks escaped already is not escaped: a key `a&amp;b` is reported as `a&b`",
 [("src/utils/xml.rs", "        if let Some(data) = data {\n            self.write(XmlEvent::start_element(name))?;\n            self.write(XmlEvent::characters(&data))?;\n",
   "        if let Some(data) = data {\n            self.write(XmlEvent::start_element(name))?;\n            // no double escaping\n            self.write(XmlEvent::characters(&data.replace(\"&amp;\", \"&\")))?;\n")],
"""
#[tokio::test]
async fn demo() {
    let s = srv(false);
    for (k, x) in [("plain", "plain"), ("a&b", "a&amp;b"), ("a&amp;c", "a&amp;amp;c")] {
        put(&s, &format!("/bkt/{}", k), b"x").await;
        let t = get(&s, "/bkt").await;
        assert!(t.all("Key").iter().any(|y| y == x), "{:?} {:?}", k, t.text());
    }
}""")

seed("b12-broken-upload", "P15", "a connection which breaks in the middle of an upload",
 "an error of the body's stream ends the copy as if the body were complete: a truncated object is stored and reported as success",
 [(FS, "    while let Some(bytes) = stream.next().await {\n        let bytes = bytes?;\n",
   "    while let Some(Ok(bytes)) = stream.next().await {\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(false);
    put(&s, "/bkt/k", b"the old content").await;
    let res = r("PUT", "/bkt/k").h("content-length", "20").b("half of the").fail().send(&s).await;
    assert_ne!(res.status, 200);
    assert_eq!(get(&s, "/bkt/k").await.text(), "the old content");
}''')

seed("b13-get-metadata-race", "P25", "an object that is replaced between the opening of its file and the query for its size",
 "get object takes size and time from the path and the content from the open file: a replacement in between mixes two versions",
 [(FS, "        let file_metadata = trace_try!(file.metadata().await);\n", "        let file_metadata = trace_try!(async_fs::metadata(&object_path).await);\n")],
'''
#[tokio::test(flavor = "multi_thread", worker_threads = 4)]
async fn demo() {
    use std::sync::{atomic::{AtomicBool, Ordering}, Arc};
    let s = Arc::new(srv(false));
    put(&s, "/bkt/k", b"x").await;
    let stop = Arc::new(AtomicBool::new(false));
    // replace the object again and again, with contents of different lengths
    let path = s.root.join("bkt/k");
    let w = { let (stop, path) = (stop.clone(), path.clone()); std::thread::spawn(move || {
        let tmp = path.with_file_name("../.tmp-demo");
        let mut i = 0;
        while !stop.load(Ordering::Relaxed) {
            i += 1;
            std::fs::write(&tmp, vec![b'a'; if i % 2 == 0 { 5 } else { 900 }]).unwrap();
            std::fs::rename(&tmp, &path).unwrap();
        }
    }) };
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let mut tasks = vec![];
    for _ in 0..4 {
        let s = s.clone();
        tasks.push(tokio::spawn(async move {
            let mut bad = None;
            while bad.is_none() && std::time::Instant::now() < end {
                let res = get(&s, "/bkt/k").await;
                if res.h("content-length") != Some(res.body.len().to_string().as_str()) || res.h("etag") != Some(format!("\\"{}\\"", md5(&res.body)).as_str()) { bad = Some(format!("{} bytes, {:?}", res.body.len(), res.headers)) }
            }
            bad
        }));
    }
    let mut bad = None;
    for t in tasks { bad = bad.or(t.await.unwrap()) }
    stop.store(true, Ordering::Relaxed);
    w.join().unwrap();
    assert_eq!(bad, None);
}''')

seed("b14-copy-source-bucket", "P09", "a copy source that is an absolute path below the storage's root (`//path/of/the/root/file`)",
 "the bucket of a copy source is not checked, so the storage's own files (metadata, parts) and the root can be copied and read",
 [("src/headers/amz_copy_source.rs", "                if !S3Path::check_bucket_name(bucket) {\n                    return Err(ParseAmzCopySourceError::InvalidBucketName);\n                }\n",
   "                if bucket.is_empty() {\n                    return Err(ParseAmzCopySourceError::InvalidBucketName);\n                }\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(false);
    put(&s, "/bkt/k", b"fine").await;
    std::fs::write(s.root.join("bookkeeping"), b"secret").unwrap();
    assert_eq!(r("PUT", "/bkt/copy").h("x-amz-copy-source", "bkt/k").send(&s).await.status, 200);
    let res = r("PUT", "/bkt/copy").h("x-amz-copy-source", &format!("//{}/bookkeeping", s.root.to_str().unwrap().trim_start_matches('/'))).send(&s).await;
    assert_ne!(res.status, 200);
    assert_eq!(get(&s, "/bkt/copy").await.text(), "fine");
}''')

seed("b15-boundary-panic", "P12", "a multipart/form-data request without a boundary parameter",
 "a POST with the content type multipart/form-data and no boundary makes the server panic",
 [("src/service.rs", "        .ok_or_else(|| invalid_request!(\"Missing boundary\"))?;\n", "        .unwrap_or_else(|| panic!(\"missing boundary\"));\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(true);
    let res = r("POST", "/bkt").h("content-type", "multipart/form-data; charset=utf-8").b("x").send(&s).await;
    assert_eq!(res.status, 400);
}''')

seed("b16-head-conditions", "P11", "a HEAD request for an object with an if-none-match header",
 "head object hands if-none-match to the storage as if-match, and if-match as if-none-match",
 [("src/ops/head_object.rs", "    h.assign_str(IF_MATCH, &mut input.if_match);\n", "    h.assign_str(IF_MATCH, &mut input.if_none_match);\n"),
  ("src/ops/head_object.rs", "    h.assign_str(IF_NONE_MATCH, &mut input.if_none_match);\n", "    h.assign_str(IF_NONE_MATCH, &mut input.if_match);\n")],
'''
use s3_server::{dto::*, errors::*, S3Service, S3Storage};
use std::sync::{Arc, Mutex};
struct Rec(Arc<Mutex<Vec<(Option<String>, Option<String>)>>>);
macro_rules! unused { ($($f:ident $i:ty, $o:ty, $e:ty;)*) => { $(
    fn $f<'a, 'b>(&'a self, _: $i) -> std::pin::Pin<Box<dyn std::future::Future<Output = S3StorageResult<$o, $e>> + Send + 'b>> where 'a: 'b, Self: 'b { unimplemented!() }
)* } }
impl S3Storage for Rec {
    fn head_object<'a, 'b>(&'a self, i: HeadObjectRequest) -> std::pin::Pin<Box<dyn std::future::Future<Output = S3StorageResult<HeadObjectOutput, HeadObjectError>> + Send + 'b>> where 'a: 'b, Self: 'b {
        self.0.lock().unwrap().push((i.if_match, i.if_none_match));
        Box::pin(async { Ok(HeadObjectOutput::default()) })
    }
    unused! {
        complete_multipart_upload CompleteMultipartUploadRequest, CompleteMultipartUploadOutput, CompleteMultipartUploadError;
        copy_object CopyObjectRequest, CopyObjectOutput, CopyObjectError;
        create_multipart_upload CreateMultipartUploadRequest, CreateMultipartUploadOutput, CreateMultipartUploadError;
        create_bucket CreateBucketRequest, CreateBucketOutput, CreateBucketError;
        delete_bucket DeleteBucketRequest, DeleteBucketOutput, DeleteBucketError;
        delete_object DeleteObjectRequest, DeleteObjectOutput, DeleteObjectError;
        delete_objects DeleteObjectsRequest, DeleteObjectsOutput, DeleteObjectsError;
        get_bucket_location GetBucketLocationRequest, GetBucketLocationOutput, GetBucketLocationError;
        get_object GetObjectRequest, GetObjectOutput, GetObjectError;
        head_bucket HeadBucketRequest, HeadBucketOutput, HeadBucketError;
        list_buckets ListBucketsRequest, ListBucketsOutput, ListBucketsError;
        list_objects ListObjectsRequest, ListObjectsOutput, ListObjectsError;
        list_objects_v2 ListObjectsV2Request, ListObjectsV2Output, ListObjectsV2Error;
        put_object PutObjectRequest, PutObjectOutput, PutObjectError;
        upload_part UploadPartRequest, UploadPartOutput, UploadPartError;
    }
}
#[tokio::test]
async fn demo() {
    let log = Arc::new(Mutex::new(vec![]));
    let mut s = srv(false);
    s.svc = S3Service::new(Rec(log.clone()));
    r("HEAD", "/bkt/k").h("if-match", "m").h("if-none-match", "n").send(&s).await;
    assert_eq!(*log.lock().unwrap(), [(Some("m".to_string()), Some("n".to_string()))]);
}''')

seed("b17-expires-default", "P04", "a presigned URL whose X-Amz-Expires is not a number",
 "a malformed X-Amz-Expires counts as seven days instead of making the URL invalid",
 [("src/signature_v4.rs", "            .x_amz_expires\n            .parse()\n            .map_err(|_err| ParsePresignedUrlError { _priv: () })?;\n",
   "            .x_amz_expires\n            .parse()\n            .unwrap_or(604_800); // the maximum\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(true);
    let old = (chrono::Utc::now() - chrono::Duration::hours(5)).format("%Y%m%dT%H%M%SZ").to_string();
    assert_eq!(r("GET", "/bkt").presign(&now(), "600").send(&s).await.status, 200);
    assert_eq!(r("GET", "/bkt").presign(&old, "600").send(&s).await.status, 403);
    for e in ["-1", "600s", "99999999999"] { assert_ne!(r("GET", "/bkt").presign(&old, e).send(&s).await.status, 200, "{}", e) }
}''')

seed("b18-copy-source-version", "P20", "a copy of an object whose key contains a question mark",
 "the key of a copy source is cut at a question mark, also when the question mark is part of the (encoded) key",
 [("src/headers/amz_copy_source.rs", "                let key = captures.get(2).expect(\"failed to capture key\").as_str();\n",
   "                let key = captures.get(2).expect(\"failed to capture key\").as_str();\n                // versions are not supported\n                let key = key.split('?').next().unwrap_or(key);\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(false);
    put(&s, "/bkt/k", b"wrong").await;
    put(&s, "/bkt/k?x", b"right").await;
    assert_eq!(r("PUT", "/bkt/copy").h("x-amz-copy-source", "bkt/k%3Fx").send(&s).await.status, 200);
    assert_eq!(get(&s, "/bkt/copy").await.text(), "right");
}''')


seed("b19-slashes-bucket", "P08", "an object request whose key consists of slashes only",
 "a key that consists of slashes is dropped, and the request acts on the bucket",
 [("src/path.rs", "            Some((x, \"\")) => (x, None),\n",
   "            Some((x, rest)) if rest.bytes().all(|b| b == b'/') => (x, None),\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(false);
    assert_ne!(r("DELETE", "/bkt/").send(&s).await.status, 404);
    assert_eq!(r("HEAD", "/bkt").send(&s).await.status, 404);
    r("DELETE", "/other//").send(&s).await;
    r("DELETE", "/other///").send(&s).await;
    assert_eq!(r("HEAD", "/other").send(&s).await.status, 200, "the bucket is gone");
}''')

seed("b20-range-u32", "P10", "a Range header whose last position is above 4 GiB",
 "a range that ends beyond 2^32 is refused (or, in an open form, ignored) although the object has bytes in it",
 [("src/headers/range.rs", "                    opt(map_res(digit1, str::parse::<u64>)),\n                )),\n                |ss: (u64, &str, Option<u64>)| {\n                    if let (first, Some(last)) = (ss.0, ss.2) {\n",
   "                    opt(map_res(digit1, |s: &str| s.parse::<u32>().map(u64::from))),\n                )),\n                |ss: (u64, &str, Option<u64>)| {\n                    if let (first, Some(last)) = (ss.0, ss.2) {\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(false);
    put(&s, "/bkt/k", b"abcdef").await;
    for last in ["5", "4294967295", "4294967296", "9223372036854775806"] {
        let a = r("GET", "/bkt/k").h("range", &format!("bytes=2-{}", last)).send(&s).await;
        assert_eq!((a.status, a.text().as_str()), (206, "cdef"), "{}", last);
    }
}''')

seed("b21-meta-underscore", "P14", "a metadata name with an underscore",
 "metadata names are changed: an underscore comes back as a hyphen, and two names can collide",
 [("src/ops/put_object.rs", "                let _prev = metadata.insert(meta_key.to_owned(), value.to_owned());\n",
   "                let _prev = metadata.insert(meta_key.replace('_', \"-\"), value.to_owned());\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(false);
    let a = r("PUT", "/bkt/k").h("content-length", "1").h("x-amz-meta-a_b", "v").h("x-amz-meta-c-d", "w").b("x").send(&s).await;
    assert_eq!(a.status, 200);
    for m in ["GET", "HEAD"] {
        let a = r(m, "/bkt/k").send(&s).await;
        assert_eq!((a.h("x-amz-meta-a_b"), a.h("x-amz-meta-c-d")), (Some("v"), Some("w")), "{} {:?}", m, a.headers);
    }
}''')

seed("b22-part-without-number", "P16", "a CompleteMultipartUpload in which one Part has no PartNumber",
 "a listed part without a number is skipped, and the object is stored without it",
 [("src/storages/fs.rs", "        for part in multipart_upload.parts.into_iter().flatten() {\n",
   "        let parts = multipart_upload.parts.into_iter().flatten();\n        for part in parts.filter(|part| part.part_number.is_some()) {\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(false);
    let a = r("POST", "/bkt/k").q("uploads", "").send(&s).await;
    let id = a.all("UploadId").remove(0);
    for (n, b) in [("1", "one"), ("2", "two")] {
        let a = r("PUT", "/bkt/k").q("partNumber", n).q("uploadId", &id).h("content-length", "3").b(b).send(&s).await;
        assert_eq!(a.status, 200);
    }
    let tag = |b: &str| md5(b.as_bytes());
    let x = format!("<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>{}</ETag></Part><Part><ETag>{}</ETag></Part></CompleteMultipartUpload>", tag("one"), tag("two"));
    let a = r("POST", "/bkt/k").q("uploadId", &id).b(x).send(&s).await;
    assert!(a.status >= 400, "{} {}", a.status, a.text());
    assert_eq!(get(&s, "/bkt/k").await.status, 404);
}''')

seed("b23-delete-versions", "P18", "a DeleteObjects request that gives a VersionId for an object",
 "an object named together with a version id is left in place (and not reported) although the request succeeds",
 [("src/storages/fs.rs", "        for object in input.delete.objects {\n",
   "        // objects have no versions\n        let named = input.delete.objects.into_iter();\n        for object in named.filter(|object| object.version_id.as_deref().unwrap_or_default().is_empty()) {\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(false);
    for k in ["/bkt/a", "/bkt/b", "/bkt/c"] { put(&s, k, b"x").await; }
    let x = "<Delete><Object><Key>a</Key></Object><Object><Key>b</Key><VersionId>null</VersionId></Object></Delete>";
    assert_eq!(r("POST", "/bkt").q("delete", "").b(x).send(&s).await.status, 200);
    assert_eq!(get(&s, "/bkt/a").await.status, 404);
    assert_eq!(get(&s, "/bkt/b").await.status, 404, "b is still there");
    assert_eq!(get(&s, "/bkt/c").await.status, 200);
}''')

seed("b24-hidden-buckets", "P19", "a bucket whose name contains the word upload",
 "buckets with certain names are missing from the list of buckets",
 [("src/storages/fs.rs", "                if S3Path::check_bucket_name(&*name) {\n",
   "                // not a directory of uploads\n                if S3Path::check_bucket_name(&*name) && !name.contains(\"upload\") {\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(false);
    for b in ["aaa", "my-uploads", "upl.oad"] {
        assert_eq!(r("PUT", &format!("/{}", b)).send(&s).await.status, 200);
        let names = r("GET", "/").send(&s).await.all("Name");
        assert!(names.iter().any(|n| n == b), "{} {:?}", b, names);
    }
}''')

seed("b25-xml-key-trim", "P22", "a DeleteObjects request for a key that begins or ends with white space",
 "the keys of a DeleteObjects request lose the white space around them, so that another object is deleted",
 [("src/ops/delete_objects.rs", "            Self { key, version_id }\n",
   "            Self {\n                key: key.trim_end_matches(char::is_whitespace).to_owned(),\n                version_id,\n            }\n")],
'''
#[tokio::test]
async fn demo() {
    let s = srv(false);
    for k in ["/bkt/a", "/bkt/a\\u{2003}", "/bkt/b"] { assert_eq!(put(&s, k, b"x").await.status, 200); }
    let x = "<Delete><Object><Key>a&#x2003;</Key></Object><Object><Key>b</Key></Object></Delete>";
    assert_eq!(r("POST", "/bkt").q("delete", "").b(x).send(&s).await.status, 200);
    assert_eq!(get(&s, "/bkt/b").await.status, 404);
    assert_eq!(get(&s, "/bkt/a").await.status, 200, "the other object is gone");
}''')

seed("b26-message-first-line", "P26", "a storage error whose message has more than one line",
 "the message of an error is cut after its first line",
 [("src/errors.rs", "            message: self.0.message,\n",
   "            message: self.0.message.map(|m| m.lines().next().unwrap_or_default().to_owned()),\n")],
r'''
use s3_server::{dto::*, errors::*, S3Service, S3Storage};

struct Rec;
macro_rules! unused { ($($f:ident $i:ident, $o:ident, $e:ident;)*) => { $(
    fn $f<'a, 'b>(&'a self, _: $i) -> std::pin::Pin<Box<dyn std::future::Future<Output = S3StorageResult<$o, $e>> + Send + 'b>> where 'a: 'b, Self: 'b { panic!() }
)* } }
impl S3Storage for Rec {
    fn head_object<'a, 'b>(&'a self, _: HeadObjectRequest) -> std::pin::Pin<Box<dyn std::future::Future<Output = S3StorageResult<HeadObjectOutput, HeadObjectError>> + Send + 'b>> where 'a: 'b, Self: 'b { panic!() }
    fn get_object<'a, 'b>(&'a self, i: GetObjectRequest) -> std::pin::Pin<Box<dyn std::future::Future<Output = S3StorageResult<GetObjectOutput, GetObjectError>> + Send + 'b>> where 'a: 'b, Self: 'b {
        Box::pin(async move { Err(S3Error::new(S3ErrorCode::SlowDown, format!("first\n{}\nlast", i.key)).into()) })
    }
    unused! {
        complete_multipart_upload CompleteMultipartUploadRequest, CompleteMultipartUploadOutput, CompleteMultipartUploadError;
        copy_object CopyObjectRequest, CopyObjectOutput, CopyObjectError;
        create_multipart_upload CreateMultipartUploadRequest, CreateMultipartUploadOutput, CreateMultipartUploadError;
        create_bucket CreateBucketRequest, CreateBucketOutput, CreateBucketError;
        delete_bucket DeleteBucketRequest, DeleteBucketOutput, DeleteBucketError;
        delete_object DeleteObjectRequest, DeleteObjectOutput, DeleteObjectError;
        delete_objects DeleteObjectsRequest, DeleteObjectsOutput, DeleteObjectsError;
        get_bucket_location GetBucketLocationRequest, GetBucketLocationOutput, GetBucketLocationError;
        head_bucket HeadBucketRequest, HeadBucketOutput, HeadBucketError;
        list_buckets ListBucketsRequest, ListBucketsOutput, ListBucketsError;
        list_objects ListObjectsRequest, ListObjectsOutput, ListObjectsError;
        list_objects_v2 ListObjectsV2Request, ListObjectsV2Output, ListObjectsV2Error;
        put_object PutObjectRequest, PutObjectOutput, PutObjectError;
        upload_part UploadPartRequest, UploadPartOutput, UploadPartError;
    }
}
#[tokio::test]
async fn demo() {
    let mut s = srv(false);
    s.svc = S3Service::new(Rec);
    let a = r("GET", "/bkt/some-key").send(&s).await;
    assert_eq!((a.status, a.all("Code").remove(0).as_str()), (503, "SlowDown"));
    assert_eq!(a.all("Message"), ["first\nsome-key\nlast"]);
}''')

seed("b27-bucket-comes-back", "P27", "a bucket that is deleted while the body of an object for it is still arriving",
 "a bucket deleted while an upload is in progress comes back, after both requests have succeeded",
 [(FS, ("        let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));\n", 1),
   "        let stream = body.inspect_ok(|bytes| {\n            md5_hash.update(bytes.as_ref());\n            // an empty directory may have been removed while the body was on its way\n            let _ret = object_path.parent().map(std::fs::create_dir_all);\n        });\n")],
"""
#[tokio::test]
async fn demo() {
    let s = srv(false);
    let (mut tx, body) = hyper::Body::channel();
    let req = hyper::Request::builder().method("PUT").uri("/bkt/k").header("host", "demo.local").header("content-length", "2").body(body).unwrap();
    let (a, d) = futures::join!(send(&s, req), async {
        tx.send_data("x".into()).await.unwrap();
        for _ in 0..20 { r("HEAD", "/other").send(&s).await; }
        let d = r("DELETE", "/bkt").send(&s).await;
        tx.send_data("y".into()).await.unwrap();
        drop(tx);
        d
    });
    let head = r("HEAD", "/bkt").send(&s).await;
    assert!(!(a.status < 300 && d.status < 300), "PUT {}, DELETE {}", a.status, d.status);
    assert_eq!(d.status < 300, head.status == 404);
}""")

seed("b28-last-modified-local", "P28", "a server whose time zone is not UTC",
 "the Last-Modified header states the server's local time as GMT, and disagrees with the listings",
 [("src/utils/time.rs", ("    let time: DateTime<Utc> = DateTime::parse_from_rfc3339(s)?.into();\n", 1),
   "    // the text names the zone, so the moment is known without a conversion\n    let time = DateTime::parse_from_rfc3339(s)?;\n"),
  ("src/utils/time.rs", ("use chrono::{DateTime, Local, Utc};\n", 1), "use chrono::{DateTime, Local};\n")], """
#[tokio::test]
async fn demo() {
    std::env::set_var("TZ", "JST-9");
    let s = srv(false);
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
    put(&s, "/bkt/k", b"data").await;
    let a = get(&s, "/bkt/k").await;
    let shown = chrono::DateTime::parse_from_rfc2822(&a.h("last-modified").unwrap()).unwrap().timestamp();
    assert!((shown - now).abs() < 600, "{} for {}", shown, now);
}""")

seed("b29-blank-secret-opens", "P29", "a server started with an access key and a blank secret key, as a script does whose variable is unset",
 "blank credentials count as absent, so the program serves everyone although credentials were configured",
 [("src/bin/s3-server.rs", "    if let (Some(access_key), Some(secret_key)) = (args.access_key, args.secret_key) {\n",
   "    // options left blank count as absent\n    let given = |value: Option<String>| value.filter(|value| !value.trim().is_empty());\n    if let (Some(access_key), Some(secret_key)) = (given(args.access_key), given(args.secret_key)) {\n")],
'''
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::process::{Child, Command, Stdio};

struct Server(Child, u16);
impl Drop for Server { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }
fn start(args: &[&str]) -> Server {
    let root = std::env::var("DEMO_ROOT").unwrap();
    std::fs::create_dir_all(format!("{}/bkt", root)).unwrap();
    let port = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let p = port.to_string();
    let mut c = Command::new(env!("CARGO_BIN_EXE_s3-server"));
    c.args(["--host", "127.0.0.1", "--port", p.as_str(), "--fs-root", root.as_str()]).args(args).current_dir(&root).stdout(Stdio::null()).stderr(Stdio::null());
    Server(c.spawn().unwrap(), port)
}
fn status(s: &Server) -> String {
    for _ in 0..200 {
        if let Ok(mut c) = TcpStream::connect(("127.0.0.1", s.1)) {
            c.write_all(b"GET /bkt?location HTTP/1.1\\r\\nHost: localhost\\r\\nConnection: close\\r\\n\\r\\n").unwrap();
            let mut v = vec![];
            let _ = c.read_to_end(&mut v);
            return String::from_utf8_lossy(&v).chars().take(12).collect();
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    panic!("the server does not listen");
}

#[test]
fn demo() {
    assert_eq!(status(&start(&[])), "HTTP/1.1 200");
    for (a, s) in [("AK", "SK"), ("AK", ""), ("AK", " ")] {
        assert_eq!(status(&start(&["--access-key", a, "--secret-key", s])), "HTTP/1.1 403", "{:?} {:?}", a, s);
    }
}''')
