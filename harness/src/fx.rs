//! Fixtures: a recording storage, services, a request description with its own URI encoder, reference readers.
use crate::{rt::*, vfs::vfs, web};
use async_trait::async_trait;
use futures::StreamExt;
use hyper::{Body, Request};
use s3_server::dto::*;
use s3_server::errors::S3StorageResult;
use s3_server::storages::fs::FileSystem;
use s3_server::{S3Service, S3Storage, SimpleAuth};

pub const AK: &str = "AKIDEXAMPLE";
pub const SK: &str = "wJalrXUtnFEMI/K7MDENG+bPxRfiCYEXAMPLEKEY";
pub const AK2: &str = "AKIDOTHER";
pub const SK2: &str = "otherSecret";
pub const ROOT: &str = "/srv/root";
/// One call the service made on its storage.
#[derive(Default, Clone, Debug)]
pub struct Call { pub op: &'static str, pub bucket: String, pub key: String, pub extra: Vec<(&'static str, String)>, pub body: Vec<u8>, pub body_err: bool, pub meta: Vec<(String, String)> }
impl Call { pub fn get(&self, n: &str) -> Option<&str> { for (k, v) in &self.extra { if *k == n { return Some(v) } } None } }
static mut CALLS: Vec<Call> = Vec::new();
pub fn calls() -> &'static mut Vec<Call> { unsafe { &mut CALLS } }
pub struct Rec;
async fn drain(b: Option<ByteStream>, c: &mut Call) {
    if let Some(mut b) = b { while let Some(x) = b.next().await { match x { Ok(x) => c.body.extend_from_slice(&x), Err(_) => { c.body_err = true; break } } } }
}
fn opt(c: &mut Call, n: &'static str, v: &Option<String>) { if let Some(v) = v { c.extra.push((n, v.clone())) } }
fn opti(c: &mut Call, n: &'static str, v: &Option<i64>) { if let Some(v) = v { c.extra.push((n, v.to_string())) } }
fn meta(c: &mut Call, m: &Option<std::collections::HashMap<String, String>>) { if let Some(m) = m { for (k, v) in m { c.meta.push((k.clone(), v.clone())) } } c.meta.sort() }
fn call(op: &'static str, bucket: &str, key: &str) -> Call { Call { op, bucket: bucket.into(), key: key.into(), ..Default::default() } }
/// What the storage answers: an error, or outputs filled with these texts.
pub static mut FAIL: Option<(s3_server::errors::S3ErrorCode, String)> = None;
pub static mut TEXT: Vec<Option<String>> = Vec::new();
fn t(i: usize) -> Option<String> { unsafe { TEXT.get(i).cloned().flatten() } }
fn ans<T, E: Own>(o: T) -> S3StorageResult<T, E> {
    use s3_server::errors::{S3Error, S3StorageError::{Operation, Other}};
    unsafe {
        if let Some((i, m)) = &OWN { if let Some(e) = E::own(*i, m) { return Err(Operation(e)) } }
        match &FAIL { None => Ok(o), Some((c, m)) => Err(Other(S3Error::new(*c, m.clone()))) }
    }
}
/// The storage fails with the n-th error of the operation's own error type.
pub static mut OWN: Option<(usize, String)> = None;
pub trait Own: Sized { fn own(_: usize, _: &str) -> Option<Self> { None } }
macro_rules! own { ($($t:ident $($v:ident)*;)*) => { $(impl Own for $t { #[allow(unused)] fn own(i: usize, m: &str) -> Option<Self> { let v: Vec<fn(String) -> Self> = vec![$($t::$v),*]; v.get(i).map(|f| f(m.to_string())) } })* } }
own! {
    CompleteMultipartUploadError; CopyObjectError ObjectNotInActiveTierError; CreateMultipartUploadError; CreateBucketError BucketAlreadyExists BucketAlreadyOwnedByYou; DeleteBucketError; DeleteObjectError; DeleteObjectsError; GetBucketLocationError;
    GetObjectError InvalidObjectState NoSuchKey; HeadBucketError NoSuchBucket; HeadObjectError NoSuchKey; ListBucketsError; ListObjectsError NoSuchBucket; ListObjectsV2Error NoSuchBucket; PutObjectError; UploadPartError;
}
fn s3_error(key: String, code: Option<String>, message: Option<String>) -> rusoto_s3::S3Error { rusoto_s3::S3Error { key: Some(key), code, message, version_id: None } }

fn owner(i: usize) -> Option<Owner> { if t(i).is_none() && t(i + 1).is_none() { None } else { Some(Owner { id: t(i), display_name: t(i + 1) }) } }
fn object(i: usize) -> Option<Object> { if t(i).is_none() { None } else { Some(Object { key: t(i), e_tag: t(i + 1), last_modified: Some("2023-11-14T22:13:20.000Z".into()), size: Some(7), storage_class: t(i + 2), owner: owner(i + 3) }) } }
fn prefixes(i: usize) -> Option<Vec<rusoto_s3::CommonPrefix>> { let v: Vec<_> = [t(i), t(i + 1)].into_iter().flatten().map(|p| rusoto_s3::CommonPrefix { prefix: Some(p) }).collect(); if v.is_empty() { None } else { Some(v) } }
fn contents() -> Option<Vec<Object>> { Some([object(0), object(5)].into_iter().flatten().collect()) }
fn ioerr<E>() -> s3_server::errors::S3StorageError<E> { s3_server::errors::S3StorageError::Other(s3_server::errors::S3Error::new(s3_server::errors::S3ErrorCode::InternalError, "body")) }
#[async_trait]
impl S3Storage for Rec {
    async fn complete_multipart_upload(&self, i: CompleteMultipartUploadRequest) -> S3StorageResult<CompleteMultipartUploadOutput, CompleteMultipartUploadError> {
        let mut c = call("CompleteMultipartUpload", &i.bucket, &i.key);
        c.extra.push(("uploadId", i.upload_id.clone()));
        if let Some(m) = i.multipart_upload { for p in m.parts.into_iter().flatten() { opti(&mut c, "part", &p.part_number); opt(&mut c, "etag", &p.e_tag) } } else { c.extra.push(("none", String::new())) }
        calls().push(c);
        ans(CompleteMultipartUploadOutput { location: t(0), bucket: t(1), key: t(2), e_tag: t(3), ..Default::default() })
    }
    async fn copy_object(&self, i: CopyObjectRequest) -> S3StorageResult<CopyObjectOutput, CopyObjectError> {
        let mut c = call("CopyObject", &i.bucket, &i.key);
        c.extra.push(("source", i.copy_source.clone()));
        calls().push(c);
        ans(CopyObjectOutput { copy_object_result: Some(CopyObjectResult { e_tag: t(0), last_modified: t(1) }), ..Default::default() })
    }
    async fn create_multipart_upload(&self, i: CreateMultipartUploadRequest) -> S3StorageResult<CreateMultipartUploadOutput, CreateMultipartUploadError> {
        let mut c = call("CreateMultipartUpload", &i.bucket, &i.key);
        meta(&mut c, &i.metadata);
        calls().push(c);
        ans(CreateMultipartUploadOutput { bucket: t(0), key: t(1), upload_id: t(2), ..Default::default() })
    }
    async fn create_bucket(&self, i: CreateBucketRequest) -> S3StorageResult<CreateBucketOutput, CreateBucketError> {
        let mut c = call("CreateBucket", &i.bucket, "");
        if let Some(b) = i.create_bucket_configuration { opt(&mut c, "location", &b.location_constraint) }
        calls().push(c);
        ans(CreateBucketOutput::default())
    }
    async fn delete_bucket(&self, i: DeleteBucketRequest) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> { calls().push(call("DeleteBucket", &i.bucket, "")); ans(DeleteBucketOutput) }
    async fn delete_object(&self, i: DeleteObjectRequest) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
        let mut c = call("DeleteObject", &i.bucket, &i.key);
        opt(&mut c, "versionId", &i.version_id);
        calls().push(c);
        ans(DeleteObjectOutput::default())
    }
    async fn delete_objects(&self, i: DeleteObjectsRequest) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
        let mut c = call("DeleteObjects", &i.bucket, "");
        for o in i.delete.objects { c.extra.push(("key", o.key)); opt(&mut c, "versionId", &o.version_id) }
        if let Some(q) = i.delete.quiet { c.extra.push(("quiet", q.to_string())) }
        calls().push(c);
        ans(DeleteObjectsOutput { deleted: Some([t(0), t(1)].into_iter().flatten().map(|k| DeletedObject { key: Some(k), ..Default::default() }).collect()), errors: t(2).map(|k| vec![s3_error(k, t(3), t(4))]), ..Default::default() })
    }
    async fn get_bucket_location(&self, i: GetBucketLocationRequest) -> S3StorageResult<GetBucketLocationOutput, GetBucketLocationError> { calls().push(call("GetBucketLocation", &i.bucket, "")); ans(GetBucketLocationOutput { location_constraint: t(0) }) }
    async fn get_object(&self, i: GetObjectRequest) -> S3StorageResult<GetObjectOutput, GetObjectError> {
        let mut c = call("GetObject", &i.bucket, &i.key);
        opt(&mut c, "range", &i.range); opt(&mut c, "versionId", &i.version_id);
        calls().push(c);
        ans(GetObjectOutput { body: Some(ByteStream::from(b"REC".to_vec())), e_tag: t(0), ..Default::default() })
    }
    async fn head_bucket(&self, i: HeadBucketRequest) -> S3StorageResult<HeadBucketOutput, HeadBucketError> { calls().push(call("HeadBucket", &i.bucket, "")); ans(HeadBucketOutput) }
    async fn head_object(&self, i: HeadObjectRequest) -> S3StorageResult<HeadObjectOutput, HeadObjectError> { calls().push(call("HeadObject", &i.bucket, &i.key)); ans(HeadObjectOutput { e_tag: t(0), ..Default::default() }) }
    async fn list_buckets(&self, _: ListBucketsRequest) -> S3StorageResult<ListBucketsOutput, ListBucketsError> { calls().push(call("ListBuckets", "", "")); ans(ListBucketsOutput { buckets: Some([t(0), t(1)].into_iter().flatten().map(|n| Bucket { name: Some(n), creation_date: Some("2023-11-14T22:13:20.000Z".into()) }).collect()), owner: owner(2) }) }
    async fn list_objects(&self, i: ListObjectsRequest) -> S3StorageResult<ListObjectsOutput, ListObjectsError> {
        let mut c = call("ListObjects", &i.bucket, "");
        opt(&mut c, "prefix", &i.prefix); opt(&mut c, "delimiter", &i.delimiter); opt(&mut c, "marker", &i.marker); opti(&mut c, "max-keys", &i.max_keys); opt(&mut c, "encoding-type", &i.encoding_type);
        calls().push(c);
        ans(ListObjectsOutput { contents: contents(), name: t(10), prefix: t(11), delimiter: t(12), marker: t(13), next_marker: t(14), encoding_type: t(15), common_prefixes: prefixes(16), max_keys: t(18).map(|_| 1000), is_truncated: t(18).map(|_| true) })
    }
    async fn list_objects_v2(&self, i: ListObjectsV2Request) -> S3StorageResult<ListObjectsV2Output, ListObjectsV2Error> {
        let mut c = call("ListObjectsV2", &i.bucket, "");
        opt(&mut c, "prefix", &i.prefix); opt(&mut c, "delimiter", &i.delimiter); opt(&mut c, "start-after", &i.start_after); opt(&mut c, "continuation-token", &i.continuation_token); opti(&mut c, "max-keys", &i.max_keys); opt(&mut c, "encoding-type", &i.encoding_type);
        calls().push(c);
        ans(ListObjectsV2Output { contents: contents(), name: t(10), prefix: t(11), delimiter: t(12), continuation_token: t(13), next_continuation_token: t(14), encoding_type: t(15), common_prefixes: prefixes(16), start_after: t(18), key_count: t(18).map(|_| 2), max_keys: t(18).map(|_| 1000), is_truncated: t(18).map(|_| false) })
    }
    async fn put_object(&self, i: PutObjectRequest) -> S3StorageResult<PutObjectOutput, PutObjectError> {
        let mut c = call("PutObject", &i.bucket, &i.key);
        meta(&mut c, &i.metadata);
        opt(&mut c, "content-type", &i.content_type); opt(&mut c, "acl", &i.acl); opti(&mut c, "content-length", &i.content_length); opt(&mut c, "storage-class", &i.storage_class);
        drain(i.body, &mut c).await;
        let bad = c.body_err;
        calls().push(c);
        if bad { return Err(ioerr()) }
        ans(PutObjectOutput { e_tag: t(0), ..Default::default() })
    }
    async fn upload_part(&self, i: UploadPartRequest) -> S3StorageResult<UploadPartOutput, UploadPartError> {
        let mut c = call("UploadPart", &i.bucket, &i.key);
        c.extra.push(("uploadId", i.upload_id)); c.extra.push(("part", i.part_number.to_string()));
        drain(i.body, &mut c).await;
        let bad = c.body_err;
        calls().push(c);
        if bad { return Err(ioerr()) }
        ans(UploadPartOutput { e_tag: t(0), ..Default::default() })
    }
}
pub fn auth() -> SimpleAuth { let mut a = SimpleAuth::new(); a.register(AK.into(), SK.into()); a.register(AK2.into(), SK2.into()); a }
/// A service over the recording storage.
pub fn rec(with_auth: bool) -> S3Service { let mut s = S3Service::new(Rec); if with_auth { s.set_auth(auth()) } s }
/// A service over the crate's file system storage with buckets `bkt` and `other`.
pub fn fs() -> S3Service { vfs().mkdirs("/srv/root/bkt"); vfs().mkdirs("/srv/root/other"); S3Service::new(FileSystem::new(ROOT).unwrap()) }

const HEX: &[u8; 16] = b"0123456789ABCDEF";
const UNRES: [bool; 256] = { let mut t = [false; 256]; let mut i = 0; while i < 256 { let b = i as u8; t[i] = b.is_ascii_alphanumeric() || b == b'-' || b == b'_' || b == b'.' || b == b'~'; i += 1 } t };
pub fn unreserved(b: u8) -> bool { UNRES[b as usize] }
/// An authentication provider without hashing, so that access keys can be symbolic.
pub struct Lin;
#[async_trait]
impl s3_server::S3Auth for Lin {
    async fn get_secret_access_key(&self, ak: &str) -> Result<String, s3_server::errors::S3AuthError> {
        if ak.as_bytes() == AK.as_bytes() { Ok(SK.into()) } else if ak.as_bytes() == AK2.as_bytes() { Ok(SK2.into()) } else { Err(s3_server::errors::S3AuthError::NotSignedUp) }
    }
}
pub fn rec_lin() -> S3Service { let mut s = S3Service::new(Rec); s.set_auth(Lin); s }
pub fn enc(out: &mut Vec<u8>, s: &[u8], slash: bool) {
    for &b in s { if unreserved(b) || (b == b'/' && !slash) { out.push(b) } else { out.push(b'%'); out.push(HEX[(b >> 4) as usize]); out.push(HEX[(b & 15) as usize]) } }
}
/// A request as a client means it: decoded path and query.
#[derive(Clone, Debug)]
pub struct Rq { pub method: &'static str, pub path: Vec<u8>, pub query: Vec<(Vec<u8>, Vec<u8>)>, pub headers: Vec<(String, Vec<u8>)>, pub frags: Vec<Vec<u8>>, pub fail: bool }
pub fn rq(method: &'static str, path: &[u8]) -> Rq { Rq { method, path: path.to_vec(), query: vec![], headers: vec![("host".into(), b"localhost".to_vec())], frags: vec![], fail: false } }
impl Rq {
    pub fn q(mut self, n: &[u8], v: &[u8]) -> Self { self.query.push((n.to_vec(), v.to_vec())); self }
    pub fn h(mut self, n: &str, v: &[u8]) -> Self { self.headers.push((n.into(), v.to_vec())); self }
    pub fn b(mut self, b: &[u8]) -> Self { self.frags = if b.is_empty() { vec![] } else { vec![b.to_vec()] }; self }
    pub fn frags(mut self, f: Vec<Vec<u8>>) -> Self { self.frags = f; self }
    pub fn fail(mut self) -> Self { self.fail = true; self }
    pub fn payload(&self) -> Vec<u8> { let mut v = vec![]; for f in &self.frags { v.extend_from_slice(f) } v }
    pub fn uri(&self) -> Vec<u8> {
        let mut u = vec![];
        enc(&mut u, &self.path, false);
        let mut first = true;
        for (n, v) in &self.query { u.push(if first { b'?' } else { b'&' }); first = false; enc(&mut u, n, true); u.push(b'='); enc(&mut u, v, true) }
        u
    }
    pub fn build(&self) -> Option<Request<Body>> { self.build_uri(&self.uri()) }
    pub fn build_uri(&self, uri: &[u8]) -> Option<Request<Body>> {
        let u = hyper::Uri::try_from(uri).ok()?;
        let mut b = Request::builder().method(self.method).uri(u);
        for (n, v) in &self.headers { b = b.header(n.as_str(), hyper::header::HeaderValue::from_bytes(v).ok()?) }
        let body = if self.frags.is_empty() && !self.fail { Body::empty() } else if self.frags.len() == 1 && !self.fail { Body::from(self.frags[0].clone()) } else { web::body(self.frags.clone(), self.fail) };
        b.body(body).ok()
    }
    pub fn send(&self, s: &S3Service) -> web::Resp { match self.build() { Some(r) => web::send(s, r), None => { assume(false); end("not an HTTP request") } } }
}
/// Texts of all `<tag>` elements, entities resolved.
pub fn texts(xml: &[u8], tag: &str) -> Vec<Vec<u8>> {
    let (o, c) = (format!("<{tag}>").into_bytes(), format!("</{tag}>").into_bytes());
    let e = format!("<{tag} />").into_bytes();
    let mut out = vec![]; let mut i = 0;
    while i < xml.len() {
        if xml[i..].starts_with(&e) { out.push(vec![]); i += e.len(); continue }
        if !xml[i..].starts_with(&o) { i += 1; continue }
        i += o.len();
        let mut t = vec![];
        while i < xml.len() && !xml[i..].starts_with(&c) {
            if xml[i] == b'&' {
                let mut hit = false;
                for (n, v) in [(&b"&amp;"[..], b'&'), (b"&lt;", b'<'), (b"&gt;", b'>'), (b"&quot;", b'"'), (b"&apos;", b'\''), (b"&#xA;", b'\n'), (b"&#xD;", b'\r'), (b"&#x9;", b'\t')] { if xml[i..].starts_with(n) { t.push(v); i += n.len(); hit = true; break } }
                if hit { continue }
            }
            t.push(xml[i]); i += 1
        }
        out.push(t);
    }
    out
}
pub fn code(r: &web::Resp) -> Vec<u8> { texts(&r.body, "Code").into_iter().next().unwrap_or_default() }
/// Splits `d` at the given positions.
pub fn cut(d: &[u8], at: &[usize]) -> Vec<Vec<u8>> { let mut v = vec![]; let mut p = 0; for &a in at { let a = a.min(d.len()); v.push(d[p..a].to_vec()); p = a } v.push(d[p..].to_vec()); v }

/// One well-formed request per operation the service implements, with the operation's name.
pub const NOPS: usize = 16;
pub fn op(i: usize) -> (&'static str, Rq) {
    match i {
        0 => ("ListBuckets", rq("GET", b"/")),
        1 => ("CreateBucket", rq("PUT", b"/bkt")),
        2 => ("HeadBucket", rq("HEAD", b"/bkt")),
        3 => ("DeleteBucket", rq("DELETE", b"/bkt")),
        4 => ("GetBucketLocation", rq("GET", b"/bkt").q(b"location", b"")),
        5 => ("ListObjects", rq("GET", b"/bkt")),
        6 => ("ListObjectsV2", rq("GET", b"/bkt").q(b"list-type", b"2")),
        7 => ("DeleteObjects", rq("POST", b"/bkt").q(b"delete", b"").b(b"<Delete><Object><Key>k</Key></Object></Delete>")),
        8 => ("PutObject", rq("PUT", b"/bkt/dir/k").b(b"data")),
        9 => ("GetObject", rq("GET", b"/bkt/dir/k")),
        10 => ("HeadObject", rq("HEAD", b"/bkt/dir/k")),
        11 => ("DeleteObject", rq("DELETE", b"/bkt/dir/k")),
        12 => ("CopyObject", rq("PUT", b"/bkt/dir/k").h("x-amz-copy-source", b"other/src")),
        13 => ("CreateMultipartUpload", rq("POST", b"/bkt/dir/k").q(b"uploads", b"")),
        14 => ("UploadPart", rq("PUT", b"/bkt/dir/k").q(b"partNumber", b"1").q(b"uploadId", b"7b2a41a6-9d6b-4fd3-a9f9-5d1ba0ae6e3f").b(b"part")),
        _ => ("CompleteMultipartUpload", rq("POST", b"/bkt/dir/k").q(b"uploadId", b"7b2a41a6-9d6b-4fd3-a9f9-5d1ba0ae6e3f").b(b"<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>x</ETag></Part></CompleteMultipartUpload>")),
    }
}
/// multipart/form-data body
pub fn form(fields: &[(&str, &[u8])], file: Option<&[u8]>) -> Vec<u8> {
    let mut o = vec![];
    for (n, v) in fields { o.extend_from_slice(format!("--BND\r\nContent-Disposition: form-data; name=\"{}\"\r\n\r\n", n).as_bytes()); o.extend_from_slice(v); o.extend_from_slice(b"\r\n") }
    if let Some(f) = file { o.extend_from_slice(b"--BND\r\nContent-Disposition: form-data; name=\"file\"; filename=\"f\"\r\nContent-Type: text/plain\r\n\r\n"); o.extend_from_slice(f); o.extend_from_slice(b"\r\n") }
    o.extend_from_slice(b"--BND--\r\n");
    o
}
pub const FORM: &[u8] = b"multipart/form-data; boundary=BND";
