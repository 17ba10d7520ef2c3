//! Every header and query parameter of every operation, on its way in and out.
use crate::{fx::{op, rq, Rq}, rt::*, vfs, web};
use async_trait::async_trait;
use s3_server::dto::*;
use s3_server::errors::S3StorageResult;
use s3_server::{S3Service, S3Storage};
use std::collections::HashMap;

trait Show { fn show(&self) -> Option<String>; }
impl Show for Option<String> { fn show(&self) -> Option<String> { self.clone() } }
impl Show for Option<bool> { fn show(&self) -> Option<String> { self.map(|b| b.to_string()) } }
impl Show for Option<i64> { fn show(&self) -> Option<String> { self.map(|b| b.to_string()) } }
/// what the storage was given: fields and their values
static mut GOT: Vec<(&'static str, Option<String>)> = Vec::new();
static mut META: Vec<(String, String)> = Vec::new();
/// what the storage answers
static mut FILL: Option<String> = None;
static mut FLAG: bool = false;
static mut NUM: i64 = 0;
macro_rules! got { ($i:ident $(, $f:ident)*) => { unsafe { $(GOT.push((stringify!($f), $i.$f.show()));)* } } }
fn keep(m: &Option<HashMap<String, String>>) { if let Some(m) = m { for (k, v) in m { unsafe { META.push((k.clone(), v.clone())) } } unsafe { META.sort() } } }
trait Fill { fn fill(n: &'static str) -> Self; }
impl Fill for Option<String> { fn fill(n: &'static str) -> Self { unsafe { FILL.as_ref().map(|s| if n == "last_modified" { "2023-11-14T23:13:20+01:00".into() } else { format!("{}:{}", n, s) }) } } }
impl Fill for Option<bool> { fn fill(_: &'static str) -> Self { unsafe { FILL.as_ref().map(|_| FLAG) } } }
impl Fill for Option<i64> { fn fill(n: &'static str) -> Self { unsafe { FILL.as_ref().map(|_| if n == "content_length" { 3 } else { NUM }) } } }
fn fill_meta() -> Option<HashMap<String, String>> { unsafe { FILL.as_ref().map(|s| { let mut m = HashMap::new(); m.insert("n-1".to_string(), s.clone()); m }) } }
macro_rules! out { ($t:ident $(, $f:ident)*) => { $t { $($f: Fill::fill(stringify!($f)),)* ..Default::default() } } }
pub struct Full;
#[async_trait]
impl S3Storage for Full {
    async fn complete_multipart_upload(&self, i: CompleteMultipartUploadRequest) -> S3StorageResult<CompleteMultipartUploadOutput, CompleteMultipartUploadError> { got!(i, request_payer); Ok(out!(CompleteMultipartUploadOutput, expiration, server_side_encryption, version_id, ssekms_key_id, request_charged)) }
    async fn copy_object(&self, i: CopyObjectRequest) -> S3StorageResult<CopyObjectOutput, CopyObjectError> {
        keep(&i.metadata);
        got!(i, acl, cache_control, content_disposition, content_encoding, content_language, content_type, copy_source_if_match, copy_source_if_modified_since, copy_source_if_none_match, copy_source_if_unmodified_since, copy_source_sse_customer_algorithm, copy_source_sse_customer_key, copy_source_sse_customer_key_md5, expires, grant_full_control, grant_read, grant_read_acp, grant_write_acp, metadata_directive, object_lock_legal_hold_status, object_lock_mode, object_lock_retain_until_date, request_payer, sse_customer_algorithm, sse_customer_key, sse_customer_key_md5, ssekms_encryption_context, ssekms_key_id, server_side_encryption, storage_class, tagging, tagging_directive, website_redirect_location);
        let mut o = out!(CopyObjectOutput, expiration, copy_source_version_id, version_id, server_side_encryption, sse_customer_algorithm, sse_customer_key_md5, ssekms_key_id, ssekms_encryption_context, request_charged);
        o.copy_object_result = Some(CopyObjectResult::default());
        Ok(o)
    }
    async fn create_multipart_upload(&self, i: CreateMultipartUploadRequest) -> S3StorageResult<CreateMultipartUploadOutput, CreateMultipartUploadError> {
        keep(&i.metadata);
        got!(i, acl, cache_control, content_disposition, content_encoding, content_language, content_type, expires, grant_full_control, grant_read, grant_read_acp, grant_write_acp, object_lock_legal_hold_status, object_lock_mode, object_lock_retain_until_date, request_payer, sse_customer_algorithm, sse_customer_key, sse_customer_key_md5, ssekms_encryption_context, ssekms_key_id, server_side_encryption, storage_class, tagging, website_redirect_location);
        Ok(out!(CreateMultipartUploadOutput, abort_date, abort_rule_id, server_side_encryption, sse_customer_algorithm, sse_customer_key_md5, ssekms_key_id, ssekms_encryption_context, request_charged))
    }
    async fn create_bucket(&self, i: CreateBucketRequest) -> S3StorageResult<CreateBucketOutput, CreateBucketError> { got!(i, acl, grant_full_control, grant_read, grant_read_acp, grant_write, grant_write_acp, object_lock_enabled_for_bucket); Ok(out!(CreateBucketOutput, location)) }
    async fn delete_bucket(&self, i: DeleteBucketRequest) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> { got!(i, expected_bucket_owner); Ok(DeleteBucketOutput) }
    async fn delete_object(&self, i: DeleteObjectRequest) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> { got!(i, bypass_governance_retention, mfa, request_payer, version_id); Ok(out!(DeleteObjectOutput, delete_marker, version_id, request_charged)) }
    async fn delete_objects(&self, i: DeleteObjectsRequest) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> { got!(i, bypass_governance_retention, mfa, request_payer); Ok(out!(DeleteObjectsOutput, request_charged)) }
    async fn get_bucket_location(&self, i: GetBucketLocationRequest) -> S3StorageResult<GetBucketLocationOutput, GetBucketLocationError> { got!(i, expected_bucket_owner); Ok(GetBucketLocationOutput::default()) }
    async fn get_object(&self, i: GetObjectRequest) -> S3StorageResult<GetObjectOutput, GetObjectError> {
        got!(i, if_match, if_modified_since, if_none_match, if_unmodified_since, range, request_payer, sse_customer_algorithm, sse_customer_key, sse_customer_key_md5, version_id, part_number, response_cache_control, response_content_disposition, response_content_encoding, response_content_language, response_content_type, response_expires);
        let mut o = out!(GetObjectOutput, accept_ranges, cache_control, content_disposition, content_encoding, content_language, content_length, content_range, content_type, delete_marker, e_tag, expiration, expires, last_modified, missing_meta, object_lock_legal_hold_status, object_lock_mode, object_lock_retain_until_date, parts_count, replication_status, request_charged, restore, sse_customer_algorithm, sse_customer_key_md5, ssekms_key_id, server_side_encryption, storage_class, tag_count, version_id, website_redirect_location);
        o.metadata = fill_meta(); o.body = Some(ByteStream::from(b"REC".to_vec()));
        Ok(o)
    }
    async fn head_bucket(&self, i: HeadBucketRequest) -> S3StorageResult<HeadBucketOutput, HeadBucketError> { got!(i, expected_bucket_owner); Ok(HeadBucketOutput) }
    async fn head_object(&self, i: HeadObjectRequest) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
        got!(i, if_match, if_modified_since, if_none_match, if_unmodified_since, range, request_payer, sse_customer_algorithm, sse_customer_key, sse_customer_key_md5, version_id, part_number);
        let mut o = out!(HeadObjectOutput, accept_ranges, cache_control, content_disposition, content_encoding, content_language, content_length, content_type, delete_marker, e_tag, expiration, expires, last_modified, missing_meta, object_lock_legal_hold_status, object_lock_mode, object_lock_retain_until_date, parts_count, replication_status, request_charged, restore, sse_customer_algorithm, sse_customer_key_md5, ssekms_key_id, server_side_encryption, storage_class, version_id, website_redirect_location);
        o.metadata = fill_meta();
        Ok(o)
    }
    async fn list_buckets(&self, _: ListBucketsRequest) -> S3StorageResult<ListBucketsOutput, ListBucketsError> { Ok(ListBucketsOutput::default()) }
    async fn list_objects(&self, i: ListObjectsRequest) -> S3StorageResult<ListObjectsOutput, ListObjectsError> { got!(i, delimiter, encoding_type, marker, max_keys, prefix, request_payer); Ok(ListObjectsOutput::default()) }
    async fn list_objects_v2(&self, i: ListObjectsV2Request) -> S3StorageResult<ListObjectsV2Output, ListObjectsV2Error> { got!(i, continuation_token, delimiter, encoding_type, fetch_owner, max_keys, prefix, start_after, request_payer); Ok(ListObjectsV2Output::default()) }
    async fn put_object(&self, i: PutObjectRequest) -> S3StorageResult<PutObjectOutput, PutObjectError> {
        keep(&i.metadata);
        got!(i, acl, cache_control, content_disposition, content_encoding, content_language, content_length, content_md5, content_type, expires, grant_full_control, grant_read, grant_read_acp, grant_write_acp, object_lock_legal_hold_status, object_lock_mode, object_lock_retain_until_date, request_payer, sse_customer_algorithm, sse_customer_key, sse_customer_key_md5, ssekms_encryption_context, ssekms_key_id, server_side_encryption, storage_class, tagging, website_redirect_location);
        Ok(out!(PutObjectOutput, expiration, e_tag, server_side_encryption, version_id, sse_customer_algorithm, sse_customer_key_md5, ssekms_key_id, ssekms_encryption_context, request_charged))
    }
    async fn upload_part(&self, i: UploadPartRequest) -> S3StorageResult<UploadPartOutput, UploadPartError> { got!(i, content_length, content_md5, sse_customer_algorithm, sse_customer_key, sse_customer_key_md5); Ok(out!(UploadPartOutput, e_tag, server_side_encryption, sse_customer_algorithm, sse_customer_key_md5, ssekms_key_id, request_charged)) }
}
/// The HTTP header S3 gives a field.
fn header(f: &str) -> String {
    match f {
        "cache_control" | "content_disposition" | "content_encoding" | "content_language" | "content_type" | "content_md5" | "content_length" | "content_range" | "accept_ranges" | "if_match" | "if_modified_since" | "if_none_match" | "if_unmodified_since" | "range" | "expires" | "last_modified" | "location" => f.replace('_', "-"),
        "e_tag" => "etag".into(),
        "sse_customer_algorithm" => "x-amz-server-side-encryption-customer-algorithm".into(), "sse_customer_key" => "x-amz-server-side-encryption-customer-key".into(), "sse_customer_key_md5" => "x-amz-server-side-encryption-customer-key-md5".into(),
        "copy_source_sse_customer_algorithm" => "x-amz-copy-source-server-side-encryption-customer-algorithm".into(), "copy_source_sse_customer_key" => "x-amz-copy-source-server-side-encryption-customer-key".into(), "copy_source_sse_customer_key_md5" => "x-amz-copy-source-server-side-encryption-customer-key-md5".into(),
        "ssekms_key_id" => "x-amz-server-side-encryption-aws-kms-key-id".into(), "ssekms_encryption_context" => "x-amz-server-side-encryption-context".into(),
        "object_lock_legal_hold_status" => "x-amz-object-lock-legal-hold".into(), "object_lock_enabled_for_bucket" => "x-amz-bucket-object-lock-enabled".into(),
        "parts_count" => "x-amz-mp-parts-count".into(), "tag_count" => "x-amz-tagging-count".into(),
        _ => format!("x-amz-{}", f.replace('_', "-")),
    }
}
/// The query parameter S3 gives a field, for those that have one.
fn query(o: &str, f: &str) -> Option<String> {
    match (o, f) { (_, "version_id") => Some("versionId".into()), (_, "part_number") => Some("partNumber".into()), ("ListObjects" | "ListObjectsV2", "request_payer") => None, ("ListObjects" | "ListObjectsV2", _) => Some(f.replace('_', "-")), _ if f.starts_with("response_") => Some(f.replace('_', "-")), _ => None }
}
fn full() -> S3Service { let _ = vfs::vfs(); S3Service::new(Full) }
fn send(r: &Rq) -> web::Resp { unsafe { GOT.clear(); META.clear() } r.send(&full()) }
fn isbool(f: &str) -> bool { matches!(f, "bypass_governance_retention" | "object_lock_enabled_for_bucket" | "fetch_owner" | "delete_marker") }
fn isnum(f: &str) -> bool { matches!(f, "content_length" | "max_keys" | "part_number" | "missing_meta" | "parts_count" | "tag_count") }
fn ops() -> (&'static str, Rq) { let i = choice("op", 15); let (n, mut r) = op(i + 1); if n == "PutObject" || n == "UploadPart" { r.frags = vec![b"7".to_vec()] } (n, r) }
/// every parameter of an operation, all at once or one alone, arrives in its own field
#[no_mangle] pub extern "C" fn r_all_params() {
    let (name, r) = ops();
    let x = send(&r);
    if !x.ok() && !symbolic() { print(&format!("{name} {} {}", x.status, String::from_utf8_lossy(&x.body))) }
    check(x.ok(), "a request with parameters reaches its operation");
    let fields: Vec<&'static str> = unsafe { GOT.iter().map(|x| x.0).collect() };
    unsafe { for (f, v) in GOT.iter() { check(v.is_none() || *f == "content_length", "a parameter the request does not have is not made up") } check(META.is_empty(), "a parameter the request does not have is not made up") }
    let s = sym("v", 2); for b in &s { assume(within(*b, 0x21, 0x7e)) }
    let s = String::from_utf8(s).unwrap();
    let flag = choice("flag", 2) == 1;
    let which = choice("which", 2);
    let alone = if which == 0 { usize::MAX } else { choice("alone", fields.len()) };
    let mut r = r;
    let mut want: Vec<(&'static str, Option<String>)> = vec![];
    for (i, f) in fields.iter().enumerate() {
        if alone != usize::MAX && alone != i { want.push((f, None)); continue }
        let v = if isbool(f) { flag.to_string() } else if *f == "content_type" { "text/x".to_string() } else if *f == "content_length" { "1".to_string() } else if isnum(f) { "37".to_string() } else { format!("v{}-{}", i, s) };
        match query(name, f) { Some(q) => r.query.push((q.into_bytes(), v.as_bytes().to_vec())), None => r.headers.push((header(f), v.as_bytes().to_vec())) }
        want.push((f, Some(v)));
    }
    let meta = matches!(name, "PutObject" | "CreateMultipartUpload" | "CopyObject") && alone == usize::MAX;
    if meta { r.headers.push(("x-amz-meta-n-1".into(), s.as_bytes().to_vec())); r.headers.push(("x-amz-meta-n".into(), b"w".to_vec())) }
    let x = send(&r);
    if !x.ok() && !symbolic() { print(&format!("{name} {} {}", x.status, String::from_utf8_lossy(&x.body))) }
    check(x.ok(), "a request with parameters reaches its operation");
    unsafe {
        if !symbolic() { for (a, b) in GOT.iter().zip(&want) { if a != b { print(&format!("{name}: {:?} {:?}", a, b)) } } }
        let mut same = GOT.len() == want.len(); for (a, b) in GOT.iter().zip(&want) { same &= a == b || (a.0 == "content_length" && b.1.is_none()) }
        check(same, "the storage receives the parameters of the request");
        let w = if meta { vec![("n".to_string(), "w".to_string()), ("n-1".to_string(), s.clone())] } else { vec![] };
        check(META == w, "the storage receives the metadata of the request");
    }
    reach("params");
}
/// every header of every answer holds the storage's value, or the request fails
#[no_mangle] pub extern "C" fn x_headers() {
    let (name, r) = ops();
    let kind = choice("fill", 3);
    let s = match kind { 0 => None, 1 => { let v = sym("v", 2); for b in &v { assume(within(*b, 0x21, 0x7e)) } Some(String::from_utf8(v).unwrap()) } _ => { let v = sym("v", 1); assume(v[0] < 0x80); let mut t = String::from_utf8(v).unwrap(); t.push('.'); Some(t) } };
    unsafe { FILL = s.clone(); FLAG = choice("flag", 2) == 1; NUM = [0, 1, 99, i64::MAX, -1][choice("number", 5)] }
    let x = send(&r);
    let bad = s.as_ref().map_or(false, |s| { let b = s.as_bytes()[0]; (b < 0x20 && b != 9) || b == 0x7f });
    let outs: &[&str] = match name {
        "CompleteMultipartUpload" => &["expiration", "server_side_encryption", "version_id", "ssekms_key_id", "request_charged"],
        "CopyObject" => &["expiration", "copy_source_version_id", "version_id", "server_side_encryption", "sse_customer_algorithm", "sse_customer_key_md5", "ssekms_key_id", "ssekms_encryption_context", "request_charged"],
        "CreateMultipartUpload" => &["abort_date", "abort_rule_id", "server_side_encryption", "sse_customer_algorithm", "sse_customer_key_md5", "ssekms_key_id", "ssekms_encryption_context", "request_charged"],
        "CreateBucket" => &["location"], "DeleteObject" => &["delete_marker", "version_id", "request_charged"], "DeleteObjects" => &["request_charged"],
        "GetObject" => &["accept_ranges", "cache_control", "content_disposition", "content_encoding", "content_language", "content_length", "content_range", "content_type", "delete_marker", "e_tag", "expiration", "expires", "last_modified", "missing_meta", "object_lock_legal_hold_status", "object_lock_mode", "object_lock_retain_until_date", "parts_count", "replication_status", "request_charged", "restore", "sse_customer_algorithm", "sse_customer_key_md5", "ssekms_key_id", "server_side_encryption", "storage_class", "tag_count", "version_id", "website_redirect_location"],
        "HeadObject" => &["accept_ranges", "cache_control", "content_disposition", "content_encoding", "content_language", "content_length", "content_type", "delete_marker", "e_tag", "expiration", "expires", "last_modified", "missing_meta", "object_lock_legal_hold_status", "object_lock_mode", "object_lock_retain_until_date", "parts_count", "replication_status", "request_charged", "restore", "sse_customer_algorithm", "sse_customer_key_md5", "ssekms_key_id", "server_side_encryption", "storage_class", "version_id", "website_redirect_location"],
        "PutObject" => &["expiration", "e_tag", "server_side_encryption", "version_id", "sse_customer_algorithm", "sse_customer_key_md5", "ssekms_key_id", "ssekms_encryption_context", "request_charged"],
        "UploadPart" => &["e_tag", "server_side_encryption", "sse_customer_algorithm", "sse_customer_key_md5", "ssekms_key_id", "request_charged"],
        _ => &[],
    };
    if bad && outs.len() > 0 { check(x.status == 500, "what a header can not hold is not sent"); reach("refused"); return }
    check(x.ok(), "the output of the storage is sent");
    for f in outs {
        let h = header(f);
        let want: Option<Vec<u8>> = s.as_ref().map(|s| unsafe { if *f == "last_modified" { b"Tue, 14 Nov 2023 22:13:20 GMT".to_vec() } else if isbool(f) { FLAG.to_string().into_bytes() } else if *f == "content_length" { b"3".to_vec() } else if isnum(f) { NUM.to_string().into_bytes() } else { format!("{}:{}", f, s).into_bytes() } });
        if want.is_none() && (h == "content-length" || h == "content-type") { continue }
        let got = x.header(&h).map(|v| v.to_vec());
        if got != want && !symbolic() { print(&format!("{name} {h}: {:?} {:?}", got, want)) }
        check(got == want, "the headers of an answer are those of the storage");
    }
    let mut known: Vec<String> = outs.iter().map(|f| header(f)).collect(); known.push("content-length".into()); known.push("content-type".into());
    let m = matches!(name, "GetObject" | "HeadObject");
    if m { check(x.header("x-amz-meta-n-1").map(|v| v.to_vec()) == s.as_ref().map(|s| s.clone().into_bytes()), "the metadata of an answer is the storage's"); known.push("x-amz-meta-n-1".into()) }
    for (n, _) in x.headers.iter() { check(known.iter().any(|k| k == n.as_str()), "an answer has no headers but the storage's") }
    check(x.status == match name { "DeleteObject" | "DeleteBucket" => 204, "GetObject" if s.is_some() => 206, _ => 200 }, "the status of an answer is that of its operation");
    if name == "GetObject" { check(x.body == b"REC" && !x.body_err, "the body of an answer is the storage's") }
    reach("headers");
}
#[allow(dead_code)] fn unused() -> Rq { rq("GET", b"/") }
