//! Which operation a request names, and with which parameters.
use crate::{fx::*, rt::*, vfs::vfs, web};

fn alnum(b: u8) -> bool { within(b, b'a', b'z') | within(b, b'0', b'9') }
fn octet(s: &[u8]) -> bool {
    match s.len() { 1 => within(s[0], b'0', b'9'), 2 => within(s[0], b'1', b'9') & within(s[1], b'0', b'9'), 3 => { let v = (s[0].wrapping_sub(b'0') as u32) * 100 + (s[1].wrapping_sub(b'0') as u32) * 10 + s[2].wrapping_sub(b'0') as u32; within(s[0], b'1', b'9') & within(s[1], b'0', b'9') & within(s[2], b'0', b'9') & (v < 256) } _ => false }
}
fn ipv4(s: &[u8]) -> bool { let p: Vec<&[u8]> = s.split(|b| *b == b'.').collect(); p.len() == 4 && octet(p[0]) & octet(p[1]) & octet(p[2]) & octet(p[3]) }
fn valid_bucket(n: &[u8]) -> bool {
    if n.len() < 3 || n.len() > 63 { return false }
    let mut ok = alnum(n[0]) & alnum(n[n.len() - 1]);
    for b in n { ok &= alnum(*b) | (*b == b'.') | (*b == b'-') }
    if n.starts_with(b"xn--") { ok = false }
    ok && !ipv4(n)
}
fn utf8(b: &[u8]) -> bool { std::str::from_utf8(b).is_ok() }
/// names of buckets
#[no_mangle] pub extern "C" fn r_bucket() {
    let svc = rec(false);
    let n = match choice("class", 8) {
        0 => { let k = 1 + choice("len", 3); sym("name", k) }
        1 => { let mut v = vec![b'a'; [1, 2, 3, 4, 62, 63, 64, 65, 255][choice("len", 9)]]; let l = v.len(); let x = sym("name", 2); v[l / 2] = x[0]; v[l - 1] = x[1]; v }
        2 => { let mut v = vec![b'a'; 63]; v[0] = sym_u8("name"); v }
        3 => { let v = sym_from("name", 7, b"19.a-"); v }
        4 => { let mut v = b"192.168.25".to_vec(); v.extend(sym_from("name", 3, b"0123456789.a")); assume(v[10] != b'0' || v[11] == b'.' ); v }
        // addresses: numbers of one to three digits with dots between them
        6 => {
            let mut v = vec![];
            for (i, l) in [&[1usize, 1, 1, 1][..], &[2, 1, 1, 1], &[1, 1, 1, 2], &[1, 1, 3, 1], &[3, 1, 1, 3], &[1, 1, 1], &[1, 1, 1, 1, 1]][choice("lengths", 7)].iter().enumerate() { if i > 0 { v.push(b'.') } let d = sym_from("name", *l, b"0123456789"); v.extend(d) }
            v
        }
        5 => { let mut v = b"xn-".to_vec(); v.extend(sym("name", 2)); v.push(b'a'); v }
        _ => { let k = 4 + choice("len", 2); sym_from("name", k, b"az09AZ.-_:~ ") }
    };
    for b in &n { assume(*b != b'/') }
    // leading zeros of an octet are neither here nor there
    for p in n.split(|b| *b == b'.') { if p.len() > 1 && p[0] == b'0' { assume(false) } }
    let mut p = b"/".to_vec(); p.extend_from_slice(&n);
    let k = choice("path", 3);
    let r = match k { 0 => rq("PUT", &p), 1 => { p.push(b'/'); rq("PUT", &p) } _ => { p.extend_from_slice(b"/k"); rq("GET", &p) } };
    let x = r.send(&svc);
    if valid_bucket(&n) {
        check(x.ok() && calls().len() == 1, "a request on a valid bucket name reaches the storage");
        if let Some(c) = calls().first() { check(c.bucket.as_bytes() == n && c.op == ["CreateBucket", "CreateBucket", "GetObject"][k] && c.key == ["", "", "k"][k], "the storage receives the bucket and key of the URL") }
        reach("valid");
    } else {
        check(x.status == 400 && calls().is_empty(), "an invalid bucket name is refused and never reaches the storage");
        if utf8(&n) { check(code(&x) == b"InvalidBucketName", "an invalid bucket name is refused as InvalidBucketName") }
        reach("invalid");
    }
}
/// the shared service, as hyper drives it, answers as the service itself does
#[no_mangle] pub extern "C" fn r_shared() {
    let (o, mut r) = op(choice("op", NOPS));
    // an unsigned request is refused by both
    let auth = choice("auth", 2) == 1;
    if auth && choice("signed", 2) == 1 { let _ = crate::sig::sign(&mut r, &crate::sig::me(), crate::sig::Payload::Signed); }
    else if r.path.len() > 4 { let n = r.path.len(); r.path[n - 1] = sym_u8("byte"); assume(within(r.path[n - 1], 0x21, 0x7e) & (r.path[n - 1] != b'/')) }
    let a = r.send(&rec(auth));
    let ca = std::mem::take(calls());
    let s = rec(auth).into_shared();
    let Some(q) = r.build() else { assume(false); return };
    let x = web::send_shared(&s, q);
    let cb = calls();
    check(x.status == a.status && x.body == a.body && x.headers == a.headers, "the shared service answers as the service does");
    check(ca.len() == cb.len() && ca.iter().zip(cb.iter()).all(|(a, b)| a.op == b.op && a.bucket == b.bucket && a.key == b.key && a.body == b.body && a.extra == b.extra && a.meta == b.meta), "the shared service calls the storage as the service does");
    if let Some(c) = cb.first() { check(c.op == o, "the storage is asked for the operation"); reach("called") } else { reach("refused") }
}
/// writes a path as a client may: characters that need no escape as they are or escaped in either case
fn spell(p: &[u8], style: usize) -> Vec<u8> {
    let mut o = vec![];
    for (i, &b) in p.iter().enumerate() {
        let raw = unreserved(b) || b == b'/' || (style == 1 && matches!(b, b'!' | b'$' | b'&' | b'\'' | b'(' | b')' | b'*' | b'+' | b',' | b';' | b'=' | b':' | b'@'));
        if i == 0 || (raw && style != 2) { o.push(b) } else { o.push(b'%'); let t = if style == 2 { b"0123456789abcdef" } else { b"0123456789ABCDEF" }; o.push(t[(b >> 4) as usize]); o.push(t[(b & 15) as usize]) }
    }
    o
}
/// keys
#[no_mangle] pub extern "C" fn r_key() {
    let svc = rec(false);
    let key = match choice("class", 3) { 0 => sym("key", 1), 1 => { let mut k = b"a".to_vec(); k.extend(sym("key", 3)); k } _ => { let mut k = sym("key", 2); k.extend_from_slice(b"//z/"); k } };
    let mut p = b"/bkt/".to_vec(); p.extend_from_slice(&key);
    let (m, opn) = [("GET", "GetObject"), ("PUT", "PutObject"), ("DELETE", "DeleteObject"), ("HEAD", "HeadObject")][choice("method", 4)];
    let r = rq(m, &p);
    let Some(h) = r.build_uri(&spell(&p, choice("style", 3))) else { check(false, "the path is a URI"); return };
    let x = web::send(&svc, h);
    if utf8(&key) {
        check(x.ok() && calls().len() == 1, "a request on a key reaches the storage");
        if let Some(c) = calls().first() { check(c.op == opn && c.bucket == "bkt" && c.key.as_bytes() == key, "the storage receives the bucket and key of the URL") }
        reach("key");
    } else { check(x.status == 400 && calls().is_empty(), "a path that is not UTF-8 is refused"); reach("refused") }
}
/// lengths of keys
#[no_mangle] pub extern "C" fn r_key_len() {
    let svc = rec(false);
    let n = [1, 2, 255, 256, 1022, 1023, 1024, 1025, 1026, 2048, 5000][choice("len", 11)];
    let mut key = match choice("chars", 3) { 0 => vec![b'k'; n], 1 => { let mut k = "é".repeat(n / 2).into_bytes(); if n % 2 == 1 { k.push(b'x') } k } _ => b"dir/".iter().cycle().take(n).cloned().collect() };
    let l = key.len(); let s = sym_u8("last"); assume(s < 0x80); if key[l - 1] < 0x80 { key[l - 1] = s }
    let via = choice("via", 3);
    let (x, want) = match via {
        2 => { let f = crate::auth::with_key(&key); (f.send(&rec_form()), "PutObject") }
        _ => { let mut p = b"/bkt/".to_vec(); p.extend_from_slice(&key); (rq(["GET", "PUT"][via], &p).send(&svc), ["GetObject", "PutObject"][via]) }
    };
    if n <= 1024 {
        check(x.ok() && calls().len() == 1, "a key of at most 1024 bytes is accepted");
        if let Some(c) = calls().first() { check(c.op == want && c.key.as_bytes() == key, "the storage receives the bucket and key of the URL") }
        reach("accepted");
    } else {
        check(x.status == 400 && calls().is_empty() && code(&x) == b"KeyTooLongError", "a key of more than 1024 bytes is refused");
        reach("refused");
    }
}
fn rec_form() -> s3_server::S3Service { rec(true) }

const SUBS: [&str; 32] = ["accelerate", "acl", "analytics", "attributes", "cors", "encryption", "intelligent-tiering", "inventory", "legal-hold", "lifecycle", "logging", "metrics", "notification", "object-lock", "ownershipControls", "policy", "policyStatus", "publicAccessBlock", "replication", "requestPayment", "restore", "retention", "select", "tagging", "torrent", "versioning", "versions", "website", "uploads", "uploadId", "location", "delete"];
/// sub-resource operations of S3 the service does not implement: sub-resource, methods on a bucket, methods on an object
const OTHER: [(&str, &[&str], &[&str]); 30] = [
    ("accelerate", &["GET", "PUT"], &[]), ("acl", &["GET", "PUT"], &["GET", "PUT"]), ("analytics", &["GET", "PUT", "DELETE"], &[]), ("attributes", &[], &["GET"]), ("cors", &["GET", "PUT", "DELETE"], &[]),
    ("encryption", &["GET", "PUT", "DELETE"], &[]), ("intelligent-tiering", &["GET", "PUT", "DELETE"], &[]), ("inventory", &["GET", "PUT", "DELETE"], &[]), ("legal-hold", &[], &["GET", "PUT"]), ("lifecycle", &["GET", "PUT", "DELETE"], &[]),
    ("logging", &["GET", "PUT"], &[]), ("metrics", &["GET", "PUT", "DELETE"], &[]), ("notification", &["GET", "PUT"], &[]), ("object-lock", &["GET", "PUT"], &[]), ("ownershipControls", &["GET", "PUT", "DELETE"], &[]),
    ("policy", &["GET", "PUT", "DELETE"], &[]), ("policyStatus", &["GET"], &[]), ("publicAccessBlock", &["GET", "PUT", "DELETE"], &[]), ("replication", &["GET", "PUT", "DELETE"], &[]), ("requestPayment", &["GET", "PUT"], &[]),
    ("restore", &[], &["POST"]), ("retention", &[], &["GET", "PUT"]), ("select", &[], &["POST"]), ("tagging", &["GET", "PUT", "DELETE"], &["GET", "PUT", "DELETE"]), ("torrent", &[], &["GET"]),
    ("versioning", &["GET", "PUT"], &[]), ("versions", &["GET"], &[]), ("website", &["GET", "PUT", "DELETE"], &[]), ("uploads", &["GET"], &[]), ("uploadId", &[], &["GET", "DELETE"]),
];
fn value(k: usize) -> Vec<u8> { match k { 0 => vec![], _ => sym_from("value", 3, b"aZ0-%=&/+ ") } }
/// sub-resources whose operations are not implemented are refused
#[no_mangle] pub extern "C" fn r_unsupported() {
    let svc = rec(false);
    let (s, b, o) = OTHER[choice("sub", OTHER.len())];
    let k = choice("method", b.len() + o.len() + 2);
    let (m, p): (&str, &[u8]) = if k < b.len() { (b[k], b"/bkt") } else if k < b.len() + o.len() { (o[k - b.len()], b"/bkt/dir/k") } else { ("HEAD", [&b"/bkt"[..], b"/bkt/dir/k"][k - b.len() - o.len()]) };
    let m = ["GET", "PUT", "DELETE", "POST", "HEAD"].iter().find(|x| **x == m).unwrap();
    let mut r = rq(m, p);
    let extra = choice("extra", 4);
    if extra == 1 { r = r.q(b"prefix", b"a") } if extra == 3 { r = r.q(b"list-type", b"2").q(b"id", b"x") }
    r = r.q(s.as_bytes(), &value(choice("value", 2)));
    if extra == 2 { r = r.q(b"versionId", b"v").q(b"partNumber", b"1") }
    if extra == 0 && choice("body", 2) == 1 { r = r.b(b"<Tagging><TagSet></TagSet></Tagging>") }
    let x = r.send(&svc);
    check(calls().is_empty(), "a request for an operation that is not implemented does not run another one");
    check(x.status >= 400, "a request for an operation that is not implemented is refused");
    reach("refused");
}
/// UploadPartCopy, and methods no operation has
#[no_mangle] pub extern "C" fn r_unsupported_other() {
    let svc = rec(false);
    let r = match choice("kind", 6) {
        0 => { let r = rq("PUT", b"/bkt/k").q(b"partNumber", b"1").q(b"uploadId", b"7b2a41a6-9d6b-4fd3-a9f9-5d1ba0ae6e3f").h("x-amz-copy-source", b"other/src"); if choice("range", 2) == 1 { r.h("x-amz-copy-source-range", b"bytes=0-9") } else { r } }
        1 => rq(["PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS"][choice("method", 6)], b"/"),
        2 => rq(["PATCH", "OPTIONS", "TRACE", "CONNECT", "get", "PUTX"][choice("method", 6)], [&b"/"[..], b"/bkt", b"/bkt/k"][choice("path", 3)]),
        3 => rq("POST", b"/bkt"), 4 => rq("POST", b"/bkt/k").b(b"data"), _ => rq("PUT", b"/bkt/k").q(b"uploadId", b"7b2a41a6-9d6b-4fd3-a9f9-5d1ba0ae6e3f").b(b"data"),
    };
    let x = r.send(&svc);
    check(calls().is_empty(), "a request for an operation that is not implemented does not run another one");
    check(x.status >= 400, "a request for an operation that is not implemented is refused");
    reach("refused");
}
/// a query parameter that names nothing does not change the operation
#[no_mangle] pub extern "C" fn r_unknown() {
    let svc = rec(false);
    let (name, r) = op(choice("op", NOPS));
    let n = 1 + choice("len", 8);
    let q = sym("name", n);
    for b in &q { assume(within(*b, b'a', b'z') | within(*b, b'A', b'Z') | (*b == b'-')) }
    for s in SUBS.iter().chain(["partNumber", "list-type", "prefix", "delimiter", "marker", "max-keys", "fetch-owner", "encoding-type", "start-after"].iter()) { if s.len() == n { assume(q[..] != *s.as_bytes()) } }
    let mut r = r; let at = choice("at", r.query.len() + 1);
    r.query.insert(at, (q, value(choice("value", 2))));
    let x = r.send(&svc);
    check(x.ok() && calls().len() == 1, "an unknown query parameter does not change the operation");
    if let Some(c) = calls().first() { check(c.op == name, "an unknown query parameter does not change the operation") }
    reach("same");
}
fn ustr(name: &str, n: usize) -> Vec<u8> { let v = sym(name, n); assume(utf8(&v)); v }
/// the implemented operations, with all their parameters, whatever the order of the query
#[no_mangle] pub extern "C" fn r_params() {
    let svc = rec(false);
    let (mut r, want, par): (Rq, &str, Vec<(&str, &str, Vec<u8>)>) = match choice("op", 7) {
        0 => (rq("GET", b"/bkt"), "ListObjects", vec![("prefix", "prefix", ustr("a", 1)), ("marker", "marker", ustr("b", 1)), ("delimiter", "delimiter", b"/".to_vec())]),
        1 => (rq("GET", b"/bkt"), "ListObjects", vec![("max-keys", "max-keys", sym_from("n", 2, b"159")), ("encoding-type", "encoding-type", b"url".to_vec()), ("prefix", "prefix", vec![])]),
        2 => (rq("GET", b"/bkt").q(b"list-type", b"2"), "ListObjectsV2", vec![("prefix", "prefix", ustr("a", 2)), ("start-after", "start-after", ustr("b", 1)), ("continuation-token", "continuation-token", b"t/+".to_vec())]),
        3 => (rq("GET", b"/bkt").q(b"list-type", b"2"), "ListObjectsV2", vec![("max-keys", "max-keys", sym_from("n", 2, b"159")), ("delimiter", "delimiter", ustr("c", 2)), ("encoding-type", "encoding-type", b"url".to_vec())]),
        4 => (rq("PUT", b"/bkt/k").b(b"x"), "UploadPart", vec![("partNumber", "part", sym_from("n", 2, b"129")), ("uploadId", "uploadId", ustr("id", 2))]),
        5 => (rq("POST", b"/bkt/k").b(b"<CompleteMultipartUpload><Part><PartNumber>7</PartNumber></Part></CompleteMultipartUpload>"), "CompleteMultipartUpload", vec![("uploadId", "uploadId", ustr("id", 2))]),
        _ => (rq("DELETE", b"/bkt/k"), "DeleteObject", vec![("versionId", "versionId", ustr("v", 2))]),
    };
    let mut p = par.clone(); let k = choice("rotate", p.len()); p.rotate_left(k);
    for (n, _, v) in &p { r.query.push((n.as_bytes().to_vec(), v.clone())) }
    if choice("front", 2) == 1 { r.query.rotate_right(1) }
    let x = r.send(&svc);
    check(x.ok() && calls().len() == 1, "a request with parameters reaches its operation");
    let Some(c) = calls().first() else { return };
    check(c.op == want && c.bucket == "bkt", "a request with parameters reaches its operation");
    for (_, n, v) in &par { if !n.is_empty() { check(c.get(n).map(|x| x.as_bytes()) == Some(&v[..]), "the storage receives the parameters of the request") } }
    reach("params");
}
/// header parameters
#[no_mangle] pub extern "C" fn r_header_params() {
    let svc = rec(false);
    let v = sym("v", 3); for b in &v { assume(within(*b, 0x21, 0x7e)) }
    let d = sym("d", 1);
    let (r, want, n): (Rq, &str, &str) = match choice("kind", 5) {
        0 => (rq("PUT", b"/bkt/k").b(&d).h("x-amz-acl", &v), "PutObject", "acl"),
        1 => (rq("PUT", b"/bkt/k").b(&d).h("x-amz-storage-class", &v), "PutObject", "storage-class"),
        2 => { let mut s = b"other/".to_vec(); s.extend_from_slice(&v); let r = rq("PUT", b"/bkt/k").h("x-amz-copy-source", &s); let x = r.send(&svc); check(x.ok() && calls().len() == 1 && calls()[0].op == "CopyObject" && calls()[0].get("source").map(|x| x.as_bytes()) == Some(&s[..]), "the storage receives the parameters of the request"); reach("params"); return }
        3 => (rq("GET", b"/bkt/k").h("range", &v), "GetObject", "range"),
        _ => (rq("PUT", b"/bkt/k").b(&d).h("x-amz-meta-n", &v), "PutObject", ""),
    };
    let x = r.send(&svc);
    check(x.ok() && calls().len() == 1 && calls()[0].op == want, "a request with parameters reaches its operation");
    if n.is_empty() { check(calls()[0].meta.len() == 1 && calls()[0].meta[0].0 == "n" && calls()[0].meta[0].1.as_bytes() == v, "the storage receives the parameters of the request") }
    else { check(calls()[0].get(n).map(|x| x.as_bytes()) == Some(&v[..]), "the storage receives the parameters of the request") }
    if want == "PutObject" { check(calls()[0].body == d, "the storage receives the body of the request") }
    reach("params");
}

/// A well-formed answer: a status, and for an error an S3 error document.
pub fn answered(x: &web::Resp, head: bool) {
    check(x.status >= 200 && x.status < 600, "every request is answered");
    if x.status >= 400 && !head {
        let (c, e) = (code(x), texts(&x.body, "Error"));
        check(!c.is_empty() && e.len() == 1, "an error is answered with an S3 error document");
        check(x.header("content-type").map_or(false, |t| t.starts_with(b"text/xml") || t.starts_with(b"application/xml")), "an error is answered with an S3 error document");
    }
    check(!x.body_err || head, "the body of an answer is complete");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    reach("answered");
}
const HEADERS: [&str; 22] = ["range", "content-type", "content-length", "authorization", "x-amz-date", "x-amz-content-sha256", "x-amz-copy-source", "x-amz-meta-a", "x-amz-acl", "x-amz-storage-class", "x-amz-mp-parts-count", "x-amz-bypass-governance-retention", "x-amz-bucket-object-lock-enabled", "x-amz-decoded-content-length", "content-md5", "expires", "x-amz-tagging", "if-match", "x-amz-copy-source-if-match", "x-amz-metadata-directive", "x-amz-mfa", "x-amz-request-payer"];
/// arbitrary values of headers
#[no_mangle] pub extern "C" fn r_garbage_header() {
    let kind = choice("service", 3);
    let svc = match kind { 0 => rec(false), 1 => rec(true), _ => fs() };
    let (name, mut r) = op(choice("op", NOPS));
    let h = HEADERS[choice("header", HEADERS.len())];
    if kind != 0 && !matches!(h, "range" | "authorization" | "x-amz-date" | "x-amz-content-sha256" | "content-type" | "x-amz-copy-source" | "x-amz-meta-a" | "x-amz-storage-class") { return }
    let mut v = match (h, choice("prefix", 2)) { (_, 0) => vec![], ("range", _) => b"bytes=".to_vec(), ("content-type", _) => b"multipart/form-data; boundary=".to_vec(), ("authorization", _) => b"AWS4-HMAC-SHA256 Credential=a/20231114/r/s3/aws4_request, SignedHeaders=host, Signature=".to_vec(), ("x-amz-date", _) => b"20231114T2213".to_vec(), ("x-amz-copy-source", _) => b"other/".to_vec(), ("content-length", _) => b"922337203685477580".to_vec(), ("x-amz-content-sha256", _) => b"STREAMING-AWS4-HMAC-SHA256-PAYLOA".to_vec(), _ => return };
    let n = choice("len", 3);
    v.extend(sym("value", n));
    r.headers.retain(|(x, _)| x != h);
    r.headers.push((h.into(), v.clone()));
    if choice("twice", 2) == 1 { r.headers.push((h.into(), v)) }
    answered(&r.send(&svc), name.starts_with("Head"));
}
/// arbitrary values of query parameters
#[no_mangle] pub extern "C" fn r_garbage_query() {
    let kind = choice("service", 3);
    let svc = match kind { 0 => rec(false), 1 => rec(true), _ => fs() };
    let names: &[&str] = if kind == 1 { &["X-Amz-Signature", "X-Amz-Date", "X-Amz-Expires", "X-Amz-Credential", "X-Amz-Algorithm", "X-Amz-SignedHeaders"] } else { &["max-keys", "partNumber", "uploadId", "prefix", "list-type", "fetch-owner", "versionId", "part-number", "encoding-type", "uploads", "delete", "location"] };
    let q = names[choice("name", names.len())];
    let (name, mut r) = if kind == 1 { let (n, mut r) = op([0, 8, 9][choice("op", 3)]); crate::sig::presign(&mut r, &crate::sig::me(), b"600"); (n, r) } else { op(choice("op", NOPS)) };
    r.query.retain(|(x, _)| x != q.as_bytes());
    let n = choice("len", if kind == 2 { 2 } else { 3 });
    let v = sym("value", n);
    r.query.push((q.as_bytes().to_vec(), v.clone()));
    if choice("twice", 2) == 1 { r.query.push((q.as_bytes().to_vec(), v)) }
    answered(&r.send(&svc), name.starts_with("Head"));
}
/// arbitrary request targets
#[no_mangle] pub extern "C" fn r_garbage_uri() {
    let svc = if choice("service", 2) == 0 { rec(false) } else { fs() };
    let m = ["GET", "PUT", "POST", "DELETE", "HEAD"][choice("method", 5)];
    let mut u = [&b"/"[..], b"/bkt", b"/bkt/", b"/bkt?", b"/bkt/k?uploadId=", b"/bkt/%"][choice("prefix", 6)].to_vec();
    let n = 1 + choice("len", 3);
    u.extend(sym_from("uri", n, b"/%?&=+.aF20#-;~"));
    let Some(r) = rq(m, b"/").build_uri(&u) else { reach("not a URI"); return };
    answered(&web::send(&svc, r), m == "HEAD");
}
/// arbitrary XML bodies
#[no_mangle] pub extern "C" fn r_garbage_body() {
    let svc = if choice("service", 2) == 0 { rec(false) } else { fs() };
    let (r, t): (Rq, &[u8]) = match choice("op", 3) {
        0 => (rq("PUT", b"/newbucket"), b"<CreateBucketConfiguration><LocationConstraint>x</LocationConstraint></CreateBucketConfiguration>"),
        1 => (rq("POST", b"/bkt").q(b"delete", b""), b"<Delete><Object><Key>k</Key></Object><Quiet>true</Quiet></Delete>"),
        _ => (rq("POST", b"/bkt/k").q(b"uploadId", b"7b2a41a6-9d6b-4fd3-a9f9-5d1ba0ae6e3f"), b"<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>x</ETag></Part></CompleteMultipartUpload>"),
    };
    let mut b = t.to_vec();
    let at = choice("at", b.len());
    match choice("edit", 4) { 0 => b[at] = sym_u8("byte"), 1 => { b.truncate(at) } 2 => b.insert(at, sym_u8("byte")), _ => { b.truncate(at); let x = sym_from("tail", 2, b"<>/&;a1 \"'?!-"); b.extend(x) } }
    let mut r = r.b(&b);
    if choice("fail", 2) == 1 { r = r.fail() }
    answered(&r.send(&svc), false);
}
/// arbitrary form bodies
#[no_mangle] pub extern "C" fn r_garbage_form() {
    let svc = rec(true);
    let w = form(&[("key", b"k"), ("policy", b"e30=")], Some(b"data"));
    let mut b = w.clone();
    let mut t = FORM.to_vec();
    match choice("edit", 6) {
        // the content type: cut, with a changed byte, without its parameter
        3 => { let n = choice("len", t.len()); t.truncate(n) }
        4 => { let at = choice("at", t.len()); t[at] = sym_u8("byte"); assume((t[at] >= 0x20) & (t[at] != 0x7f)) }
        5 => { t = b"multipart/form-data".to_vec(); t.extend([&b""[..], b";", b"; ", b";boundary", b"; boundary=", b"; boundary=\"\"", b"; boundary=\"", b"; charset=utf-8"][choice("parameter", 8)]); t.extend(sym("tail", choice("tail", 2))); for c in &t { assume((*c >= 0x20) & (*c != 0x7f)) } }
        e => { let at = choice("at", b.len()); match e { 0 => b[at] = sym_u8("byte"), 1 => b.insert(at, sym_u8("byte")), _ => { b.remove(at); } } }
    }
    answered(&rq("POST", b"/bkt").h("content-type", &t).b(&b).send(&svc), false);
}
