//! XML documents and error answers.
use crate::{fx::*, rt::*, web};
use s3_server::errors::S3ErrorCode;

/// A strict reader: (depth, element name, text) for each element, in document order; None if not well-formed.
#[derive(PartialEq, Clone, Debug)]
pub struct El { pub depth: usize, pub name: Vec<u8>, pub text: Vec<u8> }
pub fn read(x: &[u8]) -> Option<Vec<El>> {
    let mut out: Vec<El> = vec![]; let mut open: Vec<usize> = vec![]; let mut i = 0; let mut roots = 0;
    if x.starts_with(b"<?xml ") { while i + 1 < x.len() && !(x[i] == b'?' && x[i + 1] == b'>') { i += 1 } i += 2 }
    while i < x.len() {
        if x[i] == b'<' {
            let mut j = i + 1;
            while j < x.len() && x[j] != b'>' { j += 1 }
            if j >= x.len() { return None }
            let tag = &x[i + 1..j];
            i = j + 1;
            if tag.first() == Some(&b'/') { let o = open.pop()?; if out[o].name != tag[1..] { return None } continue }
            let empty = tag.last() == Some(&b'/');
            let mut n = if empty { &tag[..tag.len() - 1] } else { tag };
            while n.last() == Some(&b' ') { n = &n[..n.len() - 1] }
            for b in n { if !(b.is_ascii_alphanumeric()) { return None } }
            if n.is_empty() { return None }
            if open.is_empty() { roots += 1; if roots > 1 { return None } }
            out.push(El { depth: open.len(), name: n.to_vec(), text: vec![] });
            if !empty { open.push(out.len() - 1) }
            continue
        }
        let Some(&o) = open.last() else { if matches!(x[i], b' ' | b'\n') { i += 1; continue } return None };
        if x[i] == b'&' {
            let mut hit = false;
            for (n, v) in [(&b"&amp;"[..], b'&'), (b"&lt;", b'<'), (b"&gt;", b'>'), (b"&quot;", b'"'), (b"&apos;", b'\''), (b"&#xA;", b'\n'), (b"&#xD;", b'\r'), (b"&#x9;", b'\t'), (b"&#10;", b'\n'), (b"&#13;", b'\r')] { if x[i..].starts_with(n) { out[o].text.push(v); i += n.len(); hit = true; break } }
            if !hit { return None }
            continue
        }
        if x[i] < 0x20 && !matches!(x[i], b'\t' | b'\n' | b'\r') { return None }
        if x[i] == b'\r' { if i + 1 >= x.len() || x[i + 1] != b'\n' { out[o].text.push(b'\n') } i += 1; continue }
        out[o].text.push(x[i]); i += 1
    }
    if open.is_empty() && roots == 1 { Some(out) } else { None }
}
/// text an XML document can hold
fn text(name: &str, n: usize) -> String { let v = sym(name, n); for b in &v { assume((*b >= 0x20) | (*b == b'\t') | (*b == b'\n')) } let s = String::from_utf8(v); assume(s.is_ok()); let s = s.unwrap(); assume(!s.contains('\u{fffe}') && !s.contains('\u{ffff}')); s }
fn set(i: usize, s: &str) { unsafe { while TEXT.len() <= i { TEXT.push(None) } TEXT[i] = Some(s.to_string()) } }
fn el(depth: usize, name: &str, t: &str) -> El { El { depth, name: name.into(), text: t.as_bytes().to_vec() } }
/// Compares documents up to the order of sibling elements with different names.
fn same(got: &[El], want: &[El]) -> bool {
    fn tree(v: &[El]) -> Vec<(usize, usize)> { let mut o = vec![]; let mut i = 0; while i < v.len() { let mut j = i + 1; while j < v.len() && v[j].depth > v[i].depth { j += 1 } o.push((i, j)); i = j } o }
    let (g, w) = (tree(got), tree(want));
    if g.len() != w.len() { return false }
    let mut ok = true;
    let mut names: Vec<&[u8]> = w.iter().map(|x| &want[x.0].name[..]).collect(); names.sort(); names.dedup();
    for n in names {
        let a: Vec<_> = g.iter().filter(|x| got[x.0].name == n).collect(); let b: Vec<_> = w.iter().filter(|x| want[x.0].name == n).collect();
        if a.len() != b.len() { return false }
        for (a, b) in a.iter().zip(&b) { ok &= got[a.0].text == want[b.0].text; ok &= same(&got[a.0 + 1..a.1], &want[b.0 + 1..b.1]) }
    }
    ok
}
fn expect(r: Rq, want: &[El]) {
    let x = r.send(&rec(false));
    check(x.ok(), "the output of the storage is sent");
    let d = read(&x.body);
    check(d.is_some(), "an XML answer is well-formed");
    check(x.header("content-type").map_or(false, |t| t.starts_with(b"text/xml") || t.starts_with(b"application/xml")), "an XML answer says that it is XML");
    if let Some(d) = d { check(same(&d, want), "an XML answer is the document S3 prescribes, holding the texts of the storage") }
    reach("document");
}
/// texts of every XML answer
#[no_mangle] pub extern "C" fn x_out() {
    let s = match choice("len", 5) { 0 => text("text", 0), 1 => text("text", 1), 2 => text("text", 3), 3 => { let mut s = "&".to_string(); s.push_str(&text("text", 1)); s.push(';'); s } _ => ["&amp;", "&lt;x&gt;", "&#65;", "<![CDATA[x]]>", "<!-- x -->", "&amp;amp;"][choice("entity", 6)].to_string() };
    let mut u = s.clone(); u.push_str("]]>");
    let d = "2023-11-14T22:13:20.000Z";
    match choice("doc", 8) {
        0 => { set(0, &s); set(1, &u); set(2, "i"); set(3, &s); expect(op(0).1, &[el(0, "ListAllMyBucketsResult", ""), el(1, "Buckets", ""), el(2, "Bucket", ""), el(3, "Name", &s), el(3, "CreationDate", d), el(2, "Bucket", ""), el(3, "Name", &u), el(3, "CreationDate", d), el(1, "Owner", ""), el(2, "ID", "i"), el(2, "DisplayName", &s)]) }
        1 => { set(0, &s); expect(op(4).1, &[el(0, "LocationConstraint", &s)]) }
        2 => {
            for i in [0, 2, 4, 6, 11] { set(i, &s) } for i in [1, 5, 13, 16] { set(i, &u) } for i in [3, 10, 12, 14, 15, 17, 18] { set(i, "c") }
            expect(op(5).1, &[el(0, "ListBucketResult", ""), el(1, "Contents", ""), el(2, "Key", &s), el(2, "ETag", &u), el(2, "LastModified", d), el(2, "Size", "7"), el(2, "StorageClass", &s), el(2, "Owner", ""), el(3, "ID", "c"), el(3, "DisplayName", &s), el(1, "Contents", ""), el(2, "Key", &u), el(2, "ETag", &s), el(2, "LastModified", d), el(2, "Size", "7"),
                el(1, "Name", "c"), el(1, "Prefix", &s), el(1, "Delimiter", "c"), el(1, "Marker", &u), el(1, "NextMarker", "c"), el(1, "EncodingType", "c"), el(1, "CommonPrefixes", ""), el(2, "Prefix", &u), el(1, "CommonPrefixes", ""), el(2, "Prefix", "c"), el(1, "MaxKeys", "1000"), el(1, "IsTruncated", "true")])
        }
        3 => {
            for i in [0, 2, 4, 6, 11] { set(i, &s) } for i in [1, 5, 13, 16] { set(i, &u) } for i in [3, 10, 12, 14, 15, 17, 18] { set(i, "c") }
            expect(op(6).1, &[el(0, "ListBucketResult", ""), el(1, "Contents", ""), el(2, "Key", &s), el(2, "ETag", &u), el(2, "LastModified", d), el(2, "Size", "7"), el(2, "StorageClass", &s), el(2, "Owner", ""), el(3, "ID", "c"), el(3, "DisplayName", &s), el(1, "Contents", ""), el(2, "Key", &u), el(2, "ETag", &s), el(2, "LastModified", d), el(2, "Size", "7"),
                el(1, "Name", "c"), el(1, "Prefix", &s), el(1, "Delimiter", "c"), el(1, "ContinuationToken", &u), el(1, "NextContinuationToken", "c"), el(1, "EncodingType", "c"), el(1, "CommonPrefixes", ""), el(2, "Prefix", &u), el(1, "CommonPrefixes", ""), el(2, "Prefix", "c"), el(1, "StartAfter", "c"), el(1, "KeyCount", "2"), el(1, "MaxKeys", "1000"), el(1, "IsTruncated", "false")])
        }
        4 => { set(0, &s); set(1, &u); set(2, &s); set(3, "C"); set(4, &u); expect(op(7).1, &[el(0, "DeleteResult", ""), el(1, "Deleted", ""), el(2, "Key", &s), el(1, "Deleted", ""), el(2, "Key", &u), el(1, "Error", ""), el(2, "Key", &s), el(2, "Code", "C"), el(2, "Message", &u)]) }
        5 => { set(0, &s); set(1, &u); expect(op(12).1, &[el(0, "CopyObjectResult", ""), el(1, "ETag", &s), el(1, "LastModified", &u)]) }
        6 => { set(0, "b"); set(1, &s); set(2, &u); expect(op(13).1, &[el(0, "InitiateMultipartUploadResult", ""), el(1, "Bucket", "b"), el(1, "Key", &s), el(1, "UploadId", &u)]) }
        _ => { set(0, &s); set(1, "b"); set(2, &u); set(3, &s); expect(op(15).1, &[el(0, "CompleteMultipartUploadResult", ""), el(1, "Location", &s), el(1, "Bucket", "b"), el(1, "Key", &u), el(1, "ETag", &s)]) }
    }
}
/// fields the storage leaves out, empty lists
#[no_mangle] pub extern "C" fn x_out_absent() {
    let s = text("text", 1);
    match choice("doc", 7) {
        0 => expect(op(0).1, &[el(0, "ListAllMyBucketsResult", ""), el(1, "Buckets", "")]),
        1 => expect(op(4).1, &[el(0, "LocationConstraint", "")]),
        2 => { let i = choice("op", 2); set(10, &s); expect(op(5 + i).1, &[el(0, "ListBucketResult", ""), el(1, "Name", &s)]) }
        3 => expect(op(7).1, &[el(0, "DeleteResult", "")]),
        4 => { set(1, &s); expect(op(12).1, &[el(0, "CopyObjectResult", ""), el(1, "LastModified", &s)]) }
        5 => { set(1, &s); expect(op(13).1, &[el(0, "InitiateMultipartUploadResult", ""), el(1, "Key", &s)]) }
        _ => { set(3, &s); expect(op(15).1, &[el(0, "CompleteMultipartUploadResult", ""), el(1, "ETag", &s)]) }
    }
}
macro_rules! codes { ($($c:ident $s:expr;)*) => { &[$((S3ErrorCode::$c, stringify!($c), $s)),*] } }
/// The error codes of S3 and their HTTP status (0: whatever).
const CODES: &[(S3ErrorCode, &str, u16)] = codes! {
    AccessDenied 403; AccountProblem 403; AllAccessDisabled 403; AmbiguousGrantByEmailAddress 400; AuthorizationHeaderMalformed 400; BadDigest 400; BucketAlreadyExists 409; BucketAlreadyOwnedByYou 409; BucketNotEmpty 409; CredentialsNotSupported 400;
    CrossLocationLoggingProhibited 403; EntityTooSmall 400; EntityTooLarge 400; ExpiredToken 400; IllegalLocationConstraintException 400; IllegalVersioningConfigurationException 400; IncompleteBody 400; IncorrectNumberOfFilesInPostRequest 400; InlineDataTooLarge 400; InternalError 500;
    InvalidAccessKeyId 403; InvalidAddressingHeader 0; InvalidArgument 400; InvalidBucketName 400; InvalidBucketState 409; InvalidDigest 400; InvalidEncryptionAlgorithmError 400; InvalidLocationConstraint 400; InvalidObjectState 403; InvalidPart 400;
    InvalidPartOrder 400; InvalidPayer 403; InvalidPolicyDocument 400; InvalidRange 416; InvalidRequest 400; InvalidSecurity 403; InvalidSOAPRequest 400; InvalidStorageClass 400; InvalidTargetBucketForLogging 400; InvalidToken 400;
    InvalidURI 400; KeyTooLongError 400; MalformedACLError 400; MalformedPOSTRequest 400; MalformedXML 400; MaxMessageLengthExceeded 400; MaxPostPreDataLengthExceededError 400; MetadataTooLarge 400; MethodNotAllowed 405; MissingAttachment 0;
    MissingContentLength 411; MissingRequestBodyError 400; MissingSecurityElement 400; MissingSecurityHeader 400; NoLoggingStatusForKey 400; NoSuchBucket 404; NoSuchBucketPolicy 404; NoSuchKey 404; NoSuchLifecycleConfiguration 404; NoSuchUpload 404;
    NoSuchVersion 404; NotImplemented 501; NotSignedUp 403; NotSupported 0; OperationAborted 409; PermanentRedirect 301; PreconditionFailed 412; Redirect 307; RestoreAlreadyInProgress 409; RequestIsNotMultiPartContent 400;
    RequestTimeout 400; RequestTimeTooSkewed 403; RequestTorrentOfBucketError 400; ServerSideEncryptionConfigurationNotFoundError 400; ServiceUnavailable 503; SignatureDoesNotMatch 403; SlowDown 503; TemporaryRedirect 307; TokenRefreshRequired 400; TooManyBuckets 400;
    ObjectNotInActiveTierError 403; UnexpectedContent 400; UnresolvableGrantByEmailAddress 400; UserKeyMustBeSpecified 400; XAmzContentSHA256Mismatch 400;
};
/// errors of the storage
#[no_mangle] pub extern "C" fn x_error() {
    let (c, name, status) = CODES[choice("code", CODES.len())];
    let n = [0, 1, 3][choice("len", 3)];
    let m = text("message", n);
    unsafe { FAIL = Some((c, m.clone())) }
    let (o, r) = op([0, 1, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 2][if n == 3 { choice("op", 2) * 7 } else { choice("op", 14) }]);
    let x = r.send(&rec(false));
    check(if status == 0 { x.status >= 400 } else { x.status == status }, "an error of the storage is answered with its code's status");
    check(x.header("content-type").map_or(false, |t| t.starts_with(b"text/xml") || t.starts_with(b"application/xml")), "an error is answered with an S3 error document");
    let d = read(&x.body);
    check(d.is_some() && same(&d.unwrap(), &[el(0, "Error", ""), el(1, "Code", name), el(1, "Message", &m)]), "an error document holds the code and the message of the error");
    let _ = o;
    reach("error");
}
/// errors of an operation's own type
#[no_mangle] pub extern "C" fn x_error_own() {
    let (o, i, name, status) = [(12, 0, "ObjectNotInActiveTierError", 403), (1, 0, "BucketAlreadyExists", 409), (1, 1, "BucketAlreadyOwnedByYou", 409), (9, 0, "InvalidObjectState", 403), (9, 1, "NoSuchKey", 404), (2, 0, "NoSuchBucket", 404), (10, 0, "NoSuchKey", 404), (5, 0, "NoSuchBucket", 404), (6, 0, "NoSuchBucket", 404)][choice("error", 9)];
    let n = [0, 1, 3][choice("len", 3)];
    let m = text("message", n);
    unsafe { OWN = Some((i, m.clone())) }
    let x = op(o).1.send(&rec(false));
    check(x.status == status, "an error of the storage is answered with its code's status");
    check(x.header("content-type").map_or(false, |t| t.starts_with(b"text/xml") || t.starts_with(b"application/xml")), "an error is answered with an S3 error document");
    let d = read(&x.body);
    check(d.is_some() && same(&d.unwrap(), &[el(0, "Error", ""), el(1, "Code", name), el(1, "Message", &m)]), "an error document holds the code and the message of the error");
    reach("error");
}
/// names of error codes are read back
#[no_mangle] pub extern "C" fn x_code_names() {
    let (c, name, status) = CODES[choice("code", CODES.len())];
    check(c.as_static_str() == name && format!("{}", c) == name && format!("{:?}", c) == name, "an error code prints as its name");
    check(matches!(S3ErrorCode::parse_from_str(name), Ok(x) if x.as_static_str() == name), "the name of an error code is read back");
    check(status == 0 || c.as_status_code().map(|s| s.as_u16()) == Some(status), "an error of the storage is answered with its code's status");
    let mut v = name.as_bytes().to_vec(); let at = choice("at", v.len()); let b = sym_u8("byte"); assume(b != v[at] && b < 0x80); v[at] = b;
    let mut other = false; for (_, n, _) in CODES { if n.len() == v.len() { other |= n.as_bytes() == v } }
    if let Ok(s) = std::str::from_utf8(&v) { check(other || S3ErrorCode::parse_from_str(s).is_err(), "what is not the name of an error code is not read as one") }
    reach("code");
}

/// How a client may write a text.
fn esc(o: &mut Vec<u8>, t: &[u8], style: usize) {
    if style == 3 { o.extend_from_slice(b"<![CDATA["); o.extend_from_slice(t); o.extend_from_slice(b"]]>"); return }
    for &b in t { match (b, style) { (b'<', _) => o.extend_from_slice(b"&lt;"), (b'&', _) => o.extend_from_slice(b"&amp;"), (b'>', 0) => o.extend_from_slice(b"&gt;"), (b'"', 0) => o.extend_from_slice(b"&quot;"), (b'\'', 0) => o.extend_from_slice(b"&apos;"), (_, 2) if b < 0x80 => o.extend_from_slice(format!("&#{};", b).as_bytes()), _ => o.push(b) } }
}
fn wrap(root: &str, style: usize, inner: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    match style { 0 => o.extend_from_slice(format!("<{root}>").as_bytes()), 1 => o.extend_from_slice(format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<{root} xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\">").as_bytes()), _ => o.extend_from_slice(format!("<!-- a comment --><{root}>\n  ").as_bytes()) }
    o.extend_from_slice(inner);
    o.extend_from_slice(format!("</{root}>").as_bytes());
    if style > 0 { o.push(b'\n') }
    o
}
/// text without leading or trailing white space
fn word(name: &str, n: usize) -> String { let s = text(name, n); let b = s.as_bytes(); if n > 0 { assume((b[0] > 0x20) & (b[n - 1] > 0x20)); } for c in b { assume(*c >= 0x20) } s }
/// keys in DeleteObjects
#[no_mangle] pub extern "C" fn x_delete() {
    let style = choice("document", 3); let e = choice("escape", 3);
    let n = 1 + choice("len", 3);
    let k1 = word("key", n); let k2 = "b c&amp;<é>";
    let sp = [&b""[..], b"\n\t"][choice("space", 2)];
    let mut o = vec![];
    let objs = choice("objects", 2) + 1;
    let quiet = choice("quiet", 3);
    if quiet == 1 { o.extend_from_slice(b"<Quiet>true</Quiet>"); o.extend_from_slice(sp) }
    for k in [&k1[..], k2].iter().take(objs) {
        o.extend_from_slice(b"<Object>"); o.extend_from_slice(sp); o.extend_from_slice(b"<Key>"); esc(&mut o, k.as_bytes(), e); o.extend_from_slice(b"</Key>"); o.extend_from_slice(sp); o.extend_from_slice(b"</Object>"); o.extend_from_slice(sp);
    }
    if quiet == 2 { o.extend_from_slice(b"<Quiet>false</Quiet>"); o.extend_from_slice(sp) }
    let svc = rec(false);
    let x = rq("POST", b"/bkt").q(b"delete", b"").b(&wrap("Delete", style, &o)).send(&svc);
    check(x.ok() && calls().len() == 1 && calls()[0].op == "DeleteObjects", "a well-formed list of objects to delete is accepted");
    let Some(c) = calls().first() else { return };
    let ks: Vec<&str> = c.extra.iter().filter(|x| x.0 == "key").map(|x| &x.1[..]).collect();
    check(ks.len() == objs && ks[0] == k1 && (objs == 1 || ks[1] == k2), "exactly the keys of the list are to be deleted");
    reach("deleted");
}
/// lists as long as S3 allows reach the storage whole; longer ones too, unless they are refused
#[no_mangle] pub extern "C" fn x_long() {
    let del = choice("list", 2) == 0;
    let n = if del { [999usize, 1000, 1001, 1500][choice("count", 4)] } else { [999usize, 1000, 1001, 9999, 10000][choice("count", 5)] };
    let w = word("last", 1);
    let key = |i: usize| if i == n - 1 { w.clone() } else { format!("{:05}", i) };
    let mut o = if del { b"<Delete>".to_vec() } else { b"<CompleteMultipartUpload>".to_vec() };
    for i in 0..n {
        if del { o.extend_from_slice(b"<Object><Key>"); esc(&mut o, key(i).as_bytes(), 0); o.extend_from_slice(b"</Key></Object>") }
        else { o.extend_from_slice(b"<Part><ETag>"); esc(&mut o, key(i).as_bytes(), 0); o.extend_from_slice(b"</ETag><PartNumber>"); o.extend_from_slice((i + 1).to_string().as_bytes()); o.extend_from_slice(b"</PartNumber></Part>") }
    }
    o.extend_from_slice(if del { b"</Delete>" } else { b"</CompleteMultipartUpload>" });
    let svc = rec(false);
    let x = if del { rq("POST", b"/bkt").q(b"delete", b"") } else { op(15).1 }.b(&o).send(&svc);
    if del && n > 1000 && !x.ok() { check(calls().is_empty(), "a refused list reaches no storage"); reach("long"); return }
    check(x.ok() && calls().len() == 1, "a list of ordinary length is accepted");
    let Some(c) = calls().first() else { return };
    let l: Vec<&str> = c.extra.iter().filter(|x| x.0 == if del { "key" } else { "etag" }).map(|x| &x.1[..]).collect();
    let p: Vec<&str> = c.extra.iter().filter(|x| x.0 == "part").map(|x| &x.1[..]).collect();
    check(del || p.len() == n && (0..n).all(|i| p[i] == (i + 1).to_string()), "a list reaches the storage whole and in order");
    check(l.len() == n && (0..n).all(|i| l[i] == key(i)), "a list reaches the storage whole and in order");
    reach("long");
}
/// parts in CompleteMultipartUpload
#[no_mangle] pub extern "C" fn x_complete() {
    let style = choice("document", 3);
    let d = sym("digits", 1); assume(within(d[0], b'1', b'9'));
    let pre = ["", "1", "999", "-"][choice("digits", 4)];
    let mut num = pre.as_bytes().to_vec(); num.extend_from_slice(&d);
    let few = pre == "-"; let any = |n: &str, k: usize| if few { 0 } else { choice(n, k) };
    let tag = word("etag", 2);
    let sp = [&b""[..], b"\n\t"][choice("space", 2)];
    let n = 1 + choice("parts", 3);
    let q = any("quote", 3); let order = any("order", 2); let extra = any("extra", 2);
    let mut o = vec![];
    for i in 0..n {
        o.extend_from_slice(b"<Part>"); o.extend_from_slice(sp);
        let mut e = b"<ETag>".to_vec(); let qq = [&b""[..], b"\"", b"&quot;"][q]; e.extend_from_slice(qq); if i == 0 { esc(&mut e, tag.as_bytes(), 0) } else { e.extend_from_slice(b"abc") } e.extend_from_slice(qq); e.extend_from_slice(b"</ETag>");
        let mut p = b"<PartNumber>".to_vec(); if i == 0 { p.extend_from_slice(&num) } else { p.extend_from_slice(format!("{}", 10000 + i).as_bytes()) } p.extend_from_slice(b"</PartNumber>");
        let v = if order == 0 { [p, e] } else { [e, p] };
        for (j, x) in v.iter().enumerate() { o.extend_from_slice(x); o.extend_from_slice(sp); if j == 0 && extra == 1 { o.extend_from_slice(b"<ChecksumCRC32>AAAA</ChecksumCRC32>"); o.extend_from_slice(sp) } }
        o.extend_from_slice(b"</Part>"); o.extend_from_slice(sp);
    }
    let svc = rec(false);
    let x = op(15).1.b(&wrap("CompleteMultipartUpload", style, &o)).send(&svc);
    if pre == "-" && !x.ok() { check(calls().is_empty(), "a refused list reaches no storage"); reach("complete"); return }
    check(x.ok() && calls().len() == 1 && calls()[0].op == "CompleteMultipartUpload", "a well-formed list of parts is accepted");
    let Some(c) = calls().first() else { return };
    let ps: Vec<&[u8]> = c.extra.iter().filter(|x| x.0 == "part").map(|x| x.1.as_bytes()).collect();
    let es: Vec<&str> = c.extra.iter().filter(|x| x.0 == "etag").map(|x| &x.1[..]).collect();
    check(ps.len() == n && es.len() == n && ps[0] == &num[..], "exactly the parts of the list are to be joined, in its order");
    for i in 1..n { check(ps[i] == format!("{}", 10000 + i).as_bytes(), "exactly the parts of the list are to be joined, in its order") }
    let mut want = String::new(); if q > 0 { want.push('"') } want.push_str(&tag); if q > 0 { want.push('"') }
    check(es[0] == want, "the entity tags of the parts are those of the list");
    reach("complete");
}
/// CreateBucket configuration
#[no_mangle] pub extern "C" fn x_create() {
    let s = word("location", 2);
    let mut o = b"<LocationConstraint>".to_vec(); esc(&mut o, s.as_bytes(), choice("escape", 3)); o.extend_from_slice(b"</LocationConstraint>");
    let svc = rec(false);
    let empty = choice("empty", 2) == 1;
    let b = if empty { vec![] } else { wrap("CreateBucketConfiguration", choice("document", 3), &o) };
    let x = rq("PUT", b"/newbucket").b(&b).send(&svc);
    check(x.ok() && calls().len() == 1 && calls()[0].op == "CreateBucket", "a bucket is created with or without a configuration");
    if let Some(c) = calls().first() { check(c.get("location") == if empty { None } else { Some(&s[..]) }, "the configuration of a new bucket is the one of the request") }
    reach("created");
}
/// documents that are not what the operation asks for never run it
#[no_mangle] pub extern "C" fn x_refuse() {
    let svc = rec(false);
    let (r, bodies): (Rq, &[&[u8]]) = match choice("op", 2) {
        0 => (rq("POST", b"/bkt").q(b"delete", b""), &[b"", b"<Delete>", b"<Delete><Object><Key>k</Key></Object>", b"<Delete><Object></Object></Delete>", b"<Delete><Object><Key>k</Object></Key></Delete>", b"<Delete><Object><Key>k&bad;</Key></Object></Delete>", b"not xml", b"<Delete><Object><Key>a</Key><Key>b</Key></Object></Delete>", b"<Delete><Object><Key>k</Key></Object><Quiet>maybe</Quiet></Delete>"]),
        _ => (op(15).1, &[b"<CompleteMultipartUpload>", b"<CompleteMultipartUpload><Part><PartNumber>1</PartNumber>", b"<CompleteMultipartUpload><Part><PartNumber>x</PartNumber></Part></CompleteMultipartUpload>", b"<CompleteMultipartUpload><Part><PartNumber></PartNumber></Part></CompleteMultipartUpload>", b"<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>&x;</ETag></Part></CompleteMultipartUpload>", b"<CompleteMultipartUpload><Part><PartNumber>99999999999999999999</PartNumber></Part></CompleteMultipartUpload>"]),
    };
    let x = r.b(bodies[choice("body", bodies.len())]).send(&svc);
    check(x.status == 400 && calls().is_empty(), "a document that is not what the operation asks for is refused");
    reach("refused");
}
#[allow(unused_imports)] use web as _;
