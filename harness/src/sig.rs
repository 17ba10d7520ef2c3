//! An independent reference implementation of AWS Signature Version 4 (client side).
use crate::fx::{enc, Rq};
extern "C" { fn vs_sha256_compress(st: *mut u32, b: *const u8); fn vs_md5_compress(st: *mut u32, b: *const u8); }
fn pad(d: &[u8], be: bool) -> Vec<u8> {
    let mut v = d.to_vec();
    v.push(0x80);
    while v.len() % 64 != 56 { v.push(0) }
    let n = d.len() as u64 * 8;
    if be { v.extend_from_slice(&n.to_be_bytes()) } else { v.extend_from_slice(&n.to_le_bytes()) }
    v
}
pub fn sha256(d: &[u8]) -> Vec<u8> {
    let mut h = [0x6a09e667u32, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let v = pad(d, true);
    for b in v.chunks_exact(64) { unsafe { vs_sha256_compress(h.as_mut_ptr(), b.as_ptr()) } }
    let mut o = vec![];
    for x in h { o.extend_from_slice(&x.to_be_bytes()) }
    o
}
pub fn md5(d: &[u8]) -> Vec<u8> {
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    let v = pad(d, false);
    for b in v.chunks_exact(64) { unsafe { vs_md5_compress(h.as_mut_ptr(), b.as_ptr()) } }
    let mut o = vec![];
    for x in h { o.extend_from_slice(&x.to_le_bytes()) }
    o
}
pub fn hex(d: &[u8]) -> Vec<u8> { let mut o = vec![]; for b in d { for n in [b >> 4, b & 15] { o.push(b"0123456789abcdef"[n as usize]) } } o }
pub fn hmac(key: &[u8], d: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > 64 { sha256(key) } else { key.to_vec() };
    k.resize(64, 0);
    let mut a: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    a.extend_from_slice(d);
    let mut b: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    b.extend_from_slice(&sha256(&a));
    sha256(&b)
}
pub fn etag(d: &[u8]) -> Vec<u8> { let mut v = vec![b'"']; v.extend(hex(&md5(d))); v.push(b'"'); v }
pub fn sig(secret: &[u8], date: &[u8], region: &[u8], sts: &[u8]) -> Vec<u8> {
    let mut k = b"AWS4".to_vec(); k.extend_from_slice(secret);
    let k = hmac(&k, &date[..8]);
    let k = hmac(&k, region);
    let k = hmac(&k, b"s3");
    let k = hmac(&k, b"aws4_request");
    hex(&hmac(&k, sts))
}
fn trim(v: &[u8]) -> &[u8] { let mut a = 0; let mut b = v.len(); while a < b && (v[a] == b' ' || v[a] == b'\t') { a += 1 } while b > a && (v[b - 1] == b' ' || v[b - 1] == b'\t') { b -= 1 } &v[a..b] }
/// sequential spaces become one
fn squeeze(o: &mut Vec<u8>, v: &[u8]) { let mut sp = false; for &b in v { if b == b' ' { if !sp { o.push(b) } sp = true } else { o.push(b); sp = false } } }
pub struct Signer<'a> { pub ak: &'a [u8], pub secret: &'a [u8], pub date: &'a [u8], pub region: &'a [u8] }
pub const DATE: &[u8] = b"20231114T221320Z"; // the virtual clock's 1700000000
pub fn me() -> Signer<'static> { Signer { ak: crate::fx::AK.as_bytes(), secret: crate::fx::SK.as_bytes(), date: DATE, region: b"us-east-1" } }
/// `signed`: lower-case names, sorted
pub fn canonical(r: &Rq, signed: &[String], payload: &[u8]) -> Vec<u8> {
    let mut c = r.method.as_bytes().to_vec(); c.push(b'\n');
    enc(&mut c, &r.path, false); c.push(b'\n');
    let mut q: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for (n, v) in &r.query { if n.as_slice() == b"X-Amz-Signature" { continue } let (mut a, mut b) = (vec![], vec![]); enc(&mut a, n, true); enc(&mut b, v, true); q.push((a, b)) }
    q.sort();
    for (i, (n, v)) in q.iter().enumerate() { if i > 0 { c.push(b'&') } c.extend_from_slice(n); c.push(b'='); c.extend_from_slice(v) }
    c.push(b'\n');
    for s in signed {
        for (n, v) in &r.headers { if n == s { c.extend_from_slice(n.as_bytes()); c.push(b':'); squeeze(&mut c, trim(v)); c.push(b'\n') } }
    }
    c.push(b'\n');
    for (i, s) in signed.iter().enumerate() { if i > 0 { c.push(b';') } c.extend_from_slice(s.as_bytes()) }
    c.push(b'\n');
    c.extend_from_slice(payload);
    c
}
pub fn scope(s: &Signer) -> Vec<u8> { let mut v = s.date[..8].to_vec(); v.push(b'/'); v.extend_from_slice(s.region); v.extend_from_slice(b"/s3/aws4_request"); v }
pub fn sts(s: &Signer, canon: &[u8]) -> Vec<u8> {
    let mut v = b"AWS4-HMAC-SHA256\n".to_vec();
    v.extend_from_slice(s.date); v.push(b'\n');
    v.extend_from_slice(&scope(s)); v.push(b'\n');
    v.extend(hex(&sha256(canon)));
    v
}
#[derive(Clone, Copy, PartialEq)]
pub enum Payload { Signed, Unsigned, Streaming }
pub fn all_signed(r: &Rq) -> Vec<String> { let mut v: Vec<String> = vec![]; for (n, _) in &r.headers { if !v.contains(n) && n != "authorization" { v.push(n.clone()) } } v.sort(); v }
/// Adds x-amz-date, x-amz-content-sha256 and Authorization; returns the signature.
pub fn sign(r: &mut Rq, s: &Signer, p: Payload) -> Vec<u8> {
    prepare(r, s, p);
    let signed = all_signed(r);
    let g = signature(r, s, &signed);
    authorize(r, s, &signed, &g);
    g
}
pub fn prepare(r: &mut Rq, s: &Signer, p: Payload) {
    let h = match p { Payload::Signed => hex(&sha256(&r.payload())), Payload::Unsigned => b"UNSIGNED-PAYLOAD".to_vec(), Payload::Streaming => b"STREAMING-AWS4-HMAC-SHA256-PAYLOAD".to_vec() };
    r.headers.push(("x-amz-date".into(), s.date.to_vec()));
    r.headers.push(("x-amz-content-sha256".into(), h));
}
pub fn payload_hash(r: &Rq) -> Vec<u8> { for (n, v) in &r.headers { if n == "x-amz-content-sha256" { return v.clone() } } vec![] }
pub fn signature(r: &Rq, s: &Signer, signed: &[String]) -> Vec<u8> { let c = canonical(r, signed, &payload_hash(r)); sig(s.secret, s.date, s.region, &sts(s, &c)) }
pub fn authorize(r: &mut Rq, s: &Signer, signed: &[String], g: &[u8]) {
    let mut a = b"AWS4-HMAC-SHA256 Credential=".to_vec();
    a.extend_from_slice(s.ak); a.push(b'/'); a.extend_from_slice(&scope(s));
    a.extend_from_slice(b", SignedHeaders="); a.extend_from_slice(signed.join(";").as_bytes());
    a.extend_from_slice(b", Signature="); a.extend_from_slice(g);
    r.headers.push(("authorization".into(), a));
}
/// Turns `r` into a presigned request; returns the signature.
pub fn presign(r: &mut Rq, s: &Signer, expires: &[u8]) -> Vec<u8> {
    let signed = all_signed(r);
    presign_with(r, s, expires, &signed)
}
pub fn presign_with(r: &mut Rq, s: &Signer, expires: &[u8], signed: &[String]) -> Vec<u8> {
    let mut cred = s.ak.to_vec(); cred.push(b'/'); cred.extend_from_slice(&scope(s));
    r.query.push((b"X-Amz-Algorithm".to_vec(), b"AWS4-HMAC-SHA256".to_vec()));
    r.query.push((b"X-Amz-Credential".to_vec(), cred));
    r.query.push((b"X-Amz-Date".to_vec(), s.date.to_vec()));
    r.query.push((b"X-Amz-Expires".to_vec(), expires.to_vec()));
    r.query.push((b"X-Amz-SignedHeaders".to_vec(), signed.join(";").into_bytes()));
    let c = canonical(r, signed, b"UNSIGNED-PAYLOAD");
    let g = sig(s.secret, s.date, s.region, &sts(s, &c));
    r.query.push((b"X-Amz-Signature".to_vec(), g.clone()));
    g
}
/// aws-chunked encoding of `chunks` (a final empty chunk is appended), chained from the seed signature.
pub fn chunked(s: &Signer, seed: &[u8], chunks: &[Vec<u8>]) -> Vec<u8> { let mut o = vec![]; let mut prev = seed.to_vec(); for c in chunks { prev = chunk(s, &prev, c, &mut o) } chunk(s, &prev, b"", &mut o); o }
pub fn chunk(s: &Signer, prev: &[u8], c: &[u8], o: &mut Vec<u8>) -> Vec<u8> {
    let mut v = b"AWS4-HMAC-SHA256-PAYLOAD\n".to_vec();
    v.extend_from_slice(s.date); v.push(b'\n');
    v.extend_from_slice(&scope(s)); v.push(b'\n');
    v.extend_from_slice(prev); v.push(b'\n');
    v.extend_from_slice(b"e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855\n");
    v.extend(hex(&sha256(c)));
    let g = sig(s.secret, s.date, s.region, &v);
    o.extend_from_slice(format!("{:x};chunk-signature=", c.len()).as_bytes());
    o.extend_from_slice(&g);
    o.extend_from_slice(b"\r\n"); o.extend_from_slice(c); o.extend_from_slice(b"\r\n");
    g
}
