//! Authentication and request integrity.
use crate::{fx::*, rt::*, sig, sig::*, vfs::vfs, web};
use s3_server::S3Service;

fn xor(v: &mut [u8], mask: &[u8]) { let mut any = 0; for (a, m) in v.iter_mut().zip(mask) { *a ^= m; any |= m } assume(any != 0) }
/// The request must be refused and nothing may reach the storage.
fn refused(s: &S3Service, r: &Rq) {
    let x = r.send(s);
    check(calls().is_empty(), "an unauthenticated request reaches no storage operation");
    check(x.status >= 400, "an unauthenticated request is answered with an error");
    reach("refused");
}
fn sign_bytes(r: &Rq, s: &Signer) -> Vec<u8> { signature(r, s, &all_signed(r)) }
/// header authentication with insufficient credentials, for every operation
#[no_mangle] pub extern "C" fn a_gate_header() {
    let (_, mut r) = op(choice("op", NOPS));
    let kind = choice("credentials", 11);
    let s = if kind == 5 { rec_lin() } else { rec(true) };
    let p = if choice("payload", 2) == 0 { Payload::Signed } else { Payload::Unsigned };
    match kind {
        0 => {}
        1 => { prepare(&mut r, &me(), p) }
        2 => { // any signature but the right one
            prepare(&mut r, &me(), p);
            let mut g = sign_bytes(&r, &me()); xor(&mut g, &sym("mask", 64));
            for b in &g { assume(within(*b, 0x21, 0x7e)) }
            let l = all_signed(&r); authorize(&mut r, &me(), &l, &g);
        }
        3 => { sign(&mut r, &Signer { secret: SK2.as_bytes(), ..me() }, p); }
        4 => { sign(&mut r, &Signer { secret: b"", ..me() }, p); }
        5 => { // an access key that is not registered, with some registered secret
            let mut ak = AK.as_bytes().to_vec(); let m = sym("mask", ak.len()); xor(&mut ak, &m);
            for b in &ak { assume(within(*b, 0x21, 0x7e) & (*b != b'/') & (*b != b',')) }
            let secret: &[u8] = match choice("secret", 4) { 0 => SK.as_bytes(), 1 => SK2.as_bytes(), 2 => b"", _ => AK.as_bytes() };
            sign(&mut r, &Signer { ak: &ak, secret, ..me() }, p);
        }
        6 => { sign(&mut r, &Signer { ak: &[], secret: [SK.as_bytes(), b""][choice("secret", 2)], ..me() }, p); }
        7 => { let k = AK.as_bytes(); sign(&mut r, &Signer { ak: &k[..k.len() - 1], ..me() }, p); }
        8 => { // signature shortened or empty
            prepare(&mut r, &me(), p); let g = sign_bytes(&r, &me()); let l = all_signed(&r);
            let n = [0, 1, 32, 63][choice("len", 4)]; authorize(&mut r, &me(), &l, &g[..n]);
        }
        9 => { // signature extended
            prepare(&mut r, &me(), p); let mut g = sign_bytes(&r, &me()); let x = sym_u8("x"); assume(x > 0x20 && x < 0x7f); g.push(x); let l = all_signed(&r);
            authorize(&mut r, &me(), &l, &g);
        }
        _ => { // headers added after signing
            sign(&mut r, &me(), p);
            match choice("extra", 3) { 0 => r.headers.push(("x-amz-meta-b".into(), b"v".to_vec())), 1 => r.headers.push(("x-amz-security-token".into(), b"t".to_vec())), _ => { if r.headers.iter().any(|(n, _)| n == "x-amz-copy-source") { r.headers.push(("x-amz-storage-class".into(), b"STANDARD".to_vec())) } else { r.headers.push(("x-amz-copy-source".into(), b"other/secret".to_vec())) } } }
        }
    }
    refused(&s, &r);
}
/// arbitrary Authorization headers
#[no_mangle] pub extern "C" fn a_gate_garbage() {
    let s = rec(true);
    let (_, mut r) = op([0, 8, 9, 11][choice("op", 4)]);
    prepare(&mut r, &me(), Payload::Unsigned);
    let n = choice("len", 4);
    let mut g = sym("auth", n);
    for b in &g { assume(within(*b, 0x20, 0x7e)) }
    let f = b"AWS4-HMAC-SHA256 Credential=AKIDEXAMPLE/20231114/us-east-1/s3/aws4_request, SignedHeaders=host;x-amz-content-sha256;x-amz-date, Signature=".to_vec();
    match choice("place", 6) {
        0 => {}
        1 => { let mut a = b"AWS4-HMAC-SHA256 ".to_vec(); a.extend(g); g = a }
        2 => { let mut a = b"AWS4-HMAC-SHA256 Credential=".to_vec(); a.extend(g); a.extend_from_slice(b"/s3/aws4_request, SignedHeaders=host, Signature=0"); g = a }
        3 => { let mut a = b"AWS4-HMAC-SHA256 Credential=AKIDEXAMPLE/20231114/us-east-1/s3/aws4_request, SignedHeaders=".to_vec(); a.extend(g); a.extend_from_slice(b", Signature="); g = a }
        4 => { let mut a = f; a.extend(g); g = a }
        _ => { let mut a = b"AWS AKIDEXAMPLE:".to_vec(); a.extend(g); g = a }
    }
    r.headers.push(("authorization".into(), g));
    refused(&s, &r);
}
/// a signer whose access key is not registered
fn unknown() -> Signer<'static> {
    let ak: &[u8] = match choice("unknown", 6) { 0 => b"AKIDUNKNOWN", 1 => b"AKIDEXAMPL", 2 => b"AKIDEXAMPLEE", 3 => b"akidexample", 4 => b"AKIDEXAMPLE ", _ => b"" };
    let secret = match choice("secret", 4) { 0 => SK.as_bytes(), 1 => SK2.as_bytes(), 2 => b"", _ => ak };
    Signer { ak, secret, ..me() }
}
/// an access key works with the secret registered last for exactly this key, with no other one, and not at all when the provider fails
#[no_mangle] pub extern "C" fn a_keys() {
    struct Broken;
    #[async_trait::async_trait]
    impl s3_server::S3Auth for Broken {
        async fn get_secret_access_key(&self, _: &str) -> Result<String, s3_server::errors::S3AuthError> { Err(s3_server::errors::S3AuthError::Other(s3_server::errors::S3Error::new(s3_server::errors::S3ErrorCode::ServiceUnavailable, "the key store is down"))) }
    }
    let names: [&[u8]; 8] = [b"AKIDEXAMPLE", b"akidexample", b"AKIDEXAMPL", b"AKIDEXAMPLEE", b"AKID", b"AKIDEXAMPLE2", b" AKIDEXAMPLE", b""];
    let which = choice("secret", 6);
    let other = if which == 5 { sym_ascii("other", 3) } else { vec![] };
    let held = if which == 5 { b"aB3".to_vec() } else { sym_ascii("held", 3) }; // the secret of AKIDEXAMPLE
    let secrets: [Option<&[u8]>; 8] = [Some(&held), Some(b"lower"), Some(b"short"), None, None, Some(b""), None, None];
    let mut s = S3Service::new(Rec);
    let broken = choice("provider", 2) == 1;
    if broken { s.set_auth(Broken) } else {
        let mut a = s3_server::SimpleAuth::new();
        a.register("AKIDEXAMPLE".into(), "former".into());
        for (n, x) in names.iter().zip(&secrets) { if let Some(x) = x { a.register(String::from_utf8(n.to_vec()).unwrap(), String::from_utf8(x.to_vec()).unwrap()) } }
        s.set_auth(a);
    }
    let k = choice("key", 8);
    for b in held.iter().chain(&other) { assume(within(*b, 1, 0x7f)) } // HMAC does not distinguish trailing NULs of its key
    let secret: &[u8] = match which { 0 => &held, 1 => b"lower", 2 => b"short", 3 => b"", 4 => b"former", _ => &other };
    let right = !broken && secrets[k].map_or(false, |x| same(x, secret));
    let who = Signer { ak: names[k], secret, ..me() };
    let r = match choice("way", 3) {
        0 => { let mut r = rq("GET", b"/bkt/k"); sign(&mut r, &who, Payload::Signed); r }
        1 => { let mut r = rq("GET", b"/bkt/k"); presign(&mut r, &who, b"600"); r }
        _ => rq("POST", b"/bkt").h("content-type", FORM).b(&form_of(&post_fields(&who, POLICY), Some(b"data"))),
    };
    let x = r.send(&s);
    if right { check(calls().len() == 1 && x.status < 300, "a registered key with its secret is accepted"); reach("accepted") }
    else { check(calls().is_empty() && x.status >= 400, "a key with another secret than the registered one is refused"); reach("refused") }
}
fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false } let mut d = 0; for (x, y) in a.iter().zip(b) { d |= x ^ y } d == 0 }
const QF: [&[u8]; 6] = [b"X-Amz-Algorithm", b"X-Amz-Credential", b"X-Amz-Date", b"X-Amz-Expires", b"X-Amz-SignedHeaders", b"X-Amz-Signature"];
/// presigned requests with insufficient credentials, for every operation
#[no_mangle] pub extern "C" fn a_gate_presigned() {
    let s = rec(true);
    let (_, mut r) = op(choice("op", NOPS));
    match choice("credentials", 9) {
        0 => { presign(&mut r, &me(), b"600"); let f = QF[choice("missing", 6)]; r.query.retain(|(n, _)| n.as_slice() != f) }
        1 => { presign(&mut r, &me(), b"600"); let m = sym("mask", 64); let v = &mut r.query.last_mut().unwrap().1; xor(v, &m); for b in v { assume(within(*b, b'0', b'9') | within(*b, b'a', b'z')) } }
        2 => { presign(&mut r, &Signer { secret: SK2.as_bytes(), ..me() }, b"600"); }
        3 => { presign(&mut r, &Signer { secret: b"", ..me() }, b"600"); }
        4 => { presign(&mut r, &unknown(), b"600"); }
        5 => { presign_with(&mut r, &me(), b"600", &[]); }
        6 => { presign(&mut r, &me(), b"600"); r.headers.push((["x-amz-meta-a", "x-amz-copy-source", "x-amz-acl"][choice("header", 3)].into(), b"other/v".to_vec())); if r.headers.iter().filter(|(n, _)| n == "x-amz-copy-source").count() > 1 { end("duplicate") } }
        7 => { presign(&mut r, &me(), b"600"); let f = QF[choice("empty", 6)]; for (n, v) in r.query.iter_mut() { if n.as_slice() == f { v.clear() } } if f == QF[0] { end("the algorithm field is covered by the signature only") } }
        _ => { // a header signature of the same request moved into the query
            prepare(&mut r, &me(), Payload::Unsigned); let g = sign_bytes(&r, &me()); presign(&mut r, &me(), b"600"); r.query.last_mut().unwrap().1 = g }
    }
    refused(&s, &r);
}
pub fn post_fields(s: &Signer, policy: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    let mut cred = s.ak.to_vec(); cred.push(b'/'); cred.extend_from_slice(&scope(s));
    vec![("key", b"dir/k".to_vec()), ("policy", policy.to_vec()), ("x-amz-algorithm", b"AWS4-HMAC-SHA256".to_vec()), ("x-amz-credential", cred), ("x-amz-date", s.date.to_vec()), ("x-amz-signature", sig::sig(s.secret, s.date, s.region, policy))]
}
pub fn form_of(f: &[(&'static str, Vec<u8>)], file: Option<&[u8]>) -> Vec<u8> { let v: Vec<(&str, &[u8])> = f.iter().map(|(n, v)| (*n, v.as_slice())).collect(); form(&v, file) }
pub const POLICY: &[u8] = b"eyJleHBpcmF0aW9uIjoiMjAzMC0wMS0wMVQwMDowMDowMFoiLCJjb25kaXRpb25zIjpbXX0=";
/// browser uploads with insufficient credentials
#[no_mangle] pub extern "C" fn a_gate_form() {
    let s = rec(true);
    let me2 = me();
    let mut f = post_fields(&me2, POLICY);
    match choice("credentials", 8) {
        0 => { let i = 1 + choice("missing", 5); f.remove(i); }
        1 => { let m = sym("mask", 64); xor(&mut f[5].1, &m); for b in &f[5].1 { assume(*b > 0x20 && *b < 0x7f && *b != b'-') } }
        2 => f = post_fields(&Signer { secret: SK2.as_bytes(), ..me() }, POLICY),
        3 => f = post_fields(&unknown(), POLICY),
        4 => { f = post_fields(&me(), POLICY); f[1].1[0] = b'f' }
        5 => { let i = 1 + choice("empty", 5); f[i].1.clear() }
        6 => { f[4].1 = b"20231115T000000Z".to_vec() }
        _ => { f[3].1 = b"AKIDEXAMPLE/20231114/eu-west-1/s3/aws4_request".to_vec() }
    }
    let p: &[u8] = [&b"/bkt"[..], b"/bkt/dir/k", b"/"][choice("path", 3)];
    let mut r = rq("POST", p).h("content-type", FORM).b(&form_of(&f, Some(b"data")));
    match choice("query", 4) { 0 => {} 1 => r = r.q(b"delete", b""), 2 => r = r.q(b"uploads", b""), _ => r = r.q(b"X-Amz-Signature", b"0") }
    refused(&s, &r);
}
/// content types and methods do not open a way around authentication
#[no_mangle] pub extern "C" fn a_gate_other() {
    let s = rec(true);
    let m = ["GET", "PUT", "POST", "DELETE", "HEAD", "OPTIONS", "PATCH"][choice("method", 7)];
    let p: &[u8] = [&b"/"[..], b"/bkt", b"/bkt/k"][choice("path", 3)];
    let mut r = rq(m, p);
    match choice("ct", 4) { 0 => {} 1 => r = r.h("content-type", b"multipart/form-data"), 2 => r = r.h("content-type", FORM).b(&form(&[("key", b"k")], Some(b"data"))), _ => r = r.h("content-type", b"text/plain").b(b"x") }
    match choice("q", 7) { 0 => {} 1 => r = r.q(b"X-Amz-Signature", b""), 2 => r = r.q(b"Signature", b"x").q(b"AWSAccessKeyId", AK.as_bytes()), 3 => r = r.q(b"delete", b""), 4 => r = r.q(b"uploads", b""), 5 => r = r.q(b"location", b""), _ => { let v = sym("q", 2); for b in &v { assume(*b > 0x20 && *b < 0x7f && *b != b'#') } r.query.push((v, b"1".to_vec())) } }
    refused(&s, &r);
}

/// Sends `r2`, which carries the signature of the different request `r1`: it must be refused.
fn tampered(s: &S3Service, r2: &Rq) {
    let x = r2.send(s);
    check(calls().is_empty(), "a request that was changed after it was signed reaches no storage operation");
    check(x.status >= 400 && x.status < 500, "a request that was changed after it was signed is refused");
    reach("tampered");
}
fn url_text(n: &str, k: usize) -> Vec<u8> { let v = sym_ascii(n, k); v }
#[no_mangle] pub extern "C" fn a_tamper_path() {
    let s = rec(true);
    let pre = choice("presigned", 2) == 1;
    let kind = choice("kind", 5);
    let (_, mut r) = op(if kind == 0 { [8, 9, 11][choice("op", 3)] } else { 8 });
    r.path = b"/bkt/".to_vec();
    let (a, b) = match kind {
        0 => (b"ab".to_vec(), url_text("sent", 2)),
        1 => (url_text("signed", 2), b"ab".to_vec()),
        2 => { let a = url_text("signed", 1); let b = url_text("sent", 1); (a, b) }
        3 => { let a = url_text("signed", 1); let b = url_text("sent", 3); (a, b) } // such as an escape taken for what it stands for
        _ => (b"ab".to_vec(), url_text("sent", [1, 3][choice("len", 2)])),
    };
    if a.len() == b.len() { let mut d = 0; for i in 0..a.len() { d |= a[i] ^ b[i] } assume(d != 0) }
    r.path.extend_from_slice(&a);
    if pre { presign(&mut r, &me(), b"600"); } else { sign(&mut r, &me(), Payload::Signed); }
    r.path.truncate(5); r.path.extend_from_slice(&b);
    tampered(&s, &r);
}
#[no_mangle] pub extern "C" fn a_tamper_query() {
    let s = rec(true);
    let pre = choice("presigned", 2) == 1;
    let mut r = rq("GET", b"/bkt").q(b"prefix", b"ab").q(b"marker", b"m");
    let kind = choice("kind", 11);
    if kind == 6 { r.query[0].1 = url_text("signed", 1) }
    if kind == 7 { r.query[0].1 = url_text("signed", 1); r.query[0].1.push(b'x') }
    if pre { presign(&mut r, &me(), b"600"); } else { sign(&mut r, &me(), Payload::Signed); }
    match kind {
        0 => { let v = url_text("value", 2); assume(v[0] != b'a' || v[1] != b'b'); r.query[0].1 = v }
        6 => { r.query[0].1 = url_text("value", 3) } // such as an escape taken for what it stands for
        7 => { let mut v = url_text("value", 1); v.push(b'x'); assume(v[0] != r.query[0].1[0]); r.query[0].1 = v }
        8 => { let x = url_text("sep", 2); r.query.remove(0); r.query[0].1 = [b"m", &x[..1], b"prefix", &x[1..], b"ab"].concat() } // two parameters as one
        9 => { let x = url_text("sep", 2); r.query.remove(1); r.query[0].0 = [b"marker", &x[..1], b"m", &x[1..], b"prefix"].concat() }
        1 => { let v = url_text("value", choice("len", 2)); r.query[0].1 = v }
        2 => { let v = url_text("name", 2); let w = url_text("value", 1); r.query.push((v, w)) }
        10 => { // names that only resemble the ones the signature leaves out
            let n: &[u8] = [&b"x-amz-signature"[..], b"X-AMZ-SIGNATURE", b"X-Amz-Signature2", b"X-Amz-Signatur", b"Signature", b"X-Amz-Security-Token", b"X-Amz-Meta-A", b"x-id", b"X-Amz-", b""][choice("resembling", 10)];
            let w = url_text("value", 2); let at = choice("at", r.query.len() + 1); r.query.insert(at, (n.to_vec(), w))
        }
        3 => { r.query.remove(choice("which", 2)); }
        4 => { let v = url_text("value", 1); r.query[0].1.push(v[0]) }
        _ => { let v = url_text("name", 1); r.query[1].0.push(v[0]) }
    }
    tampered(&s, &r);
}
#[no_mangle] pub extern "C" fn a_tamper_rest() {
    let s = rec(true);
    let pre = choice("presigned", 2) == 1;
    let mut r = rq("PUT", b"/bkt/k").h("x-amz-meta-a", b"val").h("content-type", b"text/plain").h("range", b"bytes=0-1").b(b"data");
    let kind = choice("kind", 16);
    if kind == 13 { // the signed value, which may contain what a canonical form could confuse
        let n = ["x-amz-meta-a", "content-type", "range"][choice("header", 3)];
        let v: &[u8] = if n == "content-type" { [&b"a/b"[..], b"a/b;c=d"][choice("signed value", 2)] } else { [&b"a b"[..], b"a/b", b"a,b", b"a;b", b"a:b", b"a\tb", b"A-b", b"a+b", b"a%20b", b"ab"][choice("signed value", 10)] };
        let i = r.headers.iter().position(|h| h.0 == n).unwrap(); r.headers[i].1 = v.to_vec();
        r.headers.retain(|h| h.0 == n || h.0 == "host"); // nothing else can be the reason of a refusal
    }
    let methods = ["PUT", "GET", "DELETE", "HEAD", "POST"];
    let signed_as = if kind == 0 { choice("signed as", 5) } else { 0 };
    r.method = methods[signed_as];
    if pre { presign(&mut r, &me(), b"600"); } else { sign(&mut r, &me(), Payload::Signed); }
    let qi = |r: &Rq, n: &[u8]| r.query.iter().position(|(a, _)| a.as_slice() == n).unwrap();
    let hi = |r: &Rq, n: &str| r.headers.iter().position(|(a, _)| a == n).unwrap();
    match kind {
        0 => r.method = methods[(signed_as + 1 + choice("method", 4)) % 5],
        1 => { let v = sym("value", 3); for b in &v { assume(within(*b, 0x21, 0x7e)) } assume(v[0] != b'v' || v[1] != b'a' || v[2] != b'l'); let i = hi(&r, "x-amz-meta-a"); r.headers[i].1 = v }
        2 => { let i = hi(&r, "x-amz-meta-a"); r.headers.remove(i); }
        3 => { let i = hi(&r, "range"); r.headers[i].1 = b"bytes=0-9".to_vec() }
        4 => { let i = hi(&r, "content-type"); r.headers[i].1 = b"text/html".to_vec() }
        5 => { let i = hi(&r, "host"); r.headers[i].1 = b"otherhost".to_vec() }
        6 => { let i = hi(&r, "x-amz-meta-a"); r.headers[i].0 = "x-amz-meta-b".into() }
        7 => { if pre { end("the payload of a presigned request is not signed") } let m = sym("mask", 4); xor(&mut r.frags[0], &m) }
        8 => { if pre { end("the payload of a presigned request is not signed") } let n = choice("len", 4); r.frags[0].truncate(n) }
        9 => { if pre { end("the payload of a presigned request is not signed") } r.frags.push(sym("more", 2)) }
        10 => { let d = b"20231114T221321Z".to_vec(); if pre { let i = qi(&r, b"X-Amz-Date"); r.query[i].1 = d } else { let i = hi(&r, "x-amz-date"); r.headers[i].1 = d } }
        11 => {
            let who: &[&[u8]; 3] = &[b"AKIDOTHER/20231114/us-east-1/s3/aws4_request", b"AKIDEXAMPLE/20231114/us-east-2/s3/aws4_request", b"AKIDEXAMPLE/20231114//s3/aws4_request"];
            let c = who[choice("cred", 3)];
            if pre { let i = qi(&r, b"X-Amz-Credential"); r.query[i].1 = c.to_vec() } else {
                let i = hi(&r, "authorization"); let a = String::from_utf8(r.headers[i].1.clone()).unwrap(); let k = a.find(", SignedHeaders").unwrap();
                r.headers[i].1 = format!("AWS4-HMAC-SHA256 Credential={}{}", std::str::from_utf8(c).unwrap(), &a[k..]).into_bytes()
            }
        }
        13 => { // another value in its place
            let n = ["x-amz-meta-a", "content-type", "range"].iter().find(|n| r.headers.iter().any(|h| h.0 == **n)).unwrap().to_string();
            let i = hi(&r, &n); let old = r.headers[i].1.clone();
            let v = match choice("sent value", 3) {
                0 => { let mut v = old.clone(); v[1] = sym_u8("mid"); assume(within(v[1], 0x20, 0x7e) | (v[1] == b'\t')); if n == "content-type" { assume(v[1] != b' ') } assume(v[1] != old[1]); v } // one character changed
                1 => { let c = sym_u8("more"); assume(within(c, 0x21, 0x7e)); let mut v = old.clone(); v.insert([0, 1, old.len()][choice("at", 3)], c); v } // one added
                _ => { let mut v = old.clone(); v.remove(choice("at", old.len().min(3))); if v == old { end("same") } v } // one removed
            };
            r.headers[i].1 = v
        }
        14 => { // the list of signed headers itself
            let cut = ["host;", "x-amz-meta-a", "range;", "content-type;"][choice("name", 4)];
            let i = if pre { qi(&r, b"X-Amz-SignedHeaders") } else { hi(&r, "authorization") };
            let v = if pre { &mut r.query[i].1 } else { &mut r.headers[i].1 };
            let a = String::from_utf8(v.clone()).unwrap(); check(a.contains(cut), "the harness signs all headers");
            *v = match choice("how", 2) { 0 => a.replacen(cut, "", 1), _ => a.replacen(cut, &cut.to_uppercase(), 1) }.into_bytes();
        }
        15 => { // a second value of a signed header or parameter
            match choice("second", 4) {
                0 => { let i = hi(&r, "x-amz-meta-a"); let at = i + choice("before", 2); r.headers.insert(at, ("x-amz-meta-a".into(), b"other".to_vec())) }
                1 => { let i = hi(&r, "range"); let at = i + choice("before", 2); r.headers.insert(at, ("range".into(), b"bytes=5-9".to_vec())) }
                2 => { let i = hi(&r, "host"); let at = i + choice("before", 2); r.headers.insert(at, ("host".into(), b"otherhost".to_vec())) }
                _ => { if !pre { end("a presigned request") } let f = QF[1 + choice("field", 5)]; let i = qi(&r, f); let mut v = r.query[i].clone(); v.1.push(b'0'); let at = i + choice("before", 2); r.query.insert(at, v) }
            }
        }
        _ => if pre { let i = qi(&r, b"X-Amz-Expires"); r.query[i].1 = [&b"601"[..], b"6000", b"604800"][choice("expires", 3)].to_vec() } else { let i = hi(&r, "x-amz-content-sha256"); r.headers[i].1 = [&b"UNSIGNED-PAYLOAD"[..], b"STREAMING-AWS4-HMAC-SHA256-PAYLOAD"][choice("sha", 2)].to_vec() }
    }
    tampered(&s, &r);
}
/// The presigned form of a list of signed headers that does not cover a header the request depends on.
#[no_mangle] pub extern "C" fn a_tamper_unsigned_header() {
    let s = rec(true);
    let mut r = rq("PUT", b"/bkt/k").h("x-amz-meta-a", b"v").b(b"data");
    let drop = ["host", "x-amz-meta-a", "x-amz-date", "x-amz-content-sha256"][choice("uncovered", 4)];
    if choice("presigned", 2) == 1 { let l: Vec<String> = all_signed(&r).into_iter().filter(|n| n != drop).collect(); if l.len() == all_signed(&r).len() { end("not in a presigned request") } presign_with(&mut r, &me(), b"600", &l); }
    else { prepare(&mut r, &me(), Payload::Signed); let l: Vec<String> = all_signed(&r).into_iter().filter(|n| n != drop).collect(); let g = signature(&r, &me(), &l); authorize(&mut r, &me(), &l, &g) }
    tampered(&s, &r);
}

/// Another payload than the signed one, for every kind of request.
#[no_mangle] pub extern "C" fn a_tamper_payload() {
    let s = rec(true);
    const DEL: &[u8] = b"<Delete><Object><Key>a</Key></Object></Delete>";
    let mut r = match choice("request", 8) { 0 => rq("PUT", b"/bkt/k"), 1 => rq("DELETE", b"/bkt/k"), 2 => rq("GET", b"/bkt/k"), 3 => rq("HEAD", b"/bkt/k"), 4 => rq("POST", b"/bkt/k").q(b"uploads", b""), 5 => rq("DELETE", b"/bkt"), 6 => rq("GET", b"/"), _ => rq("POST", b"/bkt").q(b"delete", b"").b(DEL) };
    let del = r.payload() == DEL;
    let old: Vec<u8> = if del { DEL.to_vec() } else { [&b""[..], b"d", b"data"][choice("signed payload", 3)].to_vec() };
    if !del && !old.is_empty() { r = r.b(&old) }
    sign(&mut r, &me(), Payload::Signed);
    if del { let c = sym_u8("key"); assume(within(c, b'a', b'z')); assume(c != b'a'); r.frags[0][DEL.iter().position(|b| *b == b'a').unwrap()] = c; if choice("cut", 2) == 1 { let d = r.frags[0].clone(); r.frags = cut(&d, &[20]) } }
    else {
        let n = choice("length", 6);
        let d = sym("sent", n);
        let mut x = 0; if d.len() == old.len() { for i in 0..d.len() { x |= d[i] ^ old[i] } } else { x = 1 }
        assume(x != 0);
        r.frags = if n == 0 { vec![] } else { cut(&d, &[choice("cut", 2).min(n)]) };
    }
    tampered(&s, &r);
}
/// One of many headers or parameters, or the far end of something long, is changed.
#[no_mangle] pub extern "C" fn a_tamper_many() {
    let s = rec(true);
    let pre = choice("presigned", 2) == 1;
    let kind = choice("kind", 6);
    let n = [20usize, 70][choice("count", 2)];
    let long = [70usize, 300, 1000][choice("length", 3)];
    if kind < 2 && long != 70 || kind >= 2 && n != 20 { end("one size at a time") }
    if kind == 5 && pre { end("the payload of a presigned request is not signed") }
    let mut r = rq("PUT", b"/bkt/k").b(b"data");
    let name = |i: usize| format!("q{:02}", i);
    match kind {
        0 => for i in 0..n { r.headers.push((format!("x-amz-meta-{}", name(n - i)), vec![b'v', b'a' + i as u8 % 26])) },
        1 => for i in 0..n { r.query.push((name(n - i).into_bytes(), vec![b'v', b'a' + i as u8 % 26])) },
        2 => r.headers.push(("x-amz-meta-long".into(), vec![b'v'; long])),
        3 => r.query.push((b"long".to_vec(), vec![b'v'; long])),
        4 => r.path.extend(vec![b'v'; long]),
        _ => r.frags = vec![vec![b'v'; long]],
    }
    if pre { presign(&mut r, &me(), b"600"); } else { sign(&mut r, &me(), Payload::Signed); }
    let c = sym_u8("sent"); assume(within(c, 0x21, 0x7e)); assume(c != b'v');
    let at = [0, 1, n / 2, n - 1][choice("at", 4)]; let to = [long - 1, long / 2, 64][choice("far", 3)];
    match kind {
        0 => { let x = format!("x-amz-meta-{}", name(1 + at)); let i = r.headers.iter().position(|h| h.0 == x).unwrap(); match choice("how", 3) { 0 => r.headers[i].1[0] = c, 1 => { r.headers.remove(i); } _ => { let h = r.headers[i].clone(); r.headers.insert(i, (h.0, vec![c])) } } }
        1 => { let x = name(1 + at); let i = r.query.iter().position(|h| h.0 == x.as_bytes()).unwrap(); match choice("how", 3) { 0 => r.query[i].1[0] = c, 1 => { r.query.remove(i); } _ => r.query.push((name(100 + at).into_bytes(), vec![c])) } }
        2 => { let i = r.headers.iter().position(|h| h.0 == "x-amz-meta-long").unwrap(); r.headers[i].1[to] = c }
        3 => r.query[0].1[to] = c,
        4 => r.path[6 + to] = c,
        _ => match choice("how", 3) { 0 => r.frags[0][to] = c, 1 => { r.frags[0].pop(); } _ => r.frags.push(vec![c]) },
    }
    tampered(&s, &r);
}

fn accepted(s: &S3Service, r: &Rq) -> web::Resp {
    let x = r.send(s);
    if !x.ok() { print(&format!("{} {}", x.status, String::from_utf8_lossy(&x.body))) }
    check(x.ok(), "a correctly signed request is accepted");
    check(calls().len() == 1, "a correctly signed request is executed exactly once");
    reach("accepted");
    x
}
/// every operation, every way to sign
#[no_mangle] pub extern "C" fn a_accept_ops() {
    let s = rec(true);
    let (n, mut r) = op(choice("op", NOPS));
    let who = choice("user", 2);
    let g = Signer { ak: [AK, AK2][who].as_bytes(), secret: [SK, SK2][who].as_bytes(), date: DATE, region: b"us-east-1" };
    match choice("extra", 5) { 0 => {} 1 => r = r.h("user-agent", b"aws-sdk-java/1.11 Linux"), 2 => r = r.h("x-amz-security-token", b"tok"), 3 => r = r.h("accept", b"*/*").h("cache-control", b"no-cache"), _ => r = r.h("connection", b"keep-alive") }
    match choice("mode", 4) {
        0 => { sign(&mut r, &g, Payload::Signed); }
        1 => { sign(&mut r, &g, Payload::Unsigned); }
        2 => { presign(&mut r, &g, b"86400"); }
        _ => { // unrelated headers need not be signed
            let n = r.payload().len().to_string(); r = r.h("accept-encoding", b"gzip").h("content-length", n.as_bytes());
            prepare(&mut r, &g, Payload::Signed);
            let l: Vec<String> = all_signed(&r).into_iter().filter(|n| n == "host" || n.starts_with("x-amz-")).collect();
            let sg = signature(&r, &g, &l); authorize(&mut r, &g, &l, &sg)
        }
    }
    accepted(&s, &r);
    check(calls()[0].op == n, "a correctly signed request executes the operation it names");
}
/// arbitrary bytes in key, query, header and body
#[no_mangle] pub extern "C" fn a_accept_bytes() {
    let s = rec(true);
    let mode = choice("mode", 3);
    let go = |r: &mut Rq| match mode { 0 => { sign(r, &me(), Payload::Signed); } 1 => { sign(r, &me(), Payload::Unsigned); } _ => { presign(r, &me(), b"600"); } };
    match choice("what", 6) {
        5 => { // header names
            let c = b"_.!#$%&'*+^`|~-09az"[choice("character", 19)] as char;
            let n = [format!("{c}"), format!("{c}b"), format!("a{c}b")][choice("at", 3)].clone();
            let pre = ["x-amz-meta-", "x-", "z"][choice("kind of name", 3)];
            let mut r = rq("PUT", b"/bkt/k").b(b"data"); r.headers.push((format!("{}{}", pre, n), b"v".to_vec())); go(&mut r);
            accepted(&s, &r);
            check(calls()[0].meta == if pre.len() > 2 { vec![(n, "v".to_string())] } else { vec![] }, "the storage sees the metadata the client signed");
        }
        4 => {
            // two more parameters in any order of their names and values
            let (a, b) = (sym_ascii("name", 1), sym_ascii("name2", 1));
            let same = choice("same name", 2) == 1;
            let (u, v): (&[u8], &[u8]) = if same { (&a, &b) } else { (b"1", b"0") };
            let (m, n): (&[u8], &[u8]) = if same { (b"n", b"n") } else { (&a, &b) };
            let mut r = rq("GET", b"/bkt").q(b"prefix", b"p").q(m, u).q(n, v); go(&mut r);
            accepted(&s, &r);
            check(calls()[0].get("prefix").map(|x| x.as_bytes()) == Some(&b"p"[..]), "the storage sees the query value the client signed");
        }
        0 => {
            let k = sym("key", 2);
            if std::str::from_utf8(&k).is_err() { end("keys are UTF-8") }
            let mut p = b"/bkt/".to_vec(); p.extend_from_slice(&k);
            let mut r = rq("PUT", &p).b(b"data"); go(&mut r);
            accepted(&s, &r);
            check(calls()[0].key.as_bytes() == k, "the storage sees the key the client signed");
        }
        1 => {
            let k = sym("prefix", 2);
            if std::str::from_utf8(&k).is_err() { end("query values are UTF-8") }
            let mut r = rq("GET", b"/bkt").q(b"prefix", &k).q(b"delimiter", b"/").q(b"list-type", b"2").q(b"Zz", b"1").q(b"fetch-owner", b"true"); go(&mut r);
            accepted(&s, &r);
            check(calls()[0].get("prefix").map(|x| x.as_bytes()) == Some(&k[..]), "the storage sees the query value the client signed");
        }
        2 => {
            let v = sym("value", 4);
            for b in &v { assume(within(*b, 0x20, 0x7e)) }
            assume(v[0] != b' ' && v[3] != b' ');
            let mut r = rq("PUT", b"/bkt/k").h("x-amz-meta-a", &v).h("content-type", b"text/plain").b(b"data"); go(&mut r);
            accepted(&s, &r);
            check(calls()[0].meta == vec![("a".to_string(), String::from_utf8(v).unwrap())], "the storage sees the metadata the client signed");
        }
        _ => {
            let d = sym("data", 5);
            let at = choice("cut", 6);
            let mut r = rq("PUT", b"/bkt/k").frags(cut(&d, &[at])); go(&mut r);
            accepted(&s, &r);
            check(calls()[0].body == d && !calls()[0].body_err, "the storage sees the body the client signed");
        }
    }
}
/// payloads, header values, parameters and lists of every size
#[no_mangle] pub extern "C" fn a_accept_sizes() {
    let s = rec(true);
    let mode = choice("mode", 3);
    let go = |r: &mut Rq| match mode { 0 => { sign(r, &me(), Payload::Signed); } 1 => { sign(r, &me(), Payload::Unsigned); } _ => { presign(r, &me(), b"600"); } };
    let z = [0usize, 1, 2, 15, 16, 17, 54, 55, 56, 57, 63, 64, 65, 119, 120, 255, 256, 511, 512, 513, 1000];
    match choice("what", 6) {
        0 => {
            let n = match choice("size", z.len() + 4) { i if i < z.len() => z[i], i => [4096, 8193, 65536, 100_001][i - z.len()] };
            let d = sym("data", n);
            let f = if choice("cut", 2) == 0 { cut(&d, &[]) } else { d.chunks(if n > 1000 { 5000 } else { 50 }).map(|v| v.to_vec()).collect() };
            let mut r = rq("PUT", b"/bkt/k").frags(f); go(&mut r);
            accepted(&s, &r);
            check(calls()[0].body == d && !calls()[0].body_err, "the storage sees the body the client signed");
        }
        1 => {
            let n = z[1 + choice("size", z.len() - 1)];
            let mut v = vec![b'x'; n]; v[n - 1] = sym_u8("last"); assume(within(v[n - 1], 0x21, 0x7e));
            let mut r = rq("PUT", b"/bkt/k").h("x-amz-meta-a", &v).b(b"data"); go(&mut r);
            accepted(&s, &r);
            check(calls()[0].meta == vec![("a".to_string(), String::from_utf8(v).unwrap())], "the storage sees the metadata the client signed");
        }
        2 => {
            let n = z[1 + choice("size", z.len() - 1)];
            let mut v = vec![b' '; n]; v[n - 1] = sym_u8("last"); assume(v[n - 1] < 0x80);
            let mut r = rq("GET", b"/bkt").q(b"prefix", &v); go(&mut r);
            accepted(&s, &r);
            check(calls()[0].get("prefix").map(|x| x.as_bytes()) == Some(&v[..]), "the storage sees the query value the client signed");
        }
        3 => {
            let n = z[1 + choice("size", z.len() - 1)];
            let mut v = vec![b'+'; n]; v[n - 1] = sym_u8("last"); assume(v[n - 1] < 0x80);
            let mut r = rq("DELETE", &[b"/bkt/", &v[..]].concat()); go(&mut r);
            accepted(&s, &r);
            check(calls()[0].key.as_bytes() == v, "the storage sees the key the client signed");
        }
        4 => { // many headers
            let n = [1usize, 12, 13, 14, 15, 16, 17, 18, 30, 75][choice("count", 10)];
            let c = sym_u8("value"); assume(within(c, 0x21, 0x7e));
            let mut r = rq("PUT", b"/bkt/k").b(b"data"); let mut m = vec![];
            for i in 0..n { let (k, v) = (format!("n{:02}", n - i), vec![c, b'a' + i as u8 % 26]); r.headers.push((format!("x-amz-meta-{}", k), v.clone())); m.push((k, String::from_utf8(v).unwrap())) }
            go(&mut r);
            accepted(&s, &r);
            m.sort();
            check(calls()[0].meta == m, "the storage sees the metadata the client signed");
        }
        _ => { // many parameters
            let n = [1usize, 9, 10, 14, 15, 16, 17, 30, 75][choice("count", 9)];
            let c = sym_u8("value"); assume(c < 0x80);
            let mut r = rq("GET", b"/bkt"); for i in 0..n { r = r.q(format!("q{:02}", n - i).as_bytes(), &[c, b'a' + i as u8 % 26]) }
            let at = choice("at", 2) * n; r.query.insert(at, (b"prefix".to_vec(), vec![c]));
            go(&mut r);
            accepted(&s, &r);
            check(calls()[0].get("prefix").map(|x| x.as_bytes()) == Some(&[c][..]), "the storage sees the query value the client signed");
        }
    }
}
/// non-ASCII keys and parameters
#[no_mangle] pub extern "C" fn a_accept_utf8() {
    let s = rec(true);
    let mode = choice("mode", 2);
    // the ranges of the first two bytes (RFC 3629)
    let (len, lo, hi, lo2, hi2) = [(2, 0xc2, 0xdf, 0x80, 0xbf), (3, 0xe0, 0xe0, 0xa0, 0xbf), (3, 0xe1, 0xec, 0x80, 0xbf), (3, 0xed, 0xed, 0x80, 0x9f), (3, 0xee, 0xef, 0x80, 0xbf), (4, 0xf0, 0xf0, 0x90, 0xbf), (4, 0xf1, 0xf3, 0x80, 0xbf), (4, 0xf4, 0xf4, 0x80, 0x8f)][choice("range", 8)];
    let k = sym("key", len);
    assume(within(k[0], lo, hi) & within(k[1], lo2, hi2)); for b in &k[2..] { assume(within(*b, 0x80, 0xbf)) }
    if choice("where", 2) == 1 {
        let mut r = rq("GET", b"/bkt").q(b"delimiter", b"/").q(b"prefix", &k);
        if mode == 0 { sign(&mut r, &me(), Payload::Signed); } else { presign(&mut r, &me(), b"600"); }
        accepted(&s, &r);
        check(calls()[0].get("prefix").map(|x| x.as_bytes()) == Some(&k[..]), "the storage sees the query value the client signed");
        return
    }
    let mut p = b"/bkt/".to_vec(); p.extend_from_slice(&k);
    let mut r = rq("PUT", &p).b(b"data");
    if mode == 0 { sign(&mut r, &me(), Payload::Signed); } else { presign(&mut r, &me(), b"600"); }
    accepted(&s, &r);
    check(calls()[0].key.as_bytes() == k, "the storage sees the key the client signed");
}
/// signing dates, regions, spellings of the Authorization header
#[no_mangle] pub extern "C" fn a_accept_scope() {
    let s = rec(true);
    let mut r = rq("PUT", b"/bkt/k").b(b"data");
    let region: &[u8] = [&b"us-east-1"[..], b"eu-central-1", b"x", b"us-gov-west-1"][choice("region", 4)];
    let g = Signer { region, ..me() };
    prepare(&mut r, &g, Payload::Signed);
    let l = all_signed(&r); let x = signature(&r, &g, &l);
    authorize(&mut r, &g, &l, &x);
    let a = String::from_utf8(r.headers.pop().unwrap().1).unwrap();
    let a = match choice("spelling", 3) { 0 => a, 1 => a.replace(", ", ","), _ => a.replace(", ", ",  ") };
    r.headers.push(("authorization".into(), a.into_bytes()));
    accepted(&s, &r);
}
/// browser uploads
#[no_mangle] pub extern "C" fn a_accept_form() {
    let s = rec(true);
    let who = choice("user", 2);
    let g = Signer { ak: [AK, AK2][who].as_bytes(), secret: [SK, SK2][who].as_bytes(), date: DATE, region: b"us-east-1" };
    let mut f = post_fields(&g, POLICY);
    if choice("upper", 2) == 1 { f[1].0 = "Policy"; f[2].0 = "X-Amz-Algorithm"; f[3].0 = "X-Amz-Credential"; f[4].0 = "X-Amz-Date"; f[5].0 = "X-Amz-Signature" }
    let d = sym("data", 2);
    match choice("policy", 4) { 0 => {} n => { let p = [&POLICY[..68].repeat([3, 8, 40][n - 1]), &POLICY[68..]].concat(); let up = f[1].0; f = post_fields(&g, &p); if up == "Policy" { f[1].0 = "Policy" } } } // any length
    let r = rq("POST", b"/bkt").h("content-type", FORM).b(&form_of(&f, Some(&d)));
    accepted(&s, &r);
    let c = &calls()[0];
    check(c.op == "PutObject" && c.bucket == "bkt" && c.key == "dir/k" && c.body == d && !c.body_err, "a browser upload stores the file under the key of the form");
}

/// validity period of presigned requests
#[no_mangle] pub extern "C" fn a_expiry() {
    let s = rec(true);
    let fixed = [0u64, 1, 60, 600, 86400, 604800, 2147483647, 2147483648, 4294967295];
    let c = choice("expires", fixed.len() + 1);
    let (exp, text) = if c < fixed.len() { (fixed[c], fixed[c].to_string().into_bytes()) } else {
        let d = sym("digit", 1);
        assume(within(d[0], b'1', b'9'));
        ((d[0] - b'0') as u64, d)
    };
    let delta = if exp > 604800 { [-100_000, 0, 700_000, exp as i64, exp as i64 + 1][choice("when", 5)] } else if c < fixed.len() {
        let d = sym_u64("now") as i64;
        let (lo, hi) = [(-2000, 2000), (exp as i64 - 1500, exp as i64 + 1500), (-100_000, -90_000), (exp as i64 + 300_000, exp as i64 + 310_000)][choice("window", 4)];
        assume(d >= lo && d <= hi);
        d
    } else { [0, i32::MAX as i64 - 100, u32::MAX as i64 - 100][choice("window", 3)] + sym_u8("now") as i64 };
    let mut r = op([9, 8, 11][choice("op", 3)]).1;
    presign(&mut r, &me(), &text);
    vfs().clock += delta;
    let x = r.send(&s);
    if delta > exp as i64 { check(calls().is_empty() && x.status >= 400 && x.status < 500, "an expired presigned request is refused"); reach("expired") }
    else if delta < -900 { check(calls().is_empty() && x.status >= 400, "a presigned request is refused before its time"); reach("early") }
    else if delta >= 0 && exp > 0 { check(calls().len() == 1 && x.ok(), "a presigned request is accepted during its validity period"); reach("valid") }
}
/// validity periods across calendar boundaries
#[no_mangle] pub extern "C" fn a_expiry_dates() {
    let s = rec(true);
    // (signed at, its Unix time)
    let (d, t) = [(&b"20240228T235959Z"[..], 1709164799i64), (b"20231231T235959Z", 1704067199), (b"20240229T120000Z", 1709208000), (b"19700101T000000Z", 0), (b"20380119T031407Z", 2147483647), (b"21000228T235959Z", 4107542399)][choice("date", 6)];
    let late = choice("when", 4);
    let mut r = op(9).1;
    presign(&mut r, &Signer { date: d, ..me() }, b"3600");
    vfs().clock = t + [0, 3600, 3601, 100_000][late];
    let x = r.send(&s);
    if late < 2 { check(calls().len() == 1 && x.ok(), "a presigned request is accepted during its validity period"); reach("valid") } else { check(calls().is_empty() && x.status >= 400, "an expired presigned request is refused"); reach("expired") }
}
/// malformed date and expiry fields, signed by the client
#[no_mangle] pub extern "C" fn a_expiry_fields() {
    let s = rec(true);
    let mut r = op(9).1;
    let bad = match choice("field", 3) {
        2 => { // a part of the date that is out of range
            let (at, lo, hi) = [(4usize, 1u8, 12u8), (6, 1, 31), (9, 0, 23), (11, 0, 59), (13, 0, 60)][choice("part", 5)];
            let mut d = DATE.to_vec();
            let v = sym("part", 2); for b in &v { assume(within(*b, b'0', b'9')) }
            let n = (v[0] - b'0') * 10 + (v[1] - b'0'); assume((n < lo) | (n > hi));
            d[at] = v[0]; d[at + 1] = v[1];
            vfs().clock += [0, 90_000, 17 * 86400, 48 * 86400][choice("clock", 4)]; // when something in range instead could be meant
            presign(&mut r, &Signer { date: &d, ..me() }, b"604800"); true
        }
        0 => { let e = sym_ascii("expires", choice("len", 4)); let mut num = !e.is_empty(); for b in &e { if !(*b >= b'0' && *b <= b'9') { num = false } } if num || e.first() == Some(&b'+') { end("a number") } presign(&mut r, &me(), &e); true }
        _ => { let d: &[u8] = [&b"20231114T221320"[..], b"20231314T221320Z", b"20231132T221320Z", b"2023-11-14T22:13:20Z", b"20231114T251320Z", b"20231114T226020Z", b"99991114"][choice("date", 7)]; presign(&mut r, &Signer { date: d, ..me() }, b"600"); true }
    };
    let x = r.send(&s);
    if bad { check(calls().is_empty() && x.status >= 400 && x.status < 500, "a presigned request without a valid period is refused"); reach("refused") }
}
/// A browser upload to `key`.
pub fn with_key(key: &[u8]) -> Rq { let mut f = post_fields(&me(), POLICY); f[0].1 = key.to_vec(); rq("POST", b"/bkt").h("content-type", FORM).b(&form_of(&f, Some(b"data"))) }
