//! Helpers of the demonstrations: a server over a scratch directory and a request builder with an
//! independent AWS Signature Version 4 signer.
#![allow(dead_code)]
use hmac::Mac;
use hyper::{Body, Request};
use s3_server::{storages::fs::FileSystem, S3Service, SimpleAuth};
use sha2::Digest;
use std::path::PathBuf;

pub const AK: &str = "AKIDDEMO";
pub const SK: &str = "demo/secret/key";

pub struct Srv { pub svc: S3Service, pub root: PathBuf }

/// A server with the buckets `bkt` and `other`, in its own directory below $DEMO_ROOT.
pub fn srv(auth: bool) -> Srv {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let root = PathBuf::from(std::env::var_os("DEMO_ROOT").expect("DEMO_ROOT")).join(format!("{}/srv/root", N.fetch_add(1, Ordering::SeqCst)));
    for b in ["bkt", "other"] { std::fs::create_dir_all(root.join(b)).unwrap() }
    let mut svc = S3Service::new(FileSystem::new(&root).unwrap());
    if auth {
        let mut a = SimpleAuth::new();
        a.register(AK.into(), SK.into());
        svc.set_auth(a);
    }
    Srv { svc, root }
}

#[derive(Clone)]
pub struct R { pub method: String, pub path: String, pub query: Vec<(String, String)>, pub headers: Vec<(String, Vec<u8>)>, pub frags: Vec<Vec<u8>>, pub fail: bool }
pub fn r(method: &str, path: &str) -> R { R { method: method.into(), path: path.into(), query: vec![], headers: vec![("host".into(), b"demo.local".to_vec())], frags: vec![], fail: false } }

#[derive(Debug, Clone, PartialEq)]
pub struct Resp { pub status: u16, pub headers: Vec<(String, String)>, pub body: Vec<u8>, pub broken: bool }
impl Resp {
    pub fn h(&self, n: &str) -> Option<&str> { self.headers.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str()) }
    pub fn text(&self) -> String { String::from_utf8_lossy(&self.body).into_owned() }
    pub fn all(&self, tag: &str) -> Vec<String> {
        let t = self.text();
        t.split(&format!("<{}>", tag)).skip(1).map(|s| s.split(&format!("</{}>", tag)).next().unwrap().to_string()).collect()
    }
}

pub fn enc(s: &str, slash: bool) -> String {
    let mut o = String::new();
    for &b in s.as_bytes() {
        if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) || (b == b'/' && !slash) { o.push(b as char) } else { o.push_str(&format!("%{:02X}", b)) }
    }
    o
}
pub fn hex(d: &[u8]) -> String { d.iter().map(|b| format!("{:02x}", b)).collect() }
pub fn sha256(d: &[u8]) -> String { hex(&sha2::Sha256::digest(d)) }
pub fn md5(d: &[u8]) -> String { hex(&md5::Md5::digest(d)) }
pub fn hmac256(k: &[u8], d: &[u8]) -> Vec<u8> { let mut m = hmac::Hmac::<sha2::Sha256>::new_from_slice(k).unwrap(); m.update(d); m.finalize().into_bytes().to_vec() }
pub fn now() -> String { chrono::Utc::now().format("%Y%m%dT%H%M%SZ").to_string() }
pub fn scope(date: &str) -> String { format!("{}/us-east-1/s3/aws4_request", &date[..8]) }
pub fn sig(date: &str, sts: &str) -> String {
    let mut k = hmac256(format!("AWS4{}", SK).as_bytes(), date[..8].as_bytes());
    for s in ["us-east-1", "s3", "aws4_request"] { k = hmac256(&k, s.as_bytes()) }
    hex(&hmac256(&k, sts.as_bytes()))
}

impl R {
    pub fn q(mut self, n: &str, v: &str) -> R { self.query.push((n.into(), v.into())); self }
    pub fn h(mut self, n: &str, v: &str) -> R { self.headers.push((n.into(), v.as_bytes().to_vec())); self }
    pub fn b(mut self, b: impl AsRef<[u8]>) -> R { self.frags = vec![b.as_ref().to_vec()]; self }
    pub fn frags(mut self, f: &[&[u8]]) -> R { self.frags = f.iter().map(|x| x.to_vec()).collect(); self }
    /// the connection breaks after the last fragment
    pub fn fail(mut self) -> R { self.fail = true; self }
    pub fn payload(&self) -> Vec<u8> { self.frags.concat() }
    pub fn signed(&self) -> Vec<String> { let mut v: Vec<String> = self.headers.iter().map(|(n, _)| n.clone()).filter(|n| n != "authorization").collect(); v.sort(); v.dedup(); v }
    fn canonical(&self, payload: &str) -> String {
        let mut q: Vec<(String, String)> = self.query.iter().filter(|(n, _)| n != "X-Amz-Signature").map(|(n, v)| (enc(n, true), enc(v, true))).collect();
        q.sort();
        let q: Vec<String> = q.iter().map(|(n, v)| format!("{}={}", n, v)).collect();
        let signed = self.signed();
        let mut c = format!("{}\n{}\n{}\n", self.method, enc(&self.path, false), q.join("&"));
        for s in &signed { for (n, v) in &self.headers { if n == s { c.push_str(&format!("{}:{}\n", n, String::from_utf8_lossy(v).trim())) } } }
        c.push_str(&format!("\n{}\n{}", signed.join(";"), payload));
        c
    }
    pub fn sts(&self, date: &str, payload: &str) -> String { format!("AWS4-HMAC-SHA256\n{}\n{}\n{}", date, scope(date), sha256(self.canonical(payload).as_bytes())) }
    /// sign in the Authorization header; `payload` None: the hash of the body. Returns the signature too.
    pub fn sign_as(mut self, date: &str, payload: Option<&str>) -> (R, String) {
        let hash = payload.map_or_else(|| sha256(&self.payload()), |s| s.to_string());
        self = self.h("x-amz-date", date).h("x-amz-content-sha256", &hash);
        let g = sig(date, &self.sts(date, &hash));
        let r = self.clone().with_signature(date, &g);
        (r, g)
    }
    pub fn with_signature(self, date: &str, g: &str) -> R {
        let a = format!("AWS4-HMAC-SHA256 Credential={}/{}, SignedHeaders={}, Signature={}", AK, scope(date), self.signed().join(";"), g);
        self.h("authorization", &a)
    }
    pub fn sign(self) -> R { self.sign_as(&now(), None).0 }
    pub fn presign(self, date: &str, expires: &str) -> R {
        let signed = self.signed().join(";");
        let mut s = self.q("X-Amz-Algorithm", "AWS4-HMAC-SHA256").q("X-Amz-Credential", &format!("{}/{}", AK, scope(date))).q("X-Amz-Date", date).q("X-Amz-Expires", expires).q("X-Amz-SignedHeaders", &signed);
        let g = sig(date, &s.sts(date, "UNSIGNED-PAYLOAD"));
        s.query.push(("X-Amz-Signature".into(), g));
        s
    }
    pub fn build(&self) -> Request<Body> {
        let q: Vec<String> = self.query.iter().map(|(n, v)| if v.is_empty() { enc(n, true) } else { format!("{}={}", enc(n, true), enc(v, true)) }).collect();
        let uri = if q.is_empty() { enc(&self.path, false) } else { format!("{}?{}", enc(&self.path, false), q.join("&")) };
        let mut b = Request::builder().method(self.method.as_str()).uri(uri);
        for (n, v) in &self.headers { b = b.header(n.as_str(), hyper::header::HeaderValue::from_bytes(v).unwrap()) }
        let mut items: Vec<Result<Vec<u8>, std::io::Error>> = self.frags.iter().cloned().map(Ok).collect();
        if self.fail { items.push(Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "the connection broke"))) }
        let body = if items.is_empty() { Body::empty() } else { Body::wrap_stream(futures::stream::iter(items)) };
        b.body(body).unwrap()
    }
    pub async fn send(&self, s: &Srv) -> Resp { send(s, self.build()).await }
}
pub async fn send(s: &Srv, req: Request<Body>) -> Resp {
    match s.svc.hyper_call(req).await {
        Err(e) => Resp { status: 0, headers: vec![], body: e.to_string().into_bytes(), broken: true },
        Ok(res) => {
            let status = res.status().as_u16();
            let headers = res.headers().iter().map(|(n, v)| (n.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect();
            let (body, broken) = match hyper::body::to_bytes(res.into_body()).await { Ok(b) => (b.to_vec(), false), Err(_) => (vec![], true) };
            Resp { status, headers, body, broken }
        }
    }
}
/// one chunk of an aws-chunked body; returns its signature
pub fn chunk(date: &str, prev: &str, data: &[u8], out: &mut Vec<u8>) -> String {
    let sts = format!("AWS4-HMAC-SHA256-PAYLOAD\n{}\n{}\n{}\n{}\n{}", date, scope(date), prev, sha256(b""), sha256(data));
    let g = sig(date, &sts);
    out.extend_from_slice(format!("{:x};chunk-signature={}\r\n", data.len(), g).as_bytes());
    out.extend_from_slice(data);
    out.extend_from_slice(b"\r\n");
    g
}
pub async fn put(s: &Srv, path: &str, data: &[u8]) -> Resp { r("PUT", path).h("content-length", &data.len().to_string()).b(data).send(s).await }
pub async fn get(s: &Srv, path: &str) -> Resp { r("GET", path).send(s).await }
