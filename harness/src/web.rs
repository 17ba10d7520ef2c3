//! Building requests, driving the service, reading responses.
use hyper::body::Bytes;
use hyper::{Body, Request};
use s3_server::S3Service;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

/// Polls to completion on this thread. A future that stays pending for 64 polls is reported as stuck.
pub fn run<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = futures::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    for _ in 0..64 { if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x } }
    crate::rt::check(false, "a request makes progress");
    crate::rt::end("stuck")
}
/// A body delivered in the given pieces, then optionally a transport error.
pub fn body(frags: Vec<Vec<u8>>, fail: bool) -> Body {
    let mut v: Vec<std::io::Result<Bytes>> = vec![];
    for f in frags { v.push(Ok(Bytes::from(f))) }
    if fail { v.push(Err(std::io::Error::from(std::io::ErrorKind::ConnectionReset))) }
    Body::wrap_stream(futures::stream::iter(v))
}
#[derive(Debug, Clone)]
pub struct Resp { pub status: u16, pub headers: hyper::HeaderMap, pub body: Vec<u8>, pub body_err: bool }
impl Resp {
    pub fn header(&self, n: &str) -> Option<&[u8]> { self.headers.get(n).map(|v| v.as_bytes()) }
    pub fn ok(&self) -> bool { self.status >= 200 && self.status < 300 }
}
pub fn send(svc: &S3Service, req: Request<Body>) -> Resp {
    let r = run(svc.hyper_call(req));
    let resp = match r { Ok(r) => r, Err(_) => { crate::rt::note("hyper_call", b"err"); return Resp { status: 0, headers: Default::default(), body: vec![], body_err: true } } };
    finish(resp)
}
/// As hyper drives it: through a clone of the shared service, which is dropped before the answer is awaited.
pub fn send_shared(svc: &s3_server::SharedS3Service, req: Request<Body>) -> Resp {
    let f = { let mut s = svc.clone(); check_ready(&mut s); hyper::service::Service::call(&mut s, req) };
    match run(f) { Ok(r) => finish(r), Err(_) => Resp { status: 0, headers: Default::default(), body: vec![], body_err: true } }
}
fn check_ready(s: &mut s3_server::SharedS3Service) {
    let r = run(futures::future::poll_fn(|cx| hyper::service::Service::poll_ready(s, cx)));
    crate::rt::check(r.is_ok(), "a request makes progress");
}
pub fn finish(resp: hyper::Response<Body>) -> Resp {
    let (p, mut b) = resp.into_parts();
    let mut out = vec![]; let mut bad = false;
    loop {
        match run(futures::future::poll_fn(|cx| hyper::body::HttpBody::poll_data(Pin::new(&mut b), cx))) {
            None => break,
            Some(Ok(x)) => out.extend_from_slice(&x),
            Some(Err(_)) => { bad = true; break }
        }
    }
    Resp { status: p.status.as_u16(), headers: p.headers, body: out, body_err: bad }
}
pub fn req(method: &str, uri: &[u8]) -> Option<hyper::http::request::Builder> {
    let u = hyper::Uri::try_from(uri).ok()?;
    Some(Request::builder().method(method).uri(u).header("host", "localhost"))
}
