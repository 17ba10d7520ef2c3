//! hyper, whose server hands each connection's service to the harness instead of a socket.
#![allow(static_mut_refs)]
pub use real::*;
pub use server::Server;
use std::{future::Future, pin::Pin};
pub type Answer = Pin<Box<dyn Future<Output = Option<Response<Body>>>>>;
pub type Conn = Box<dyn FnMut(Request<Body>) -> Answer>;
/// what the server would do with a new connection
pub static mut CONNECT: Option<Box<dyn FnMut() -> Option<Conn>>> = None;
/// the listening address
pub static mut LISTENS: Option<std::net::SocketAddr> = None;
pub mod server {
    use real::{service::Service, Body, Request, Response};
    use std::{future::Future, net::{SocketAddr, TcpListener}, pin::Pin, task::{Context, Poll}};
    pub mod conn { pub use super::AddrStream; }
    pub struct AddrStream;
    impl AddrStream { pub fn remote_addr(&self) -> SocketAddr { SocketAddr::from(([127, 0, 0, 1], 50000)) } }
    pub struct Server;
    pub struct Builder;
    pub struct Serving(Option<Box<dyn FnMut() -> Option<super::Conn>>>);
    fn run<F: Future>(f: F) -> F::Output {
        let mut f = Box::pin(f);
        struct W; impl std::task::Wake for W { fn wake(self: std::sync::Arc<Self>) {} }
        let w = std::task::Waker::from(std::sync::Arc::new(W));
        let mut cx = Context::from_waker(&w);
        loop { if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x } }
    }
    impl Server {
        pub fn from_tcp(l: TcpListener) -> real::Result<Builder> { unsafe { super::LISTENS = l.local_addr().ok() } std::mem::forget(l); Ok(Builder) }
        pub fn try_bind(a: &SocketAddr) -> real::Result<Builder> { match TcpListener::bind(a) { Ok(l) => Self::from_tcp(l), Err(_) => panic!("bind") } }
        pub fn bind(a: &SocketAddr) -> Builder { match Self::try_bind(a) { Ok(b) => b, Err(_) => panic!("bind") } }
    }
    impl Builder {
        pub fn http1_keepalive(self, _: bool) -> Self { self }
        pub fn http1_only(self, _: bool) -> Self { self }
        pub fn http1_half_close(self, _: bool) -> Self { self }
        pub fn tcp_nodelay(self, _: bool) -> Self { self }
        pub fn tcp_keepalive(self, _: Option<std::time::Duration>) -> Self { self }
        pub fn serve<M, S, E, F>(self, mut m: M) -> Serving
        where M: for<'a> Service<&'a AddrStream, Response = S, Error = E, Future = F> + 'static, F: Future<Output = Result<S, E>> + 'static,
            S: Service<Request<Body>, Response = Response<Body>> + 'static, S::Future: 'static, E: 'static {
            Serving(Some(Box::new(move || {
                if run(std::future::poll_fn(|cx| m.poll_ready(cx))).is_err() { return None }
                let f = m.call(&AddrStream);
                let mut s = run(f).ok()?;
                Some(Box::new(move |r: Request<Body>| -> super::Answer {
                    if run(std::future::poll_fn(|cx| s.poll_ready(cx))).is_err() { return Box::pin(std::future::ready(None)) }
                    let f = s.call(r);
                    Box::pin(async move { f.await.ok() })
                }) as super::Conn)
            })))
        }
    }
    impl Serving { pub fn with_graceful_shutdown<F>(self, _: F) -> Self { self } }
    impl Future for Serving {
        type Output = real::Result<()>;
        fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<real::Result<()>> { unsafe { super::CONNECT = self.0.take() } Poll::Ready(Ok(())) }
    }
}
