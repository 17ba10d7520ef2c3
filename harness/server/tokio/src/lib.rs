//! Stands in for the runtime.
pub use vtokio_macros::main;
pub fn vs_block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut cx = std::task::Context::from_waker(futures::task::noop_waker_ref());
    loop { if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x } }
}
