//! Verification stub of the `blocking` crate: no threads. `unblock` runs the closure when first
//! polled. `Unblock` keeps the property of the original that written data only reaches the
//! underlying object when it is flushed, closed, sought or read past (the original copies it in the
//! background): data still buffered when the handle is dropped is applied when `settle` runs.
//! While `PREEMPT` is set every blocking call first reports `Pending` once, so that the harness can
//! run another request in between.
use std::future::Future;
use std::io::{Read, Result, Seek, SeekFrom, Write};
use std::pin::Pin;
use std::task::{Context, Poll};

static mut PREEMPT: bool = false;
#[no_mangle] pub extern "C" fn vh_preempt(on: bool) { unsafe { PREEMPT = on } }
fn pause(asked: &mut bool, cx: &mut Context<'_>) -> bool {
    let p = unsafe { PREEMPT } && !*asked;
    *asked = p;
    if p { cx.waker().wake_by_ref() }
    p
}

pub struct Task<T>(Option<Box<dyn FnOnce() -> T + Send>>, bool);
impl<T> Unpin for Task<T> {}
impl<T> Future for Task<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> { if pause(&mut self.1, cx) { return Poll::Pending } Poll::Ready((self.0.take().expect("polled after completion"))()) }
}
impl<T> Task<T> { pub fn detach(self) {} }
pub fn unblock<T, F>(f: F) -> Task<T> where F: FnOnce() -> T + Send + 'static, T: Send + 'static { Task(Some(Box::new(f)), false) }

static mut LATE: Vec<Box<dyn FnMut() -> Result<()>>> = Vec::new();
/// Applies the writes of dropped, unflushed handles.
pub fn settle() { #[allow(static_mut_refs)] unsafe { while !LATE.is_empty() { let mut f = LATE.remove(0); let _ = f(); } } }
#[no_mangle] pub extern "C" fn vh_settle() { settle() }

pub struct Unblock<T: 'static> { io: Option<T>, buf: Vec<u8>, asked: bool, late: Option<(fn(T, Vec<u8>), fn(&mut T, &[u8]) -> Result<()>)> }
impl<T> Unblock<T> {
    pub fn new(io: T) -> Self { Unblock { io: Some(io), buf: Vec::new(), asked: false, late: None } }
    pub fn with_capacity(_: usize, io: T) -> Self { Self::new(io) }
    pub async fn get_mut(&mut self) -> &mut T { self.io.as_mut().unwrap() }
    pub async fn into_inner(mut self) -> T { self.late = None; self.io.take().unwrap() }
}
impl<T> Unpin for Unblock<T> {}
impl<T: std::fmt::Debug> std::fmt::Debug for Unblock<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Unblock") } }
fn late<T: Write + 'static>(mut io: T, buf: Vec<u8>) {
    let mut b = Some(buf);
    #[allow(static_mut_refs)]
    unsafe { LATE.push(Box::new(move || { if let Some(b) = b.take() { io.write_all(&b)?; io.flush()? } Ok(()) })) }
}
impl<T> Drop for Unblock<T> {
    fn drop(&mut self) { if !self.buf.is_empty() { if let (Some((f, _)), Some(io)) = (self.late, self.io.take()) { f(io, std::mem::take(&mut self.buf)) } } }
}
fn put<T: Write>(io: &mut T, b: &[u8]) -> Result<()> { io.write_all(b)?; io.flush() }
impl<T> Unblock<T> {
    fn push(&mut self) -> Result<()> {
        if self.buf.is_empty() { return Ok(()) }
        let b = std::mem::take(&mut self.buf);
        (self.late.unwrap().1)(self.io.as_mut().unwrap(), &b)
    }
}
impl<T: Read + Send + 'static> futures_io::AsyncRead for Unblock<T> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        if pause(&mut self.asked, cx) { return Poll::Pending }
        if let Err(e) = self.push() { return Poll::Ready(Err(e)) }
        Poll::Ready(self.io.as_mut().unwrap().read(buf))
    }
}
impl<T: Seek + Send + 'static> futures_io::AsyncSeek for Unblock<T> {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, pos: SeekFrom) -> Poll<Result<u64>> {
        if pause(&mut self.asked, cx) { return Poll::Pending }
        if let Err(e) = self.push() { return Poll::Ready(Err(e)) }
        Poll::Ready(self.io.as_mut().unwrap().seek(pos))
    }
}
impl<T: Write + Send + 'static> futures_io::AsyncWrite for Unblock<T> {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        self.late = Some((late::<T>, put::<T>));
        self.buf.extend_from_slice(buf);
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> { if !self.buf.is_empty() && pause(&mut self.asked, cx) { return Poll::Pending } Poll::Ready(self.push()) }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> { if pause(&mut self.asked, cx) { return Poll::Pending } let r = self.push(); self.io = None; Poll::Ready(r) }
}
