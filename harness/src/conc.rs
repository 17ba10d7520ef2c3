//! Two requests at a time, and requests whose client goes away: request B runs (whole, or its first few blocking calls)
//! before an arbitrary file system call of request A.
#![allow(static_mut_refs)]
use crate::{fx::*, rt::*, sig, vfs::vfs, web::Resp};
use hyper::body::HttpBody;
use s3_server::S3Service;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

extern "C" { fn vh_preempt(on: bool); fn vh_settle(); }
type Fut = Pin<Box<dyn Future<Output = Resp>>>;
fn task(s: &'static S3Service, r: &Rq) -> Fut {
    let r = r.build().unwrap();
    Box::pin(async move {
        let Ok(resp) = s.hyper_call(r).await else { return Resp { status: 0, headers: Default::default(), body: vec![], body_err: true } };
        let (p, mut b) = resp.into_parts();
        let (mut body, mut body_err) = (vec![], false);
        loop {
            match futures::future::poll_fn(|cx| Pin::new(&mut b).poll_data(cx)).await { None => break, Some(Ok(x)) => body.extend_from_slice(&x), Some(Err(_)) => { body_err = true; break } }
        }
        Resp { status: p.status.as_u16(), headers: p.headers, body, body_err }
    })
}
static mut B: Option<Fut> = None;
static mut RB: Option<Resp> = None;
/// polls B at most `n` times, one blocking call each
fn advance(n: u8) {
    unsafe {
        let Some(f) = B.as_mut() else { return };
        vh_preempt(n != WHOLE);
        let w = futures::task::noop_waker();
        let mut cx = Context::from_waker(&w);
        for i in 0..200u8 { if n == i { break } if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { RB = Some(r); B = None; break } }
        vh_preempt(false);
    }
}
/// A with B before its `at`-th file system call (after A if it makes fewer); B stops after `part` blocking calls until A is done
const WHOLE: u8 = 255;
fn race(s: &'static S3Service, a: &Rq, b: &Rq, at: u8, part: u8) -> (Resp, Resp, bool) {
    unsafe { B = Some(task(s, b)); RB = None }
    let f = task(s, a);
    let v = vfs();
    v.calls = 0; v.hook_at = at as u32;
    v.hook = Some(Box::new(move || advance(part)));
    let ra = crate::web::run(f);
    let inside = vfs().hook.take().is_none();
    vfs().hook_at = 0;
    let whole = unsafe { B.is_none() };
    advance(WHOLE);
    let rb = match unsafe { RB.take() } { Some(r) => r, None => { check(false, "a request makes progress"); end("stuck") } };
    (ra, rb, inside && (part == WHOLE || !whole))
}
#[derive(Clone, PartialEq, Debug)]
struct Obj { data: Vec<u8>, meta: Option<Vec<u8>> }
type St = Option<Obj>;
const P: &[u8] = b"/bkt/dir/k";
struct W { d1: Vec<u8>, d2: Vec<u8>, up: Vec<u8> }
const OPS: usize = 10;
fn request(i: usize, w: &W) -> Rq {
    match i {
        0 => rq("PUT", P).b(&w.d1).h("x-amz-meta-n", b"one"),
        1 => rq("PUT", P).frags(cut(&w.d2, &[1])),
        2 => rq("DELETE", P),
        3 => rq("PUT", P).h("x-amz-copy-source", b"other/src"),
        4 => rq("POST", P).q(b"uploadId", &w.up).b(b"<CompleteMultipartUpload><Part><PartNumber>1</PartNumber></Part><Part><PartNumber>2</PartNumber></Part></CompleteMultipartUpload>"),
        5 => rq("POST", b"/bkt").q(b"delete", b"").b(b"<Delete><Object><Key>dir/k</Key></Object></Delete>"),
        6 => rq("GET", P), 7 => rq("HEAD", P), 8 => rq("GET", b"/bkt"),
        _ => rq("GET", P).h("range", b"bytes=1-"),
    }
}
fn writes(i: usize) -> bool { i < 6 }
fn effect(i: usize, st: &St, w: &W) -> St {
    let o = |d: &[u8], m: Option<&[u8]>| Some(Obj { data: d.to_vec(), meta: m.map(|x| x.to_vec()) });
    match i { 0 => o(&w.d1, Some(b"one")), 1 => o(&w.d2, None), 2 | 5 => None, 3 => o(b"copied", Some(b"src")), 4 => o(b"part one, part two", None), _ => st.clone() }
}
fn quoted(e: &[u8]) -> Vec<u8> { e.iter().copied().filter(|c| *c != b'"').collect() }
/// Does the answer fit a request that saw this state? (0 no, 1 but for the metadata, 2 yes)
fn fits(i: usize, r: &Resp, st: &St) -> u8 {
    let yes = |b: bool| if b { 2 } else { 0 };
    let meta = |o: &Obj| if r.header("x-amz-meta-n") == o.meta.as_deref() { 2 } else { 1 };
    match i {
        0 | 1 | 3 | 4 => yes(r.status == 200),
        2 => yes(r.status == 204), 5 => yes(r.status == 200 && texts(&r.body, "Key") == [b"dir/k".to_vec()]),
        6 | 9 => match st {
            None => yes(r.status == 404 && code(r) == b"NoSuchKey"),
            Some(o) => {
                let d = if i == 9 { &o.data[1..] } else { &o.data[..] };
                let len = d.len().to_string();
                let ok = r.status == if i == 9 { 206 } else { 200 } && !r.body_err && r.body.len() == d.len() && r.body == d && r.header("content-length") == Some(len.as_bytes()) && r.header("etag").map(quoted) == Some(sig::hex(&sig::md5(&o.data)));
                if ok { meta(o) } else { 0 }
            }
        },
        7 => match st { None => yes(r.status == 404), Some(o) => if r.status == 200 && r.header("content-length") == Some(o.data.len().to_string().as_bytes()) { meta(o) } else { 0 } },
        _ => {
            let mut keys = vec![]; let mut sizes = vec![];
            if let Some(o) = st { keys.push(b"dir/k".to_vec()); sizes.push(o.data.len().to_string().into_bytes()) }
            keys.push(b"dir/l".to_vec()); sizes.push(b"9".to_vec());
            keys.push(b"z".to_vec()); sizes.push(b"4".to_vec());
            yes(r.status == 200 && texts(&r.body, "Key") == keys && texts(&r.body, "Size") == sizes)
        }
    }
}
fn setup(old: usize) -> (&'static S3Service, W, St) {
    let s: &'static S3Service = Box::leak(Box::new(fs()));
    let put = |p: &[u8], d: &[u8], m: Option<&[u8]>| { let mut r = rq("PUT", p).b(d); if let Some(m) = m { r = r.h("x-amz-meta-n", m) } check(r.send(s).ok(), "PUT accepts an ordinary object") };
    put(b"/bkt/z", b"last", None);
    let st = match old { 0 => None, 1 => { put(P, b"previous content", Some(b"old")); Some(Obj { data: b"previous content".to_vec(), meta: Some(b"old".to_vec()) }) } _ => { let d = vec![b'o'; 9000]; put(P, &d, None); Some(Obj { data: d, meta: None }) } };
    put(b"/bkt/dir/l", b"neighbour", None);
    put(b"/other/src", b"copied", Some(b"src"));
    let r = rq("POST", P).q(b"uploads", b"").send(s);
    let up = texts(&r.body, "UploadId").into_iter().next().unwrap_or_default();
    for (n, d) in [(b"1", &b"part one, "[..]), (b"2", b"part two")] { check(rq("PUT", P).q(b"partNumber", n).q(b"uploadId", &up).b(d).send(s).ok(), "UploadPart accepts an ordinary part") }
    let w = W { d1: sym("data1", 2), d2: sym("data2", 3), up };
    (s, w, st)
}
fn pair(a: usize, b: usize, old: usize, at: u8, part: u8) {
    let (s, w, st) = setup(old);
    let (ra, rb, used) = race(s, &request(a, &w), &request(b, &w), at, part);
    // paths on which B did not interrupt A repeat others
    if used { reach("raced") } else { reach("in turn") }
    let g = rq("GET", P).send(s);
    let order = |x: usize, rx: &Resp, y: usize, ry: &Resp| { let s1 = effect(x, &st, &w); let s2 = effect(y, &s1, &w); fits(x, rx, &st).min(fits(y, ry, &s1)).min(fits(6, &g, &s2)) };
    let ok = order(a, &ra, b, &rb).max(order(b, &rb, a, &ra));
    if ok == 0 && !symbolic() { print(&format!("{a} {b} at {at} part {part}: {} {:?} | {} {:?} | {} {:?} {:?}", ra.status, String::from_utf8_lossy(&ra.body), rb.status, String::from_utf8_lossy(&rb.body), g.status, g.body, st)) }
    check(ok > 0, "two requests at a time have the effect and the answers of one after the other");
    let l = rq("GET", b"/bkt").send(s);
    check(texts(&l.body, "Key").len() == if g.status == 200 { 3 } else { 2 }, "a listing shows exactly the stored objects");
    check(rq("GET", b"/bkt/dir/l").send(s).body == b"neighbour" && rq("GET", b"/other/src").send(s).body == b"copied", "other objects stay as they were");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    check(!vfs().files("/srv/root").iter().any(|f| f.0.starts_with(b".tmp")), "no temporary file is left behind");
    if ok == 1 { known("content-and-metadata-of-different-writers") }
    check(ok == 2, "content and metadata come from the same writer");
}
fn two() -> (usize, usize) { let a = choice("A", OPS); let b = choice("B", OPS); assume((writes(a) || writes(b)) && !(a == b && a == 4)); (a, b) }
/// B as a whole in the middle of A
#[no_mangle] pub extern "C" fn c_pairs() { let (a, b) = two(); let old = choice("old", 2); pair(a, b, old, sym_u8("at"), WHOLE) }
/// A, first part of B, rest of A, rest of B
#[no_mangle] pub extern "C" fn c_split() { let (a, b) = two(); pair(a, b, 1, sym_u8("at"), sym_u8("part") & 63) }
static mut C: Option<Fut> = None;
static mut FIRST: Option<Resp> = None;
static mut AT: u8 = 0;
static mut GAP: u8 = 0;
/// B and then C, each as a whole, before two arbitrary file system calls of A
fn race3(s: &'static S3Service, a: &Rq, b: &Rq, c: &Rq) -> Option<(Resp, Resp, Resp)> {
    unsafe { AT = sym_u8("at"); GAP = sym_u8("gap"); B = Some(task(s, b)); RB = None; C = Some(task(s, c)); FIRST = None }
    let f = task(s, a);
    let v = vfs();
    v.calls = 0; v.hook_at = unsafe { AT } as u32;
    v.hook = Some(Box::new(move || {
        advance(WHOLE);
        unsafe { FIRST = RB.take(); B = C.take() }
        let v = vfs();
        v.hook_at = v.calls + 1 + unsafe { GAP } as u32;
        v.hook = Some(Box::new(|| advance(WHOLE)));
    }));
    let ra = crate::web::run(f);
    let inside = vfs().hook.take().is_none();
    vfs().hook_at = 0;
    // paths on which A ended before C began repeat those of two requests
    if !inside { reach("in turn"); return None }
    reach("raced");
    match unsafe { (FIRST.take(), RB.take()) } { (Some(rb), Some(rc)) => Some((ra, rb, rc)), _ => { check(false, "a request makes progress"); end("stuck") } }
}
/// B and then C in the middle of A, each as a whole
fn three(a: usize, b: usize, c: usize, old: usize) {
    let (s, w, st) = setup(old);
    let Some((ra, rb, rc)) = race3(s, &request(a, &w), &request(b, &w), &request(c, &w)) else { return };
    let (at, gap) = unsafe { (AT, GAP) };
    let g = rq("GET", P).send(s);
    // C began after B had ended
    let order = |x: [(usize, &Resp); 3]| { let mut t = st.clone(); let mut n = 2; for (i, r) in x { n = n.min(fits(i, r, &t)); t = effect(i, &t, &w) } n.min(fits(6, &g, &t)) };
    let (a, b, c) = ((a, &ra), (b, &rb), (c, &rc));
    let ok = order([a, b, c]).max(order([b, a, c])).max(order([b, c, a]));
    if ok == 0 && !symbolic() { print(&format!("{} {} {} at {at} gap {gap}: {} {:?} | {} {:?} | {} {:?} | {} {:?} {:?}", a.0, b.0, c.0, ra.status, String::from_utf8_lossy(&ra.body), rb.status, String::from_utf8_lossy(&rb.body), rc.status, String::from_utf8_lossy(&rc.body), g.status, g.body, st)) }
    check(ok > 0, "three requests at a time have the effect and the answers of one after the other");
    check(rq("GET", b"/bkt/dir/l").send(s).body == b"neighbour" && rq("GET", b"/other/src").send(s).body == b"copied", "other objects stay as they were");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    check(!vfs().files("/srv/root").iter().any(|f| f.0.starts_with(b".tmp")), "no temporary file is left behind");
    if ok == 1 { known("content-and-metadata-of-different-writers") }
    check(ok == 2, "content and metadata come from the same writer");
}
#[no_mangle] pub extern "C" fn c_three() { let b = [1, 2, 4][choice("B", 3)]; let c = [0, 1, 2, 3][choice("C", 4)]; three(6 + choice("A", 4), b, c, choice("old", 2)) }
#[no_mangle] pub extern "C" fn c_three_all() { let (b, c) = (choice("B", 6), choice("C", 6)); let a = choice("A", OPS); assume((a == 4) as u8 + (b == 4) as u8 + (c == 4) as u8 <= 1); three(a, b, c, choice("old", 2)) }
/// a large object, so that its body is read piece by piece
#[no_mangle] pub extern "C" fn c_large() { let a = [6, 9, 3][choice("A", 3)]; let b = choice("B", 6); pair(a, b, 2, sym_u8("at"), WHOLE) }
// ---- buckets ----------------------------------------------------------------------------------
#[derive(Clone, PartialEq, Debug)]
struct Bs { new: bool, emp: Option<bool> } // does `new` exist; does `emp`, and its object
const BOPS: usize = 11;
fn brequest(i: usize) -> Rq {
    match i {
        0 => rq("PUT", b"/new"), 1 => rq("DELETE", b"/emp"), 2 => rq("PUT", b"/emp/dir/k").b(b"data"), 3 => rq("DELETE", b"/new"), 4 => rq("PUT", b"/emp"), 5 => rq("DELETE", b"/emp/dir/k"),
        6 => rq("PUT", b"/emp/k").h("x-amz-copy-source", b"other/src"),
        7 => rq("GET", b"/"), 8 => rq("GET", b"/emp"), 9 => rq("HEAD", b"/emp"), _ => rq("GET", b"/emp").q(b"location", b""),
    }
}
/// the answer to a request in some state, or the state after it
fn bstep(i: usize, r: &Resp, st: &Bs) -> Option<Bs> {
    let mut n = st.clone();
    let no = |r: &Resp| r.status == 404 && code(r) == b"NoSuchBucket";
    let ok = match i {
        0 => if st.new { r.status == 409 } else { n.new = true; r.status == 200 },
        1 => match st.emp { None => no(r), Some(true) => r.status == 409 && code(r) == b"BucketNotEmpty", Some(false) => { n.emp = None; r.status == 204 } },
        2 | 6 => match st.emp { None => no(r), Some(_) => { n.emp = Some(true); r.status == 200 } },
        3 => if st.new { n.new = false; r.status == 204 } else { no(r) },
        4 => if st.emp.is_some() { r.status == 409 } else { n.emp = Some(false); r.status == 200 },
        5 => match st.emp { None => no(r), Some(_) => { n.emp = Some(false); r.status == 204 } },
        7 => { let mut names = texts(&r.body, "Name"); names.sort(); let mut w = vec![b"bkt".to_vec()]; if st.emp.is_some() { w.push(b"emp".to_vec()) } if st.new { w.push(b"new".to_vec()) } w.push(b"other".to_vec()); r.status == 200 && names == w }
        8 => match st.emp { None => no(r), Some(k) => r.status == 200 && texts(&r.body, "Key").len() == k as usize },
        9 => if st.emp.is_some() { r.status == 200 } else { r.status == 404 },
        _ => if st.emp.is_some() { r.status == 200 } else { no(r) },
    };
    if ok { Some(n) } else { None }
}
fn bpair(part: u8) {
    let s: &'static S3Service = Box::leak(Box::new(fs()));
    let (a, b) = (choice("A", BOPS), choice("B", BOPS));
    assume(a < 7 || b < 7);
    let st = Bs { new: choice("new", 2) == 1, emp: [None, Some(false), Some(true)][choice("emp", 3)] };
    check(rq("PUT", b"/other/src").b(b"copied").send(s).ok(), "PUT accepts an ordinary object");
    if st.new { check(rq("PUT", b"/new").send(s).ok(), "a bucket can be created") }
    if st.emp.is_some() { check(rq("PUT", b"/emp").send(s).ok(), "a bucket can be created") }
    if st.emp == Some(true) { let p: &[u8] = if a == 6 || b == 6 { b"/emp/k" } else { b"/emp/dir/k" }; if (a == 6 || b == 6) && (a == 5 || b == 5 || a == 2 || b == 2) { assume(false) } check(rq("PUT", p).b(b"data").send(s).ok(), "PUT accepts an ordinary object") }
    else if (a == 6 || b == 6) && (a == 5 || b == 5 || a == 2 || b == 2) { assume(false) }
    let (ra, rb, used) = race(s, &brequest(a), &brequest(b), sym_u8("at"), part);
    let mut seen = Bs { new: rq("HEAD", b"/new").send(s).status == 200, emp: None };
    if rq("HEAD", b"/emp").send(s).status == 200 { let p: &[u8] = if a == 6 || b == 6 { b"/emp/k" } else { b"/emp/dir/k" }; seen.emp = Some(rq("GET", p).send(s).body == if a == 6 || b == 6 { if rq("GET", p).send(s).body == b"data" { b"data".to_vec() } else { b"copied".to_vec() } } else { b"data".to_vec() }) }
    let ab = bstep(a, &ra, &st).and_then(|x| bstep(b, &rb, &x)) == Some(seen.clone());
    let ba = bstep(b, &rb, &st).and_then(|x| bstep(a, &ra, &x)) == Some(seen.clone());
    if !(ab | ba) && !symbolic() { print(&format!("{a} {b} {st:?}: {} {} | {} {} -> {seen:?}", ra.status, String::from_utf8_lossy(&ra.body), rb.status, String::from_utf8_lossy(&rb.body))) }
    // storing into a bucket whose directories are just being removed may fail, without any effect
    let lost = |i: usize, r: &Resp, j: usize, q: &Resp| (i == 2 || i == 6) && r.status == 500 && j == 1 && bstep(j, q, &st) == Some(seen.clone());
    let excused = part != WHOLE && (lost(a, &ra, b, &rb) || lost(b, &rb, a, &ra));
    check(ab | ba | excused, "two requests on buckets have the effect and the answers of one after the other");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    check(!vfs().files("/srv/root").iter().any(|f| f.0.starts_with(b".tmp")), "no temporary file is left behind");
    if used { reach("raced") } else { reach("in turn") }
}
/// B and then C in the middle of A
fn bthree(a: usize, b: usize, c: usize, new: bool, emp: Option<bool>) {
    let s: &'static S3Service = Box::leak(Box::new(fs()));
    let st = Bs { new, emp };
    check(rq("PUT", b"/other/src").b(b"copied").send(s).ok(), "PUT accepts an ordinary object");
    if new { check(rq("PUT", b"/new").send(s).ok(), "a bucket can be created") }
    if emp.is_some() { check(rq("PUT", b"/emp").send(s).ok(), "a bucket can be created") }
    if emp == Some(true) { check(rq("PUT", b"/emp/dir/k").b(b"data").send(s).ok(), "PUT accepts an ordinary object") }
    let Some((ra, rb, rc)) = race3(s, &brequest(a), &brequest(b), &brequest(c)) else { return };
    let mut seen = Bs { new: rq("HEAD", b"/new").send(s).status == 200, emp: None };
    if rq("HEAD", b"/emp").send(s).status == 200 { seen.emp = Some(rq("GET", b"/emp/dir/k").send(s).body == b"data") }
    let (a, b, c) = ((a, &ra), (b, &rb), (c, &rc));
    let order = |x: [(usize, &Resp); 3]| x.iter().try_fold(st.clone(), |t, (i, r)| bstep(*i, r, &t)) == Some(seen.clone());
    // storing into or removing a bucket that is removed and made again meanwhile may fail, without any effect
    let excused = [1, 2, 3, 6].contains(&a.0) && ra.status == 500 && ([1, 3].contains(&b.0) || [1, 3].contains(&c.0)) && bstep(b.0, &rb, &st).and_then(|t| bstep(c.0, &rc, &t)) == Some(seen.clone());
    let ok = order([a, b, c]) | order([b, a, c]) | order([b, c, a]) | excused;
    if !ok && !symbolic() { print(&format!("{} {} {} {st:?}: {} {} | {} {} | {} {} -> {seen:?}", a.0, b.0, c.0, ra.status, String::from_utf8_lossy(&ra.body), rb.status, String::from_utf8_lossy(&rb.body), rc.status, String::from_utf8_lossy(&rc.body))) }
    check(ok, "three requests on buckets have the effect and the answers of one after the other");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    check(!vfs().files("/srv/root").iter().any(|f| f.0.starts_with(b".tmp")), "no temporary file is left behind");
}
fn emp() -> Option<bool> { [None, Some(false), Some(true)][choice("emp", 3)] }
#[no_mangle] pub extern "C" fn c_buckets_three() { bthree([2, 1, 8][choice("A", 3)], [1, 4, 5][choice("B", 3)], [4, 2, 1][choice("C", 3)], false, emp()) }
#[no_mangle] pub extern "C" fn c_buckets_three_all() { let (a, b, c) = (choice("A", BOPS), choice("B", 6), choice("C", 6)); assume(a != 6 && a != 7); bthree(a, b, c, choice("new", 2) == 1, emp()) }
#[no_mangle] pub extern "C" fn c_buckets() { bpair(WHOLE) }
#[no_mangle] pub extern "C" fn c_buckets_split() { bpair(sym_u8("part") & 63) }
// ---- multipart uploads ------------------------------------------------------------------------
const COMPLETE: &[u8] = b"<CompleteMultipartUpload><Part><PartNumber>1</PartNumber></Part><Part><PartNumber>2</PartNumber></Part></CompleteMultipartUpload>";
fn part_rq(p: &[u8], n: &[u8], up: &[u8], d: &[u8]) -> Rq { rq("PUT", p).q(b"partNumber", n).q(b"uploadId", up).b(d) }
fn start(s: &S3Service, p: &[u8]) -> Vec<u8> { let r = rq("POST", p).q(b"uploads", b"").send(s); texts(&r.body, "UploadId").into_iter().next().unwrap_or_default() }
/// two requests, or with `more` three
fn mpart(part: u8, more: Option<[usize; 3]>) {
    let s: &'static S3Service = Box::leak(Box::new(fs()));
    let up = start(s, P); let up2 = start(s, P);
    check(up != up2 && !up.is_empty(), "every upload has an id of its own");
    let d = sym("data", 2);
    check(part_rq(P, b"1", &up, b"one").send(s).ok() && part_rq(P, b"2", &up, b"-two").send(s).ok() && part_rq(P, b"1", &up2, b"other").send(s).ok(), "UploadPart accepts an ordinary part");
    let done = |u: &[u8]| rq("POST", P).q(b"uploadId", u).b(COMPLETE);
    let req = |i: usize| match i {
        0 => done(&up),
        1 => part_rq(P, b"1", &up, &d),
        2 => part_rq(P, b"2", &up2, b"+two"),
        3 => part_rq(b"/bkt/another", b"1", &start(s, b"/bkt/another"), b"unrelated"),
        4 => rq("GET", P),
        _ => part_rq(P, b"1", &up, b"again").frags(vec![b"aga".to_vec(), b"in".to_vec()]),
    };
    let mut is = vec![]; let mut rs = vec![]; let mut used = true;
    if let Some(m) = more {
        let Some((a, b, c)) = race3(s, &req(m[0]), &req(m[1]), &req(m[2])) else { return };
        is.extend(m); rs.extend([a, b, c]);
    } else {
        let (a, b) = (choice("A", 6), choice("B", 6));
        let (ra, rb, u) = race(s, &req(a), &req(b), sym_u8("at"), part);
        is.extend([a, b]); rs.extend([ra, rb]); used = u;
    }
    let all: Vec<(usize, &Resp)> = is.iter().copied().zip(&rs).collect();
    let has = |i: usize| is.contains(&i);
    let completions = is.iter().filter(|i| **i == 0).count();
    let g = rq("GET", P).send(s);
    let mut firsts: Vec<Vec<u8>> = vec![b"one".to_vec()];
    if has(1) { firsts.push(d.clone()) }
    if has(5) { firsts.push(b"again".to_vec()) }
    let whole = |x: &[u8]| firsts.iter().any(|f| x.len() == f.len() + 4 && x == [&f[..], b"-two"].concat());
    for &(i, r) in &all {
        match i {
            0 => check(r.status == 200 || (r.status == 400 || r.status == 404) && completions > 1, "CompleteMultipartUpload of a complete upload succeeds"),
            4 => check(r.status == 404 && code(r) == b"NoSuchKey" || r.status == 200 && whole(&r.body) && r.header("etag").map(quoted) == Some(sig::hex(&sig::md5(&r.body))), "GET sees the assembled object or none"),
            _ => check(r.status == 200, "UploadPart accepts an ordinary part"),
        }
    }
    if completions > 0 { check(all.iter().any(|(i, r)| *i == 0 && r.ok()), "of two completions one succeeds"); check(g.status == 200 && whole(&g.body), "the completed object consists of the uploaded parts"); for &(i, r) in &all { if i == 0 && r.ok() && all.iter().filter(|(i, r)| *i == 0 && r.ok()).count() == 1 { check(quoted(&texts(&r.body, "ETag").concat()) == sig::hex(&sig::md5(&g.body)), "CompleteMultipartUpload answers with the ETag of the object") } } }
    else {
        check(g.status == 404, "parts are no object before the upload is completed");
        // nothing of either upload got lost
        let r = done(&up).send(s);
        let g = rq("GET", P).send(s);
        check(r.ok() && whole(&g.body), "the completed object consists of the uploaded parts");
        let last = match (has(1), has(5)) { (true, true) => None, (true, _) => Some(d.clone()), (_, true) => Some(b"again".to_vec()), _ => Some(b"one".to_vec()) };
        if let Some(l) = last { check(g.body == [&l[..], b"-two"].concat(), "an uploaded part replaces the previous one") }
    }
    if !has(2) { check(part_rq(P, b"2", &up2, b"+two").send(s).ok(), "UploadPart accepts an ordinary part") }
    let r = done(&up2).send(s);
    check(r.ok() && rq("GET", P).send(s).body == b"other+two", "concurrent uploads do not mix");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    check(!vfs().files("/srv/root").iter().any(|f| f.0.starts_with(b".tmp")), "no temporary file is left behind");
    if used { reach("raced") } else { reach("in turn") }
}
#[no_mangle] pub extern "C" fn c_parts() { mpart(WHOLE, None) }
#[no_mangle] pub extern "C" fn c_parts_split() { mpart(sym_u8("part") & 63, None) }
/// two more requests in the middle of one
#[no_mangle] pub extern "C" fn c_parts_three() { let (a, b, c) = (choice("A", 6), choice("B", 6), choice("C", 6)); assume(b != 3 && b != 4 && c != 3 && c != 4); mpart(WHOLE, Some([a, b, c])) }
// ---- clients that go away ---------------------------------------------------------------------
/// the future of a request is dropped after some blocking calls
#[no_mangle] pub extern "C" fn c_cancel() {
    let (s, w, st) = setup(choice("old", 2));
    let i = choice("request", 7);
    let n = sym_u8("steps") & 63;
    let up = start(s, P);
    check(part_rq(P, b"1", &up, b"old part").send(s).ok(), "UploadPart accepts an ordinary part");
    let r = if i == 6 { part_rq(P, b"1", &up, b"a part").frags(vec![b"a p".to_vec(), b"art".to_vec()]) } else { request(i, &w) };
    unsafe { B = Some(task(s, &r)); RB = None }
    advance(n);
    let finished = unsafe { B.take().is_none() };
    unsafe { vh_settle() }
    let g = rq("GET", P).send(s);
    let new = if i == 6 { st.clone() } else { effect(i, &st, &w) };
    let (old_fit, new_fit) = (fits(6, &g, &st), fits(6, &g, &new));
    check(new_fit > 0 || old_fit > 0 && !finished, "after a broken off request the object is the old or the new one as a whole");
    check(rq("GET", b"/bkt/dir/l").send(s).body == b"neighbour" && rq("GET", b"/other/src").send(s).body == b"copied", "other objects stay as they were");
    let l = rq("GET", b"/bkt").send(s);
    check(texts(&l.body, "Key").len() == if g.status == 200 { 3 } else { 2 }, "a listing shows exactly the stored objects");
    if i == 6 {
        let r = rq("POST", b"/bkt/p").q(b"uploadId", &up).b(b"<CompleteMultipartUpload><Part><PartNumber>1</PartNumber></Part></CompleteMultipartUpload>").send(s);
        let x = rq("GET", b"/bkt/p").send(s).body;
        check(r.ok() && (x == b"a part" || x == b"old part" && !finished), "after a broken off request the part is the old or the new one as a whole");
    } else if !(i == 4 && new_fit > 0) {
        let x = request(i, &w).send(s);
        check(x.ok() && fits(6, &rq("GET", P).send(s), &new) == 2, "a broken off request can be repeated");
    }
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    if finished { reach("finished") } else { reach("broken off") }
    if old_fit.max(new_fit) < 2 { known("broken-off-between-content-and-metadata") }
    check(old_fit.max(new_fit) == 2, "after a broken off request the object has the metadata it was stored with");
}
/// a client that stops reading an answer
#[no_mangle] pub extern "C" fn c_cancel_read() {
    let (s, w, st) = setup(2);
    let i = [6, 9, 8, 7][choice("request", 4)];
    unsafe { B = Some(task(s, &request(i, &w))); RB = None }
    advance(sym_u8("steps") & 63);
    let finished = unsafe { B.take().is_none() };
    unsafe { vh_settle() }
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    check(fits(6, &rq("GET", P).send(s), &st) == 2, "reading changes nothing");
    if finished { reach("finished") } else { reach("broken off") }
}
