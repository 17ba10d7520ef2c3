//! P29: the server program (src/bin/s3-server.rs), from its command line to the answers on a connection.
//! The command line parser, the program and the service are real; the runtime, the HTTP server (which hands
//! over the service of each connection), the logger and the socket calls are stand-ins.
use crate::{fx::*, rt::*, sig::*, vfs::vfs, web};
use std::ffi::{c_void, OsString};
use std::os::unix::ffi::OsStringExt;

static mut REFUSAL: &str = "";
static mut BINDS: u32 = 0;
static mut BOUND: ([u8; 28], usize) = ([0; 28], 0);
static mut BIND_FAILS: bool = false;
#[no_mangle] pub unsafe extern "C" fn socket(_: i32, _: i32, _: i32) -> i32 { 1000 }
#[no_mangle] pub unsafe extern "C" fn setsockopt(_: i32, _: i32, _: i32, _: *const c_void, _: u32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn listen(_: i32, _: i32) -> i32 { 0 }
extern "C" { fn __errno_location() -> *mut i32; fn malloc(n: usize) -> *mut u8; }
#[no_mangle] pub unsafe extern "C" fn bind(_: i32, a: *const u8, n: u32) -> i32 {
    BINDS += 1;
    if BIND_FAILS { *__errno_location() = 98; return -1 }
    BOUND.1 = n as usize;
    std::ptr::copy_nonoverlapping(a, BOUND.0.as_mut_ptr(), n as usize);
    0
}
#[no_mangle] pub unsafe extern "C" fn getsockname(_: i32, a: *mut u8, n: *mut u32) -> i32 { std::ptr::copy_nonoverlapping(BOUND.0.as_ptr(), a, BOUND.1); *n = BOUND.1 as u32; 0 }
#[repr(C)] pub struct Addrinfo { flags: i32, family: i32, ty: i32, proto: i32, len: u32, addr: *mut u8, name: *mut u8, next: *mut Addrinfo }
#[no_mangle] pub unsafe extern "C" fn getaddrinfo(h: *const u8, _: *const u8, _: *const c_void, out: *mut *mut Addrinfo) -> i32 {
    let mut n = 0; while *h.add(n) != 0 { n += 1 }
    if std::slice::from_raw_parts(h, n) != b"localhost" { return -2 }
    let a = malloc(16); std::ptr::write_bytes(a, 0, 16); *a = 2; *a.add(4) = 127; *a.add(7) = 1;
    let r = malloc(std::mem::size_of::<Addrinfo>()) as *mut Addrinfo;
    *r = Addrinfo { flags: 0, family: 2, ty: 1, proto: 6, len: 16, addr: a, name: std::ptr::null_mut(), next: std::ptr::null_mut() };
    *out = r;
    0
}
#[no_mangle] pub unsafe extern "C" fn gnu_get_libc_version() -> *const u8 { b"2.39\0".as_ptr() }
#[no_mangle] pub unsafe extern "C" fn gai_strerror(_: i32) -> *const u8 { b"unknown host\0".as_ptr() }
#[no_mangle] pub unsafe extern "C" fn freeaddrinfo(_: *mut Addrinfo) {}

fn exits(shown: bool) -> ! {
    unsafe {
        if shown { check(REFUSAL == "shown", "the program starts with the documented arguments") } else { check(REFUSAL == "refused", "the program starts with the documented arguments") }
        check(BINDS == 0, "a program that refuses its arguments serves nothing");
        reach("refused");
        end("refused")
    }
}
/// Runs the program until it serves; false: it ended with an error.
fn start(args: &[&[u8]], refusal: &'static str) -> bool {
    unsafe {
        REFUSAL = refusal;
        structopt::EXIT = Some(exits);
        structopt::ARGS = [&b"s3-server"[..]].iter().chain(args).map(|a| OsString::from_vec(a.to_vec())).collect();
    }
    let r = vserver::main();
    check(refusal == "", "arguments the program does not document are refused");
    let up = unsafe { vhyper::CONNECT.is_some() };
    check(r.is_ok() == up, "the program ends with an error exactly when it can not serve");
    up
}
fn connect() -> vhyper::Conn {
    let c = unsafe { vhyper::CONNECT.as_mut().unwrap()() };
    check(c.is_some(), "every connection is served");
    c.unwrap()
}
fn ask(c: &mut vhyper::Conn, r: &Rq) -> web::Resp {
    let Some(q) = r.build() else { end("not an HTTP request") };
    match web::run(c(q)) { Some(x) => web::finish(x), None => { check(false, "every request is answered"); end("dropped") } }
}
fn world() { vfs().mkdirs("/srv/root/bkt"); vfs().put("/srv/root/bkt", b"k", b"DATA"); vfs().cwd = b"/srv/root".to_vec() }
fn join(a: &[u8], b: &[u8]) -> Vec<u8> { [a, b"=", b].concat() }

/// Requests with and without the credentials the program was started with.
#[no_mangle] pub extern "C" fn s_auth() {
    world();
    let ak: &[u8] = [&b"AK"[..], b"", b"a b"][choice("access key", 3)];
    let kind = choice("form", 5);
    let mut sk = sym("secret key", 3);
    for b in &sk { assume(within(*b, 0x20, 0x7e)) }
    let known = choice("secret", 3);
    if known == 1 { sk = b"aB3".to_vec() }
    if known == 2 { sk.clear() }
    if !sk.is_empty() { assume(sk[0] != if kind < 3 { b'-' } else { b'=' }) } // the parser takes the one for an argument and drops the other
    let (e, f) = (join(b"--access-key", ak), join(b"--secret-key", &sk));
    let up = match kind {
        0 => start(&[b"--access-key", ak, b"--secret-key", &sk], ""),
        1 => start(&[b"--secret-key", &sk, b"--access-key", ak], ""),
        2 => start(&[b"--secret-key", &sk, b"--port", b"80", &e, b"--fs-root", b"/srv/root", b"--host", b"127.0.0.1"], ""),
        _ => { if sk.is_empty() || ak.is_empty() { end("no value") } start(if kind == 3 { [&e[..], &f] } else { [&f[..], &e] }.as_slice(), "") }
    };
    check(up, "the program starts with the documented arguments");
    let mut c = connect();
    if choice("second connection", 2) == 1 { let mut first = connect(); ask(&mut first, &rq("GET", b"/")); std::mem::swap(&mut c, &mut first) }
    let (n, mut r) = match choice("request", 4) { 0 => ("get", rq("GET", b"/bkt/k")), 1 => ("list", rq("GET", b"/")), 2 => ("put", rq("PUT", b"/bkt/k").b(b"NEW")), _ => ("delete", rq("DELETE", b"/bkt/k")) };
    let g = Signer { ak, secret: &sk, date: DATE, region: b"us-east-1" };
    let pre = choice("presigned", 2) == 1;
    let go = |r: &mut Rq, g: &Signer| { if pre { presign(r, g, b"600"); } else { sign(r, g, Payload::Signed); } };
    match choice("who", 5) {
        0 => {
            if ak.is_empty() { end("no access key") }
            go(&mut r, &g);
            let x = ask(&mut c, &r);
            check(x.ok(), "the credentials the program was started with are accepted");
            if n == "get" { check(x.body == b"DATA", "the program serves the objects below its root directory") }
            if n == "put" { check(vfs().file("/srv/root/bkt/k") == Some(&b"NEW".to_vec()), "the program stores objects below its root directory") }
            if n == "delete" { check(vfs().lookup("/srv/root/bkt/k").is_none(), "the program stores objects below its root directory") }
            reach("accepted");
            return
        }
        1 => {}
        2 => { // one of the two is arbitrary
            let mut o = if known == 0 { b"aB3".to_vec() } else { sym("other secret", 3) };
            for b in &o { assume(within(*b, 0x20, 0x7e)) }
            let mut d = 0; for i in 0..sk.len() { d |= o[i] ^ sk[i] } if sk.is_empty() { o[0] = b'x' } else { assume(d != 0) }
            go(&mut r, &Signer { secret: &o, ..g })
        }
        3 => { let o: &[u8] = [&b"A"[..], b"AKK", b"ak", b"x"][choice("other key", 4)]; go(&mut r, &Signer { ak: o, ..g }) }
        _ => { r = r.h("authorization", b"AWS AK:xxxx").h("x-amz-date", DATE) }
    }
    let x = ask(&mut c, &r);
    check(x.status >= 400 && x.status < 500, "a request without the credentials the program was started with is refused");
    check(vfs().file("/srv/root/bkt/k") == Some(&b"DATA".to_vec()), "a refused request changes nothing");
    reach("kept out");
}
/// Command lines the program must refuse, and those without credentials.
#[no_mangle] pub extern "C" fn s_args() {
    world();
    let v = sym("value", 2);
    for b in &v { assume(within(*b, 0x21, 0x7e)) } assume(v[0] != b'-');
    let e = join(b"--access-key", &v); let f = join(b"--secret-key", &v);
    let up = match choice("arguments", 17) {
        0 => start(&[], ""),
        1 => start(&[b"--access-key", &v], "refused"),
        2 => start(&[b"--secret-key", &v], "refused"),
        3 => start(&[&e], "refused"),
        4 => start(&[&f], "refused"),
        5 => start(&[&v], "refused"),
        6 => start(&[b"--access-key"], "refused"),
        7 => start(&[b"--access-key", &v, b"--secret-key"], "refused"),
        8 => start(&[b"--access-key", &v, b"--access-key", &v, b"--secret-key", &v], "refused"),
        9 => start(&[b"--access-key", &v, b"--secret-key", &v, b"--secret-key", &v], "refused"),
        10 => start(&[b"--fs_root", b"/srv/root"], "refused"),
        11 => start(&[b"--help"], "shown"),
        12 => start(&[b"-V"], "shown"),
        13 => start(&[b"--fs-root", &v, b"--fs-root", &v], "refused"),
        14 => start(&[b"--accesskey", &v, b"--secretkey", &v], "refused"),
        15 => start(&[b"--access-key", &v, &v], "refused"),
        _ => start(&[b"--host", b"127.0.0.1", b"--port", b"8014", b"--fs-root", b"."], ""),
    };
    check(up, "the program starts with the documented arguments");
    let mut c = connect();
    check(ask(&mut c, &rq("GET", b"/bkt/k")).body == b"DATA", "the program serves the objects below its root directory");
    reach("open");
}
/// The directory that is served.
#[no_mangle] pub extern "C" fn s_root() {
    world();
    vfs().mkdirs("/srv/root2/bkt"); vfs().mkdirs("/srv/root/bkt/bkt"); vfs().mkdirs("/bkt"); vfs().mkdirs("/srv/a b=c/bkt");
    let all = ["/srv/root", "/srv/root2", "/srv/root/bkt", "/", "/srv/a b=c"];
    let cwd = [0usize, 1, 3][choice("current directory", 3)];
    vfs().cwd = all[cwd].as_bytes().to_vec();
    let (arg, to): (Option<&[u8]>, Option<usize>) = match choice("root", 12) {
        0 => (None, Some(cwd)), 1 => (Some(b"."), Some(cwd)), 2 => (Some(b"/srv/root"), Some(0)), 3 => (Some(b"/srv/root2"), Some(1)), 4 => (Some(b"/srv/root2/../root/bkt/"), Some(2)),
        5 => (Some(b"/"), Some(3)), 6 => (Some(b"/srv/a b=c"), Some(4)), 7 => (Some(b"../root2"), if cwd == 3 { None } else { Some(1) }), 8 => (Some(b"./bkt"), if cwd == 0 { Some(2) } else { end("another directory") }),
        9 => (Some(b"/srv/none"), None), 10 => (Some(b"/srv/root3"), None), _ => (Some(b"none/../bkt"), None),
    };
    let (up, eq);
    if let Some(a) = arg { if choice("form", 2) == 0 { up = start(&[b"--fs-root", a], "") } else { eq = join(b"--fs-root", a); up = start(&[&eq], "") } } else { up = start(&[], "") }
    check(up == to.is_some(), "the program serves its root directory, or does not start when there is none");
    if !up { check(unsafe { BINDS == 0 || !vhyper::LISTENS.is_some() }, "a program that ends serves nothing"); reach("no root"); return }
    let d = sym("data", 2);
    let mut c = connect();
    check(ask(&mut c, &rq("PUT", b"/bkt/new").b(&d)).ok(), "the program stores objects below its root directory");
    for (i, a) in all.iter().enumerate() {
        let f = format!("{}/bkt/new", if *a == "/" { "" } else { a });
        check(vfs().file(&f) == if Some(i) == to { Some(&d) } else { None }, "the program stores objects below its root directory, and nowhere else");
    }
    let x = ask(&mut connect(), &rq("GET", b"/bkt/new"));
    check(x.ok() && x.body == d, "every connection serves the same objects");
    reach("served");
}
/// The address it listens at.
#[no_mangle] pub extern "C" fn s_listen() {
    world();
    let (host, ip): (&[u8], &str) = [(&b"localhost"[..], "127.0.0.1"), (b"127.0.0.1", "127.0.0.1"), (b"0.0.0.0", "0.0.0.0"), (b"10.1.2.3", "10.1.2.3"), (b"::1", "::1"), (b"nosuchhost", "")][choice("host", 6)];
    let hosted = choice("host given", 2) == 1;
    if !hosted && host != b"localhost" { end("one host") }
    let n = choice("length", 7);
    let mut p = sym("port", n.min(2));
    for b in &p { assume(within(*b, 0x20, 0x7e)) }
    if n > 2 { p = [[&b"1"[..], b"12", b"655", b"6553"][n - 3], &p].concat(); if n > 4 { p[..2].copy_from_slice([&b"65"[..], b"06", b"99", b"80"][choice("first", 4)]) } }
    let mut num = 0u64; let mut digits = true; for b in &p { digits &= within(*b, b'0', b'9'); num = num * 10 + (*b).wrapping_sub(b'0') as u64 }
    if n > 0 { assume((p[0] != b'-') & (p[0] != b'+')) }
    if n >= 2 && host != b"localhost" { end("one host") }
    unsafe { BIND_FAILS = n == 1 && choice("address in use", 2) == 1 }
    let ok = n == 0 || digits & (num <= 65535);
    let mut a: Vec<&[u8]> = vec![];
    if hosted { a.push(b"--host"); a.push(host) }
    if n > 0 { a.push(b"--port"); a.push(&p) }
    let up = if ok { start(&a, "") } else { start(&a, "refused") };
    let can = ip != "" && unsafe { !BIND_FAILS };
    check(up == can, "the program serves at the address it is given, or ends with an error");
    if !up { reach("not served"); return }
    let l = unsafe { vhyper::LISTENS.unwrap() };
    check(l.ip().to_string() == ip, "the program listens at the host it is given");
    check(l.port() as u64 == if n == 0 { 8014 } else { num }, "the program listens at the port it is given");
    check(unsafe { BINDS == 1 }, "the program listens once");
    reach("listens");
}
#[cfg(feature = "native")]
pub static TABLE: &[(&str, extern "C" fn())] = &[("s_auth", s_auth), ("s_args", s_args), ("s_root", s_root), ("s_listen", s_listen)];
