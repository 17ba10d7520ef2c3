//! Object data, metadata, ranges.
use crate::{fx::*, rt::*, sig, vfs::vfs, web};
fn put_get(size: usize, frags: Vec<usize>, key: &[u8], pre: bool) {
    let s = fs();
    let mut p = b"/bkt/".to_vec(); p.extend_from_slice(key);
    if pre { let r = rq("PUT", &p).b(b"previous content, longer").send(&s); check(r.status == 200, "PUT accepts an ordinary object") }
    let d = sym("data", size);
    let r = rq("PUT", &p).frags(cut(&d, &frags)).send(&s);
    check(r.status == 200, "PUT accepts an ordinary object");
    check(r.header("etag") == Some(&sig::etag(&d)[..]), "PUT returns the MD5 of the data as ETag");
    let g = rq("GET", &p).send(&s);
    check(g.status == 200, "GET finds the stored object");
    check(g.body == d && !g.body_err, "GET returns the stored bytes");
    check(g.header("content-length") == Some(size.to_string().as_bytes()), "Content-Length is the object's size");
    check(g.header("etag") == Some(&sig::etag(&d)[..]), "GET returns the MD5 of the data as ETag");
    let h = rq("HEAD", &p).send(&s);
    check(h.status == 200 && h.header("content-length") == Some(size.to_string().as_bytes()) && h.body.is_empty(), "HEAD reports the object's size");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    reach("roundtrip");
}
#[no_mangle] pub extern "C" fn d_put_small() {
    let n = choice("size", 5);
    let mut at = vec![];
    let c1 = choice("cut", n + 1); at.push(c1);
    let c2 = c1 + choice("cut2", n + 1 - c1); at.push(c2);
    put_get(n, at, b"k", choice("replace", 2) == 1);
}
#[no_mangle] pub extern "C" fn d_put_large() {
    let n = [4095, 4096, 4097, 8191, 8192, 8193, 12289][choice("size", 7)];
    let at = match choice("cuts", 5) { 0 => vec![], 1 => vec![1], 2 => vec![n - 1], 3 => vec![4096, 4096, 8192], _ => vec![n / 2] };
    put_get(n, at, b"dir/sub/k", false);
}
/// objects far above every buffer: bytes of a fixed pattern, symbolic ones near the end
#[no_mangle] pub extern "C" fn d_huge() {
    let s = fs();
    let n = [65535usize, 65536, 65537, 131073, 1048577][choice("size", 5)];
    let mut d: Vec<u8> = (0..n).map(|i| (i % 251) as u8 ^ (i >> 12) as u8).collect();
    let x = sym("data", 3);
    for (i, at) in [n - 2000, n - 2, n - 1].iter().enumerate() { d[*at] = x[i] }
    let f: Vec<Vec<u8>> = match if n > 200000 { 2 } else { choice("pieces", 3) } { 0 => vec![d.clone()], 1 => d.chunks(16384).map(|x| x.to_vec()).collect(), _ => d.chunks(65536).map(|x| x.to_vec()).collect() };
    let mut p = &b"/bkt/k"[..];
    let tag = sig::etag(&d);
    let r = rq("PUT", p).frags(f).send(&s);
    check(r.ok() && r.header("etag") == Some(&tag[..]), "PUT returns the MD5 of the data as ETag");
    if choice("copy", 2) == 1 { p = b"/bkt/copy"; check(rq("PUT", p).h("x-amz-copy-source", b"bkt/k").send(&s).ok(), "copy of an existing object succeeds") }
    if choice("range", 2) == 1 {
        let m = n as u64;
        let (h, a, b) = match choice("which", 4) { 0 => (format!("bytes=1-{}", m - 2), 1, m - 2), 1 => (format!("bytes=-{}", m - 1), 1, m - 1), 2 => ("bytes=65530-".into(), 65530, m - 1), _ => ("bytes=8190-65535".into(), 8190, 65535) };
        let r = rq("GET", p).h("range", h.as_bytes()).send(&s);
        if a < m { ranged(&r, &d, Some((a, b))) }
    } else {
        let g = rq("GET", p).send(&s);
        check(g.status == 200 && g.body == d && !g.body_err, "GET returns the stored bytes");
        check(g.header("content-length") == Some(n.to_string().as_bytes()), "Content-Length is the object's size");
        check(g.header("etag") == Some(&tag[..]), "GET returns the MD5 of the data as ETag");
    }
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    reach("roundtrip");
}
fn put(s: &s3_server::S3Service, p: &[u8], d: &[u8]) { let r = rq("PUT", p).b(d).send(s); check(r.status == 200, "PUT accepts an ordinary object") }
fn dec(v: u64) -> Vec<u8> { v.to_string().into_bytes() }
/// What a GET with a range must answer: `want` is the (first, last) byte to send, or none if no byte is in range.
fn ranged(r: &web::Resp, d: &[u8], want: Option<(u64, u64)>) {
    let n = d.len() as u64;
    match want {
        Some((a, b)) => {
            let b = b.min(n.saturating_sub(1));
            check(r.status == 206, "a satisfiable range is answered with 206");
            check(r.header("content-range") == Some(format!("bytes {}-{}/{}", a, b, n).as_bytes()), "Content-Range states the bytes sent");
            check(r.header("content-length") == Some(&dec(b - a + 1)[..]), "Content-Length is the number of bytes sent");
            check(!r.body_err && r.body[..] == d[a as usize..=b as usize], "exactly the bytes in range are sent");
            reach("partial");
        }
        None => { check(r.status == 416 && code(r) == b"InvalidRange", "a range outside the object is answered with 416 InvalidRange"); reach("unsatisfiable") }
    }
}
fn get_range(s: &s3_server::S3Service, v: &[u8]) -> web::Resp { let r = rq("GET", b"/bkt/k").h("range", v).send(s); check(vfs().open_fds() == 0, "no file descriptor is leaked"); r }
/// small objects, all one- and some two-digit bounds
#[no_mangle] pub extern "C" fn d_range_small() {
    let s = fs();
    let n = [0usize, 1, 2, 3, 10][choice("size", 5)];
    let d = sym("data", n);
    if choice("meta", 2) == 1 { check(rq("PUT", b"/bkt/k").h("x-amz-meta-n", b"v").b(&d).send(&s).ok(), "PUT accepts an ordinary object") } else { put(&s, b"/bkt/k", &d) }
    let num = |name: &str| { let k = 1 + choice("digits", 2); let t = if k == 1 { sym_from(name, 1, b"0123456789") } else { sym_from(name, 2, b"01") }; let mut v = 0u64; for c in &t { v = v * 10 + (*c - b'0') as u64 } (concretize(v), t) };
    let mut h = b"bytes=".to_vec();
    let want = match choice("form", 3) {
        0 => { let (a, t) = num("first"); let (b, u) = num("last"); h.extend(t); h.push(b'-'); h.extend(u); if a > b { check(matches!(get_range(&s, &h).status, 200 | 400 | 416), "a range that ends before it starts selects nothing"); return } if a < n as u64 { Some((a, b)) } else { None } }
        1 => { let (a, t) = num("first"); h.extend(t); h.push(b'-'); if a < n as u64 { Some((a, u64::MAX)) } else { None } }
        _ => { let (c, t) = num("suffix"); h.push(b'-'); h.extend(t); if c > 0 && n > 0 { Some(((n as u64).saturating_sub(c), u64::MAX)) } else { None } }
    };
    ranged(&get_range(&s, &h), &d, want);
}
/// buffer boundaries and the ends of the integer types
#[no_mangle] pub extern "C" fn d_range_big() {
    let s = fs();
    let n = [1usize, 4095, 4096, 4097, 8192, 9000][choice("size", 6)];
    let d = sym("data", n);
    put(&s, b"/bkt/k", &d);
    let m = n as u64;
    let vals = [0, 1, 4095, 4096, 4097, m - 1, m, m + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX];
    let mut h = b"bytes=".to_vec();
    let want = match choice("form", 3) {
        0 => { let a = vals[choice("first", 12)]; let b = vals[choice("last", 12)]; if a > b { return } h.extend(dec(a)); h.push(b'-'); h.extend(dec(b)); if a < m { Some((a, b)) } else { None } }
        1 => { let a = vals[choice("first", 12)]; h.extend(dec(a)); h.push(b'-'); if a < m { Some((a, u64::MAX)) } else { None } }
        _ => { let c = vals[choice("suffix", 12)]; h.push(b'-'); h.extend(dec(c)); if c > 0 { Some((m.saturating_sub(c), u64::MAX)) } else { None } }
    };
    ranged(&get_range(&s, &h), &d, want);
}
/// objects beyond the 31st, 32nd and 40th bit: zeros, then symbolic bytes
#[no_mangle] pub extern "C" fn d_range_beyond() {
    let s = fs();
    let hole = [0x7fff_fffdu64, 0x8000_0000, 0xffff_fffd, 0x1_0000_0002, 5_000_000_000, 1 << 40][choice("size", 6)];
    let d = sym("data", 6);
    vfs().put("/srv/root/bkt", b"k", &d);
    let n = vfs().lookup("/srv/root/bkt/k").unwrap(); vfs().nodes[n].hole = hole as usize;
    let size = hole + 6;
    let h = rq("HEAD", b"/bkt/k").send(&s);
    check(h.status == 200 && h.header("content-length") == Some(size.to_string().as_bytes()), "HEAD reports the object's size");
    for v2 in [false, true] { check(crate::list::list(&s, b"bkt", None, v2) == [(b"k".to_vec(), size.to_string().into_bytes())], "a listing shows each object with its size") }
    let (a, b) = (choice("first", 4) as u64 * 2, choice("last", 8) as u64);
    let from = hole - 2 + a;
    let (t, last) = match choice("form", 3) { 0 => { if b < a { return } (format!("bytes={}-{}", from, hole - 2 + b), (hole - 2 + b).min(size - 1)) } 1 => (format!("bytes={}-", from), size - 1), _ => (format!("bytes=-{}", size - from), size - 1) };
    let g = get_range(&s, t.as_bytes());
    let mut want = vec![]; for i in from..=last { want.push(if i < hole { 0 } else { d[(i - hole) as usize] }) }
    check(g.status == 206 && g.header("content-range") == Some(format!("bytes {}-{}/{}", from, last, size).as_bytes()), "a ranged GET names the range it returns");
    check(g.body == want && !g.body_err && g.header("content-length") == Some(want.len().to_string().as_bytes()), "a ranged GET returns exactly the selected bytes");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    reach("beyond");
}
/// any header value: the answer is the whole object, a refusal, or exactly the range it spells
#[no_mangle] pub extern "C" fn d_range_any() {
    let s = fs();
    let d = b"0123456789abcdef".to_vec();
    put(&s, b"/bkt/k", &d);
    let mut h: Vec<u8> = vec![];
    match choice("form", 5) {
        0 => h = sym("value", 6),
        1 => { h.extend(b"bytes="); h.extend(sym("value", 3)) }
        2 => { h.extend(b"bytes=1"); h.extend(sym("value", 1)); h.push(b'7'); h.extend(sym("value", 1)) }
        3 => { h.extend(sym("value", 1)); h.extend(b"ytes=2-4") }
        _ => { h.extend(b"bytes"); h.extend(sym("value", 2)); h.extend(b"2-4"); h.extend(sym("value", 1)) }
    }
    for b in &h { assume((*b >= 0x20) & (*b != 0x7f)) }
    let r = get_range(&s, &h);
    if r.status == 200 { check(r.body == d && r.header("content-range").is_none() && r.header("content-length") == Some(b"16"), "a range that is not honoured is ignored as a whole"); reach("whole"); return }
    if r.status != 206 { check(matches!(r.status, 400 | 416) && !code(&r).is_empty(), "a range that is not honoured is refused"); reach("refused"); return }
    // what it spells
    for b in &mut h { *b = concretize(*b as u64) as u8 }
    let Some(t) = h.strip_prefix(b"bytes=") else { check(false, "only byte ranges are honoured"); return };
    let mut i = 0; let mut num = |t: &[u8]| { let s = i; let mut v = 0u64; while i < t.len() && t[i].is_ascii_digit() { v = v * 10 + (t[i] - b'0') as u64; i += 1 } let r = if i > s { Some(v) } else { None }; i += 1; r };
    let a = num(t); let b = num(t);
    let mut spelled = vec![]; if let Some(a) = a { spelled.extend(dec(a)) } spelled.push(b'-'); if let Some(b) = b { spelled.extend(dec(b)) }
    let lead = t.len() != spelled.len();
    check(lead || t == &spelled[..], "only a well-formed range is honoured");
    match (a, b) { (Some(a), b) => { let b = b.unwrap_or(u64::MAX); check(a <= b && a < 16, "only a satisfiable range is honoured"); if a <= b && a < 16 { ranged(&r, &d, Some((a, b))) } } (None, Some(c)) => ranged(&r, &d, Some((16u64.saturating_sub(c), u64::MAX))), _ => check(false, "only a well-formed range is honoured") }
}
// ---- keys -------------------------------------------------------------------------------------
/// any key: it is refused, or the object is stored under it and nothing else changes
#[no_mangle] pub extern "C" fn d_put_key() {
    let s = fs();
    put(&s, b"/bkt/kept/o", b"other object");
    let mut k = vec![];
    match choice("form", 4) { 0 => k = sym("key", 2), 1 => { k.extend(b"kept/"); k.extend(sym("key", 2)) } 2 => { k.extend(sym("key", 1)); k.push(b'/'); k.extend(sym("key", 1)) } _ => { k.push(b'x'); k.extend(sym("key", 2)); k.extend(b"y/z") } }
    assume(std::str::from_utf8(&k).is_ok());
    let mut p = b"/bkt/".to_vec(); p.extend(&k);
    let d = sym("data", 1);
    let r = rq("PUT", &p).b(&d).send(&s);
    let ok = r.ok();
    let mut bad = k == b"kept" || k.ends_with(b"/");
    for seg in k.split(|b| *b == b'/') { bad |= seg.is_empty() || seg == b"." || seg == b".." || seg.contains(&0) }
    check(ok || bad, "PUT accepts every key whose segments name files");
    if ok {
        let g = rq("GET", &p).send(&s);
        check(g.status == 200 && g.body == d, "GET returns the stored bytes");
        let f = vfs().files("/srv/root/bkt");
        let same = k == b"kept/o";
        check(f.len() == if same { 1 } else { 2 }, "PUT stores one object");
        check(f.iter().any(|x| x.0 == k && x.1 == d), "an object is listed under its key");
        reach("stored");
    } else { reach("refused") }
    if k != b"kept/o" { let g = rq("GET", b"/bkt/kept/o").send(&s); check(g.status == 200 && g.body == b"other object", "storing one object leaves the others as they are") }
}
// ---- metadata ---------------------------------------------------------------------------------
fn meta_of(r: &web::Resp) -> Vec<(Vec<u8>, Vec<u8>)> { let mut v = vec![]; for (n, x) in r.headers.iter() { let n = n.as_str().as_bytes(); if let Some(m) = n.strip_prefix(b"x-amz-meta-") { v.push((m.to_vec(), x.as_bytes().to_vec())) } } v.sort(); v }
fn expect_meta(s: &s3_server::S3Service, p: &[u8], want: &[(Vec<u8>, Vec<u8>)]) {
    let mut want = want.to_vec(); want.sort_by(|a, b| a.0.cmp(&b.0)); // their order means nothing
    let g = rq("GET", p).send(s);
    check(g.status == 200 && meta_of(&g) == want, "GET returns exactly the metadata stored with the object");
    let h = rq("HEAD", p).send(s);
    check(h.status == 200 && meta_of(&h) == want, "HEAD returns exactly the metadata stored with the object");
}
fn put_meta(s: &s3_server::S3Service, p: &[u8], m: &[(Vec<u8>, Vec<u8>)]) -> web::Resp {
    let mut r = rq("PUT", p).b(b"data");
    for (n, v) in m { r = r.h(&format!("x-amz-meta-{}", std::str::from_utf8(n).unwrap_or("n")), v) }
    r.send(s)
}
fn m(n: &[u8], v: &[u8]) -> (Vec<u8>, Vec<u8>) { (n.to_vec(), v.to_vec()) }
/// any printable value comes back; any other value is refused or comes back
#[no_mangle] pub extern "C" fn d_meta_value() {
    let s = fs();
    let n = choice("len", 3);
    let mut v = if n == 0 && choice("empty", 2) == 1 { vec![] } else { sym("value", n + 1) };
    if !v.is_empty() && choice("around", 2) == 1 { v.insert(0, b'a'); v.push(b'z') }
    let mut print = true; for b in &v { print &= within(*b, 0x20, 0x7e); assume(within(*b, 0x20, 0xff) & (*b != 0x7f)) }
    assume(v.is_empty() || v[0] != b' ' && v[v.len() - 1] != b' ');
    let r = put_meta(&s, b"/bkt/k", &[m(b"n", &v)]);
    if !r.ok() { check(!print, "metadata of printable characters is accepted"); check(rq("GET", b"/bkt/k").send(&s).status == 404, "an upload with refused metadata stores nothing"); reach("refused"); return }
    expect_meta(&s, b"/bkt/k", &[m(b"n", &v)]);
    reach("kept");
}
#[no_mangle] pub extern "C" fn d_meta_name() {
    let s = fs();
    // names are hashed, so they are enumerated: every character a header name may have
    const C: &[u8] = b"abcxyz0123456789-_.!#$%&'*+^`|~";
    let mut n = match choice("at", 3) { 0 => vec![], 1 => b"a".to_vec(), _ => b"a-b".to_vec() };
    n.push(C[choice("char", C.len())]);
    if choice("long", 2) == 1 { n.extend_from_slice(&[b'n'; 40]) }
    let v = sym("value", 1); assume(within(v[0], 0x21, 0x7e));
    let w = [m(&n, &v), m(b"~zz-other", b"w, x")];
    let w: Vec<_> = if choice("two", 2) == 1 { w.to_vec() } else { w[..1].to_vec() };
    check(put_meta(&s, b"/bkt/k", &w).ok(), "metadata of printable characters is accepted");
    expect_meta(&s, b"/bkt/k", &w);
    reach("kept");
}
/// many or long metadata, however they got there
#[no_mangle] pub extern "C" fn d_meta_many() {
    let mut s = fs();
    let (n, len) = [(1, 2000), (2, 1000), (9, 3), (17, 10), (33, 2), (70, 20)][choice("shape", 6)];
    let v = sym("value", 1); assume(within(v[0], 0x21, 0x7e));
    let w: Vec<_> = (0..n).map(|i| { let mut x = vec![b'a' + (i % 26) as u8; len - i % 2]; let l = x.len(); if i == n - 1 { x[l - 1] = v[0] } m(format!("n{:03}", i).as_bytes(), &x) }).collect();
    let names: Vec<&'static str> = w.iter().map(|(n, _)| &*format!("x-amz-meta-{}", std::str::from_utf8(n).unwrap()).leak()).collect();
    match choice("way", 4) {
        0 => check(put_meta(&s, b"/bkt/dir/k", &w).ok(), "metadata of printable characters is accepted"),
        1 => { check(put_meta(&s, b"/bkt/src", &w).ok(), "metadata of printable characters is accepted"); check(rq("PUT", b"/bkt/dir/k").h("x-amz-copy-source", b"bkt/src").send(&s).ok(), "copy of an existing object succeeds") }
        2 => { check(put_meta(&s, b"/bkt/src", &[m(b"old", b"w")]).ok(), "metadata of printable characters is accepted"); let mut r = rq("PUT", b"/bkt/dir/k").h("x-amz-copy-source", b"bkt/src").h("x-amz-metadata-directive", b"REPLACE"); for (n, (_, v)) in names.iter().zip(&w) { r = r.h(n, v) } check(r.send(&s).ok(), "copy of an existing object succeeds") }
        _ => {
            let mut f = crate::auth::post_fields(&sig::me(), crate::auth::POLICY);
            for (n, (_, v)) in names.iter().zip(&w) { f.push((n, v.clone())) }
            s.set_auth(auth());
            check(rq("POST", b"/bkt").h("content-type", FORM).b(&crate::auth::form_of(&f, Some(b"data"))).send(&s).ok(), "a form upload is accepted");
            s = fs();
        }
    }
    expect_meta(&s, b"/bkt/dir/k", &w);
    reach("kept");
}
/// metadata of objects whose keys are as long as keys may be, or differ in their last byte only
#[no_mangle] pub extern "C" fn d_meta_key() { meta_key(false) }
/// they differ far from their ends
#[no_mangle] pub extern "C" fn d_meta_key_far() { meta_key(true) }
fn meta_key(far: bool) {
    let s = fs();
    let n = if far { [100usize, 199, 700][choice("length", 3)] } else { [60usize, 100, 120, 150, 199, 255, 260, 460, 700, 1024][choice("length", 10)] };
    let seg = if far { 31 } else { [255usize, 100, 31][choice("segment", 3)] };
    let mut k: Vec<u8> = (0..n).map(|i| if i % (seg + 1) == seg && i + 2 < n { b'/' } else { [b'k', b'-', b'%'][i % 3] }).collect();
    if k[..n].split(|c| *c == b'/').any(|x| x.len() > 255) { return }
    match if far { 0 } else { choice("letters", 3) } { 0 => {} 1 => for c in &mut k { if *c != b'/' { *c = b'k' } }, _ => for c in &mut k { if *c == b'-' { *c = b'_' } } }
    let c = sym("last", 2); for c in &c { assume(within(*c, b'a', b'z')) } assume(c[0] != c[1]);
    let at = if far { [0, n / 2, n / 2 + 60][choice("differ", 3)] } else { [n - 1, n - 2][choice("differ", 2)] };
    if at >= n || k[at] == b'/' || at + 1 < n && at > 0 && k[at - 1] == b'/' && k[at + 1] == b'/' { return }
    let [a, b] = [0, 1].map(|i| { let mut p = [b"/bkt/", &k[..]].concat(); p[5 + at] = c[i]; p });
    let v = sym("value", 1); assume(within(v[0], 0x21, 0x7e));
    let w = [m(b"n", &v)];
    check(put_meta(&s, &a, &w).ok(), "metadata of printable characters is accepted");
    match choice("then", 4) {
        0 => { put(&s, &b, b"plain"); expect_meta(&s, &b, &[]) }
        1 => { let x = [m(b"other", b"y")]; check(put_meta(&s, &b, &x).ok(), "metadata of printable characters is accepted"); expect_meta(&s, &b, &x) }
        2 => { check(rq("PUT", &b).h("x-amz-copy-source", &a[1..].iter().flat_map(|c| if *c == b'%' { b"%25".to_vec() } else { vec![*c] }).collect::<Vec<u8>>()).send(&s).ok(), "copy of an existing object succeeds"); expect_meta(&s, &b, &w) }
        _ => { check(rq("DELETE", &b).send(&s).ok(), "DELETE succeeds"); put(&s, &b, b"plain"); expect_meta(&s, &b, &[]) }
    }
    expect_meta(&s, &a, &w);
    reach("kept");
}
/// metadata follows the object through every history of operations
#[no_mangle] pub extern "C" fn d_meta_history() { history(3) }
#[no_mangle] pub extern "C" fn d_meta_history5() { history(5) }
fn history(len: u8) {
    let s = fs();
    let v = sym("value", 1); assume(within(v[0], 0x21, 0x7e));
    let (a, b): (&[u8], &[u8]) = (b"/bkt/k", if choice("where", 2) == 0 { b"/bkt/dir/k" } else { b"/other/k" });
    let mut st: [Option<Vec<(Vec<u8>, Vec<u8>)>>; 2] = [None, None];
    for i in 0..len {
        let mut t = v.clone(); t.push(b'0' + i);
        match choice("step", 7) {
            0 => { let w = vec![m(b"n", &t)]; check(put_meta(&s, a, &w).ok(), "metadata of printable characters is accepted"); st[0] = Some(w) }
            1 => { let w = vec![m(b"n", &t), m(b"other", b"x")]; check(put_meta(&s, a, &w).ok(), "metadata of printable characters is accepted"); st[0] = Some(w) }
            2 => { put(&s, a, if i == len - 1 && choice("empty", 2) == 1 { b"" } else { b"plain" }); st[0] = Some(vec![]) }
            3 => { check(rq("DELETE", a).send(&s).ok(), "DELETE succeeds"); st[0] = None }
            4 => { let r = rq("PUT", b).h("x-amz-copy-source", &a[1..]).send(&s); check(r.ok() == st[0].is_some(), "CopyObject succeeds when its source exists"); if st[0].is_some() { st[1] = st[0].clone() } }
            5 => { // multipart upload
                let r = rq("POST", a).q(b"uploads", b"").send(&s); let id = texts(&r.body, "UploadId").into_iter().next().unwrap_or_default();
                rq("PUT", a).q(b"partNumber", b"1").q(b"uploadId", &id).b(b"part").send(&s);
                check(rq("POST", a).q(b"uploadId", &id).b(b"<CompleteMultipartUpload><Part><PartNumber>1</PartNumber></Part></CompleteMultipartUpload>").send(&s).ok(), "CompleteMultipartUpload succeeds");
                st[0] = Some(vec![]) }
            _ => { check(rq("POST", b"/bkt").q(b"delete", b"").b(b"<Delete><Object><Key>k</Key></Object></Delete>").send(&s).ok(), "DeleteObjects succeeds"); st[0] = None }
        }
    }
    for (p, w) in [(a, &st[0]), (b, &st[1])] { match w { Some(w) => expect_meta(&s, p, w), None => check(rq("HEAD", p).send(&s).status == 404, "a deleted object is gone") } }
    reach("history");
}
/// form uploads store their x-amz-meta fields
#[no_mangle] pub extern "C" fn d_meta_form() {
    let mut s = fs();
    let n = 1 + choice("len", 3); let v = sym("value", n); for b in &v { assume(within(*b, 0x21, 0x7e)) }
    let old = choice("old", 2) == 1;
    if old { check(put_meta(&s, b"/bkt/dir/k", &[m(b"old", b"w")]).ok(), "metadata of printable characters is accepted") }
    let mut f = crate::auth::post_fields(&sig::me(), crate::auth::POLICY);
    f.push(("x-amz-meta-n", v.clone()));
    s.set_auth(auth());
    let d = sym("data", 2);
    let r = rq("POST", b"/bkt").h("content-type", FORM).b(&crate::auth::form_of(&f, Some(&d))).send(&s);
    check(r.ok(), "a form upload is accepted");
    let s = fs();
    expect_meta(&s, b"/bkt/dir/k", &[m(b"n", &v)]);
    check(rq("GET", b"/bkt/dir/k").send(&s).body == d, "GET returns the stored bytes");
    reach("kept");
}
// ---- copy -------------------------------------------------------------------------------------
type Meta = [(Vec<u8>, Vec<u8>)];
fn copied(s: &s3_server::S3Service, src: &[u8], dst: &[u8], header: &[u8], d: &[u8], w: &Meta) { copied_as(s, src, dst, header, &[], d, w, w) }
fn copied_as(s: &s3_server::S3Service, src: &[u8], dst: &[u8], header: &[u8], more: &[(&str, &[u8])], d: &[u8], old: &Meta, new: &Meta) {
    let mut r = rq("PUT", dst).h("x-amz-copy-source", header); for (n, v) in more { r = r.h(n, v) }
    let r = r.send(s);
    check(r.status == 200, "CopyObject of an existing object succeeds");
    check(texts(&r.body, "ETag") == vec![sig::etag(d)], "CopyObject returns the MD5 of the data as ETag");
    for p in [dst, src] {
        let g = rq("GET", p).send(s);
        check(g.status == 200 && g.body == d, if p == dst { "the copy has the content of its source" } else { "the source of a copy stays as it was" });
        check(meta_of(&g) == if p == dst { new } else { old }, if p == dst { "the copy has the metadata asked for" } else { "the source of a copy stays as it was" });
    }
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    reach("copied");
}
#[no_mangle] pub extern "C" fn d_copy() {
    let s = fs();
    let n = [0usize, 1, 3, 4097, 8193][choice("size", 5)];
    let d = sym("data", n);
    let (src, dst): (&[u8], &[u8]) = [(&b"/bkt/k"[..], &b"/bkt/k2"[..]), (b"/bkt/k", b"/other/deep/er/k"), (b"/bkt/dir/k", b"/bkt/k"), (b"/bkt/k", b"/bkt/k"), (b"/bkt/dir/k", b"/bkt/dir/l")][choice("place", 5)];
    let pre = choice("target", 3);
    if src != dst && pre > 0 { let x = put_meta(&s, dst, &[m(b"old", b"meta")]); check(x.ok(), "PUT accepts an ordinary object"); }
    let v = sym("value", 1); assume(within(v[0], 0x21, 0x7e));
    let w = if choice("meta", 2) == 1 { vec![m(b"n", &v)] } else { vec![] };
    let mut r = rq("PUT", src).b(&d); for (n, v) in &w { r = r.h(&format!("x-amz-meta-{}", std::str::from_utf8(n).unwrap()), v) }
    check(r.send(&s).ok(), "PUT accepts an ordinary object");
    let h: Vec<u8> = if choice("slash", 2) == 1 { src.to_vec() } else { src[1..].to_vec() };
    // x-amz-metadata-directive: absent or COPY keeps the source's metadata, REPLACE takes the request's
    let u = sym("other", 1); assume(within(u[0], 0x21, 0x7e));
    let (more, new): (Vec<(&str, &[u8])>, Vec<(Vec<u8>, Vec<u8>)>) = match choice("directive", 6) {
        0 => (vec![], w.clone()),
        1 => (vec![("x-amz-metadata-directive", b"COPY")], w.clone()),
        2 => (vec![("x-amz-metadata-directive", b"COPY"), ("x-amz-meta-n", &u), ("x-amz-meta-o", &u)], w.clone()),
        3 => (vec![("x-amz-metadata-directive", b"REPLACE")], vec![]),
        4 => (vec![("x-amz-metadata-directive", b"REPLACE"), ("x-amz-meta-n", b""), ("x-amz-meta-o", &u)], vec![m(b"n", b""), m(b"o", &u)]),
        _ => (vec![("x-amz-metadata-directive", b"REPLACE"), ("x-amz-meta-n", &u), ("x-amz-meta-o", &u)], vec![m(b"n", &u), m(b"o", &u)]),
    };
    let old = if src == dst { &new } else { &w };
    copied_as(&s, src, dst, &h, &more, &d, old, &new);
}
/// the copy source names its object exactly, however it is percent-encoded
#[no_mangle] pub extern "C" fn d_copy_source() {
    let s = fs();
    let mut k = sym("key", 2);
    if choice("dir", 2) == 1 { k.insert(1, b'/') }
    assume(std::str::from_utf8(&k).is_ok());
    for seg in k.split(|b| *b == b'/') { assume(!(seg.is_empty() || seg == b"." || seg == b".." || seg.contains(&0))) }
    let mut p = b"/bkt/".to_vec(); p.extend(&k);
    put(&s, &p, b"wanted");
    let mut h = vec![];
    let f = choice("form", 3);
    if f > 0 { h.push(b'/') }
    enc(&mut h, &p[1..], f == 2);
    copied(&s, &p, b"/other/copy", &h, b"wanted", &[]);
}
/// copies that can not be made leave everything as it was
#[no_mangle] pub extern "C" fn d_copy_refused() {
    let s = fs();
    put(&s, b"/bkt/k", b"source"); put(&s, b"/other/k", b"target");
    check(rq("PUT", b"/bkt/d/").h("content-length", b"0").send(&s).ok(), "PUT accepts a directory object");
    let (src, dst, want): (&[u8], &[u8], &[u8]) = [(&b"bkt/missing"[..], &b"/other/k"[..], &b"NoSuchKey"[..]), (b"bkt/k/x", b"/other/k", b"NoSuchKey"), (b"bkt/k/", b"/other/k", b"NoSuchKey"), (b"bkt/d", b"/other/k", b"NoSuchKey"), (b"absent/k", b"/other/k", b""), (b"bkt/k", b"/absent/k", b"NoSuchBucket"), (b"bkt/../other/k", b"/other/k", b""), (b"bkt", b"/other/k", b""), (b"", b"/other/k", b""), (b"bkt/", b"/other/k", b""), (b"bkt/d/", b"/other/k", b""), (b"bkt/k", b"/other/k/", b""), (b"%", b"/other/k", b""), (b"bkt/%ff", b"/other/k", b""), (b"//bkt/k", b"/other/k", b"")][choice("case", 15)];
    let before = vfs().files("/srv/root");
    let r = rq("PUT", dst).h("x-amz-copy-source", src).send(&s);
    check(r.status >= 400 && r.status < 502, "a copy that can not be made is refused");
    if !want.is_empty() { check(code(&r) == want, "a missing source or bucket is reported as such") }
    let f = vfs().files("/srv/root");
    check(f == before && !vfs().is_dir("/srv/root/absent"), "a refused copy leaves everything as it was");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    reach("refused");
}

/// calls that read or write less than they were asked to
#[no_mangle] pub extern "C" fn d_short() {
    let s = fs();
    let (n, short) = [(0usize, 1usize), (1, 1), (3, 1), (3, 2), (5000, 4096), (5000, 4095), (5000, 1500), (9000, 8191)][choice("size", 8)];
    let d = sym("data", n);
    vfs().short = short;
    let (p, q): (&[u8], &[u8]) = (b"/bkt/dir/k", b"/other/c");
    match choice("writer", 4) {
        0 => { let r = rq("PUT", p).h("x-amz-meta-n", b"value").b(&d).send(&s); check(r.ok() && r.header("etag") == Some(&sig::etag(&d)[..]), "PUT returns the MD5 of the data as ETag") }
        1 => { put(&s, q, b"source to be replaced"); check(rq("PUT", q).h("x-amz-meta-n", b"value").b(&d).send(&s).ok(), "PUT accepts an ordinary object"); let r = rq("PUT", p).h("x-amz-copy-source", &q[1..]).send(&s); check(r.ok() && texts(&r.body, "ETag") == vec![sig::etag(&d)], "CopyObject returns the MD5 of the data as ETag") }
        2 => { let r = rq("PUT", p).h("x-amz-meta-n", b"value").frags(cut(&d, &[1])).send(&s); check(r.ok() && r.header("etag") == Some(&sig::etag(&d)[..]), "PUT returns the MD5 of the data as ETag") }
        _ => {
            let r = rq("POST", p).q(b"uploads", b"").send(&s); let id = texts(&r.body, "UploadId").into_iter().next().unwrap_or_default();
            let half = n / 2; let mut list = b"<CompleteMultipartUpload>".to_vec();
            for (i, piece) in [&d[..half], &d[half..]].iter().enumerate() {
                let k = (i + 1).to_string();
                let r = rq("PUT", p).q(b"partNumber", k.as_bytes()).q(b"uploadId", &id).b(piece).send(&s);
                check(r.ok() && r.header("etag") == Some(&sig::etag(piece)[..]), "UploadPart returns the MD5 of the part as ETag");
                list.extend(format!("<Part><PartNumber>{}</PartNumber><ETag>", k).into_bytes()); list.extend(sig::etag(piece)); list.extend(b"</ETag></Part>");
            }
            list.extend(b"</CompleteMultipartUpload>");
            let r = rq("POST", p).q(b"uploadId", &id).b(&list).send(&s);
            check(r.ok() && texts(&r.body, "ETag").len() == 1, "CompleteMultipartUpload assembles the parts");
            let g = rq("GET", p).send(&s);
            check(g.body == d && !g.body_err, "GET returns the stored bytes");
            reach("short"); return
        }
    }
    let g = rq("GET", p).send(&s);
    check(g.status == 200 && g.body == d && !g.body_err, "GET returns the stored bytes");
    check(g.header("content-length") == Some(n.to_string().as_bytes()) && g.header("etag") == Some(&sig::etag(&d)[..]), "GET returns the MD5 of the data as ETag");
    check(meta_of(&g) == vec![m(b"n", b"value")], "GET returns the stored metadata");
    if n > 2 { let (a, b) = (n / 3, n - 2); let g = rq("GET", p).h("range", format!("bytes={}-{}", a, b).as_bytes()).send(&s); check(g.status == 206 && g.body == d[a..=b] && !g.body_err, "exactly the bytes in range are sent") }
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    reach("short");
}

/// objects that do not exist, whatever their key
#[no_mangle] pub extern "C" fn d_absent() {
    let s = fs();
    put(&s, b"/bkt/k", b"v"); put(&s, b"/bkt/dir/k", b"v");
    let before = vfs().files("/srv/root");
    let k = match choice("form", 4) { 0 => sym("key", 2), 1 => [&b"k/"[..], &sym("key", 1)].concat(), 2 => [&b"dir/"[..], &sym("key", 2)].concat(), _ => { let mut k = vec![b'a'; [255, 256, 1024, 1025, 5000][choice("long", 5)]]; if choice("split", 2) == 1 { for i in (200..k.len()).step_by(200) { k[i] = b'/' } } k } };
    assume(std::str::from_utf8(&k).is_ok());
    // the same as an existing object's after the dots are resolved
    for seg in k.split(|b| *b == b'/') { assume(!(seg.is_empty() || seg == b"." || seg == b"..")) }
    assume(k != b"k" && k != b"dir/k");
    let p = [&b"/bkt/"[..], &k].concat();
    let o = choice("op", 4);
    let r = match o { 0 => rq("GET", &p), 1 => rq("HEAD", &p), 2 => rq("PUT", b"/other/c").h("x-amz-copy-source", &{ let mut h = vec![]; enc(&mut h, &p[1..], false); h }), _ => rq("DELETE", &p) }.send(&s);
    if o == 3 { check(r.status == 204 || r.status / 100 == 4, "deleting an object that does not exist succeeds") }
    else { check(r.status == 404 && (o == 1 || code(&r) == b"NoSuchKey") || r.status == 400, "an object that does not exist is answered with NoSuchKey"); }
    check(vfs().files("/srv/root") == before, "a request for an object that does not exist changes nothing");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    if r.status == 404 { reach("absent") } else { reach("refused") }
}
