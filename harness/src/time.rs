//! Modification times.
use crate::{auth::*, fx::*, rt::*, sig::me, vfs::vfs};

/// (year, month, day) of a day counted from 1970-01-01, by counting years and months
fn civil(mut d: i64) -> (i64, i64, i64) {
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let mut y = 1970;
    loop { let n = 365 + leap(y) as i64; if d < n { break } d -= n; y += 1 }
    let mut m = 0;
    loop { let n = [31, 28 + leap(y) as i64, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m]; if d < n { break } d -= n; m += 1 }
    (y, m as i64 + 1, d + 1)
}
/// the moment as HTTP writes it
fn http_date(t: i64) -> Vec<u8> {
    let (y, m, d) = civil(t / 86400);
    let s = t % 86400;
    format!("{}, {:02} {} {:04} {:02}:{:02}:{:02} GMT", ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][(t / 86400 % 7) as usize], d, ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1], y, s / 3600, s / 60 % 60, s % 60).into_bytes()
}
/// reads a moment as XML writes it, whatever its time zone: (seconds since 1970, nanoseconds)
fn xml_date(x: &[u8]) -> Option<(i64, u32)> {
    let num = |a: usize, n: usize| -> Option<i64> { let mut v = 0; for i in a..a + n { let c = *x.get(i)?; if !c.is_ascii_digit() { return None } v = v * 10 + (c - b'0') as i64 } Some(v) };
    for (i, c) in [(4, b'-'), (7, b'-'), (10, b'T'), (13, b':'), (16, b':')] { if x.get(i) != Some(&c) { return None } }
    let (y, mo, d, h, mi, s) = (num(0, 4)?, num(5, 2)?, num(8, 2)?, num(11, 2)?, num(14, 2)?, num(17, 2)?);
    if h > 23 || mi > 59 || s > 60 { return None }
    let mut i = 19;
    let mut ns = 0u32;
    if x.get(i) == Some(&b'.') { i += 1; let a = i; let mut k = 100_000_000; while x.get(i).map_or(false, |c| c.is_ascii_digit()) { ns += k * (x[i] - b'0') as u32; k /= 10; i += 1 } if i == a { return None } }
    let off = match x.get(i)? { b'Z' => { if x.len() != i + 1 { return None } 0 } c => { let g = match c { b'+' => 1, b'-' => -1, _ => return None }; if x.len() != i + 6 || x[i + 3] != b':' { return None } g * (num(i + 1, 2)? * 3600 + num(i + 4, 2)? * 60) } };
    let mut days = 0; for k in 1970..y { days += if civil_len(k) { 366 } else { 365 } }
    let ml = [31, 28 + civil_len(y) as i64, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if mo < 1 || mo > 12 || d < 1 || d > ml[mo as usize - 1] { return None }
    for k in 0..mo as usize - 1 { days += ml[k] }
    Some(((days + d - 1) * 86400 + h * 3600 + mi * 60 + s - off, ns))
}
fn civil_len(y: i64) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
/// puts the server into a time zone: fixed offsets, or one that changes at `at`
fn zone(at: i64) {
    let ty = |off: i32| -> Vec<u8> { let mut v = off.to_be_bytes().to_vec(); v.extend([0, 0]); v };
    let file = |times: &[i64], types: &[i32]| {
        let mut o = b"TZif\0".to_vec(); o.extend([0; 15]);
        for n in [0u32, 0, 0, times.len() as u32, types.len() as u32, 4] { o.extend(n.to_be_bytes()) }
        for t in times { o.extend((*t as i32).to_be_bytes()) }
        for i in 0..times.len() { o.push(1 + i as u8) }
        for t in types { o.extend(ty(*t)) }
        o.extend(b"ABC\0"); o
    };
    let f = match choice("zone", 5) { 0 => return, 1 => file(&[], &[3600]), 2 => file(&[], &[-12600]), 3 => file(&[], &[14 * 3600]), _ => { if at > 2_147_000_000 { return } file(&[at - 100], &[3600, 7200]) } };
    vfs().put("/etc", b"localtime", &f);
}
const SPAN: u8 = 66;
/// a moment in a window of a bit more than a minute: (first second of the window, second in the window)
fn moment() -> (i64, u8) {
    let base = [1_700_000_000i64, 951_782_398, 1_709_164_798, 1_704_067_198, 2_147_483_590, 4_107_542_398, 1_709_208_000 - 45, 978_307_198, 1_000_000_000 + 43_198][choice("base", 9)];
    let s = sym_u8("second"); assume(s < SPAN);
    (base, s)
}
/// is `x` the moment as HTTP writes it?
fn http_is(x: Option<&[u8]>, (base, s): (i64, u8)) -> bool {
    let mut want = [0u8; 29];
    for k in 0..SPAN { let m = 0u8.wrapping_sub((s == k) as u8); for (w, b) in want.iter_mut().zip(http_date(base + k as i64)) { *w |= b & m } }
    let Some(x) = x else { return false };
    if x.len() != 29 { return false }
    let mut d = 0; for (a, b) in x.iter().zip(&want) { d |= a ^ b }
    d == 0
}
/// GET, HEAD, the listings and the answer to a copy agree on the moment at which an object was stored
#[no_mangle] pub extern "C" fn t_objects() {
    let mut s = fs();
    let (base, sec) = moment();
    zone(base + 30);
    let t = base + sec as i64;
    vfs().nsec = [0, 1, 999_999_999][choice("nanoseconds", 3)];
    let ns = vfs().nsec;
    let early = t - 7_777;
    let mut other = vec![];
    vfs().clock = early;
    match choice("stored by", 6) {
        0 => { vfs().clock = t; check(rq("PUT", b"/bkt/k").b(b"data").send(&s).ok(), "PUT accepts an ordinary object") }
        1 => { check(rq("PUT", b"/bkt/k").b(b"old").send(&s).ok(), "PUT accepts an ordinary object"); vfs().clock = t; check(rq("PUT", b"/bkt/k").h("x-amz-meta-n", b"v").b(b"data").send(&s).ok(), "PUT accepts an ordinary object") }
        2 => {
            check(rq("PUT", b"/other/src").h("x-amz-meta-n", b"v").b(b"data").send(&s).ok(), "PUT accepts an ordinary object"); vfs().clock = t;
            let r = rq("PUT", b"/bkt/k").h("x-amz-copy-source", b"other/src").send(&s);
            let l = texts(&r.body, "LastModified");
            check(r.ok() && l.len() == 1, "copy of an existing object succeeds");
            check(matches!(xml_date(&l[0]), Some((x, n)) if x == t && (n <= ns)), "the answer to a copy states when the copy was made");
        }
        3 => {
            let id = crate::multi::upload(&s, b"/bkt/k"); vfs().clock = t - 3_000;
            check(rq("PUT", b"/bkt/k").q(b"partNumber", b"1").q(b"uploadId", &id).b(b"data").send(&s).ok(), "UploadPart accepts an ordinary part"); vfs().clock = t;
            check(rq("POST", b"/bkt/k").q(b"uploadId", &id).b(b"<CompleteMultipartUpload><Part><PartNumber>1</PartNumber></Part></CompleteMultipartUpload>").send(&s).ok(), "CompleteMultipartUpload of the uploaded parts succeeds");
            other = vec![-7_777, -3_000];
        }
        4 => { // a later upload that fails, and one that reads
            vfs().clock = t; check(rq("PUT", b"/bkt/k").b(b"data").send(&s).ok(), "PUT accepts an ordinary object");
            vfs().clock = t + 1_000; check(!rq("PUT", b"/bkt/k").b(b"other").fail().send(&s).ok(), "a body that breaks off is refused");
            check(rq("PUT", b"/other/copy").h("x-amz-copy-source", b"bkt/k").send(&s).ok(), "copy of an existing object succeeds");
        }
        _ => {
            vfs().clock = t; s.set_auth(auth());
            let mut f = post_fields(&me(), POLICY); f[0].1 = b"k".to_vec();
            check(rq("POST", b"/bkt").h("content-type", FORM).b(&form_of(&f, Some(b"data"))).send(&s).ok(), "a well-formed form upload is accepted");
            s = s3_server::S3Service::new(s3_server::storages::fs::FileSystem::new("/srv/root").unwrap());
        }
    }
    vfs().clock = t + 5_000;
    let shown = |x: Option<&[u8]>| { let mut f = http_is(x, (base, sec)); for o in &other { f |= http_is(x, (base + o, sec)) } f };
    let g = rq("GET", b"/bkt/k").send(&s);
    check(g.status == 200 && shown(g.header("last-modified")), "GET states when the object was stored");
    let h = rq("HEAD", b"/bkt/k").send(&s);
    check(h.status == 200 && h.header("last-modified") == g.header("last-modified"), "HEAD states when the object was stored");
    let r = rq("GET", b"/bkt/k").h("range", b"bytes=1-2").send(&s);
    check(r.status == 206 && r.header("last-modified") == g.header("last-modified"), "a ranged GET states when the object was stored");
    for v2 in [false, true] {
        let r = rq("GET", b"/bkt"); let r = if v2 { r.q(b"list-type", b"2") } else { r };
        let l = texts(&r.send(&s).body, "LastModified");
        check(l.len() == 1, "a listing states when each object was stored");
        match xml_date(&l[0]) { Some((x, n)) => check(((x == t) | (!other.is_empty() & (x >= early) & (x <= t))) & (n <= ns), "a listing states when each object was stored"), None => check(false, "a listing states when each object was stored") }
    }
    reach("stated");
}
/// ListBuckets states when a bucket was created, whatever happened in it since
#[no_mangle] pub extern "C" fn t_buckets() {
    let s = fs();
    let (base, sec) = moment();
    zone(base + 30);
    let t = base + sec as i64;
    vfs().nsec = [0, 1, 999_999_999][choice("nanoseconds", 3)];
    let ns = vfs().nsec;
    check(rq("DELETE", b"/other").send(&s).ok() && rq("DELETE", b"/bkt").send(&s).ok(), "DeleteBucket of an empty bucket succeeds");
    vfs().clock = t;
    check(rq("PUT", b"/newbucket").send(&s).ok(), "CreateBucket succeeds");
    vfs().clock = t + 1_000;
    match choice("then", 4) { 0 => {} 1 => check(rq("PUT", b"/newbucket/k").b(b"data").send(&s).ok(), "PUT accepts an ordinary object"), 2 => { check(rq("PUT", b"/newbucket/k").b(b"data").send(&s).ok(), "PUT accepts an ordinary object"); check(rq("DELETE", b"/newbucket/k").send(&s).ok(), "DELETE of a key succeeds") } _ => check(!rq("PUT", b"/newbucket").send(&s).ok(), "an existing bucket is not created again") }
    vfs().clock = t + 5_000;
    let r = rq("GET", b"/").send(&s);
    let l = texts(&r.body, "CreationDate");
    check(r.ok() && l.len() == 1, "ListBuckets states when each bucket was created");
    check(matches!(xml_date(&l[0]), Some((x, n)) if x == t && (n <= ns)), "ListBuckets states when each bucket was created");
    reach("stated");
}
