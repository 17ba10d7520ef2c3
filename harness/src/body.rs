//! Request bodies: aws-chunked uploads and browser forms.
use crate::{auth::{form_of, post_fields, POLICY}, fx::*, rt::*, sig::*, vfs::vfs, web};

fn target(i: usize) -> Rq {
    if i == 0 { rq("PUT", b"/bkt/dir/k") } else { rq("PUT", b"/bkt/dir/k").q(b"partNumber", b"1").q(b"uploadId", b"7b2a41a6-9d6b-4fd3-a9f9-5d1ba0ae6e3f") }
}
/// Sends `wire` as the body of a request signed for streaming (seed computed by `seed`).
fn streaming(t: usize) -> (Rq, Vec<u8>) { let mut r = target(t); let g = sign(&mut r, &me(), Payload::Streaming); (r, g) }
/// Parts of an aws-chunked body: (size line without signature, signature, data)
struct Ck { size: Vec<u8>, sig: Vec<u8>, data: Vec<u8> }
fn wire(c: &[Ck]) -> Vec<u8> { let mut o = vec![]; for c in c { o.extend_from_slice(&c.size); o.extend_from_slice(b";chunk-signature="); o.extend_from_slice(&c.sig); o.extend_from_slice(b"\r\n"); o.extend_from_slice(&c.data); o.extend_from_slice(b"\r\n") } o }
fn chunks(seed: &[u8], s: &Signer, data: &[Vec<u8>]) -> Vec<Ck> {
    let mut v = vec![]; let mut prev = seed.to_vec();
    for d in data.iter().cloned().chain(std::iter::once(vec![])) { let mut o = vec![]; let g = chunk(s, &prev, &d, &mut o); v.push(Ck { size: format!("{:x}", d.len()).into_bytes(), sig: g.clone(), data: d }); prev = g }
    v
}
/// What the storage saw of a tampered upload of `data`.
fn intact(svc: &s3_server::S3Service, r: &Rq, data: &[Vec<u8>], must_fail: bool) {
    let x = r.send(svc);
    let all: Vec<u8> = data.concat();
    for c in calls().iter() {
        check(c.body_err || c.body == all, "a body that differs from the signed one never ends regularly");
        check(!c.body_err || !x.ok(), "an upload whose body fails is answered with an error");
        let mut at = vec![0]; for d in data { at.push(at.last().unwrap() + d.len()) }
        check(c.body.len() <= all.len() && c.body[..] == all[..c.body.len()] && at.contains(&c.body.len()), "only verified chunks reach the storage");
    }
    if must_fail { check(!x.ok(), "a tampered aws-chunked upload is refused"); reach("tampered") } else { reach("end") }
}
const SHAPES: [&[usize]; 4] = [&[1], &[2, 1], &[3, 0], &[1, 1, 2]];
fn shaped(i: usize) -> Vec<Vec<u8>> { SHAPES[i].iter().filter(|n| **n > 0).map(|n| sym("data", *n)).collect() }
/// Any 64 characters but `g`.
fn forge(g: &[u8]) -> Vec<u8> { let m = sym("forged", g.len()); let mut any = false; for (a, b) in g.iter().zip(&m) { any |= a != b; assume(within(*b, 0x21, 0x7e)) } assume(any); m }
/// data, signatures and order of chunks
#[no_mangle] pub extern "C" fn b_chunk_tamper() {
    let svc = rec(true);
    let data = shaped(choice("shape", 4));
    let (mut r, seed) = streaming(choice("target", 2));
    let mut c = chunks(&seed, &me(), &data);
    let n = c.len();
    let kind = choice("kind", 12);
    match kind {
        9 => { // data appended to a chunk whose size says so
            let i = choice("chunk", n); let m = sym("more", 1 + choice("len", 4)); let d = &mut c[i].data; let at = [0, d.len()][choice("at", 2)]; for (k, b) in m.iter().enumerate() { d.insert(at + k, *b) } c[i].size = format!("{:x}", c[i].data.len()).into_bytes() }
        10 => { // data missing from a chunk whose size says so
            let i = choice("chunk", n - 1); let l = c[i].data.len(); let k = choice("keep", l); let from = choice("from", 2) * (l - k); c[i].data = c[i].data[from..from + k].to_vec(); c[i].size = format!("{:x}", k).into_bytes() }
        11 => { // a signature shortened, extended or left out
            let i = choice("chunk", n); let g = &mut c[i].sig;
            match choice("len", 6) { 0 => g.clear(), 1 => { g.pop(); } 2 => { g.remove(0); } 3 => { g.push(sym_u8("more")) } 4 => { let b = sym_u8("more"); g.insert(0, b) } _ => { g.truncate(32) } }
        }
        0 => { let i = choice("chunk", n - 1); let m = sym("mask", c[i].data.len()); let mut any = 0; for (a, b) in c[i].data.iter_mut().zip(&m) { *a ^= b; any |= b } assume(any != 0) }
        1 => { let i = choice("chunk", n); c[i].sig = forge(&c[i].sig) }
        2 => { let i = choice("chunk", n - 1); let j = i + 1 + choice("other", n - 1 - i); c.swap(i, j); }
        3 => { let i = choice("chunk", n); c.remove(i); }
        4 => { let i = choice("chunk", n - 1); let d = Ck { size: c[i].size.clone(), sig: c[i].sig.clone(), data: c[i].data.clone() }; let at = choice("at", n + 1); c.insert(at, d) }
        5 => { // signed with another user's secret, or for another request
            let i = choice("chunk", n);
            let o = match choice("forger", 3) { 0 => chunks(&seed, &Signer { secret: SK2.as_bytes(), ..me() }, &data), 1 => { let mut q = rq("PUT", b"/bkt/other"); let g = sign(&mut q, &me(), Payload::Streaming); chunks(&g, &me(), &data) } _ => chunks(&seed, &Signer { region: b"eu-west-1", ..me() }, &data) };
            for (k, x) in o.into_iter().enumerate() { if k >= i { c[k].sig = x.sig } }
        }
        6 => { // the size says something else
            let i = choice("chunk", n); let k = c[i].size.len(); c[i].size = sym("size", 1); assume(c[i].size != format!("{:x}", c[i].data.len()).as_bytes()); let _ = k; let mut u = false; for x in [b'A', b'B', b'C', b'D', b'E', b'F'] { u |= c[i].size[0] == x } assume(!u)
        }
        7 => { // an empty chunk in the middle, chained with the same signatures
            let i = choice("chunk", n); let s = c[i].sig.clone(); c.insert(i, Ck { size: b"0".to_vec(), sig: s, data: vec![] }) }
        _ => { // two chunks merged into one, with either signature
            if n < 3 { return }
            let b = c.remove(1); let a = &mut c[0]; a.data.extend_from_slice(&b.data); a.size = format!("{:x}", a.data.len()).into_bytes();
            if choice("sig", 2) == 1 { a.sig = b.sig }
        }
    }
    let w = wire(&c);
    r = match if kind == 0 || kind > 8 { choice("pieces", 2) } else { 0 } { 0 => r.b(&w), _ => r.frags(w.chunks(1).map(|v| v.to_vec()).collect()) };
    intact(&svc, &r, &data, true);
}
/// the body ends early, or breaks off, at any position; or continues with other bytes from there on
#[no_mangle] pub extern "C" fn b_chunk_truncate() {
    let svc = rec(true);
    let data = vec![sym("data", 2), sym("data", 1)];
    let (mut r, seed) = streaming(0);
    let w = wire(&chunks(&seed, &me(), &data));
    let fin = w.len() - 2;
    let at = choice("at", w.len() + 1);
    r = r.b(&w[..at]);
    let then = choice("then", 3);
    match then {
        0 => {} 1 => r = r.fail(),
        // whatever follows the complete body, but line ends
        _ if at == w.len() => { let x = sym("tail", 1 + choice("len", 2)); let mut ends = true; for b in &x { ends &= (*b == b'\r') | (*b == b'\n') } assume(!ends); if choice("apart", 2) == 1 { r.frags.push(x) } else { r.frags[0].extend(x) } }
        _ => { let x = sym("tail", 2); assume((x[0] != w[at]) | (at + 1 < w.len() && x[1] != w[at + 1])); r.frags.push(x) }
    }
    intact(&svc, &r, &data, at < fin || then == 2);
}
/// a tampered upload to the file system leaves the previous object
#[no_mangle] pub extern "C" fn b_chunk_store() {
    let svc = fs_auth();
    let old = rq("PUT", b"/bkt/dir/k");
    let mut o = old.b(b"previous"); sign(&mut o, &me(), Payload::Signed);
    check(o.send(&svc).ok(), "PUT accepts an ordinary object");
    let data = vec![sym("data", 2), sym("data", 2)];
    let (mut r, seed) = streaming(0);
    let mut c = chunks(&seed, &me(), &data);
    let n = c.len();
    match choice("kind", 5) {
        0 => { let i = choice("chunk", 2); let m = sym("mask", 2); assume((m[0] | m[1]) != 0); c[i].data[0] ^= m[0]; c[i].data[1] ^= m[1] }
        1 => { let i = choice("chunk", n); c[i].sig = forge(&c[i].sig) }
        2 => { c.truncate(choice("keep", n)); }
        3 => { let i = choice("chunk", n); let l = c[i].data.len(); c[i].data.truncate(l / 2); c.truncate(i + 1); if c[i].size == b"0" { c.pop(); } }
        _ => { r = r.fail(); c.truncate(choice("keep", n)); }
    }
    r.frags = vec![wire(&c)];
    let x = r.send(&svc);
    check(!x.ok(), "a tampered aws-chunked upload is refused");
    let f = vfs().files("/srv/root/bkt");
    check(f.len() == 1 && f[0].0 == b"dir/k" && f[0].1 == b"previous", "a refused aws-chunked upload leaves the stored object as it was");
    reach("refused");
}
/// well-formed aws-chunked bodies, delivered in arbitrary pieces
fn chunk_ok(svc: s3_server::S3Service, mut r: Rq, frags: Vec<Vec<u8>>, data: &[u8]) {
    r.frags = frags;
    let x = r.send(&svc);
    check(x.ok(), "a correctly signed aws-chunked upload is accepted");
    check(calls().len() == 1, "a correctly signed aws-chunked upload is accepted");
    if let Some(c) = calls().first() { check(!c.body_err && c.body == data, "the storage receives exactly the data of the chunks") }
    reach("decoded");
}
#[no_mangle] pub extern "C" fn b_chunk_frag() {
    let svc = rec(true);
    let data = shaped(choice("shape", 4));
    let (r, seed) = streaming(choice("target", 2));
    let w = wire(&chunks(&seed, &me(), &data));
    let f = match choice("cut", 4) {
        0 => { let a = choice("at", w.len() + 1); cut(&w, &[a]) }
        1 => { let a = choice("at", w.len()); let b = a + 1 + choice("gap", 4); cut(&w, &[a, b]) }
        2 => { let k = 1 + choice("every", 7); w.chunks(k).map(|x| x.to_vec()).collect() }
        _ => { // an empty piece somewhere
            let a = choice("at", w.len() + 1); cut(&w, &[a, a]) }
    };
    chunk_ok(svc, r, f, &data.concat());
}
/// all pairs of cuts
#[no_mangle] pub extern "C" fn b_chunk_pairs() {
    let svc = rec(true);
    let data = vec![sym("data", 2)];
    let (r, seed) = streaming(0);
    let w = wire(&chunks(&seed, &me(), &data));
    let a = choice("a", w.len()); let b = a + 1 + choice("b", w.len() - a);
    chunk_ok(svc, r, cut(&w, &[a, b]), &data.concat());
}
/// sizes around powers of 16 and how they may be written; data full of line ends
#[no_mangle] pub extern "C" fn b_chunk_sizes() {
    let svc = rec(true);
    let n = [1, 9, 10, 15, 16, 17, 31, 255, 256, 257, 4096, 65535, 65536, 65537][choice("size", 14)];
    let k = choice("content", 2);
    let mut d = if k == 0 { vec![b'x'; n] } else { b"\r\n0;chunk-signature=".iter().cycle().take(n).cloned().collect() };
    let s = sym("data", 1); d[n - 1] = s[0];
    let data = if choice("chunks", 2) == 0 { vec![d] } else { vec![d.clone(), d] };
    let (r, seed) = streaming(0);
    let mut c = chunks(&seed, &me(), &data);
    match choice("form", 4) { 0 => {} 1 => for x in &mut c { x.size.make_ascii_uppercase() }, 2 => for x in &mut c { x.size.insert(0, b'0') }, _ => for x in &mut c { while x.size.len() < 8 { x.size.insert(0, b'0') } } }
    let w = wire(&c);
    let f = match choice("cut", 4) { 0 => vec![w], 1 => cut(&w, &[90]), 2 => w.chunks(4096).map(|x| x.to_vec()).collect(), _ => { let l = w.len(); cut(&w, &[l / 2, l.max(180) - 90]) } };
    chunk_ok(svc, r, f, &data.concat());
}
/// long uploads: hundreds of chunks, chunks of a megabyte; intact, or one bit of any late chunk changed
fn chunk_long(tamper: bool) {
    let svc = rec(true);
    let layout = choice("layout", 4);
    let sizes: Vec<usize> = match layout { 3 => vec![1030, 7], 0 => (0..300).map(|i| 1 + i % 17).collect(), 1 => vec![65536, 1, 65536, 65536, 70000, 3], _ => { if tamper { return } vec![5, 1048577, 9] } };
    let mut data: Vec<Vec<u8>> = sizes.iter().enumerate().map(|(i, n)| (0..*n).map(|j| (i * 31 + j) as u8 ^ (j >> 8) as u8).collect()).collect();
    let n = data.len();
    let at = [0, n / 2, n - 2, n - 1][choice("chunk", 4)];
    let place = |l: usize| [l - l.min(200), l - 1][choice("place", 2)];
    if !tamper { let l = data[at].len(); let p = place(l); data[at][p] = sym_u8("data"); }
    let (r, seed) = streaming(0);
    let mut c = chunks(&seed, &me(), &data);
    if tamper { let l = c[at].data.len(); let p = place(l); let m = sym_u8("mask"); assume(m != 0); c[at].data[p] ^= m; }
    let w = wire(&c);
    let f = match if layout == 3 { 3 } else { choice("cut", 3) } { 0 => vec![w], 3 => w.chunks(1).map(|x| x.to_vec()).collect(), 1 => w.chunks(4096).map(|x| x.to_vec()).collect(), _ => w.chunks(65536).map(|x| x.to_vec()).collect() };
    if tamper { let mut r = r; r.frags = f; intact(&svc, &r, &data, true); reach("tampered") } else { chunk_ok(svc, r, f, &data.concat()) }
}
#[no_mangle] pub extern "C" fn b_chunk_long() { chunk_long(false) }
#[no_mangle] pub extern "C" fn b_chunk_long_tamper() { chunk_long(true) }
/// an empty upload
#[no_mangle] pub extern "C" fn b_chunk_empty() {
    let svc = rec(true);
    let (r, seed) = streaming(choice("target", 2));
    let w = wire(&chunks(&seed, &me(), &[]));
    let a = choice("at", w.len() + 1);
    chunk_ok(svc, r, cut(&w, &[a]), b"");
}

fn find(h: &[u8], n: &[u8]) -> bool { let mut f = false; if h.len() >= n.len() { for i in 0..=h.len() - n.len() { let mut e = true; for j in 0..n.len() { e &= h[i + j] == n[j] } f |= e } } f }
const ALPHA: &[u8] = b"\r\n-Bx";
fn file_content(k: usize, n: usize) -> Vec<u8> {
    let mut d = match k { 0 => vec![], 1 => b"\r\n--BN".to_vec(), 2 => b"\r\r\n-".to_vec(), 3 => b"ab\r\n--BN\r\n-".to_vec(), _ => b"--BND\r\n".to_vec() };
    d.extend(if k == 0 { sym("file", n) } else { sym_from("file", n, ALPHA) });
    let mut e = d.clone(); e.extend_from_slice(b"\r\n--BN");
    assume(!find(&e, b"\r\n--BND"));
    d
}
fn upload(svc: s3_server::S3Service, w: &[u8], frags: Vec<Vec<u8>>, file: &[u8], meta: &[(&str, Vec<u8>)]) {
    let _ = w;
    let r = rq("POST", b"/bkt").h("content-type", FORM).frags(frags);
    let x = r.send(&svc);
    check(x.ok() && calls().len() == 1, "a well-formed form upload is accepted");
    let Some(c) = calls().first() else { return };
    check(c.op == "PutObject" && c.bucket == "bkt" && c.key == "dir/k", "a form upload goes to the bucket of the URL and the key of the form");
    check(!c.body_err && c.body == file, "a form upload stores exactly the bytes of the file field");
    check(c.meta.len() == meta.len(), "a form upload stores exactly the metadata fields of the form");
    for (n, v) in meta { let mut f = false; for (a, b) in &c.meta { f |= a == n && b.as_bytes() == &v[..] } check(f, "a form upload stores exactly the metadata fields of the form") }
    reach("stored");
}
fn fields() -> Vec<(&'static str, Vec<u8>)> { post_fields(&me(), POLICY) }
/// correctly signed forms with something else wrong, and what the service does with the object afterwards
#[no_mangle] pub extern "C" fn r_garbage_signed_form() {
    let mut svc = fs(); svc.set_auth(Lin);
    let mut f = fields();
    f.push(("x-amz-meta-m", b"v".to_vec()));
    let n = f.len();
    let mut edit = None;
    let mut file = Some(&b"data"[..]);
    match choice("kind", 6) {
        0 => { let i = choice("field", n); f.remove(i); }
        1 => { let i = choice("field", n); let x = f[i].clone(); let at = [0, n][choice("at", 2)]; f.insert(at, x); if choice("other", 2) == 1 { let l = f[at].1.len(); f[at].1.truncate(l / 2) } }
        2 => { let i = choice("field", n); let v = sym("value", 2); f[i].1 = [v, f[i].1[2.min(f[i].1.len())..].to_vec()].concat(); }
        3 => { let i = choice("field", n); f[i].1 = sym("value", choice("len", 3)); }
        4 => { file = None }
        _ => edit = Some(choice("edit", 3)),
    }
    let mut w = form_of(&f, file);
    let mut frags = vec![];
    match edit {
        Some(0) => { let at = choice("at", w.len()); w[at] = sym_u8("byte") }
        Some(1) => { let at = choice("at", w.len()); w.remove(at); }
        Some(_) => { let at = choice("at", w.len()); w.insert(at, sym_u8("byte")) }
        None => match choice("cut", 3) { 0 => {} 1 => frags = w.chunks(7).map(|x| x.to_vec()).collect(), _ => { w.truncate(w.len() - 9) } },
    }
    if frags.is_empty() { frags = vec![w] }
    let x = rq("POST", b"/bkt").h("content-type", FORM).frags(frags).send(&svc);
    crate::route::answered(&x, false);
    for (i, (path, _)) in vfs().files("/srv/root/bkt").iter().enumerate() {
        if i > 0 || path != b"dir/k" { continue }
        for m in ["GET", "HEAD"] {
            let mut g = rq(m, b"/bkt/dir/k"); sign(&mut g, &me(), Payload::Signed);
            let g = g.send(&svc);
            crate::route::answered(&g, m == "HEAD");
            check(g.status == 200, "what the service stored it can return");
        }
        reach("stored");
    }
}
/// correctly signed aws-chunked requests with garbled bodies
#[no_mangle] pub extern "C" fn r_garbage_chunked() {
    let svc = rec(true);
    let (r, seed) = streaming(choice("target", 2));
    let mut w = wire(&chunks(&seed, &me(), &[sym("data", 2), b"abcdefghijklmnopq".to_vec()]));
    let l = w.len();
    match choice("edit", 4) {
        0 => { let at = choice("at", l); w[at] = sym_u8("byte") }
        1 => { let at = choice("at", l); w.remove(at); }
        2 => { let at = choice("at", l); w.insert(at, sym_u8("byte")) }
        _ => { let at = choice("at", l); w.truncate(at) }
    }
    let f = match choice("cut", 3) { 0 => vec![w], 1 => w.chunks(1).map(|x| x.to_vec()).collect(), _ => { let a = choice("where", 6); let l = w.len(); cut(&w, &[[1, 2, 86, 87, 89, 91][a].min(l)]) } };
    let r = r.frags(f);
    crate::route::answered(&r.send(&svc), false);
}
/// file contents that resemble the delimiter, one cut anywhere
#[no_mangle] pub extern "C" fn b_form_cut1() {
    let f = file_content(choice("content", 5), 2);
    let w = form_of(&fields(), Some(&f));
    let a = choice("at", w.len() + 1);
    upload(rec(true), &w, cut(&w, &[a]), &f, &[]);
}
/// two cuts in and around the file
#[no_mangle] pub extern "C" fn b_form_cut2() {
    let f = file_content(choice("content", 5), 2);
    let w = form_of(&fields(), Some(&f));
    let lo = w.len() - f.len() - 14;
    let a = lo + choice("a", w.len() - lo); let b = a + 1 + choice("b", w.len() - a);
    upload(rec(true), &w, cut(&w, &[a, b]), &f, &[]);
}
/// every piece has the same length
#[no_mangle] pub extern "C" fn b_form_pieces() {
    let f = file_content(choice("content", 5), 3);
    let w = form_of(&fields(), Some(&f));
    let k = [1, 2, 3, 5, 7, 8, 13][choice("every", 7)];
    upload(rec(true), &w, w.chunks(k).map(|x| x.to_vec()).collect(), &f, &[]);
}
/// sizes of files around buffer boundaries
#[no_mangle] pub extern "C" fn b_form_sizes() {
    let n = [0, 1, 4095, 4096, 8191, 8192, 8193, 65537, 70000, 1048577][choice("size", 10)];
    let mut f: Vec<u8> = b"\r\n--BN\r--\n".iter().cycle().take(n).cloned().collect();
    if n > 0 { f[n - 1] = sym_u8("last"); let mut e = f[n.saturating_sub(8)..].to_vec(); e.extend_from_slice(b"\r\n--BN"); assume(!find(&e, b"\r\n--BND")) }
    let w = form_of(&fields(), Some(&f));
    let c = match choice("cut", 4) { 0 => vec![w.clone()], 1 => w.chunks(4096).map(|x| x.to_vec()).collect(), 2 => { let l = w.len(); cut(&w, &[l - 20, l - 11, l - 10]) } _ => { let l = w.len() - n; cut(&w, &[l - 12, l - 11]) } };
    upload(rec(true), &w, c, &f, &[]);
}
/// values of other fields, in any spelling and position
#[no_mangle] pub extern "C" fn b_form_fields() {
    let mut f = fields();
    let kind = choice("kind", 4);
    let v = match kind {
        0 => { let v = sym("value", 3); for b in &v { assume(within(*b, 0x20, 0x7e)) } v }
        1 => { let mut v = b"a".to_vec(); v.extend(sym_from("value", 2, b"-B ;=\"")); v.push(b'z'); v }
        2 => b"--BNDx--BND".to_vec(),
        _ => vec![],
    };
    let name = ["x-amz-meta-m", "X-Amz-Meta-M", "x-AMZ-meta-m"][choice("name", 3)];
    let at = choice("position", f.len() + 1);
    f.insert(at, (name, v.clone()));
    if choice("unknown", 2) == 1 { f.push(("x-unknown", b"\r\n--BNDX\r\n\r\n--\r\n".to_vec())) }
    let d = sym("file", 1);
    let w = form_of(&f, Some(&d));
    let c = match choice("cut", 3) { 0 => vec![w.clone()], 1 => w.chunks(16).map(|x| x.to_vec()).collect(), _ => { let l = w.len(); cut(&w, &[l / 2, l / 2 + 40]) } };
    upload(rec(true), &w, c, &d, &[("m", v)]);
}
/// a field whose name resembles that of the key or of metadata is another field
#[no_mangle] pub extern "C" fn b_form_names() {
    let known = [&b"key"[..], b"x-amz-meta-m"][choice("known", 2)];
    let name = match choice("form", 5) {
        0 => { let k = 1 + choice("length", 3); sym("name", k) }
        1 => [known, &sym("name", 1)[..]].concat(),
        2 => [&sym("name", 1)[..], known].concat(),
        3 => { let i = 1 + choice("at", known.len() - 1); [&known[..i], &sym("name", 1)[..], &known[i..]].concat() }
        _ => { let i = choice("at", known.len()); [&known[..i], &sym("name", 1)[..], &known[i + 1..]].concat() }
    };
    for b in &name { assume((*b >= 0x20) & (*b < 0x7f) & (*b != b'"') & (*b != b'\\')) }
    for known in [&b"key"[..], b"x-amz-meta-m"] {
        if name.len() != known.len() { continue }
        let mut diff = 0; for (a, b) in name.iter().zip(known) { let low = a | if within(*a, b'A', b'Z') { 0x20 } else { 0 }; diff |= low ^ b }
        assume(diff != 0);
    }
    let f = |n: &[u8], v: &[u8]| [b"--BND\r\nContent-Disposition: form-data; name=\"", n, b"\"\r\n\r\n", v, b"\r\n"].concat();
    let mut list: Vec<_> = fields().iter().map(|(n, v)| f(n.as_bytes(), v)).collect();
    list.insert(1, f(b"x-amz-meta-m", b"meta"));
    let at = [0, 1, 2, list.len()][choice("position", 4)];
    list.insert(at, f(&name, b"another"));
    let w = [list.concat(), b"--BND\r\nContent-Disposition: form-data; name=\"file\"; filename=\"f\"\r\n\r\ndata\r\n--BND--\r\n".to_vec()].concat();
    let svc = rec(true);
    let x = rq("POST", b"/bkt").h("content-type", FORM).b(&w).send(&svc);
    let Some(c) = calls().first() else { check(x.status >= 400 && x.status < 500, "a form that is not stored is refused"); reach("refused"); return };
    check(x.ok() && c.key == "dir/k" && c.body == b"data", "a form upload goes to the bucket of the URL and the key of the form");
    let mut f = false; for (a, b) in &c.meta { f |= a == "m" && b == "meta" }
    check(f, "a form upload stores exactly the metadata fields of the form");
    reach("stored");
}
/// the headers of the parts in any usual form
#[no_mangle] pub extern "C" fn b_form_headers() {
    let d = sym("file", 2);
    let more: &[&str] = [&[][..], &["Content-Type: text/plain"], &["Content-Transfer-Encoding: binary"], &["content-type: a/b", "Content-Transfer-Encoding: 8bit"], &["X-A: 1", "Content-Type: text/plain; charset=utf-8", "content-length: 4", "X-B:"]][choice("headers", 5)];
    let place = choice("place", 3);
    let name: &[u8] = [&b"Content-Disposition"[..], b"content-disposition", b"CONTENT-DISPOSITION"][choice("spelling", 3)];
    let f = sym("filename", 2);
    for b in &f { assume(((*b >= 0x20) & (*b < 0x7f) & (*b != b'"') & (*b != b'\\'))) }
    let only = choice("which", 2);
    let head = |n: &[u8], disp: Vec<u8>, which: usize| {
        let disp = [n, b": ", &disp[..]].concat();
        let mut l: Vec<Vec<u8>> = if which == only || only == 1 { more.iter().map(|x| x.as_bytes().to_vec()).collect() } else { vec![] };
        let at = [0, l.len() / 2, l.len()][place];
        l.insert(at, disp);
        let mut o = b"--BND\r\n".to_vec();
        for x in l { o.extend(x); o.extend(b"\r\n") }
        o.extend(b"\r\n");
        o
    };
    let mut w = vec![];
    for (n, v) in fields() { w.extend(head(name, format!("form-data; name=\"{}\"", n).into_bytes(), 1)); w.extend(v); w.extend(b"\r\n") }
    w.extend(head(name, [b"form-data; name=\"file\"; filename=\"", &f[..], b"\""].concat(), 0));
    w.extend(&d); w.extend(b"\r\n--BND--\r\n");
    let c = match choice("cut", 3) { 0 => vec![w.clone()], 1 => w.chunks(16).map(|x| x.to_vec()).collect(), _ => { let l = w.len(); cut(&w, &[l / 2, l - 30]) } };
    upload(rec(true), &w, c, &d, &[]);
}
/// field values that contain line ends and look-alikes of the delimiter
#[no_mangle] pub extern "C" fn b_form_lines() {
    let mut f = fields();
    let mut v = [&b""[..], b"\r\n--BN", b"\r\n", b"--BND"][choice("prefix", 4)].to_vec();
    v.extend(sym_from("value", 3, ALPHA));
    let mut e = b"\r\n".to_vec(); e.extend_from_slice(&v); e.extend_from_slice(b"\r\n--BN");
    assume(!find(&e, b"\r\n--BND"));
    f.insert(1, ("x-amz-storage-class", v.clone()));
    let d = sym("file", 1);
    let w = form_of(&f, Some(&d));
    let c = match choice("cut", 3) { 0 => vec![w.clone()], 1 => w.chunks(1).map(|x| x.to_vec()).collect(), _ => { let a = 60 + choice("at", 60); cut(&w, &[a]) } };
    upload(rec(true), &w, c, &d, &[]);
    if let Some(c) = calls().first() { check(c.get("storage-class").map(|x| x.as_bytes()) == Some(&v[..]), "the value of a form field is everything up to the line end before the delimiter") }
}
/// a form that breaks off stores nothing as complete
#[no_mangle] pub extern "C" fn b_form_truncate() {
    let svc = rec(true);
    let f = file_content(choice("content", 4), 2);
    let w = form_of(&fields(), Some(&f));
    let fin = w.len() - b"--\r\n".len();
    let at = choice("at", fin);
    let mut r = rq("POST", b"/bkt").h("content-type", FORM).b(&w[..at]);
    if choice("error", 2) == 1 { r = r.fail() }
    let x = r.send(&svc);
    check(!x.ok(), "a form that ends before its final delimiter is refused");
    for c in calls().iter() { check(c.body_err, "a form that ends before its final delimiter is not stored as complete") }
    reach("refused");
}
fn fs_auth() -> s3_server::S3Service { let mut s = fs(); s.set_auth(auth()); s }
#[allow(unused_imports)] use web as _;
