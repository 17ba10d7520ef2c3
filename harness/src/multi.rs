//! Multipart uploads against the file system storage.
use crate::{fx::*, rt::*, sig, vfs::vfs};
use s3_server::S3Service;

pub fn upload(s: &S3Service, p: &[u8]) -> Vec<u8> { let r = rq("POST", p).q(b"uploads", b"").send(s); check(r.status == 200, "CreateMultipartUpload succeeds"); let v = texts(&r.body, "UploadId"); check(v.len() == 1 && !v[0].is_empty(), "CreateMultipartUpload returns an upload id"); v.into_iter().next().unwrap_or_default() }
fn part(p: &[u8], id: &[u8], n: u64, frags: Vec<Vec<u8>>) -> Rq { rq("PUT", p).q(b"partNumber", n.to_string().as_bytes()).q(b"uploadId", id).frags(frags) }
fn doc(l: &[(u64, Option<Vec<u8>>)]) -> Vec<u8> {
    let mut o = b"<CompleteMultipartUpload>".to_vec();
    for (n, e) in l { o.extend(format!("<Part><PartNumber>{}</PartNumber>", n).bytes()); if let Some(e) = e { o.extend(b"<ETag>"); o.extend(e); o.extend(b"</ETag>") } o.extend(b"</Part>") }
    o.extend(b"</CompleteMultipartUpload>");
    o
}
fn complete(s: &S3Service, p: &[u8], id: &[u8], l: &[(u64, Option<Vec<u8>>)]) -> crate::web::Resp { rq("POST", p).q(b"uploadId", id).b(&doc(l)).send(s) }
fn put_part(s: &S3Service, p: &[u8], id: &[u8], n: u64, d: &[u8]) { let r = part(p, id, n, cut(d, &[d.len() / 2])).send(s); check(r.status == 200 && r.header("etag") == Some(&sig::etag(d)[..]), "UploadPart returns the MD5 of the part as ETag") }
fn get(s: &S3Service, p: &[u8]) -> Option<Vec<u8>> { let g = rq("GET", p).send(s); if g.status == 200 { Some(g.body) } else { None } }
fn listed(s: &S3Service) -> Vec<Vec<u8>> { let l = rq("GET", b"/bkt").send(s); texts(&l.body, "Key") }

const NUMS: [u64; 9] = [1, 2, 3, 9, 10, 11, 99, 100, 10000];
/// the object is the concatenation of the parts in the order of their numbers, whatever the order of upload
#[no_mangle] pub extern "C" fn m_assemble() {
    let s = fs();
    let p: &[u8] = [&b"/bkt/k"[..], b"/bkt/new/dir/k"][choice("key", 2)];
    if choice("old", 2) == 1 { check(rq("PUT", p).h("x-amz-meta-n", b"old").b(b"previous").send(&s).ok(), "PUT accepts an ordinary object") }
    let id = upload(&s, p);
    let a = choice("a", 7); let b = a + 1 + choice("b", 8 - a); let mut nums = vec![NUMS[a], NUMS[b]];
    if b < 8 && choice("three", 2) == 1 { nums.push(NUMS[b + 1 + choice("c", 8 - b)]) }
    let data: Vec<Vec<u8>> = nums.iter().map(|_| sym("data", 2)).collect();
    let mut order: Vec<usize> = (0..nums.len()).collect();
    match choice("order", 3) { 0 => {} 1 => order.reverse(), _ => order.rotate_left(1) }
    for i in &order { put_part(&s, p, &id, nums[*i], &data[*i]) }
    check(!listed(&s).iter().any(|k| k != &p[5..]), "parts are not objects");
    let tags = choice("tags", 3);
    let l: Vec<_> = nums.iter().zip(&data).map(|(n, d)| (*n, match tags { 0 => Some(sig::etag(d)), 1 => { let e = sig::etag(d); Some(e[1..e.len() - 1].to_vec()) } _ => None })).collect();
    let r = complete(&s, p, &id, &l);
    check(r.status == 200, "CompleteMultipartUpload of the uploaded parts succeeds");
    let whole = data.concat();
    let g = rq("GET", p).send(&s);
    check(g.status == 200 && g.body == whole, "the object is the concatenation of its parts in order of their numbers");
    check(texts(&r.body, "ETag") == vec![g.header("etag").unwrap_or(b"").to_vec()], "CompleteMultipartUpload returns the ETag of the object");
    check(texts(&r.body, "Bucket") == [b"bkt".to_vec()] && texts(&r.body, "Key") == [p[5..].to_vec()], "CompleteMultipartUpload names the object");
    check(g.header("x-amz-meta-n").is_none(), "the object does not keep metadata of its predecessor");
    check(vfs().files("/srv/root").len() == 1, "a completed upload leaves nothing behind");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    reach("assembled");
}
/// parts of any size, in any fragmentation
#[no_mangle] pub extern "C" fn m_sizes() {
    let s = fs();
    let p = b"/bkt/k";
    let id = upload(&s, p);
    let z = [0usize, 1, 4096, 8191, 8192, 8193, 20000];
    let a = z[choice("a", 7)]; let b = z[choice("b", 7)];
    let (x, y) = (sym("x", a), sym("y", b));
    let f = match choice("cut", 3) { 0 => cut(&x, &[]), 1 => cut(&x, &[1, 1, 8192]), _ => x.chunks(4000).map(|v| v.to_vec()).collect() };
    check(part(p, &id, 1, f).send(&s).ok(), "UploadPart accepts an ordinary part");
    check(part(p, &id, 2, cut(&y, &[b / 2])).send(&s).ok(), "UploadPart accepts an ordinary part");
    check(complete(&s, p, &id, &[(1, Some(sig::etag(&x))), (2, Some(sig::etag(&y)))]).ok(), "CompleteMultipartUpload of the uploaded parts succeeds");
    let mut w = x; w.extend(&y);
    let g = rq("GET", p).send(&s);
    check(g.body == w && g.header("content-length") == Some(w.len().to_string().as_bytes()) && g.header("etag") == Some(&sig::etag(&w)[..]), "the object is the concatenation of its parts in order of their numbers");
    reach("assembled");
}
/// histories over two uploads of two objects: uploads do not disturb one another, parts may be replaced
#[no_mangle] pub extern "C" fn m_history() { history(4) }
#[no_mangle] pub extern "C" fn m_history6() { history(6) }
fn history(len: usize) {
    let s = fs();
    let keys: [&[u8]; 2] = if choice("same", 2) == 1 { [b"/bkt/k", b"/bkt/k"] } else { [b"/bkt/k", b"/bkt/l"] };
    let ids = [upload(&s, keys[0]), upload(&s, keys[1])];
    check(ids[0] != ids[1], "every upload has an id of its own");
    let d = sym("data", len);
    let mut parts: [[Option<Vec<u8>>; 2]; 2] = Default::default();
    let mut obj: [Option<Vec<u8>>; 2] = Default::default();
    for i in 0..len {
        let k = choice("step", 7); let (u, n) = (k & 1, (k >> 1) & 1);
        if k < 4 { put_part(&s, keys[u], &ids[u], n as u64 * 9 + 1, &d[i..i + 1]); parts[u][n] = Some(vec![d[i], b'0' + u as u8]); let x = part(keys[u], &ids[u], n as u64 * 9 + 1, vec![vec![d[i], b'0' + u as u8]]).send(&s); check(x.ok(), "UploadPart accepts an ordinary part") }
        else if k < 6 {
            let u = k - 4;
            let want: Vec<u8> = parts[u].iter().flatten().flatten().cloned().collect();
            let l: Vec<_> = parts[u].iter().enumerate().filter(|x| x.1.is_some()).map(|x| (x.0 as u64 * 9 + 1, x.1.as_ref().map(|e| sig::etag(e)))).collect();
            let r = complete(&s, keys[u], &ids[u], &l);
            check(r.ok() != l.is_empty(), "CompleteMultipartUpload of the uploaded parts succeeds");
            if r.ok() { let o = if keys[0] == keys[1] { 0 } else { u }; obj[o] = Some(want); parts[u] = Default::default() }
        } else { check(rq("PUT", keys[0]).b(&d[i..i + 1]).send(&s).ok(), "PUT accepts an ordinary object"); obj[0] = Some(d[i..i + 1].to_vec()) }
        for o in 0..2 { if o == 1 && keys[0] == keys[1] { continue } check(get(&s, keys[o]) == obj[o], "an object changes only when an upload of it completes or a PUT replaces it") }
    }
    reach("history");
}
/// completions that must be refused, and that leave the object and the parts
#[no_mangle] pub extern "C" fn m_refuse() {
    let s = fs();
    let p = b"/bkt/k";
    check(rq("PUT", p).h("x-amz-meta-n", b"old").b(b"previous").send(&s).ok(), "PUT accepts an ordinary object");
    let id = upload(&s, p);
    let (x, y) = (sym("x", 2), sym("y", 1));
    put_part(&s, p, &id, 2, &x); put_part(&s, p, &id, 10, &y);
    let (ex, ey) = (Some(sig::etag(&x)), Some(sig::etag(&y)));
    let case = choice("case", 19);
    let mut raw = None;
    let before = vfs().files("/srv/root");
    let (l, want): (Vec<(u64, Option<Vec<u8>>)>, &[u8]) = match case {
        0 => (vec![], b""),
        1 => (vec![(10, ey.clone()), (2, ex.clone())], b"InvalidPartOrder"),
        2 => (vec![(2, ex.clone()), (2, ex.clone())], b"InvalidPartOrder"),
        3 => (vec![(1, None), (2, ex.clone())], b"InvalidPart"),
        4 => (vec![(2, ex.clone()), (11, ey.clone())], b"InvalidPart"),
        5 => { let m = sym("tag", 32); let e = sig::etag(&y); let mut any = false; for (a, b) in m.iter().zip(&e[1..33]) { any |= a != b; assume(within(*a, b'0', b'9') | within(*a, b'a', b'f')) } assume(any); (vec![(2, ex.clone()), (10, Some(m))], b"InvalidPart") }
        6 => (vec![(2, ex.clone()), (10, Some(vec![]))], b"InvalidPart"),
        7 => { assume(!(x.len() == y.len() && x == y)); (vec![(2, ey.clone()), (10, ex.clone())], b"InvalidPart") }
        8 => (vec![(0, ex.clone()), (2, ex.clone())], b""),
        9 => (vec![(10, ey.clone()), (10000, None)], b"InvalidPart"),
        10 => (vec![(2, ex.clone()), (10, Some(b"x".to_vec()))], b"InvalidPart"),
        11 => (vec![(2, ex.clone()), (18446744073709551615, None)], b""),
        12 => (vec![(2, ex.clone()), (9223372036854775807, None)], b""),
        // parts whose number is missing, empty, negative or no number
        n => {
            let good = |n: u64, e: &Option<Vec<u8>>| [b"<Part><PartNumber>".to_vec(), n.to_string().into_bytes(), b"</PartNumber><ETag>".to_vec(), e.clone().unwrap_or_default(), b"</ETag></Part>".to_vec()].concat();
            let mut bad = b"<Part>".to_vec();
            match n { 13 => {} 14 => bad.extend(b"<PartNumber></PartNumber>"), 15 => bad.extend(b"<PartNumber/>"), 16 => bad.extend(b"<PartNumber>-2</PartNumber>"), 17 => { bad.extend(b"<PartNumber>"); let d = sym("digit", 2); assume(d[0] != b'<' && d[0] != b'&' && d[0] != b'+' && d[0] != b'0' && (d[0] < 9 || d[0] > 0x20) && d[0] < 0x80 && d[1] < 0x80 && d[1] >= 0x21 && d[1] != b'<' && d[1] != b'&' && d[1] != b'>' && d[0] != b'>' && !within(d[0], b'1', b'9')); bad.extend(d); bad.extend(b"</PartNumber>") } _ => bad.extend(b"<PartNumber>2.0</PartNumber>") }
            if choice("tag", 2) == 1 { bad.extend(b"<ETag>"); bad.extend(ey.clone().unwrap_or_default()); bad.extend(b"</ETag>") }
            bad.extend(b"</Part>");
            let list = match choice("place", 4) { 0 => bad, 1 => [good(2, &ex), bad].concat(), 2 => [bad, good(10, &ey)].concat(), _ => [good(2, &ex), bad, good(10, &ey)].concat() };
            raw = Some([b"<CompleteMultipartUpload>".to_vec(), list, b"</CompleteMultipartUpload>".to_vec()].concat());
            (vec![], b"")
        }
    };
    let r = if let Some(b) = raw { rq("POST", p).q(b"uploadId", &id).b(&b).send(&s) } else { complete(&s, p, &id, &l) };
    check(r.status >= 400 && r.status < 500, "a list of parts that does not match the upload is refused");
    if !want.is_empty() { check(code(&r) == want, "a list of parts that does not match the upload is refused with S3's code") }
    check(vfs().files("/srv/root") == before, "a refused completion leaves the object and the parts");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    let r = complete(&s, p, &id, &[(2, ex), (10, ey)]);
    check(r.ok() && get(&s, p) == Some([x, y].concat()), "an upload can be completed after a refused attempt");
    reach("refused");
}
/// more parts than fit on a page: none is forgotten
#[no_mangle] pub extern "C" fn m_many() {
    let s = fs();
    let p = b"/bkt/k";
    let id = upload(&s, p);
    let n = 1003;
    let d = sym("data", 1);
    let mut l = vec![]; let mut want = vec![];
    for i in 1..=n {
        let b = if i == 1001 { d.clone() } else { vec![b'a' + (i % 26) as u8] };
        check(part(p, &id, i, vec![b.clone()]).send(&s).ok(), "UploadPart accepts an ordinary part");
        want.extend(b); l.push((i, None));
    }
    check(complete(&s, p, &id, &l).ok(), "CompleteMultipartUpload of the uploaded parts succeeds");
    check(get(&s, p) == Some(want), "the object is the concatenation of its parts in order of their numbers");
    reach("assembled");
}
/// parts far above every buffer
#[no_mangle] pub extern "C" fn m_huge() {
    let s = fs();
    let p = b"/bkt/k";
    let id = upload(&s, p);
    let sizes = [[65536usize, 65537, 1], [3, 1048577, 65535], [131072, 8193, 131073]][choice("sizes", 3)];
    let x = sym("data", 3);
    let mut want = vec![]; let mut l = vec![];
    for (i, n) in sizes.iter().enumerate() {
        let mut d: Vec<u8> = (0..*n).map(|j| (j % 251) as u8 ^ (j >> 12) as u8 ^ i as u8).collect();
        if i == 2 { let l = *n; for k in 0..l.min(3) { d[l - 1 - k] = x[k] } }
        let tag = sig::etag(&d);
        let r = part(p, &id, i as u64 + 1, d.chunks(65536).map(|x| x.to_vec()).collect()).send(&s);
        check(r.ok() && r.header("etag") == Some(&tag[..]), "UploadPart returns the MD5 of the part as ETag");
        l.push((i as u64 + 1, Some(tag))); want.extend(d);
    }
    check(complete(&s, p, &id, &l).ok(), "CompleteMultipartUpload of the uploaded parts succeeds");
    check(get(&s, p) == Some(want), "the object is the concatenation of its parts in order of their numbers");
    reach("assembled");
}
/// upload ids that were never issued name nothing, whatever they contain
#[no_mangle] pub extern "C" fn m_ids() {
    let s = fs();
    let p = b"/bkt/k";
    let real = upload(&s, p);
    put_part(&s, p, &real, 1, b"part");
    let id = match choice("form", 6) { 0 => sym("id", 4), 4 => { let mut v = sym("id", 9); for b in &v { assume(*b < 0x80) } v.truncate(9); v } 5 => { let mut v = b"../".to_vec(); v.extend(sym_from("id", 6, b".part-/1")); v } 1 => { let mut v = b"../".to_vec(); v.extend(sym("id", 2)); v } 2 => { let mut v = real.clone(); v.truncate(35); v.extend(sym("id", 1)); assume(v != real && !v[35].is_ascii_hexdigit()); v } _ => { let mut v = real.clone(); v[8] = sym("id", 1)[0]; assume(v[8] != b'-'); v } };
    assume(std::str::from_utf8(&id).is_ok());
    let before = vfs().files("/srv/root");
    let r = if choice("op", 2) == 0 { part(p, &id, 1, vec![b"data".to_vec()]).send(&s) } else { complete(&s, p, &id, &[(1, None)]) };
    check(r.status >= 400 && r.status < 500, "an upload id that was never issued is refused");
    check(vfs().files("/srv/root") == before, "an upload id that was never issued names nothing");
    reach("refused");
}
