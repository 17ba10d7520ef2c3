//! Listings, deletions, buckets, isolation, confinement.
use crate::{fx::*, multi, rt::*, vfs::{vfs, Op}, web};
use s3_server::S3Service;

fn put(s: &S3Service, p: &[u8], d: &[u8]) { check(rq("PUT", p).b(d).send(s).status == 200, "PUT accepts an ordinary object") }
fn sorted(mut v: Vec<Vec<u8>>) -> Vec<Vec<u8>> { v.sort(); v }
/// sends a listing with both versions of the operation and returns the listed keys with their sizes
pub fn list(s: &S3Service, bucket: &[u8], prefix: Option<&[u8]>, v2: bool) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut p = b"/".to_vec(); p.extend_from_slice(bucket);
    let mut r = rq("GET", &p);
    if v2 { r = r.q(b"list-type", b"2") }
    if let Some(x) = prefix { r = r.q(b"prefix", x) }
    let x = r.send(s);
    check(x.status == 200, "listing an existing bucket succeeds");
    let (k, z) = (texts(&x.body, "Key"), texts(&x.body, "Size"));
    check(k.len() == z.len(), "every listed object has a size");
    check(texts(&x.body, "Name") == [bucket.to_vec()], "a listing names its bucket");
    if v2 { check(texts(&x.body, "KeyCount") == [k.len().to_string().into_bytes()], "KeyCount is the number of keys") }
    for t in texts(&x.body, "IsTruncated") { check(t == b"false", "a complete listing is not truncated") }
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    k.into_iter().zip(z).collect()
}
const KEYS: [&[u8]; 8] = [b"a", b"ab", b"a/b", b"a-b", b"b/c/d", b"b/c0", b"z&<>\"'", "ü/é".as_bytes()];
/// every set of keys: exactly its members are listed, in order, with their sizes
#[no_mangle] pub extern "C" fn l_sets() {
    let s = fs();
    vfs().reverse = choice("order", 2) == 1;
    let mut want = vec![];
    for (i, k) in KEYS.iter().enumerate() {
        if i == 2 && want.iter().any(|x: &(Vec<u8>, Vec<u8>)| x.0 == b"a") { continue }
        if choice("present", 2) == 0 { continue }
        let mut p = b"/bkt/".to_vec(); p.extend_from_slice(k);
        put(&s, &p, &b"123456789"[..i]);
        want.push((k.to_vec(), i.to_string().into_bytes()));
    }
    put(&s, b"/other/ab", b"x");
    want.sort();
    check(list(&s, b"bkt", None, choice("v2", 2) == 1) == want, "a listing shows exactly the stored objects in order");
    reach("listed");
}
/// symbolic keys and prefixes
#[no_mangle] pub extern "C" fn l_prefix() {
    let s = fs();
    let v2 = choice("v2", 2) == 1;
    let mut k = sym("key", 2);
    let dir = choice("dir", 2) == 1;
    if dir { k.push(b'/'); k.push(b'x') }
    assume(std::str::from_utf8(&k).is_ok());
    for seg in k.split(|b| *b == b'/') { assume(!(seg.is_empty() || seg == b"." || seg == b".." || seg.contains(&0))) }
    for b in &k { assume(*b >= 0x20) } // no control characters in XML
    assume(k != b"mm" && !k.starts_with(b"mm/") && !k.starts_with(b"m/"));
    let mut p = b"/bkt/".to_vec(); p.extend(&k);
    put(&s, &p, b"1"); put(&s, b"/bkt/mm", b"22"); put(&s, b"/bkt/m/m", b"333");
    let all = { let mut v = vec![(k.clone(), b"1".to_vec()), (b"mm".to_vec(), b"2".to_vec()), (b"m/m".to_vec(), b"3".to_vec())]; v.sort(); v };
    let pre = match choice("prefix", 4) { 0 => sym("prefix", 1), 1 => k[..2].to_vec(), 2 => { let mut v = k.clone(); v.extend(sym("prefix", 1)); v } _ => b"m".to_vec() };
    assume(std::str::from_utf8(&pre).is_ok());
    for b in &pre { assume(*b >= 0x20) }
    let want: Vec<_> = all.iter().filter(|x| x.0.starts_with(&pre)).cloned().collect();
    check(list(&s, b"bkt", Some(&pre), v2) == want, "a listing with a prefix shows exactly the objects whose keys start with it");
    reach("listed");
}
/// listings follow every history of operations
#[no_mangle] pub extern "C" fn l_history() { history(4) }
#[no_mangle] pub extern "C" fn l_history5() { history(5) }
fn history(len: usize) {
    let s = fs();
    let keys: [&[u8]; 3] = [b"d/x", b"d/y", b"e"];
    let mut has = [false; 3];
    let p = |i: usize| { let mut p = b"/bkt/".to_vec(); p.extend_from_slice(keys[i]); p };
    for _ in 0..len {
        match choice("step", 8) {
            i @ 0..=2 => { put(&s, &p(i), b"v"); has[i] = true }
            i @ 3..=4 => { check(rq("DELETE", &p(i - 3)).send(&s).ok(), "DELETE succeeds whether or not the object exists"); has[i - 3] = false }
            5 => { let r = rq("PUT", &p(2)).h("x-amz-copy-source", b"bkt/d/x").send(&s); check(r.ok() == has[0], "CopyObject succeeds when its source exists"); has[2] |= has[0] }
            6 => { let r = rq("POST", b"/bkt").q(b"delete", b"").b(b"<Delete><Object><Key>d/y</Key></Object><Object><Key>e</Key></Object><Object><Key>no</Key></Object></Delete>").send(&s); check(r.ok() && texts(&r.body, "Key") == [b"d/y".to_vec(), b"e".to_vec(), b"no".to_vec()], "DeleteObjects reports every listed key as deleted"); has[1] = false; has[2] = false }
            _ => { let id = multi::upload(&s, &p(0)); check(rq("PUT", &p(0)).q(b"partNumber", b"1").q(b"uploadId", &id).b(b"v").send(&s).ok(), "UploadPart accepts an ordinary part"); if choice("complete", 2) == 1 { check(rq("POST", &p(0)).q(b"uploadId", &id).b(b"<CompleteMultipartUpload><Part><PartNumber>1</PartNumber></Part></CompleteMultipartUpload>").send(&s).ok(), "CompleteMultipartUpload succeeds"); has[0] = true } }
        }
    }
    let want: Vec<_> = (0..3).filter(|i| has[*i]).map(|i| (keys[i].to_vec(), b"1".to_vec())).collect();
    check(list(&s, b"bkt", None, false) == want && list(&s, b"bkt", None, true) == want, "a listing shows exactly the stored objects in order");
    for i in 0..3 { check((rq("GET", &p(i)).send(&s).status == 200) == has[i] && (rq("HEAD", &p(i)).send(&s).status == 200) == has[i], "GET and HEAD find exactly the listed objects") }
    check(list(&s, b"other", None, false).is_empty(), "operations on one bucket leave the others as they were");
    reach("history");
}
// ---- deletions --------------------------------------------------------------------------------
/// deleting any key removes that object and nothing else
#[no_mangle] pub extern "C" fn l_delete_key() {
    let s = fs();
    for k in [&b"/bkt/a"[..], b"/bkt/b/c", b"/bkt/b/d", b"/bkt/e/f/g", b"/other/a"] { check(rq("PUT", k).h("x-amz-meta-n", b"v").b(b"kept").send(&s).ok(), "PUT accepts an ordinary object") }
    check(rq("PUT", b"/bkt/empty/").h("content-length", b"0").send(&s).ok(), "PUT accepts a directory object");
    let k = match choice("form", 5) { 0 => sym("key", 2), 1 => { let mut v = b"b".to_vec(); v.extend(sym("key", 2)); v } 2 => { let mut v = b"e/f".to_vec(); v.extend(sym("key", 2)); v } 3 => { let mut v = sym("key", 2); v.extend(b"/a"); v } _ => sym("key", 1) };
    assume(std::str::from_utf8(&k).is_ok());
    assume(!k.is_empty());
    let before = vfs().files("/srv/root");
    let multi = choice("multi", 2) == 1;
    let mut p = b"/bkt/".to_vec(); p.extend(&k);
    let r = if multi { let mut b = b"<Delete><Object><Key>".to_vec(); let mut plain = true; for c in &k { plain &= (*c >= 0x20) & (*c != b'<') & (*c != b'&') & (*c != b' ') } assume(plain); b.extend(&k); b.extend(b"</Key></Object></Delete>"); rq("POST", b"/bkt").q(b"delete", b"").b(&b).send(&s) } else { rq("DELETE", &p).send(&s) };
    let mut bad = false;
    let name = k.strip_suffix(b"/").unwrap_or(&k);
    for seg in name.split(|b| *b == b'/') { bad |= seg.is_empty() || seg == b"." || seg == b".." || seg.contains(&0) }
    check(r.ok() || bad, "DELETE succeeds whether or not the object exists");
    let after = vfs().files("/srv/root/bkt");
    let was: Vec<_> = vec![b"a".to_vec(), b"b/c".to_vec(), b"b/d".to_vec(), b"e/f/g".to_vec()];
    let want: Vec<_> = was.iter().filter(|x| **x != k).cloned().collect();
    check(sorted(after.iter().map(|x| x.0.clone()).collect()) == want, "a deletion removes exactly the named object");
    check(vfs().files("/srv/root/other").len() == 1, "operations on one bucket leave the others as they were");
    check(vfs().files("/srv/root").len() == before.len() - 2 * (was.len() - want.len()), "a deletion removes exactly the named object and its metadata");
    if !bad && !k.ends_with(b"/") { check(rq("GET", &p).send(&s).status == 404, "a deleted object is gone"); reach("deleted") } else { reach("refused") }
    for w in &want { let mut p = b"/bkt/".to_vec(); p.extend(w); let g = rq("GET", &p).send(&s); check(g.body == b"kept" && g.header("x-amz-meta-n") == Some(b"v"), "other objects stay as they were") }
    check(rq("HEAD", b"/bkt/empty/").send(&s).ok(), "other objects stay as they were");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
}
/// DeleteObjects with every selection of present, absent and repeated keys
#[no_mangle] pub extern "C" fn l_delete_many() {
    let s = fs();
    let keys: [&[u8]; 4] = [b"a", b"d/b", b"d/c", b"z&"];
    for k in keys { let mut p = b"/bkt/".to_vec(); p.extend_from_slice(k); put(&s, &p, b"v") }
    put(&s, b"/other/a", b"v");
    let n = choice("count", 4);
    let mut b = b"<Delete>".to_vec(); let mut gone = [false; 4]; let mut named = vec![];
    let version: &[u8] = [&b""[..], b"<VersionId>null</VersionId>", b"<VersionId></VersionId>"][choice("version", if n < 3 { 3 } else { 1 })];
    let quiet = choice("quiet", if n < 3 { 3 } else { 1 });
    if quiet > 0 { b.extend(if quiet == 1 { &b"<Quiet>true</Quiet>"[..] } else { b"<Quiet>false</Quiet>" }) }
    for _ in 0..n { let i = choice("key", 7); let (x, y): (&[u8], &[u8]) = if i < 4 { gone[i] = true; (keys[i], if i == 3 { b"z&amp;" } else { keys[i] }) } else { [(&b"no"[..], &b"no"[..]), (b"d", b"d"), (b"a/x", b"a/x")][i - 4] }; b.extend(b"<Object><Key>"); b.extend(y); b.extend(b"</Key>"); b.extend(version); b.extend(b"</Object>"); named.push(x.to_vec()) }
    b.extend(b"</Delete>");
    let r = rq("POST", b"/bkt").q(b"delete", b"").b(&b).send(&s);
    if n == 0 { check(r.status < 500, "an empty DeleteObjects is answered"); } else { check(r.ok(), "DeleteObjects succeeds"); check(quiet == 1 || texts(&r.body, "Key") == named, "DeleteObjects reports every listed key as deleted"); }
    let want: Vec<_> = (0..4).filter(|i| !gone[*i]).map(|i| (keys[i].to_vec(), b"1".to_vec())).collect();
    check(list(&s, b"bkt", None, false) == want, "DeleteObjects removes exactly the named objects");
    check(list(&s, b"other", None, false).len() == 1, "operations on one bucket leave the others as they were");
    reach("deleted");
}
/// deleting the last object of a directory or bucket leaves the objects and buckets around it
#[no_mangle] pub extern "C" fn l_delete_last() {
    let s = fs();
    let keys: [&[u8]; 6] = [b"k", b"d/", b"d/k", b"d/e/", b"d/e/k", b"d/e/l"];
    let path = |k: &[u8]| [b"/bkt/", k].concat();
    let put_any = |k: &[u8]| check(if k.ends_with(b"/") { rq("PUT", &path(k)).h("content-length", b"0").send(&s) } else { rq("PUT", &path(k)).b(b"v").send(&s) }.ok(), "PUT accepts an ordinary object");
    let mut has = [false; 6];
    // directories made by their own objects come first
    for i in [1, 3, 0, 2, 4, 5] { if choice("stored", 2) == 1 { put_any(keys[i]); has[i] = true } }
    let n = choice("more", 2);
    for _ in 0..1 + n {
        let i = choice("deleted", 6);
        let r = if n == 1 || choice("multi", 2) == 0 { rq("DELETE", &path(keys[i])).send(&s) } else { rq("POST", b"/bkt").q(b"delete", b"").b(&[b"<Delete><Object><Key>", keys[i], b"</Key></Object></Delete>"].concat()).send(&s) };
        check(r.ok(), "DELETE succeeds whether or not the object exists");
        if !keys[i].ends_with(b"/") || !(0..6).any(|j| j != i && has[j] && keys[j].starts_with(keys[i])) { has[i] = false }
    }
    check(rq("HEAD", b"/bkt").send(&s).ok(), "a bucket stays when its objects are deleted");
    for i in [0, 2, 4, 5] { check(rq("GET", &path(keys[i])).send(&s).status == if has[i] { 200 } else { 404 }, "a deletion removes exactly the named object") }
    for i in [1, 3] { if has[i] { check(rq("HEAD", &path(keys[i])).send(&s).ok(), "other objects stay as they were") } }
    check(list(&s, b"bkt", None, false).iter().map(|x| x.0.clone()).filter(|k| !k.ends_with(b"/")).collect::<Vec<_>>() == sorted([0, 2, 4, 5].iter().filter(|i| has[**i]).map(|i| keys[*i].to_vec()).collect()), "a deletion removes exactly the named object");
    put(&s, b"/bkt/d/new", b"v");
    check(rq("GET", b"/bkt/d/new").send(&s).body == b"v", "GET returns the stored bytes");
    reach("deleted");
}
// ---- buckets ----------------------------------------------------------------------------------
fn buckets(s: &S3Service) -> Vec<Vec<u8>> { let r = rq("GET", b"/").send(s); check(r.status == 200, "ListBuckets succeeds"); sorted(texts(&r.body, "Name")) }
/// histories of bucket operations over two names
#[no_mangle] pub extern "C" fn l_buckets() { bucket_history(4) }
#[no_mangle] pub extern "C" fn l_buckets5() { bucket_history(5) }
fn bucket_history(len: usize) {
    vfs().mkdirs("/srv/root"); vfs().put("/srv/root", b"plainfile", b"not a bucket"); vfs().mkdirs("/srv/root/.hidden");
    let s = { let _ = fs(); let s = fs(); check(rq("DELETE", b"/other").send(&s).ok() && rq("DELETE", b"/bkt").send(&s).ok(), "DeleteBucket of an empty bucket succeeds"); s };
    let names: [&[u8]; 2] = [b"/aaa", b"/bbb"];
    let mut ex = [false; 2]; let mut full = [false; 2];
    for _ in 0..len {
        let k = choice("step", 9);
        if k == 8 { let r = rq("PUT", b"/bbb/k").h("x-amz-copy-source", b"aaa/d/k").send(&s); check(r.ok() == (ex[0] && ex[1] && full[0]), "CopyObject succeeds when its source and its bucket exist"); if r.ok() { check(rq("DELETE", b"/bbb/k").send(&s).ok(), "DELETE succeeds whether or not the object exists") } continue }
        let i = k & 1;
        let mut o = names[i].to_vec(); o.extend(b"/d/k");
        match k >> 1 {
            0 => { let r = rq("PUT", names[i]).send(&s); check(r.ok() != ex[i], "CreateBucket succeeds unless the bucket exists"); if ex[i] { check(r.status == 409 && (code(&r) == b"BucketAlreadyExists" || code(&r) == b"BucketAlreadyOwnedByYou"), "creating a bucket twice is a conflict") } ex[i] = true }
            1 => { let r = rq("DELETE", names[i]).send(&s); check(r.ok() == (ex[i] && !full[i]), "DeleteBucket succeeds exactly for an empty bucket"); if !ex[i] { check(r.status == 404 && code(&r) == b"NoSuchBucket", "a missing bucket is reported as NoSuchBucket") } else if full[i] { check(r.status == 409 && code(&r) == b"BucketNotEmpty", "a bucket with objects is reported as BucketNotEmpty") } else { ex[i] = false } }
            2 => { let r = rq("PUT", &o).b(b"v").send(&s); check(r.ok() == ex[i], "PUT succeeds exactly in an existing bucket"); if !ex[i] { check(r.status == 404 && code(&r) == b"NoSuchBucket", "a missing bucket is reported as NoSuchBucket") } full[i] |= r.ok() }
            _ => { let r = rq("DELETE", &o).send(&s); check(r.ok() == ex[i], "DELETE succeeds exactly in an existing bucket"); if !ex[i] { check(r.status == 404 && code(&r) == b"NoSuchBucket", "a missing bucket is reported as NoSuchBucket") } full[i] = false }
        }
    }
    let want: Vec<_> = (0..2).filter(|i| ex[*i]).map(|i| names[i][1..].to_vec()).collect();
    check(buckets(&s) == want, "ListBuckets shows exactly the existing buckets");
    for i in 0..2 {
        let h = rq("HEAD", names[i]).send(&s);
        check(h.status == if ex[i] { 200 } else { 404 }, "HeadBucket finds exactly the existing buckets");
        let l = rq("GET", names[i]).q(b"location", b"").send(&s);
        check(l.status == if ex[i] { 200 } else { 404 }, "GetBucketLocation finds exactly the existing buckets");
        let mut o = names[i].to_vec(); o.extend(b"/d/k");
        let g = rq("GET", &o).send(&s);
        check((g.status == 200) == full[i] && (full[i] || g.status == 404), "a bucket has exactly the objects stored in it");
    }
    check(vfs().file("/srv/root/plainfile").map(|x| &x[..]) == Some(b"not a bucket") && vfs().is_dir("/srv/root/.hidden"), "bucket operations touch nothing but buckets");
    reach("history");
}
/// a bucket with one object of any name is not empty
#[no_mangle] pub extern "C" fn l_bucket_full() {
    let s = fs();
    let k = match choice("key", 7) { 0 => sym("name", 2), 1 => [&b"."[..], &sym("name", 1)].concat(), 2 => [&b"d/."[..], &sym("name", 1)].concat(), 3 => b"d/".to_vec(), 4 => b"a/b/c/d/e".to_vec(), 5 => b".d/.tmp-x".to_vec(), _ => b".bucket-YQ.object-YQ.metadata.json".to_vec() };
    for x in &k { assume((*x != b'%') & (*x < 0x80) & (*x != 0)) }
    let o = [b"/bkt/", &k[..]].concat();
    let n = choice("content", 2);
    if !rq("PUT", &o).h("content-length", if n == 0 || k.ends_with(b"/") { b"0" } else { b"1" }).b(if n == 0 || k.ends_with(b"/") { b"" } else { b"v" }).send(&s).ok() { end("refused") }
    let before = vfs().files("/srv/root");
    let r = rq("DELETE", b"/bkt").send(&s);
    if k.ends_with(b"/") { if r.ok() { check(rq("HEAD", b"/bkt").send(&s).status == 404, "HeadBucket finds exactly the existing buckets"); reach("emptied"); return } }
    check(r.status == 409 && code(&r) == b"BucketNotEmpty", "DeleteBucket succeeds exactly for an empty bucket");
    check(vfs().files("/srv/root") == before, "a refused deletion leaves everything as it was");
    check(rq("GET", &o).send(&s).status == 200, "a refused deletion leaves everything as it was");
    check(rq("DELETE", &o).send(&s).ok(), "DELETE succeeds whether or not the object exists");
    check(rq("DELETE", b"/bkt").send(&s).ok(), "DeleteBucket succeeds exactly for an empty bucket");
    check(buckets(&s) == [b"other".to_vec()] && vfs().lookup("/srv/root/bkt").is_none(), "ListBuckets shows exactly the existing buckets");
    reach("full");
}
/// a bucket of any valid name, from its creation to its deletion
#[no_mangle] pub extern "C" fn l_bucket_names() {
    let s = fs();
    let lower = |n: &str, k: usize| { let v = sym(n, k); for c in &v { assume(within(*c, b'a', b'z')) } v };
    let form = choice("form", 8);
    let name = match form {
        0 => { let v = sym("name", 3); assume(bucket_name(&v) && v[2] != b'.' && v[2] != b'-'); v }
        1 => lower("name", 3 + choice("length", 10)),
        2 => { let mut v = lower("name", 6); v.extend([&b"."[..], b"-", b"0"][choice("mark", 3)]); v.extend(lower("more", 3)); v }
        3 => { let mut v = lower("name", 2); v.extend([b".", b"-"][choice("mark", 2)]); v.extend(lower("more", 6)); v }
        4 => { let mut v = sym("name", 5); for c in &v { assume(within(*c, b'0', b'9')) } v.extend(lower("more", 1)); v }
        5 => { let mut v = vec![b'l'; 62]; v.extend(lower("name", 1)); v }
        6 => { let mut v = lower("name", 1); v.extend([&b"--"[..], b".-", b"-.", b".."][choice("marks", 4)]); v.extend(lower("more", 1)); assume(!v.starts_with(b"xn--")); v }
        _ => { let mut v = lower("name", 1); v.extend(vec![b'9'; 20]); v }
    };
    if &name[..] == b"bkt" || &name[..] == b"other" { end("known") }
    let path = [b"/", &name[..]].concat(); let key = [&path[..], b"/k"].concat();
    let all = |with: bool| { let mut v = vec![b"bkt".to_vec(), b"other".to_vec()]; if with { v.push(name.clone()) } sorted(v) };
    check(rq("PUT", &path).send(&s).ok(), "CreateBucket succeeds unless the bucket exists");
    check(buckets(&s) == all(true), "ListBuckets shows exactly the existing buckets");
    check(rq("HEAD", &path).send(&s).status == 200, "HeadBucket finds exactly the existing buckets");
    check(rq("PUT", &path).send(&s).status == 409, "creating a bucket twice is a conflict");
    if form > 4 {
    check(rq("PUT", &key).b(b"v").send(&s).ok() && rq("GET", &key).send(&s).body == b"v", "PUT succeeds exactly in an existing bucket");
    check(list(&s, &name, None, false) == [(b"k".to_vec(), b"1".to_vec())], "a bucket has exactly the objects stored in it");
    check(rq("DELETE", &path).send(&s).status == 409, "DeleteBucket succeeds exactly for an empty bucket");
    check(rq("DELETE", &key).send(&s).ok(), "DELETE succeeds whether or not the object exists");
    }
    check(rq("DELETE", &path).send(&s).ok(), "DeleteBucket succeeds exactly for an empty bucket");
    check(rq("HEAD", &path).send(&s).status == 404, "HeadBucket finds exactly the existing buckets");
    check(buckets(&s) == all(false), "ListBuckets shows exactly the existing buckets");
    reach("lived");
}
/// more objects and buckets than fit on a page: none is forgotten
#[no_mangle] pub extern "C" fn l_many() {
    let s = fs();
    let layout = choice("layout", 3);
    let n = [1003, 300, 100][layout];
    // all in one directory, each in one of its own, or each one level deeper than the last
    let name = |i: usize| match layout { 0 => format!("{:04}", i), 1 => format!("{:04}/k", i), _ => format!("{}{:04}", "d/".repeat(i), i) }.into_bytes();
    if layout > 0 || choice("what", 2) == 0 {
        for i in 0..n { let p = [b"/srv/root/bkt/", &name(i)[..]].concat(); let e = p.iter().rposition(|b| *b == b'/').unwrap_or(0); let d = String::from_utf8(p[..e].to_vec()).unwrap(); vfs().mkdirs(&d); vfs().put(&d, &p[e + 1..], b"v") }
        let v2 = choice("v2", 2) == 1;
        check(list(&s, b"bkt", None, v2) == (0..n).map(|i| (name(i), b"1".to_vec())).collect::<Vec<_>>(), "a listing shows exactly the stored objects");
        let mut b = b"<Delete>".to_vec();
        for i in 0..n - 1 { b.extend(b"<Object><Key>"); b.extend(name(i)); b.extend(b"</Key></Object>") }
        b.extend(b"</Delete>");
        let r = rq("POST", b"/bkt").q(b"delete", b"").b(&b).send(&s);
        let left = list(&s, b"bkt", None, false);
        check(if r.ok() { left == [(name(n - 1), b"1".to_vec())] && texts(&r.body, "Key").len() == n - 1 } else { left.len() == n }, "DeleteObjects removes exactly the named objects");
    } else {
        for i in 0..n { vfs().mkdirs(&format!("/srv/root/b{:04}", i)); }
        check(buckets(&s).len() == n + 2, "ListBuckets shows exactly the existing buckets");
    }
    reach("many");
}
/// every operation on a bucket that does not exist
#[no_mangle] pub extern "C" fn l_missing_bucket() {
    let s = fs();
    vfs().put("/srv/root", b"plainfile", b"not a bucket");
    let before = vfs().files("/srv/root");
    let mut i = 2 + choice("op", NOPS - 2);
    if i == 15 && choice("post", 2) == 1 { i = 16 }
    let mut r = if i == 16 { rq("PUT", b"/bkt/dir/k").h("x-amz-copy-source", b"other/none") } else { op(i).1 };
    let p = [&b"gone"[..], b"bkt2", b"bk.t", b"plainfile"][choice("bucket", 4)];
    let mut path = b"/".to_vec(); path.extend_from_slice(p); path.extend_from_slice(&r.path[4..]);
    r.path = path;
    let x = r.send(&s);
    check(x.status == 404, "an operation on a missing bucket is refused with 404");
    if i != 2 && i != 10 { check(code(&x) == b"NoSuchBucket" || i == 9 || i == 12 || i == 16, "a missing bucket is reported as NoSuchBucket"); check(code(&x) == b"NoSuchBucket" || code(&x) == b"NoSuchKey", "a missing bucket is reported as NoSuchBucket") }
    check(vfs().files("/srv/root") == before && vfs().lookup(&format!("/srv/root/{}", std::str::from_utf8(p).unwrap())).is_none() == (p != b"plainfile"), "an operation on a missing bucket changes nothing");
    reach("refused");
}
// ---- isolation --------------------------------------------------------------------------------
/// two different keys never share anything
#[no_mangle] pub extern "C" fn l_isolation() {
    let s = fs();
    let f = choice("form", 4);
    let (mut a, mut b) = match f { 0 => (sym("a", 2), sym("b", 2)), 1 => (b"k".to_vec(), sym("b", 2)), 2 => { let mut v = b"d/".to_vec(); v.extend(sym("a", 1)); (v, { let mut v = b"d".to_vec(); v.extend(sym("b", 2)); v }) } _ => { let x = sym("a", 1); (x.clone(), [x, sym("b", 1)].concat()) } };
    let set = b"a/.%B";
    if f == 0 || f == 3 { for v in [&mut a, &mut b] { for x in v.iter() { let mut ok = false; for c in set { ok |= x == c } assume(ok) } } }
    assume(a != b && std::str::from_utf8(&a).is_ok() && std::str::from_utf8(&b).is_ok());
    let bb: &[u8] = if choice("bucket", 2) == 0 { b"/bkt/" } else { b"/other/" };
    let p = [b"/bkt/".to_vec(), a].concat(); let q = [bb.to_vec(), b].concat();
    let v = sym("v", 1); assume(within(v[0], 0x21, 0x7e));
    if !rq("PUT", &p).h("x-amz-meta-n", &v).b(b"first").send(&s).ok() { end("refused") }
    let step = choice("step", if f == 1 { 2 } else { 5 });
    let r = match step {
        0 => rq("PUT", &q).h("x-amz-meta-n", b"other").b(b"second").send(&s),
        1 => rq("DELETE", &q).send(&s),
        2 => { put(&s, b"/other/zzz/src", b"second"); rq("PUT", &q).h("x-amz-copy-source", b"other/zzz/src").send(&s) }
        3 => rq("PUT", &q).b(b"second").send(&s),
        _ => rq("GET", &q).send(&s),
    };
    let g = rq("GET", &p).send(&s);
    check(g.status == 200 && g.body == b"first" && g.header("x-amz-meta-n") == Some(&v[..]), "an operation on one key leaves every other key as it was");
    if step == 4 { check(!r.ok(), "a key that was never stored is not found"); reach("read"); return }
    if r.ok() && step != 1 { let g = rq("GET", &q).send(&s); check(g.status == 200 && g.body == b"second", "GET returns the stored bytes"); check(g.header("x-amz-meta-n") == if step == 0 { Some(b"other") } else { None }, "objects share no metadata"); reach("two") }
    if step == 1 { reach("deleted") }
}
// ---- confinement ------------------------------------------------------------------------------
const SYSTEM: &[&[u8]] = &[b"/proc/self/cgroup", b"/etc/localtime", b"/etc/timezone", b"/etc/config/system", b"/etc/TZ", b"/var/db/timezone"];
fn within_root(allowed: &[&[u8]]) {
    for (o, p) in &vfs().log {
        // std counts the processors, chrono looks for the time zone
        if matches!(o, Op::Stat | Op::OpenRead | Op::ReadDir) && (SYSTEM.contains(&&p[..]) || p.starts_with(b"/sys/fs/cgroup/") || p.starts_with(b"/usr/share/zoneinfo/")) { continue }
        let ok = p == b"/srv/root" && matches!(o, Op::Stat | Op::OpenRead | Op::ReadDir) || p.strip_prefix(b"/srv/root/").map_or(false, |r| {
            let mut segs = r.split(|b| *b == b'/');
            let first = segs.next().unwrap_or(b"");
            let rest: Vec<&[u8]> = segs.collect();
            let clean = !rest.iter().any(|x| *x == b".." || *x == b".") && first != b".." && first != b".";
            let own = first.starts_with(b".") && rest.is_empty();
            clean && (own || allowed.contains(&first))
        });
        if !ok && !symbolic() { print(&format!("{:?} {}", o, String::from_utf8_lossy(p))) }
        check(ok, "the storage touches nothing outside the named buckets and its own files");
    }
}
/// whatever key, copy source, upload id, part number or deleted key a request names
#[no_mangle] pub extern "C" fn l_confined() {
    vfs().put("/srv", b"secret", b"outside"); vfs().put("/srv/root/third", b"o", b"other bucket"); vfs().put("/etc", b"passwd", b"outside");
    let s = fs();
    put(&s, b"/bkt/k", b"v");
    let before_srv = vfs().files("/srv/root/third"); let out = vfs().file("/srv/secret").cloned();
    vfs().log.clear();
    let t = |n: usize| sym_from("name", n, b"/.ab\\%\x01");
    let name = match choice("form", 6) { 0 => t(4), 1 => { let mut v = b"../".to_vec(); v.extend(t(3)); v } 2 => { let mut v = b"k/..".to_vec(); v.extend(t(3)); v } 3 => { let mut v = b"../../".to_vec(); v.extend(sym("name", 1)); v.extend(b"secret"); v } 4 => { let mut v = b"a".to_vec(); v.extend(sym("name", 2)); v.extend(b"../../third/o"); v } _ => { let mut v = b"..".to_vec(); v.extend(sym("name", 1)); v.extend(b"..".to_vec()); v.extend(sym("name", 1)); v.extend(b"etc/passwd"); v } };
    assume(std::str::from_utf8(&name).is_ok());
    let p = [b"/bkt/".to_vec(), name.clone()].concat();
    let xml = |tag: &str| { let mut plain = true; for c in &name { plain &= (*c >= 0x20) & (*c != b'<') & (*c != b'&') } assume(plain); let mut b = tag.as_bytes().to_vec(); b.extend(&name); b };
    let r = match choice("op", 11) {
        0 => rq("GET", &p).send(&s), 1 => rq("HEAD", &p).send(&s), 2 => rq("PUT", &p).b(b"x").h("x-amz-meta-n", b"v").send(&s), 3 => rq("DELETE", &p).send(&s),
        4 => rq("PUT", b"/other/c").h("x-amz-copy-source", &{ let mut h = vec![]; enc(&mut h, &p[1..], false); h }).send(&s),
        5 => rq("PUT", &p).h("x-amz-copy-source", b"bkt/k").send(&s),
        6 => { let mut b = xml("<Delete><Object><Key>"); b.extend(b"</Key></Object></Delete>"); rq("POST", b"/bkt").q(b"delete", b"").b(&b).send(&s) }
        7 => rq("PUT", b"/bkt/k").q(b"partNumber", b"1").q(b"uploadId", &name).b(b"x").send(&s),
        8 => rq("POST", b"/bkt/k").q(b"uploadId", &name).b(b"<CompleteMultipartUpload><Part><PartNumber>1</PartNumber></Part></CompleteMultipartUpload>").send(&s),
        9 => rq("GET", b"/bkt").q(b"prefix", &name).send(&s),
        _ => rq("PUT", &p).h("content-length", b"0").send(&s),
    };
    within_root(&[b"bkt", b"other"]);
    check(vfs().files("/srv/root/third") == before_srv && vfs().file("/srv/secret").cloned() == out, "files outside the named buckets stay as they were");
    check(!contains(&r.body, b"outside") && !contains(&r.body, b"other bucket"), "files outside the named buckets are never read");
    if r.ok() { reach("done") } else { reach("refused") }
}
fn contains(h: &[u8], n: &[u8]) -> bool { h.windows(n.len()).any(|w| w == n) }
/// S3's rules for the names of buckets, as far as they matter here
fn bucket_name(b: &[u8]) -> bool {
    let mut ok = (3..64).contains(&b.len());
    for c in b { ok &= within(*c, b'a', b'z') | within(*c, b'0', b'9') | (*c == b'.') | (*c == b'-') }
    ok && b[0] != b'.' && b[0] != b'-'
}
/// whatever bucket a path names
#[no_mangle] pub extern "C" fn l_confined_bucket() {
    vfs().put("/srv", b"secret", b"outside"); vfs().put("/srv/root/.internal", b"o", b"internal data");
    let s = fs();
    put(&s, b"/bkt/k", b"v");
    let f0 = vfs().files("/srv");
    vfs().log.clear();
    let op = choice("op", 6);
    let sym = |n: &str, k: usize| if op == 4 { sym_from(n, k, b"/.a%") } else { sym(n, k) };
    let b = match choice("form", 5) { 3 => b".internal".to_vec(), 4 => { let mut v = sym("bucket", 1 + choice("more", 2)); v.extend(b"/srv/root/.internal"); v } 0 => sym("bucket", 3), 1 => { let mut v = sym("bucket", 2); v.extend(b".internal"); v } _ => { let mut v = b"..".to_vec(); v.extend(sym("bucket", 2)); v } };
    assume(std::str::from_utf8(&b).is_ok() && b != b"bkt");
    let sub: &[u8] = [&b""[..], b"/", b"/k", b"/secret", b"/../secret", b"/o"][choice("sub", 6)];
    let p = [b"/".to_vec(), b.clone(), sub.to_vec()].concat();
    let r = match op { 0 => rq("GET", &p).send(&s), 5 => rq("PUT", &p).send(&s), 1 => rq("PUT", &p).b(b"x").send(&s), 2 => rq("DELETE", &p).send(&s), 3 => rq("HEAD", &p).send(&s), _ => rq("PUT", b"/bkt/c").h("x-amz-copy-source", &{ let mut h = vec![]; enc(&mut h, &p[1..], false); h }).send(&s) };
    let first: &[u8] = b.split(|c| *c == b'/').find(|x| !x.is_empty()).unwrap_or(b"");
    within_root(&[b"bkt", if bucket_name(first) { first } else { b"bkt" }]);
    let f1 = vfs().files("/srv");
    let c = f1.iter().any(|x| x.0.starts_with(b"root/bkt/c"));
    check(c || f1 == f0 || r.ok(), "a refused request changes nothing");
    check(!contains(&r.body, b"outside") && !contains(&r.body, b"internal data") && vfs().file("/srv/root/bkt/c").map_or(true, |d| d == b"v"), "files outside the named buckets are never read");
    check(vfs().file("/srv/secret").map(|x| &x[..]) == Some(b"outside") && vfs().file("/srv/root/.internal/o").map(|x| &x[..]) == Some(b"internal data"), "files outside the named buckets stay as they were");
    if r.ok() { reach("done") } else { reach("refused") }
}
#[allow(dead_code)] fn unused(_: &web::Resp) {}
