//! Failing file system calls, broken request bodies and crashes: an object is always old or new as a whole.
use crate::{fx::*, rt::*, sig, vfs::vfs, web};
use s3_server::S3Service;

const P: &[u8] = b"/bkt/dir/k";
const OLD: &[u8] = b"previous content";
fn put(s: &S3Service, p: &[u8], d: &[u8]) { check(rq("PUT", p).b(d).send(s).status == 200, "PUT accepts an ordinary object") }
fn upload(s: &S3Service) -> Vec<u8> { let r = rq("POST", P).q(b"uploads", b"").send(s); texts(&r.body, "UploadId").into_iter().next().unwrap_or_default() }
fn part(id: &[u8], n: &[u8], d: &[u8]) -> Rq { rq("PUT", P).q(b"partNumber", n).q(b"uploadId", id).b(d) }
fn complete(id: &[u8]) -> Rq { rq("POST", P).q(b"uploadId", id).b(b"<CompleteMultipartUpload><Part><PartNumber>1</PartNumber></Part><Part><PartNumber>2</PartNumber></Part></CompleteMultipartUpload>") }
/// A request that would replace the object, prepared on an otherwise quiet file system, and the content it would store.
const KINDS: usize = 5;
fn writer(s: &S3Service, kind: usize, d: &[u8]) -> Rq {
    match kind {
        0 => rq("PUT", P).b(d),
        1 => rq("PUT", P).frags(cut(d, &[1])).h("x-amz-meta-n", b"new"),
        2 => { check(rq("PUT", b"/other/src").h("x-amz-meta-n", b"new").b(d).send(s).ok(), "PUT accepts an ordinary object"); rq("PUT", P).h("x-amz-copy-source", b"other/src") }
        3 => { let id = upload(s); check(part(&id, b"1", &d[..1]).send(s).ok() && part(&id, b"2", &d[1..]).send(s).ok(), "UploadPart accepts an ordinary part"); complete(&id) }
        _ => { let mut f = crate::auth::post_fields(&sig::me(), crate::auth::POLICY); f.push(("x-amz-meta-n", b"new".to_vec())); rq("POST", b"/bkt").h("content-type", FORM).b(&crate::auth::form_of(&f, Some(d))) }
    }
}
/// form uploads need an authentication provider
fn send(s: &S3Service, kind: usize, r: &Rq) -> web::Resp { if kind == 4 { let mut t = fs(); t.set_auth(auth()); r.send(&t) } else { r.send(s) } }
fn start(s: &S3Service, old: usize) { if old >= 1 { let mut r = rq("PUT", P).b(OLD); if old == 2 { r = r.h("x-amz-meta-n", b"old") } check(r.send(s).ok(), "PUT accepts an ordinary object") } put(s, b"/bkt/dir/l", b"neighbour") }
/// What GET shows: 0 nothing, 1 the old object, 2 the new one, 3 something else
fn seen(s: &S3Service, d: &[u8]) -> usize {
    let g = rq("GET", P).send(s);
    if g.status == 404 && code(&g) == b"NoSuchKey" { return 0 }
    if g.status == 200 && g.header("content-length") == Some(g.body.len().to_string().as_bytes()) && !g.body_err { if g.body == OLD { return 1 } if g.body == d { return 2 } }
    3
}
fn whole(s: &S3Service, d: &[u8], old: usize, what: &str) -> usize {
    let x = seen(s, d);
    check(x == 2 || x == old.min(1), what);
    let mut want = vec![]; if x != 0 { want.push(b"dir/k".to_vec()) } want.push(b"dir/l".to_vec());
    let l = rq("GET", b"/bkt").send(s);
    check(l.status == 200 && texts(&l.body, "Key") == want, "a listing shows exactly the stored objects");
    let l = rq("GET", b"/").send(s);
    let mut names = texts(&l.body, "Name"); names.sort();
    check(l.status == 200 && names == [b"bkt".to_vec(), b"other".to_vec()], "the list of buckets shows exactly the buckets");
    check(rq("GET", b"/bkt/dir/l").send(s).body == b"neighbour", "other objects stay as they were");
    x
}
/// the object's metadata: as seen, as it was, as it would be
fn metas(s: &S3Service, kind: usize, old: usize) -> (Option<Vec<u8>>, Option<Vec<u8>>, Option<Vec<u8>>) {
    let g = rq("GET", P).send(s);
    (g.header("x-amz-meta-n").map(|x| x.to_vec()), if old == 2 { Some(b"old".to_vec()) } else { None }, if kind == 1 || kind == 2 || kind == 4 { Some(b"new".to_vec()) } else { None })
}
/// the n-th state-changing file system call fails
#[no_mangle] pub extern "C" fn f_enospc() {
    let s = fs();
    let kind = choice("request", KINDS);
    let old = choice("old", 3);
    start(&s, old);
    let d = sym("data", 3);
    let r = writer(&s, kind, &d);
    vfs().muts = 0; vfs().fail_at = sym_u8("call");
    let x = send(&s, kind, &r);
    let failed = vfs().failed;
    vfs().fail_at = 255;
    check(failed || x.ok(), "a request that meets no fault succeeds");
    check(x.ok() || x.status >= 500, "a failing file system is reported as a server error");
    let y = whole(&s, &d, old, "after a failed call the object is the old or the new one as a whole");
    check(!x.ok() || y == 2, "a successful answer means the object is stored");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    if y != 0 {
        let (m, om, nm) = metas(&s, kind, old);
        if y == 2 && !x.ok() && m == om { known("fault-between-content-and-metadata") }
        check(m == if y == 2 { nm } else { om }, "after a failed call the object has the metadata it was stored with");
    }
    if failed && y != 2 { // nothing stands in the way of another attempt
        let x = send(&s, kind, &r);
        check(x.ok() && whole(&s, &d, old, "after a failed call the object is the old or the new one as a whole") == 2, "the same request succeeds once the fault is gone");
        reach("retried");
    }
    if failed { reach("fault") } else { reach("no fault") }
}
/// power loss before the n-th state-changing call (or in the middle of a write)
#[no_mangle] pub extern "C" fn f_crash() {
    let s = fs();
    let kind = choice("request", KINDS);
    let old = choice("old", 3);
    start(&s, old);
    let d = sym("data", 3);
    let r = writer(&s, kind, &d);
    vfs().muts = 0; vfs().crash_at = sym_u8("call"); vfs().torn = choice("torn", 2) == 1;
    let x = send(&s, kind, &r);
    check(x.ok(), "a request that meets no fault succeeds");
    let crashed = vfs().crash();
    vfs().crash_at = 255; vfs().torn = false;
    let s = fs();
    let y = whole(&s, &d, old, "after a crash the object is the old or the new one as a whole");
    check(crashed || y == 2, "a successful answer means the object is stored");
    // content and metadata
    if y != 0 {
        let (m, om, nm) = metas(&s, kind, old);
        // the content is renamed into place before the metadata
        if y == 2 && m == om { known("crash-between-content-and-metadata") }
        check(m == if y == 2 { nm } else { om }, "after a crash the object has the metadata it was stored with");
    }
    if y != 2 {
        let x = send(&s, kind, &r);
        check(x.ok() && seen(&s, &d) == 2, "the same request succeeds after a restart");
    }
    if crashed { reach("crash") } else { reach("no crash") }
}
/// bodies that break off: nothing of them is ever stored
#[no_mangle] pub extern "C" fn f_body() {
    let s = fs();
    let old = choice("old", 3);
    start(&s, old);
    let d = sym("data", 3);
    let before = vfs().files("/srv/root");
    let n = choice("pieces", 4);
    let mut frags = cut(&d, &[1, 2]); frags.truncate(n);
    if n == 3 && choice("large", 2) == 1 { frags[1] = vec![b'x'; 9000] }
    let x = match choice("request", 2) { 0 => rq("PUT", P).frags(frags).fail().h("x-amz-meta-n", b"new").send(&s), _ => { let id = upload(&s); let mut r = part(&id, b"1", b""); r.frags = frags; let x = r.fail().send(&s); check(complete(&id).send(&s).status >= 400, "a part whose upload failed does not exist"); x } };
    check(!x.ok() && x.status >= 400, "an upload whose body fails is answered with an error");
    let y = whole(&s, &d, old, "after a failed upload the object is the old one");
    check(y == old.min(1), "after a failed upload the object is the old one");
    check(vfs().files("/srv/root") == before, "a failed upload leaves nothing behind");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    reach("broken");
}
/// deletions under faults: the object is there or not
#[no_mangle] pub extern "C" fn f_delete() {
    let s = fs();
    start(&s, 1 + choice("meta", 2));
    let crash = choice("crash", 2) == 1;
    vfs().muts = 0;
    let at = sym_u8("call");
    if crash { vfs().crash_at = at } else { vfs().fail_at = at }
    let x = if choice("multi", 2) == 0 { rq("DELETE", P).send(&s) } else { rq("POST", b"/bkt").q(b"delete", b"").b(b"<Delete><Object><Key>dir/k</Key></Object></Delete>").send(&s) };
    let failed = vfs().failed;
    vfs().fail_at = 255; vfs().crash_at = 255;
    let crashed = vfs().crash();
    let s = fs();
    let y = seen(&s, b"");
    check(y < 2, "a deleted object is gone or as it was");
    check(!x.ok() || crashed || y == 0, "a successful answer means the object is gone");
    check(x.ok() || failed, "a request that meets no fault succeeds");
    check(rq("GET", b"/bkt/dir/l").send(&s).body == b"neighbour", "other objects stay as they were");
    // a new object does not inherit anything
    check(rq("DELETE", P).send(&s).ok(), "DELETE succeeds");
    put(&s, P, b"fresh");
    let g = rq("GET", P).send(&s);
    check(g.body == b"fresh" && g.header("x-amz-meta-n").is_none(), "an object stored after a deletion inherits nothing");
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    reach("deleted");
}

/// a call that only reads fails: the answer is right or an error, and nothing is lost
#[no_mangle] pub extern "C" fn f_read() {
    let s = fs();
    let kind = choice("request", KINDS + 8);
    let old = choice("old", 3);
    let d = sym("data", 3);
    start(&s, old);
    let before = vfs().files("/srv/root");
    let reader = kind >= KINDS;
    let r = match kind - KINDS.min(kind) {
        _ if !reader => writer(&s, kind, &d),
        0 => rq("GET", P), 1 => rq("HEAD", P), 2 => rq("GET", P).h("range", b"bytes=2-4"), 3 => rq("GET", b"/bkt"), 4 => rq("GET", b"/bkt").q(b"list-type", b"2").q(b"prefix", b"dir/k"), 5 => rq("GET", b"/"), 6 => rq("HEAD", b"/bkt"), _ => rq("GET", b"/bkt").q(b"location", b""),
    };
    let right = if reader { Some(send(&s, kind, &r)) } else { None };
    vfs().reads = 0; vfs().eio_at = sym_u8("call"); vfs().failed = false;
    let x = send(&s, kind, &r);
    let failed = vfs().failed;
    vfs().eio_at = 255;
    if !x.ok() && !symbolic() { print(&format!("{kind} {old}: {} {}", x.status, String::from_utf8_lossy(&x.body))) }
    check(failed || reader || x.ok(), "a request that meets no fault succeeds");
    if let Some(w) = right {
        let same = x.status == w.status && x.body == w.body && !x.body_err;
        check(same || x.status >= 500 || x.body_err, "a file system that can not be read is reported as a server error");
        check(vfs().files("/srv/root") == before, "reading changes nothing");
    } else {
        check(x.ok() || x.status >= 500, "a file system that can not be read is reported as a server error");
        let y = whole(&s, &d, old, "after a failed call the object is the old or the new one as a whole");
        check(!x.ok() || y == 2, "a successful answer means the object is stored");
        if failed && y != 2 { let x = send(&s, kind, &r); check(x.ok() && seen(&s, &d) == 2, "the same request succeeds once the fault is gone"); reach("retried") }
    }
    check(vfs().open_fds() == 0, "no file descriptor is leaked");
    if failed { reach("fault") } else { reach("no fault") }
}
