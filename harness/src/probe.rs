use crate::{rt::*, vfs::vfs, web::*};
use s3_server::{storages::fs::FileSystem, S3Service};
#[no_mangle] pub extern "C" fn h_probe() {
    vfs().put("/srv/root/bkt", b"abcd", b"hello");
    let fs = FileSystem::new("/srv/root").unwrap();
    let svc = S3Service::new(fs);
    let k = sym_from("k", 4, b"abcd");
    let mut u = b"/bkt/".to_vec(); u.extend_from_slice(&k);
    let r = send(&svc, req("GET", &u).unwrap().body(hyper::Body::empty()).unwrap());
    note_u64("status", r.status as u64);
    if r.status == 200 { reach("ok"); check(r.body == b"hello", "body"); check(k == b"abcd", "key") } else { reach("missing"); note("b", &r.body) }
}
#[no_mangle] pub extern "C" fn h_probe2() {
    vfs().put("/srv/root/bkt", b"abcd", b"hello");
    let fs = FileSystem::new("/srv/root").unwrap();
    let svc = S3Service::new(fs);
    let k = sym("k", 3);
    let mut u = b"/bkt/".to_vec(); u.extend_from_slice(&k);
    let Some(rq) = req("GET", &u) else { return };
    let r = send(&svc, rq.body(hyper::Body::empty()).unwrap());
    note_u64("status", r.status as u64);
}

