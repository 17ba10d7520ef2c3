//! An in-memory file system behind the C library's file functions, so that the crate's storage code
//! (through std::fs and async-fs) runs unchanged, hermetically and with fault and crash injection.
#![allow(static_mut_refs, clippy::missing_safety_doc)]
use std::ffi::c_void;

#[derive(Clone)]
pub struct Node { pub dir: bool, pub data: Vec<u8>, pub kids: Vec<(Vec<u8>, usize)>, pub mtime: i64, pub born: i64,
    /// so many zero bytes stand before `data`; reading them in order takes one call
    pub hole: usize }
impl Node { fn size(&self) -> usize { self.hole + self.data.len() } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op { Stat, OpenRead, Create, Write, Mkdir, Unlink, Rmdir, Rename, Truncate, ReadDir }
#[derive(Clone)]
struct Fd { node: usize, pos: usize, used: bool, read: bool, write: bool, append: bool, path: Vec<u8> }
struct Dir { node: usize, pos: usize, ent: [u8; 280], fd: i32, kids: Vec<(Vec<u8>, usize)> }
pub struct Vfs {
    pub nodes: Vec<Node>,
    fds: Vec<Fd>,
    dirs: Vec<Dir>,
    /// every path the crate touched
    pub log: Vec<(Op, Vec<u8>)>,
    /// number of state-changing calls so far
    pub muts: u8,
    /// the state-changing call number `fail_at` fails with ENOSPC (a failing write first writes half)
    pub fail_at: u8,
    pub failed: bool,
    /// a call reads or writes at most so many bytes (0: any number)
    pub short: usize,
    /// the call number `eio_at` that only reads (open, stat, read, readdir) fails with EIO
    pub eio_at: u8,
    pub reads: u8,
    /// the tree is copied just before state-changing call number `crash_at`
    pub crash_at: u8,
    pub torn: bool,
    pub snap: Option<Vec<Node>>,
    pub reverse: bool,
    /// runs just before file system call number `hook_at`
    pub hook: Option<Box<dyn FnOnce()>>,
    pub hook_at: u32,
    pub calls: u32,
    /// the current directory
    pub cwd: Vec<u8>,
    pub clock: i64,
    /// nanoseconds of every time stamp
    pub nsec: u32,
    rng: u64,
}
static mut V: Option<Vfs> = None;
pub fn vfs() -> &'static mut Vfs {
    unsafe {
        if V.is_none() {
            V = Some(Vfs { nodes: vec![Node { dir: true, data: vec![], kids: vec![], mtime: 1_600_000_000, born: 1_600_000_000, hole: 0 }], fds: vec![], dirs: vec![], log: vec![], muts: 0, fail_at: 255, failed: false, short: 0, eio_at: 255, reads: 0, crash_at: 255, torn: false, snap: None, reverse: false, hook: None, hook_at: 0, calls: 0, cwd: b"/".to_vec(), clock: 1_700_000_000, nsec: 0, rng: 0x9e37_79b9_7f4a_7c15 });
        }
        V.as_mut().unwrap()
    }
}
const EPERM: i32 = 1; const ENOENT: i32 = 2; const EIO: i32 = 5; const EBADF: i32 = 9; const EEXIST: i32 = 17; const ENOTDIR: i32 = 20; const EISDIR: i32 = 21; const EINVAL: i32 = 22; const ENOSPC: i32 = 28; const ENAMETOOLONG: i32 = 36; const ENOSYS: i32 = 38; const ENOTEMPTY: i32 = 39;
const BASE: i32 = 1000;
extern "C" { fn __errno_location() -> *mut i32; }
fn err(e: i32) -> i32 { unsafe { *__errno_location() = e } -1 }

impl Vfs {
    pub fn kid(&self, dir: usize, name: &[u8]) -> Option<usize> { for (n, i) in &self.nodes[dir].kids { if n.as_slice() == name { return Some(*i) } } None }
    /// resolves to (parent directory, last component, node, trailing slash)
    fn walk(&self, from: usize, p: &[u8]) -> Result<(usize, Vec<u8>, Option<usize>, bool), i32> {
        if p.is_empty() { return Err(ENOENT) }
        if p.len() >= 4096 { return Err(ENAMETOOLONG) }
        let mut comps: Vec<Vec<u8>> = vec![]; let mut cur: Vec<u8> = vec![];
        for b in p { if *b == b'/' { if !cur.is_empty() { comps.push(std::mem::take(&mut cur)) } } else { cur.push(*b) } }
        let trail = cur.is_empty();
        if !cur.is_empty() { comps.push(cur) }
        let mut stack = vec![if p[0] == b'/' { 0 } else { from }];
        if comps.is_empty() { return Ok((0, vec![], Some(stack[0]), true)) }
        let last = comps.len() - 1;
        for (i, c) in comps.iter().enumerate() {
            let d = *stack.last().unwrap();
            if c.len() > 255 { return Err(ENAMETOOLONG) }
            if !self.nodes[d].dir { return Err(ENOTDIR) }
            if c.as_slice() == b"." { if i == last { return Ok((d, c.clone(), Some(d), true)) } continue }
            if c.as_slice() == b".." { if stack.len() > 1 { stack.pop(); } if i == last { let d = *stack.last().unwrap(); return Ok((d, c.clone(), Some(d), true)) } continue }
            let k = self.kid(d, c);
            if i == last { return Ok((d, c.clone(), k, trail)) }
            match k { Some(k) => stack.push(k), None => return Err(ENOENT) }
        }
        unreachable!()
    }
    fn find(&self, from: usize, p: &[u8]) -> Result<usize, i32> {
        let (_, _, n, t) = self.walk(from, p)?;
        match n { None => Err(ENOENT), Some(n) => if t && !self.nodes[n].dir { Err(ENOTDIR) } else { Ok(n) } }
    }
    pub fn lookup(&self, p: &str) -> Option<usize> { self.find(0, p.as_bytes()).ok() }
    pub fn file(&self, p: &str) -> Option<&Vec<u8>> { let n = self.lookup(p)?; if self.nodes[n].dir { None } else { Some(&self.nodes[n].data) } }
    pub fn is_dir(&self, p: &str) -> bool { match self.lookup(p) { Some(n) => self.nodes[n].dir, None => false } }
    fn mk(&mut self, dir: bool) -> usize { let t = self.clock; self.nodes.push(Node { dir, data: vec![], kids: vec![], mtime: t, born: t, hole: 0 }); self.nodes.len() - 1 }
    pub fn mkdirs(&mut self, p: &str) -> usize {
        let mut d = 0;
        for c in p.split('/') { if c.is_empty() { continue } d = match self.kid(d, c.as_bytes()) { Some(k) => k, None => { let n = self.mk(true); self.nodes[d].kids.push((c.as_bytes().to_vec(), n)); n } } }
        d
    }
    pub fn put(&mut self, dir: &str, name: &[u8], data: &[u8]) {
        let d = self.mkdirs(dir);
        let n = match self.kid(d, name) { Some(n) => n, None => { let n = self.mk(false); self.nodes[d].kids.push((name.to_vec(), n)); n } };
        self.nodes[n].data = data.to_vec();
    }
    /// all files below `p`, as (path relative to p, contents)
    pub fn files(&self, p: &str) -> Vec<(Vec<u8>, Vec<u8>)> {
        let mut out = vec![];
        if let Some(n) = self.lookup(p) { self.collect(n, &[], &mut out) }
        out
    }
    fn collect(&self, n: usize, pre: &[u8], out: &mut Vec<(Vec<u8>, Vec<u8>)>) {
        for (name, k) in &self.nodes[n].kids {
            let mut p = pre.to_vec();
            if !p.is_empty() { p.push(b'/') }
            p.extend_from_slice(name);
            if self.nodes[*k].dir { self.collect(*k, &p, out) } else { out.push((p, self.nodes[*k].data.clone())) }
        }
    }
    /// Bookkeeping before a state-changing call; true if the call must fail.
    fn mutate(&mut self) -> bool {
        if self.crash_at == self.muts && !self.torn { self.snap = Some(self.nodes.clone()) }
        let f = self.fail_at == self.muts;
        if self.muts < 254 { self.muts += 1 }
        if f { self.failed = true }
        f
    }
    /// Bookkeeping before a call that only reads; true if the call must fail.
    fn sick(&mut self, p: &[u8]) -> bool {
        if !p.starts_with(b"/srv") { return false }
        let f = self.eio_at == self.reads;
        if self.reads < 254 { self.reads += 1 }
        if f { self.failed = true }
        f
    }
    /// Power loss: back to the recorded tree, all descriptors gone.
    pub fn crash(&mut self) -> bool { match self.snap.take() { Some(n) => { self.nodes = n; true } None => false } }
    fn fd(&mut self, fd: i32) -> Option<&mut Fd> { let i = fd - BASE; if i < 0 || i as usize >= self.fds.len() { return None } let f = &mut self.fds[i as usize]; if f.used { Some(f) } else { None } }
    fn add_fd(&mut self, f: Fd) -> i32 {
        for (i, g) in self.fds.iter_mut().enumerate() { if !g.used { *g = f; return i as i32 + BASE } }
        self.fds.push(f);
        (self.fds.len() - 1) as i32 + BASE
    }
    pub fn open_fds(&self) -> usize { let mut n = 0; for f in &self.fds { if f.used { n += 1 } } n }
}
unsafe fn cstr<'a>(p: *const u8) -> &'a [u8] { let mut n = 0; while *p.add(n) != 0 { n += 1 } std::slice::from_raw_parts(p, n) }
fn dirfd_node(v: &mut Vfs, fd: i32) -> usize { if fd == -100 { 0 } else { match v.fd(fd) { Some(f) => f.node, None => 0 } } }
fn native_fd(fd: i32) -> bool { fd < BASE }
extern "C" { fn syscall(n: i64, ...) -> i64; }

fn tick(p: &[u8]) { if !p.starts_with(b"/srv") { return } let v = vfs(); v.calls += 1; if v.calls == v.hook_at { if let Some(h) = v.hook.take() { unsafe { let e = *__errno_location(); h(); *__errno_location() = e } } } }
unsafe fn do_open(at: i32, path: *const u8, flags: i32) -> i32 {
    tick(cstr(path));
    let v = vfs();
    let p = cstr(path).to_vec();
    let from = dirfd_node(v, at);
    let (acc, creat, excl, trunc, append, dironly) = (flags & 3, flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0, flags & 0o200000 != 0);
    v.log.push((if acc == 0 && !creat { Op::OpenRead } else { Op::Create }, p.clone()));
    if acc == 0 && !creat && v.sick(&p) { return err(EIO) }
    let (par, name, node, trail) = match v.walk(from, &p) { Ok(x) => x, Err(e) => return err(e) };
    let n = match node {
        Some(n) => {
            if creat && excl { return err(EEXIST) }
            if v.nodes[n].dir { if acc != 0 || creat { return err(EISDIR) } } else if trail || dironly { return err(ENOTDIR) }
            if trunc && acc != 0 { if v.mutate() { return err(ENOSPC) } v.nodes[n].data = vec![]; v.nodes[n].mtime = v.clock; }
            n
        }
        None => {
            if !creat { return err(ENOENT) }
            if trail { return err(EISDIR) }
            if v.mutate() { return err(ENOSPC) }
            let n = v.mk(false);
            v.nodes[par].kids.push((name, n)); v.nodes[par].mtime = v.clock;
            n
        }
    };
    v.add_fd(Fd { node: n, pos: 0, used: true, read: acc != 1, write: acc != 0, append, path: p })
}
#[no_mangle] pub unsafe extern "C" fn open64(path: *const u8, flags: i32, _m: u32) -> i32 { do_open(-100, path, flags) }
#[no_mangle] pub unsafe extern "C" fn open(path: *const u8, flags: i32, _m: u32) -> i32 { do_open(-100, path, flags) }
#[no_mangle] pub unsafe extern "C" fn openat64(at: i32, path: *const u8, flags: i32, _m: u32) -> i32 { do_open(at, path, flags) }
#[no_mangle] pub unsafe extern "C" fn openat(at: i32, path: *const u8, flags: i32, _m: u32) -> i32 { do_open(at, path, flags) }
#[no_mangle] pub unsafe extern "C" fn close(fd: i32) -> i32 { if native_fd(fd) { return 0 } match vfs().fd(fd) { Some(f) => { f.used = false; 0 } None => err(EBADF) } }
#[no_mangle] pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if native_fd(fd) { return syscall(0, fd as i64, buf, n) as isize }
    if let Some(f) = vfs().fd(fd) { let p = f.path.clone(); tick(&p) }
    let v = vfs();
    let Some(f) = v.fd(fd) else { return err(EBADF) as isize };
    if !f.read { return err(EBADF) as isize }
    let (node, pos) = (f.node, f.pos);
    let path = f.path.clone();
    if v.nodes[node].dir { return err(EISDIR) as isize }
    if v.sick(&path) { return err(EIO) as isize }
    let hole = v.nodes[node].hole;
    if pos < hole {
        let k = n.min(hole - pos).min(1024);
        std::ptr::write_bytes(buf, 0, k);
        v.fd(fd).unwrap().pos = if hole - pos > 1 << 16 { hole } else { pos + k };
        return k as isize;
    }
    let pos = pos - hole;
    let d = &v.nodes[node].data;
    let k = n.min(d.len().saturating_sub(pos)).min(if v.short == 0 { n } else { v.short });
    if k > 0 { std::ptr::copy_nonoverlapping(d.as_ptr().add(pos), buf, k) }
    v.fd(fd).unwrap().pos += k;
    k as isize
}
#[no_mangle] pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if native_fd(fd) { return if crate::rt::symbolic() { n as isize } else { syscall(1, fd as i64, buf, n) as isize } }
    if let Some(f) = vfs().fd(fd) { let p = f.path.clone(); tick(&p) }
    let v = vfs();
    let Some(f) = v.fd(fd) else { return err(EBADF) as isize };
    if !f.write { return err(EBADF) as isize }
    let (node, append, mut pos) = (f.node, f.append, f.pos);
    let path = f.path.clone();
    v.log.push((Op::Write, path));
    if append { pos = v.nodes[node].data.len() }
    let torn_here = v.torn && v.crash_at == v.muts;
    let fail = v.mutate();
    let src = std::slice::from_raw_parts(buf, n);
    let put = |v: &mut Vfs, k: usize| { let t = v.clock; let d = &mut v.nodes[node]; d.mtime = t; if d.data.len() < pos { d.data.resize(pos, 0) } let over = k.min(d.data.len() - pos); d.data[pos..pos + over].copy_from_slice(&src[..over]); d.data.extend_from_slice(&src[over..k]) };
    if torn_here { let keep = v.nodes[node].data.clone(); put(v, n / 2); v.snap = Some(v.nodes.clone()); v.nodes[node].data = keep }
    if fail { put(v, n / 2); return err(ENOSPC) as isize }
    let n = if v.short == 0 { n } else { n.min(v.short) };
    put(v, n);
    v.fd(fd).unwrap().pos = pos + n;
    n as isize
}
#[repr(C)] pub struct IoVec { p: *const u8, n: usize }
#[no_mangle] pub unsafe extern "C" fn writev(fd: i32, iov: *const IoVec, k: i32) -> isize {
    let mut t = 0;
    for i in 0..k as usize { let e = &*iov.add(i); if e.n == 0 { continue } let r = write(fd, e.p, e.n); if r < 0 { return if t > 0 { t } else { r } } t += r; if (r as usize) < e.n { break } }
    t
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    let v = vfs();
    let Some(f) = v.fd(fd) else { return err(EBADF) as i64 };
    let (node, pos) = (f.node, f.pos);
    let base = match whence { 0 => 0, 1 => pos as i64, _ => v.nodes[node].size() as i64 };
    let n = match base.checked_add(off) { Some(n) => n, None => return err(EINVAL) as i64 };
    if n < 0 { return err(EINVAL) as i64 }
    v.fd(fd).unwrap().pos = n as usize;
    n
}
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    let v = vfs();
    let Some(f) = v.fd(fd) else { return err(EBADF) };
    let node = f.node; let p = f.path.clone();
    v.log.push((Op::Truncate, p));
    if v.mutate() { return err(ENOSPC) }
    v.nodes[node].data.resize(len as usize, 0);
    0
}
unsafe fn fill_stat(v: &Vfs, n: usize, st: *mut u8) {
    std::ptr::write_bytes(st, 0, 144);
    let nd = &v.nodes[n];
    let w = |o: usize, x: u64| (st.add(o) as *mut u64).write_unaligned(x);
    w(0, 1); w(8, n as u64 + 2); w(16, 1);
    (st.add(24) as *mut u32).write_unaligned(if nd.dir { 0o40755 } else { 0o100644 });
    w(48, nd.size() as u64); w(56, 4096); w(72, v.clock as u64); w(88, nd.mtime as u64); w(104, nd.mtime as u64); for o in [80, 96, 112] { w(o, v.nsec as u64) }
}
unsafe fn fill_statx(v: &Vfs, n: usize, st: *mut u8) {
    std::ptr::write_bytes(st, 0, 256);
    let nd = &v.nodes[n];
    let w = |o: usize, x: u64| (st.add(o) as *mut u64).write_unaligned(x);
    (st as *mut u32).write_unaligned(0xfff);
    (st.add(4) as *mut u32).write_unaligned(4096);
    (st.add(16) as *mut u32).write_unaligned(1);
    (st.add(28) as *mut u16).write_unaligned(if nd.dir { 0o40755 } else { 0o100644 });
    w(32, n as u64 + 2); w(40, nd.size() as u64);
    w(64, v.clock as u64); w(80, nd.born as u64); w(96, nd.mtime as u64); w(112, nd.mtime as u64); for o in [72, 88, 104, 120] { w(o, v.nsec as u64) }
}
unsafe fn stat_at(at: i32, path: *const u8, empty_ok: bool) -> Result<usize, i32> {
    tick(cstr(path));
    let v = vfs();
    let p = cstr(path);
    if p.is_empty() && empty_ok { return match v.fd(at) { Some(f) => Ok(f.node), None => Err(EBADF) } }
    v.log.push((Op::Stat, p.to_vec()));
    if v.sick(p) { return Err(EIO) }
    let d = dirfd_node(v, at);
    v.find(d, p)
}
#[no_mangle] pub unsafe extern "C" fn statx(at: i32, path: *const u8, flags: i32, _mask: u32, st: *mut u8) -> i32 {
    if path.is_null() { return err(14) }
    match stat_at(at, path, flags & 0x1000 != 0) { Ok(n) => { fill_statx(vfs(), n, st); 0 } Err(e) => err(e) }
}
#[no_mangle] pub unsafe extern "C" fn stat64(path: *const u8, st: *mut u8) -> i32 { match stat_at(-100, path, false) { Ok(n) => { fill_stat(vfs(), n, st); 0 } Err(e) => err(e) } }
#[no_mangle] pub unsafe extern "C" fn lstat64(path: *const u8, st: *mut u8) -> i32 { stat64(path, st) }
#[no_mangle] pub unsafe extern "C" fn fstatat64(at: i32, path: *const u8, st: *mut u8, flags: i32) -> i32 { match stat_at(at, path, flags & 0x1000 != 0) { Ok(n) => { fill_stat(vfs(), n, st); 0 } Err(e) => err(e) } }
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: i32, st: *mut u8) -> i32 { let v = vfs(); match v.fd(fd) { Some(f) => { let n = f.node; fill_stat(v, n, st); 0 } None => err(EBADF) } }
#[no_mangle] pub unsafe extern "C" fn access(path: *const u8, _m: i32) -> i32 { match stat_at(-100, path, false) { Ok(_) => 0, Err(e) => err(e) } }
#[no_mangle] pub unsafe extern "C" fn faccessat(at: i32, path: *const u8, _m: i32, _f: i32) -> i32 { match stat_at(at, path, false) { Ok(_) => 0, Err(e) => err(e) } }
#[no_mangle] pub unsafe extern "C" fn mkdir(path: *const u8, _m: u32) -> i32 {
    tick(cstr(path));
    let v = vfs();
    let p = cstr(path).to_vec();
    v.log.push((Op::Mkdir, p.clone()));
    match v.walk(0, &p) { Err(e) => err(e), Ok((_, _, Some(_), _)) => err(EEXIST), Ok((d, name, None, _)) => { if v.mutate() { return err(ENOSPC) } let n = v.mk(true); v.nodes[d].kids.push((name, n)); v.nodes[d].mtime = v.clock; 0 } }
}
unsafe fn do_unlink(at: i32, path: *const u8, dir: bool) -> i32 {
    tick(cstr(path));
    let v = vfs();
    let p = cstr(path).to_vec();
    v.log.push((if dir { Op::Rmdir } else { Op::Unlink }, p.clone()));
    let from = dirfd_node(v, at);
    match v.walk(from, &p) {
        Err(e) => err(e), Ok((_, _, None, _)) => err(ENOENT),
        Ok((d, name, Some(n), trail)) => {
            if n == d || n == 0 { return err(EINVAL) }
            if dir { if !v.nodes[n].dir { return err(ENOTDIR) } if !v.nodes[n].kids.is_empty() { return err(ENOTEMPTY) } } else if v.nodes[n].dir { return err(EISDIR) } else if trail { return err(ENOTDIR) }
            if v.mutate() { return err(ENOSPC) }
            v.nodes[d].kids.retain(|(k, _)| *k != name); v.nodes[d].mtime = v.clock;
            0
        }
    }
}
#[no_mangle] pub unsafe extern "C" fn unlink(path: *const u8) -> i32 { do_unlink(-100, path, false) }
#[no_mangle] pub unsafe extern "C" fn rmdir(path: *const u8) -> i32 { do_unlink(-100, path, true) }
#[no_mangle] pub unsafe extern "C" fn unlinkat(at: i32, path: *const u8, flags: i32) -> i32 { do_unlink(at, path, flags & 0x200 != 0) }
#[no_mangle] pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    tick(cstr(a));
    let v = vfs();
    let (p, q) = (cstr(a).to_vec(), cstr(b).to_vec());
    v.log.push((Op::Rename, p.clone())); v.log.push((Op::Rename, q.clone()));
    let (d1, n1, x) = match v.walk(0, &p) { Err(e) => return err(e), Ok((_, _, None, _)) => return err(ENOENT), Ok((d, n, Some(x), _)) => (d, n, x) };
    let (d2, n2, y, _) = match v.walk(0, &q) { Err(e) => return err(e), Ok(r) => r };
    if let Some(y) = y {
        if y == x { return 0 }
        if v.nodes[y].dir && !v.nodes[x].dir { return err(EISDIR) }
        if !v.nodes[y].dir && v.nodes[x].dir { return err(ENOTDIR) }
        if v.nodes[y].dir && !v.nodes[y].kids.is_empty() { return err(ENOTEMPTY) }
    }
    if v.mutate() { return err(ENOSPC) }
    v.nodes[d2].kids.retain(|(k, _)| *k != n2);
    v.nodes[d1].kids.retain(|(k, _)| *k != n1);
    v.nodes[d2].kids.push((n2, x)); v.nodes[d1].mtime = v.clock; v.nodes[d2].mtime = v.clock;
    0
}
#[no_mangle] pub unsafe extern "C" fn renameat(_: i32, a: *const u8, _: i32, b: *const u8) -> i32 { rename(a, b) }
#[no_mangle] pub unsafe extern "C" fn fsync(_: i32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn fdatasync(_: i32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn fchmod(_: i32, _: u32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn chmod(_: *const u8, _: u32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn link(a: *const u8, b: *const u8) -> i32 { linkat(-100, a, -100, b, 0) }
#[no_mangle] pub unsafe extern "C" fn linkat(at: i32, a: *const u8, bt: i32, b: *const u8, _flags: i32) -> i32 {
    tick(cstr(a));
    let v = vfs();
    let (p, q) = (cstr(a).to_vec(), cstr(b).to_vec());
    v.log.push((Op::Stat, p.clone())); v.log.push((Op::Create, q.clone()));
    let (f, t) = (dirfd_node(v, at), dirfd_node(v, bt));
    let x = match v.find(f, &p) { Ok(x) => x, Err(e) => return err(e) };
    if v.nodes[x].dir { return err(EPERM) }
    match v.walk(t, &q) { Err(e) => err(e), Ok((_, _, Some(_), _)) => err(EEXIST), Ok((d, name, None, _)) => { if v.mutate() { return err(ENOSPC) } let t = v.clock; v.nodes[d].kids.push((name, x)); v.nodes[d].mtime = t; 0 } }
}
#[no_mangle] pub unsafe extern "C" fn mkdirat(at: i32, path: *const u8, m: u32) -> i32 { if at != -100 && *path != b'/' { return err(ENOSYS) } mkdir(path, m) }
#[no_mangle] pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize { moved(fd, off, || read(fd, buf, n)) }
#[no_mangle] pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const u8, n: usize, off: i64) -> isize { moved(fd, off, || write(fd, buf, n)) }
unsafe fn moved(fd: i32, off: i64, f: impl FnOnce() -> isize) -> isize {
    let Some(p) = vfs().fd(fd).map(|f| std::mem::replace(&mut f.pos, off as usize)) else { return err(EBADF) as isize };
    let r = f();
    if let Some(f) = vfs().fd(fd) { f.pos = p }
    r
}
#[no_mangle] pub unsafe extern "C" fn flock(_: i32, _: i32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn symlink(_: *const u8, _: *const u8) -> i32 { err(ENOSYS) }
#[no_mangle] pub unsafe extern "C" fn readlink(path: *const u8, _: *mut u8, _: usize) -> isize { match stat_at(-100, path, false) { Ok(_) => err(EINVAL) as isize, Err(e) => err(e) as isize } }
#[no_mangle] pub unsafe extern "C" fn copy_file_range(_: i32, _: *mut i64, _: i32, _: *mut i64, _: usize, _: u32) -> isize { err(ENOSYS) as isize }
#[no_mangle] pub unsafe extern "C" fn sendfile64(_: i32, _: i32, _: *mut i64, _: usize) -> isize { err(ENOSYS) as isize }
#[no_mangle] pub unsafe extern "C" fn splice(_: i32, _: *mut i64, _: i32, _: *mut i64, _: usize, _: u32) -> isize { err(EINVAL) as isize }
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: i32, _c: i32, _a: i64) -> i32 { if native_fd(fd) { 0 } else { match vfs().fd(fd) { Some(_) => 0, None => err(EBADF) } } }
#[no_mangle] pub unsafe extern "C" fn getcwd(buf: *mut u8, n: usize) -> *mut u8 { let d = &vfs().cwd; if n < d.len() + 1 { err(34); return std::ptr::null_mut() } std::ptr::copy_nonoverlapping(d.as_ptr(), buf, d.len()); *buf.add(d.len()) = 0; buf }
extern "C" { fn malloc(n: usize) -> *mut u8; }
#[no_mangle] pub unsafe extern "C" fn realpath(path: *const u8, out: *mut u8) -> *mut u8 {
    let v = vfs();
    let p = cstr(path);
    if let Err(e) = v.find(0, p) { err(e); return std::ptr::null_mut() }
    let mut comps: Vec<&[u8]> = vec![];
    for c in p.split(|b| *b == b'/') { if c.is_empty() || c == b"." { continue } if c == b".." { comps.pop(); continue } comps.push(c) }
    let mut r = vec![];
    for c in comps { r.push(b'/'); r.extend_from_slice(c) }
    if r.is_empty() { r.push(b'/') }
    r.push(0);
    let o = if out.is_null() { malloc(r.len()) } else { out };
    std::ptr::copy_nonoverlapping(r.as_ptr(), o, r.len());
    o
}
fn open_dir(v: &mut Vfs, node: usize, fd: i32) -> *mut c_void { let mut kids = v.nodes[node].kids.clone(); if v.reverse { kids.reverse() } v.dirs.push(Dir { node, pos: 0, ent: [0; 280], fd, kids }); v.dirs.len() as *mut c_void }
#[no_mangle] pub unsafe extern "C" fn opendir(path: *const u8) -> *mut c_void {
    tick(cstr(path));
    let v = vfs();
    let p = cstr(path).to_vec();
    v.log.push((Op::ReadDir, p.clone()));
    match v.find(0, &p) { Err(e) => { err(e); std::ptr::null_mut() } Ok(n) => if v.nodes[n].dir { let fd = v.add_fd(Fd { node: n, pos: 0, used: true, read: true, write: false, append: false, path: p }); open_dir(v, n, fd) } else { err(ENOTDIR); std::ptr::null_mut() } }
}
#[no_mangle] pub unsafe extern "C" fn fdopendir(fd: i32) -> *mut c_void { let v = vfs(); match v.fd(fd) { Some(f) => { let n = f.node; let p = f.path.clone(); v.log.push((Op::ReadDir, p)); open_dir(v, n, fd) } None => { err(EBADF); std::ptr::null_mut() } } }
#[no_mangle] pub unsafe extern "C" fn closedir(d: *mut c_void) -> i32 { let fd = vfs().dirs[d as usize - 1].fd; close(fd) }
#[no_mangle] pub unsafe extern "C" fn dirfd(d: *mut c_void) -> i32 { vfs().dirs[d as usize - 1].fd }
#[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut u8 {
    tick(b"/srv");
    let v = vfs();
    if v.sick(b"/srv") { err(EIO); return std::ptr::null_mut() }
    let i = d as usize - 1;
    let (node, pos) = (v.dirs[i].node, v.dirs[i].pos);
    let (name, n, dir): (Vec<u8>, usize, bool) = if pos == 0 { (b".".to_vec(), node, true) } else if pos == 1 { (b"..".to_vec(), 0, true) } else {
        match v.dirs[i].kids.get(pos - 2) { None => return std::ptr::null_mut(), Some((nm, n)) => (nm.clone(), *n, v.nodes[*n].dir) }
    };
    v.dirs[i].pos += 1;
    let e = &mut v.dirs[i].ent;
    e[..8].copy_from_slice(&(n as u64 + 2).to_le_bytes());
    e[16] = 24; e[17] = 1;
    e[18] = if dir { 4 } else { 8 };
    e[19..19 + name.len()].copy_from_slice(&name);
    e[19 + name.len()] = 0;
    e.as_mut_ptr()
}
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_: i32, ts: *mut i64) -> i32 { *ts = vfs().clock; *ts.add(1) = 0; 0 }
#[no_mangle] pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _: u32) -> isize {
    let v = vfs();
    for i in 0..n { v.rng = v.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); *p.add(i) = (v.rng >> 33) as u8 }
    n as isize
}
#[no_mangle] pub unsafe extern "C" fn sched_getaffinity(_: i32, n: usize, set: *mut u8) -> i32 { std::ptr::write_bytes(set, 0, n); *set = 1; 0 }
#[cfg(not(feature = "native"))]
#[no_mangle] pub unsafe extern "C" fn dlsym(_: *mut c_void, name: *const u8) -> *const c_void { if cstr(name) == b"getrandom" { getrandom as *const c_void } else { std::ptr::null() } }
