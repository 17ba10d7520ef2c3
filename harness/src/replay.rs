//! Native replay of one path: `replay ENTRY < inputs`, where inputs are lines `I name hex` and `C name k`.
//! Prints notes, reached marks and failed assertions.
#![allow(static_mut_refs)]
use std::io::{Read, Write};
use vharness::hash;
static mut INS: Vec<(String, Vec<u8>)> = Vec::new();
static mut CHS: Vec<(String, u64)> = Vec::new();
static mut FAILED: bool = false;
unsafe fn s(p: *const u8, n: usize) -> String { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() }
fn out(x: String) { let mut o = std::io::stdout(); let _ = o.write_all(x.as_bytes()); let _ = o.write_all(b"\n"); let _ = o.flush(); }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn done() -> ! { out("END".into()); std::process::exit(if unsafe { FAILED } { 10 } else { 0 }) }
#[no_mangle] unsafe extern "C" fn vs_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize) {
    let nm = s(name, nl);
    if INS.is_empty() { std::ptr::write_bytes(p, 0, n); out(format!("DEFAULT {}", nm)); return }
    let (k, v) = INS.remove(0);
    if k != nm || v.len() != n { out(format!("MISMATCH wanted {} {} got {} {}", nm, n, k, v.len())); std::process::exit(3) }
    std::ptr::copy_nonoverlapping(v.as_ptr(), p, n);
}
#[no_mangle] unsafe extern "C" fn vs_choice(_n: u64, name: *const u8, nl: usize) -> u64 {
    let nm = s(name, nl);
    if CHS.is_empty() { out(format!("DEFAULT {}", nm)); return 0 }
    let (k, v) = CHS.remove(0);
    if k != nm { out(format!("MISMATCH wanted choice {} got {}", nm, k)); std::process::exit(3) }
    v
}
#[no_mangle] unsafe extern "C" fn vs_assume(c: bool) { if !c { out("ASSUME".into()); std::process::exit(4) } }
#[no_mangle] unsafe extern "C" fn vs_assert(c: bool, id: *const u8, nl: usize) { if !c { out(format!("FAIL {}", s(id, nl))); FAILED = true; done() } }
#[no_mangle] unsafe extern "C" fn vs_reach(id: *const u8, nl: usize) { out(format!("REACH {}", s(id, nl))) }
#[no_mangle] unsafe extern "C" fn vs_note(t: *const u8, tl: usize, p: *const u8, n: usize) { out(format!("NOTE {} {}", s(t, tl), hex(std::slice::from_raw_parts(p, n)))) }
#[no_mangle] unsafe extern "C" fn vs_note_u64(t: *const u8, tl: usize, v: u64) { out(format!("NOTE {} {}", s(t, tl), hex(&v.to_le_bytes()))) }
#[no_mangle] unsafe extern "C" fn vs_known(t: *const u8, tl: usize) { out(format!("KNOWN {}", s(t, tl))) }
#[no_mangle] unsafe extern "C" fn vs_end(_: *const u8, _: usize) { done() }
#[no_mangle] unsafe extern "C" fn vs_concretize(v: u64) -> u64 { v }
#[no_mangle] unsafe extern "C" fn vs_print(p: *const u8, n: usize) { out(format!("PRINT {}", s(p, n))) }
#[no_mangle] unsafe extern "C" fn vs_symbolic() -> u32 { 0 }
#[no_mangle] unsafe extern "C" fn vs_sha256_compress(st: *mut u32, b: *const u8) { let h = &mut *(st as *mut [u8; 32]); let r = hash::sha256(&h[..], &*(b as *const [u8; 64])); h.copy_from_slice(&r); }
#[no_mangle] unsafe extern "C" fn vs_md5_compress(st: *mut u32, b: *const u8) { let h = &mut *(st as *mut [u8; 16]); let r = hash::md5(&h[..], &*(b as *const [u8; 64])); h.copy_from_slice(&r); }
fn main() {
    let entry = std::env::args().nth(1).unwrap();
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    for l in t.lines() {
        let mut w = l.splitn(3, '\t');
        match (w.next(), w.next(), w.next()) {
            (Some("I"), Some(n), Some(h)) => { let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(); unsafe { INS.push((n.into(), b)) } }
            (Some("C"), Some(n), Some(k)) => unsafe { CHS.push((n.into(), k.parse().unwrap())) },
            _ => {}
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        out(format!("PANIC {}", l));
        std::process::exit(11)
    }));
    #[cfg(feature = "server")]
    if let Some((_, f)) = vharness::prog::TABLE.iter().find(|(n, _)| *n == entry) { f(); done() }
    match vharness::TABLE.iter().find(|(n, _)| *n == entry) { Some((_, f)) => f(), None => { out(format!("NOENTRY {}", entry)); std::process::exit(5) } }
    done()
}
