//! Interface to the symbolic executor (or, natively, to the replay driver).
extern "C" {
    fn vs_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn vs_choice(n: u64, name: *const u8, nl: usize) -> u64;
    fn vs_assume(c: bool);
    fn vs_assert(c: bool, id: *const u8, nl: usize);
    fn vs_reach(id: *const u8, nl: usize);
    fn vs_note(tag: *const u8, tl: usize, p: *const u8, n: usize);
    fn vs_note_u64(tag: *const u8, tl: usize, v: u64);
    fn vs_known(tag: *const u8, tl: usize);
    fn vs_end(why: *const u8, n: usize);
    fn vs_concretize(v: u64) -> u64;
    fn vs_print(p: *const u8, n: usize);
    fn vs_symbolic() -> u32;
}
/// `n` unconstrained input bytes.
pub fn sym(name: &str, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; unsafe { vs_bytes(v.as_mut_ptr(), n, name.as_ptr(), name.len()) } v }
pub fn sym_u8(name: &str) -> u8 { sym(name, 1)[0] }
pub fn sym_u64(name: &str) -> u64 { let v = sym(name, 8); u64::from_le_bytes([v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]]) }
/// One of `0..n`; every value is explored.
pub fn choice(name: &str, n: usize) -> usize { unsafe { vs_choice(n as u64, name.as_ptr(), name.len()) as usize } }
pub fn assume(c: bool) { unsafe { vs_assume(c) } }
pub fn check(c: bool, id: &str) { unsafe { vs_assert(c, id.as_ptr(), id.len()) } }
pub fn reach(id: &str) { unsafe { vs_reach(id.as_ptr(), id.len()) } }
/// Recorded on the path and compared between the symbolic run and its native replay.
pub fn note(tag: &str, b: &[u8]) { unsafe { vs_note(tag.as_ptr(), tag.len(), b.as_ptr(), b.len()) } }
pub fn note_u64(tag: &str, v: u64) { unsafe { vs_note_u64(tag.as_ptr(), tag.len(), v) } }
/// Marks this path as an instance of a listed known finding.
pub fn known(tag: &str) { unsafe { vs_known(tag.as_ptr(), tag.len()) } }
pub fn end(why: &str) -> ! { unsafe { vs_end(why.as_ptr(), why.len()) } loop {} }
pub fn concretize(v: u64) -> u64 { unsafe { vs_concretize(v) } }
pub fn print(s: &str) { unsafe { vs_print(s.as_ptr(), s.len()) } }
pub fn symbolic() -> bool { unsafe { vs_symbolic() != 0 } }
/// The `n`-byte string is drawn from `set` only.
pub fn sym_from(name: &str, n: usize, set: &[u8]) -> Vec<u8> {
    let v = sym(name, n);
    for b in &v { let mut ok = false; for s in set { ok |= b == s } assume(ok) }
    v
}
/// `n` symbolic ASCII bytes
pub fn sym_ascii(name: &str, n: usize) -> Vec<u8> { let v = sym(name, n); for b in &v { assume(*b < 0x80) } v }
/// `lo <= b <= hi`, without a branch
#[inline(always)] pub fn within(b: u8, lo: u8, hi: u8) -> bool { b.wrapping_sub(lo) <= hi - lo }
