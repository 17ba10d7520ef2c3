
// Verification stub: the compression function is an external symbol.
extern "C" { fn vs_md5_compress(state: *mut u32, block: *const u8); }
pub fn compress(state: &mut [u32; 4], blocks: &[[u8; 64]]) {
    for b in blocks { unsafe { vs_md5_compress(state.as_mut_ptr(), b.as_ptr()) } }
}
