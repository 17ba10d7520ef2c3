//! Concrete SHA-256 and MD5 compression functions (state and block as bytes; state words big/little endian as stored by the stubs).
const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
/// state: eight native-endian (little-endian) words
pub fn sha256(state: &[u8], block: &[u8]) -> Vec<u8> {
    let mut s = [0u32; 8];
    for i in 0..8 { s[i] = u32::from_le_bytes(state[4 * i..4 * i + 4].try_into().unwrap()) }
    let mut w = [0u32; 64];
    for i in 0..16 { w[i] = u32::from_be_bytes(block[4 * i..4 * i + 4].try_into().unwrap()) }
    for i in 16..64 {
        let a = w[i - 15]; let b = w[i - 2];
        let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
        let s1 = b.rotate_right(17) ^ b.rotate_right(19) ^ (b >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = s;
    for i in 0..64 {
        let [a, b, c, d, e, f, g, h] = v;
        let t1 = h.wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25)).wrapping_add((e & f) ^ (!e & g)).wrapping_add(K[i]).wrapping_add(w[i]);
        let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22)).wrapping_add((a & b) ^ (a & c) ^ (b & c));
        v = [t1.wrapping_add(t2), a, b, c, d.wrapping_add(t1), e, f, g];
    }
    let mut out = vec![];
    for i in 0..8 { out.extend(s[i].wrapping_add(v[i]).to_le_bytes()) }
    out
}
pub fn md5(state: &[u8], block: &[u8]) -> Vec<u8> {
    const S: [u32; 16] = [7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21];
    let g = |b: &[u8], i: usize| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
    let s: Vec<u32> = (0..4).map(|i| g(state, i)).collect();
    let m: Vec<u32> = (0..16).map(|i| g(block, i)).collect();
    let (mut a, mut b, mut c, mut d) = (s[0], s[1], s[2], s[3]);
    for i in 0..64usize {
        let (f, k) = match i / 16 { 0 => ((b & c) | (!b & d), i), 1 => ((d & b) | (!d & c), (5 * i + 1) % 16), 2 => (b ^ c ^ d, (3 * i + 5) % 16), _ => (c ^ (b | !d), (7 * i) % 16) };
        let t = (((i as f64 + 1.0).sin().abs()) * 4294967296.0) as u32;
        let x = a.wrapping_add(f).wrapping_add(t).wrapping_add(m[k]);
        a = d; d = c; c = b;
        b = b.wrapping_add(x.rotate_left(S[(i / 16) * 4 + i % 4]));
    }
    let mut out = vec![];
    for (x, y) in [a, b, c, d].iter().zip(&s) { out.extend(x.wrapping_add(*y).to_le_bytes()) }
    out
}
