//! The public header parsers against what S3 and HTTP document.
use crate::rt::*;
use s3_server::headers::*;

fn text(v: &[u8]) -> &str { match std::str::from_utf8(v) { Ok(s) => s, Err(_) => { assume(false); "" } } }
fn digit(b: u8) -> bool { within(b, b'0', b'9') }
/// decimal number without a sign that fits 64 bits
fn number(d: &[u8]) -> Option<u64> {
    if d.is_empty() { return None }
    let mut n: u128 = 0;
    for c in d { if !digit(*c) { return None } n = n.wrapping_mul(10).wrapping_add((*c - b'0') as u128); if n > u64::MAX as u128 { return None } }
    Some(n as u64)
}
/// bytes=first-, bytes=first-last, bytes=-last
fn range_ref(h: &[u8]) -> Option<(Option<u64>, Option<u64>)> {
    let r = h.strip_prefix(b"bytes=")?;
    let i = r.iter().position(|b| *b == b'-')?;
    let (a, b) = (&r[..i], &r[i + 1..]);
    if a.is_empty() { return Some((None, Some(number(b)?))) }
    let f = number(a)?;
    if b.is_empty() { return Some((Some(f), None)) }
    let l = number(b)?;
    if f > l { None } else { Some((Some(f), Some(l))) }
}
fn range_check(h: &[u8]) {
    let got = match Range::from_header_str(text(h)) { Ok(Range::Normal { first, last }) => Some((Some(first), last)), Ok(Range::Suffix { last }) => Some((None, Some(last))), Err(_) => None };
    let want = range_ref(h);
    check(got == want, "a Range header is read exactly or refused");
    if got.is_some() { reach("range") } else { reach("refused") }
}
#[no_mangle] pub extern "C" fn p_range() {
    match choice("form", 5) {
        0 => range_check(&sym_ascii("range", 5)),
        1 => { let mut h = b"bytes=".to_vec(); h.extend(sym("range", choice("length", 6))); range_check(&h) }
        2 => { let mut h = b"bytes=1-9".to_vec(); let i = choice("position", 9); h[i] = sym_ascii("char", 1)[0]; range_check(&h) }
        3 => { let mut h = b"bytes=".to_vec(); let big: [&[u8]; 6] = [b"18446744073709551615", b"18446744073709551616", b"18446744073709551614", b"00000000000000000000000007", b"9223372036854775808", b"99999999999999999999999999999999999999"]; let (a, b) = (choice("first", 7), choice("last", 7)); if a > 0 { h.extend(big[a - 1]) } h.extend(sym_ascii("dash", 1)); if b > 0 { h.extend(big[b - 1]) } range_check(&h) }
        _ => { let mut h = b"bytes=0-1".to_vec(); h.extend(sym_ascii("tail", 1 + choice("length", 2))); range_check(&h) }
    }
}
const DATE: &[u8] = b"20240229T235959Z";
#[no_mangle] pub extern "C" fn p_date() { date([0, 2, 3, 4][choice("form", 4)]) }
#[no_mangle] pub extern "C" fn p_date_pairs() { date(1) }
fn date(form: usize) {
    let mut h = DATE.to_vec();
    match form {
        0 => { let i = choice("position", 15); let s = sym_ascii("char", 2); h[i] = s[0]; h[i + 1] = s[1] }
        1 => { let i = choice("position", 15); let j = choice("other", 15); assume(j >= i); h[i] = sym_ascii("char", 1)[0]; h[j + 1] = sym_ascii("char", 1)[0] }
        4 => { let i = choice("position", 16); h[i] = sym("char", 1)[0] }
        2 => { let n = choice("length", 18); h.truncate(n); h.extend(sym("char", 2)) }
        _ => { let i = choice("position", 17); h.splice(i..i, sym("char", 1)); }
    }
    let mut want = h.len() == 16;
    if want { for (i, c) in h.iter().enumerate() { want &= if i == 8 { *c == b'T' } else if i == 15 { *c == b'Z' } else { digit(*c) } } }
    match AmzDate::from_header_str(text(&h)) {
        Ok(d) => { check(want, "a date that is not of the form YYYYMMDDTHHMMSSZ is refused"); check(d.to_iso8601().as_bytes() == &h[..] && d.to_date().as_bytes() == &h[..8], "a date is read exactly"); reach("date") }
        Err(_) => { check(!want, "a date of the form YYYYMMDDTHHMMSSZ is accepted"); reach("refused") }
    }
}
#[no_mangle] pub extern "C" fn p_sha256() {
    let full: [&[u8]; 3] = [b"UNSIGNED-PAYLOAD", b"STREAMING-AWS4-HMAC-SHA256-PAYLOAD", b"e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"];
    let k = choice("form", 4);
    let mut h = if k < 3 { full[k].to_vec() } else { vec![b'a'; 64] };
    match choice("change", 4) {
        0 => {}
        1 => { let n = h.len(); h[choice("position", 64) % n] = sym("char", 1)[0] }
        2 => { let n = h.len(); let c = [1, 2, n - 3, n - 2, n - 1, n][choice("cut", 6)]; h.truncate(n - c) }
        _ => { h.extend(sym("char", 1 + choice("length", 2))) }
    }
    let mut hex = h.len() == 64; if hex { for c in &h { hex &= digit(*c) | within(*c, b'a', b'f') } }
    match AmzContentSha256::from_header_str(text(&h)) {
        Ok(AmzContentSha256::UnsignedPayload) => { check(h == full[0], "the payload hash header is read exactly"); reach("unsigned") }
        Ok(AmzContentSha256::MultipleChunks) => { check(h == full[1], "the payload hash header is read exactly"); reach("chunks") }
        Ok(AmzContentSha256::SingleChunk { payload_checksum }) => { check(hex && payload_checksum.as_bytes() == &h[..], "the payload hash header is read exactly"); reach("hash") }
        Err(_) => { check(!hex & (h != full[0]) & (h != full[1]), "a valid payload hash header is accepted"); reach("refused") }
    }
}
fn no(f: &[u8], sep: &[u8]) -> bool { let mut ok = true; for b in f { for s in sep { ok &= b != s } } ok }
const SPACE: &[u8] = b" \t\r\n\x0c";
fn blank(b: u8) -> bool { (b == b' ') | (b == b'\t') | (b == b'\r') | (b == b'\n') }
fn calendar(d: &[u8]) -> bool {
    if d.len() != 8 { return false }
    let mut ok = true; for c in d { ok &= digit(*c) }
    if !ok { return false }
    let n = |a: usize, b: usize| d[a..b].iter().fold(0u32, |n, c| n * 10 + (*c - b'0') as u32);
    let (y, m, day) = (n(0, 4), n(4, 6), n(6, 8));
    let leap = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0));
    let last = if (m == 4) | (m == 6) | (m == 9) | (m == 11) { 30 } else if m == 2 { if leap { 29 } else { 28 } } else { 31 };
    (m >= 1) & (m <= 12) & (day >= 1) & (day <= last)
}
/// what is accepted is the rendering of the fields it was read as, but for white space
fn auth_check(h: &[u8], must: bool) {
    let t = text(h);
    let Ok(a) = AuthorizationV4::from_header_str(t) else { check(!must, "a valid Authorization header is accepted"); reach("refused"); return };
    let c = &a.credential;
    let mut i = 0;
    let mut ok = true;
    let lit = |i: &mut usize, s: &[u8], ok: &mut bool| { *ok = *ok && h.len() >= *i + s.len() && &h[*i..*i + s.len()] == s; *i += s.len() };
    let ws = |i: &mut usize, least: usize, ok: &mut bool| { let mut n = 0; while *i < h.len() && blank(h[*i]) { *i += 1; n += 1 } *ok &= n >= least };
    lit(&mut i, a.algorithm.as_bytes(), &mut ok); ws(&mut i, 1, &mut ok);
    lit(&mut i, b"Credential=", &mut ok); lit(&mut i, c.access_key_id.as_bytes(), &mut ok); lit(&mut i, b"/", &mut ok); lit(&mut i, c.date.as_bytes(), &mut ok); lit(&mut i, b"/", &mut ok);
    lit(&mut i, c.aws_region.as_bytes(), &mut ok); lit(&mut i, b"/", &mut ok); lit(&mut i, c.aws_service.as_bytes(), &mut ok); lit(&mut i, b"/aws4_request,", &mut ok); ws(&mut i, 0, &mut ok);
    lit(&mut i, b"SignedHeaders=", &mut ok);
    for (k, s) in a.signed_headers.iter().enumerate() { if k > 0 { lit(&mut i, b";", &mut ok) } lit(&mut i, s.as_bytes(), &mut ok); check(no(s.as_bytes(), b";,") && !s.is_empty(), "the fields of an Authorization header are read exactly") }
    lit(&mut i, b",", &mut ok); ws(&mut i, 0, &mut ok);
    lit(&mut i, b"Signature=", &mut ok); lit(&mut i, a.signature.as_bytes(), &mut ok); ws(&mut i, 0, &mut ok);
    check(ok && i == h.len(), "the fields of an Authorization header are read exactly");
    check(no(c.access_key_id.as_bytes(), b"/") && no(c.aws_region.as_bytes(), b"/") && no(c.aws_service.as_bytes(), b"/") && no(a.algorithm.as_bytes(), SPACE) && no(a.signature.as_bytes(), SPACE), "the fields of an Authorization header are read exactly");
    check(!c.access_key_id.is_empty() && !c.aws_service.is_empty() && !a.signed_headers.is_empty(), "an Authorization header with empty fields is refused");
    check(calendar(c.date.as_bytes()), "a credential date that is no date is refused");
    reach("read");
}
const AUTH: &[&[u8]] = &[b"AWS4-HMAC-SHA256", b" ", b"Credential=", b"AK", b"/", b"20240229", b"/", b"us-1", b"/", b"s3", b"/", b"aws4_request", b",", b"SignedHeaders=", b"host;x-amz-date", b",", b"Signature=", b"0a1b"];
#[no_mangle] pub extern "C" fn p_auth() {
    let whole: Vec<u8> = AUTH.concat();
    match choice("form", 4) {
        0 => { let mut h = whole; let i = choice("position", 113) % h.len(); h[i] = sym("char", 1)[0]; auth_check(&h, false) } // one byte anywhere
        1 => { let mut h = whole; let i = choice("position", 113) % (h.len() + 1); h.splice(i..i, sym("char", 1)); auth_check(&h, false) }
        2 => { let mut h = whole; let i = choice("position", 113) % (h.len() + 1); h.truncate(i); h.extend(sym_ascii("tail", choice("length", 2))); auth_check(&h, false) }
        _ => { // fields of arbitrary content
            let f = [3, 7, 9, 14, 17][choice("field", 5)];
            let v = sym("value", 1 + choice("length", 3));
            let t = text(&v); let _ = t;
            assume(no(&v, match f { 3 | 7 | 9 => b"/", 14 => b";,", _ => SPACE }));
            let mut h = vec![]; for (i, s) in AUTH.iter().enumerate() { if i == f { h.extend_from_slice(&v) } else { h.extend_from_slice(s) } }
            auth_check(&h, true)
        }
    }
}
#[no_mangle] pub extern "C" fn p_auth_date() { auth_date(false) }
#[no_mangle] pub extern "C" fn p_auth_date_pairs() { auth_date(true) }
fn auth_date(all: bool) {
    let f = choice("form", 3);
    let mut d = match f { 0 => b"20240229".to_vec(), 1 => b"19000228".to_vec(), _ => b"20231231".to_vec() };
    let i = choice("position", 7); let j = if all { choice("other", 7) } else { i };
    assume(j >= i);
    d[i] = sym_ascii("digit", 1)[0]; d[j + 1] = sym_ascii("digit", 1)[0];
    let mut h = vec![]; for (i, s) in AUTH.iter().enumerate() { if i == 5 { h.extend_from_slice(&d) } else { h.extend_from_slice(s) } }
    text(&h);
    auth_check(&h, calendar(&d))
}
#[no_mangle] pub extern "C" fn p_copy() {
    let h = match choice("form", 3) { 0 => sym("source", choice("length", 6)), 1 => { let mut h = b"bkt/".to_vec(); h.extend(sym("source", choice("length", 4))); h } _ => { let mut h = sym("source", 4); h.extend(b"/k"); h } };
    let t = text(&h);
    let slash = h.iter().skip(1).position(|b| *b == b'/').map(|i| i + 1);
    match AmzCopySource::from_header_str(t) {
        Ok(AmzCopySource::Bucket { bucket, key }) => { check(Some(bucket.len()) == slash && [bucket.as_bytes(), b"/", key.as_bytes()].concat() == h && !key.is_empty() && s3_server::path::S3Path::check_bucket_name(bucket), "a copy source is read as bucket and key exactly"); reach("read") }
        Ok(_) => check(false, "a copy source is read as bucket and key exactly"),
        Err(_) => { if let Some(i) = slash { check(i + 1 == h.len() || !s3_server::path::S3Path::check_bucket_name(&t[..i]), "a valid copy source is accepted") } reach("refused") }
    }
}
