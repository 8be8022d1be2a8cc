//! C01 fixed-width values, C02 length-limited values.
use crate::util::*;
use crate::{harnesses, vk};
use std::convert::TryFrom;
use stratumv2::codec::*;
use stratumv2::types::*;

const LIMITS_WIDE: &[usize] = &[0, 1, 2, 3, 30, 31, 32, 33, 34, 63, 64, 65, 126, 127, 128, 129, 130, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513];

macro_rules! b0 {
    ($t:ident, $max:expr, $pfx:expr, $n:expr, $a:expr) => {{
        let (n, a): (usize, &[u8]) = ($n, $a);
        match $t::new(&a[..n]) {
            Ok(v) => {
                vk::check(n <= $max, "a byte string above the limit must be refused");
                vk::check(v.data.len() == n && v.data == a[..n], "content is kept");
                vk::check(usize::try_from(v.length.clone()).unwrap_or(usize::MAX) == n, "the length field is the content length");
                let mut wire = (n as u32).to_le_bytes()[..$pfx].to_vec();
                wire.extend_from_slice(&a[..n]);
                encodes_to(&v, &wire);
                let back: Vec<u8> = v.clone().into();
                vk::check(back == a[..n], "conversion to Vec");
                vk::check(v == back && back == v, "comparison with Vec");
                decodes_from::<$t>(&wire, n <= 8, |w| w.data == a[..n] && *w == v && usize::try_from(w.length.clone()).unwrap_or(usize::MAX) == n);
                if n > 0 { vk::check(deserialize::<$t>(&wire[..wire.len() - 1]).is_err(), "one missing byte must be refused"); }
                if n == $max { vk::cover("maximum length"); }
                if n == 0 { vk::cover("empty"); }
            }
            Err(_) => { vk::check(n > $max, "a byte string within the limit must be accepted"); vk::cover("too long"); }
        }
        // a decoder faced with the same content behind a true length prefix enforces the same limit
        if n < 1usize << (8 * $pfx) {
            let mut wire = (n as u32).to_le_bytes()[..$pfx].to_vec();
            wire.extend_from_slice(&a[..n]);
            vk::check(deserialize::<$t>(&wire).is_ok() == (n <= $max), "decoding enforces the limit");
        }
    }};
}

/// lengths that straddle every power of two up to `max`
fn straddle(max: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut k = 512;
    while k <= max + 1 { for d in [k - 1, k, k + 1] { if d <= max + 2 { v.push(d); } } k *= 2; }
    v
}

/// n bytes: a position-dependent pattern with symbolic bytes at both ends and in the middle
fn big_bytes(n: usize) -> Vec<u8> {
    let mut a = vec![0x5au8; n];
    let s = vk::any::<12>("big");
    for i in 0..4.min(n) { a[i] = s[i]; }
    if n > 40 { for i in 0..4 { a[n / 2 + i] = s[4 + i]; a[n - 4 + i] = s[8 + i]; } }
    let mut k = 1;
    while k < n { a[k] ^= 1; k *= 2; }
    a
}

fn strings<F: Fn(String) -> Option<(u8, String, Vec<u8>)>, D: Fn(&[u8]) -> Option<String>>(max: usize, new: F, dec: D) {
    let kind = vk::each(4, "kind");
    let s = if kind == 4 { vk::ascii(vk::one_of(LIMITS_WIDE, "n"), "s") } else {
        // repeated multi-byte characters: the limit counts bytes, not characters
        let c = ["a", "\u{e9}", "\u{20ac}", "\u{1f600}"][kind];
        let n = vk::one_of(&[0, 1, 2, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 84, 85, 86, 127, 128, 129, 254, 255, 256, 257], "n");
        c.repeat(n)
    };
    let n = s.len();
    match new(s.clone()) {
        Some((len, data, wire)) => {
            vk::check(n <= max, "a string above the limit must be refused");
            vk::check(data == s, "content is kept");
            vk::check(len as usize == n, "the length field counts bytes");
            vk::check(wire.len() == n + 1 && wire[0] as usize == n && wire[1..] == *s.as_bytes(), "encoding is the length byte and the bytes");
            match dec(&wire) { Some(t) => vk::check(t == s, "round trip"), None => vk::check(false, "decoding an encoded string") }
            for k in [0, n / 2, n] { vk::check(dec(&wire[..k]).is_none(), "truncated string must be refused"); }
            if n == max { vk::cover("maximum length"); }
            if n > 0 && kind == 3 { vk::cover("multi-byte"); }
        }
        None => { vk::check(n > max, "a string within the limit must be accepted"); vk::cover("too long"); }
    }
    if n <= 255 {
        let mut wire = vec![n as u8];
        wire.extend_from_slice(s.as_bytes());
        vk::check(dec(&wire).is_some() == (n <= max), "decoding enforces the limit");
    }
}

/// decoding of `n` fully arbitrary bytes behind an arbitrary length byte, at position `at` of an otherwise ASCII string
fn str_bytes<D: Fn(&[u8]) -> Option<String>>(max: usize, dec: D) {
    let w = vk::param("window", 4) as usize;
    let before = vk::one_of(&[0, 1, 7, 15, 16, 27, 28, 29, 251], "before");
    let after = vk::one_of(&[0, 1, 8], "after");
    let mut b = vec![];
    b.extend_from_slice(&vec![b'x'; before]);
    b.extend_from_slice(&vk::any_vec(w, "bytes"));
    b.extend_from_slice(&vec![b'y'; after]);
    if b.len() > 255 { return; }
    let mut wire = vec![b.len() as u8];
    wire.extend_from_slice(&b);
    let ok = std::str::from_utf8(&b).is_ok() && b.len() <= max;
    match dec(&wire) {
        Some(s) => { vk::check(ok, "invalid UTF-8 or an overlong string must be refused"); vk::check(s.as_bytes() == &b[..], "the bytes are kept"); vk::cover("accepted"); }
        None => { vk::check(!ok, "valid UTF-8 within the limit must be accepted"); vk::cover("refused"); }
    }
}

/// an arbitrary length prefix in front of few bytes: accepted exactly when the bytes are there
macro_rules! short_input {
    ($t:ident, $max:expr, $pfx:expr) => {{
        let have = vk::each(6, "have");
        let mut b = vk::any_vec($pfx, "prefix");
        let mut l = [0u8; 4];
        l[..$pfx].copy_from_slice(&b);
        let l = u32::from_le_bytes(l) as usize;
        let body = vk::any_vec(have, "body");
        b.extend_from_slice(&body);
        match deserialize::<$t>(&b) {
            Ok(v) => { vk::check(l <= have && l <= $max, "a prefix longer than the input must be refused"); let l = vk::concrete(l); vk::check(v.data == body[..l], "decoded content"); vk::cover("fits"); }
            Err(_) => { vk::check(l > have || l > $max, "a value that is there must be accepted"); vk::cover("missing bytes"); }
        }
        for k in 0..$pfx { vk::check(deserialize::<$t>(&b[..k]).is_err(), "a truncated prefix must be refused"); }
    }};
}

/// any length at all (symbolic), content untouched: construction and the encoded prefix
macro_rules! any_length {
    ($t:ident, $max:expr, $pfx:expr) => {{
        let n = vk::upto((1usize << 32) + 70000, "n");
        let v = vk::opaque_vec(n);
        let p = v.as_ptr() as usize;
        match $t::new(v) {
            Ok(v) => {
                vk::check(n <= $max, "a byte string above the limit must be refused");
                vk::check(v.data.len() == n, "content length is kept");
                vk::check(usize::try_from(v.length.clone()).unwrap_or(usize::MAX) == n, "the length field is the content length");
                let mut w = Recorder::new($pfx, v.data.as_ptr() as usize);
                match v.serialize(&mut w) { Ok(k) => { vk::check(k == n + $pfx, "reported size"); vk::check(w.total == n + $pfx && w.last == n && w.order, "written size"); } Err(_) => vk::check(false, "serialization of a valid value") }
                vk::check(w.head.len() == $pfx && w.head[..] == (n as u32).to_le_bytes()[..$pfx], "length prefix");
                std::mem::forget(v);
                vk::cover("accepted");
            }
            Err(_) => { vk::check(n > $max, "a byte string within the limit must be accepted"); vk::cover("refused"); }
        }
    }};
}

harnesses! {
fn h_c01_prims() {
    let a = vk::u8_("u8");
    encodes_to(&a, &[a]);
    decodes_from::<u8>(&[a], true, |v| *v == a);
    let b = vk::u16_("u16");
    let w = [b as u8, (b >> 8) as u8];
    encodes_to(&b, &w);
    decodes_from::<u16>(&w, true, |v| *v == b);
    let c = vk::u32_("u32");
    let w = [c as u8, (c >> 8) as u8, (c >> 16) as u8, (c >> 24) as u8];
    encodes_to(&c, &w);
    decodes_from::<u32>(&w, true, |v| *v == c);
    // every bit pattern of a float, NaNs included
    let f = f32::from_bits(c);
    encodes_to(&f, &w);
    decodes_from::<f32>(&w, true, |v| v.to_bits() == c);
    let t = vk::bool_("bool");
    encodes_to(&t, &[t as u8]);
    decodes_from::<bool>(&[t as u8], true, |v| *v == t);
    // only the least significant bit of a received boolean counts
    decodes_from::<bool>(&[a], true, |v| *v == (a & 1 == 1));
    vk::cover("done");
}
fn h_c01_fixed() {
    let n = vk::u32_("n");
    match U24::new(n) {
        Ok(v) => {
            vk::check(n < 1 << 24, "a number above 2^24-1 is not a 24-bit integer");
            vk::check(v == n && n == v && v.0 == n, "value");
            vk::check(u32::from(v.clone()) == n && usize::from(v.clone()) == n as usize, "conversions back");
            let w = [n as u8, (n >> 8) as u8, (n >> 16) as u8];
            encodes_to(&v, &w);
            decodes_from::<U24>(&w, true, |x| x.0 == n);
            vk::cover("24-bit");
        }
        Err(_) => { vk::check(n >= 1 << 24, "every number up to 2^24-1 is a 24-bit integer"); vk::cover("refused"); }
    }
    let m = vk::u64_("m") as usize;
    match U24::try_from(m) {
        Ok(v) => vk::check(m < 1 << 24 && v.0 as usize == m, "a usize becomes a 24-bit integer only when it fits"),
        Err(_) => vk::check(m >= 1 << 24, "a usize that fits is accepted"),
    }
    match U24::try_from(n) { Ok(v) => vk::check(n < 1 << 24 && v.0 == n, "try_from(u32)"), Err(_) => vk::check(n >= 1 << 24, "try_from(u32) refuses too much") }
    let b = vk::any::<3>("b");
    match deserialize::<U24>(&b) { Ok(v) => vk::check(v.0 == b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16, "decoding three bytes"), Err(_) => vk::check(false, "three bytes are always a 24-bit integer") }
    let x = vk::any::<32>("u256");
    let v = U256(x);
    encodes_to(&v, &x);
    decodes_from::<U256>(&x, true, |y| y.0 == x && *y == x);
    let y: U256 = x.into();
    let z: [u8; 32] = y.clone().into();
    vk::check(y == v && z == x && z == y && y == z, "conversions of a 256-bit integer");
    vk::cover("done");
}
/// ByteParser: any buffer, start and step
fn h_c01_parser() {
    let n = vk::each(6, "n");
    let b = vk::any_vec(n, "b");
    let start = vk::u64_("start") as usize;
    let s1 = vk::u64_("s1") as usize;
    let s2 = vk::u64_("s2") as usize;
    let mut p = ByteParser::new(&b, start);
    let fits = |at: usize, s: usize| at <= n && s <= n - at;
    let mut at = start;
    match p.next_by(s1) {
        Ok(x) => { vk::check(fits(start, s1), "bytes outside the buffer"); let (s, k) = (vk::concrete(start), vk::concrete(s1)); vk::check(x == &b[s..s + k], "delivered bytes"); at = s + k; vk::cover("first"); }
        Err(_) => vk::check(!fits(start, s1), "available bytes refused"),
    }
    match p.next_by(s2) {
        Ok(x) => { vk::check(fits(at, s2), "bytes outside the buffer"); let (s, k) = (vk::concrete(at), vk::concrete(s2)); vk::check(x == &b[s..s + k], "a refused step must not move the parser, an accepted one moves it by its size"); vk::cover("second"); }
        Err(_) => { vk::check(!fits(at, s2), "available bytes refused"); vk::cover("refused"); }
    }
}
fn h_c02_b31() { let a = vk::any::<513>("a"); let n = vk::each(vk::param("max", 300) as usize, "n"); b0!(B0_31, 31, 1, n, &a); }
fn h_c02_b32() { let a = vk::any::<513>("a"); let n = vk::each(vk::param("max", 300) as usize, "n"); b0!(B0_32, 32, 1, n, &a); }
fn h_c02_b255() { let a = vk::any::<513>("a"); let n = vk::each(vk::param("max", 300) as usize, "n"); b0!(B0_255, 255, 1, n, &a); }
fn h_c02_b64k() { let a = vk::any::<513>("a"); let n = vk::each(vk::param("max", 300) as usize, "n"); b0!(B0_64K, 65535, 2, n, &a); }
fn h_c02_b16m() { let a = vk::any::<513>("a"); let n = vk::each(vk::param("max", 300) as usize, "n"); b0!(B0_16M, 16777215, 3, n, &a); }
fn h_c02_b64k_big() { let v = straddle(1 << 16); let n = vk::one_of(&v, "n"); let a = big_bytes(n); b0!(B0_64K, 65535, 2, n, &a); }
fn h_c02_b16m_big() { let v = straddle(vk::param("max", 1 << 17) as usize); let n = vk::one_of(&v, "n"); let a = big_bytes(n); b0!(B0_16M, 16777215, 3, n, &a); }
fn h_c02_any_b31() { any_length!(B0_31, 31, 1); }
fn h_c02_any_b32() { any_length!(B0_32, 32, 1); }
fn h_c02_any_b255() { any_length!(B0_255, 255, 1); }
fn h_c02_any_b64k() { any_length!(B0_64K, 65535, 2); }
fn h_c02_any_b16m() { any_length!(B0_16M, 16777215, 3); }
fn h_c02_short_b() {
    match vk::each(4, "type") {
        0 => short_input!(B0_31, 31, 1),
        1 => short_input!(B0_32, 32, 1),
        2 => short_input!(B0_255, 255, 1),
        3 => short_input!(B0_64K, 65535, 2),
        _ => short_input!(B0_16M, 16777215, 3),
    }
}
fn h_c02_str32() {
    strings(32, |s| STR0_32::new(s).ok().map(|v| (v.length, v.data.clone(), enc(&v))), |b| dec_at::<STR0_32>(b, 0).map(|(v, n)| { vk::check(n == 1 + v.data.len() && v.length as usize == v.data.len(), "consumed"); v.into() }));
}
fn h_c02_str255() {
    strings(255, |s| STR0_255::new(s).ok().map(|v| (v.length, v.data.clone(), enc(&v))), |b| dec_at::<STR0_255>(b, 0).map(|(v, n)| { vk::check(n == 1 + v.data.len() && v.length as usize == v.data.len(), "consumed"); v.into() }));
}
fn h_c02_utf8_32() { str_bytes(32, |b| deserialize::<STR0_32>(b).ok().map(|v| v.data)); }
fn h_c02_utf8_255() { str_bytes(255, |b| deserialize::<STR0_255>(b).ok().map(|v| v.data)); }
/// an arbitrary length byte in front of few arbitrary bytes
fn h_c02_short_str() {
    let have = vk::each(vk::param("have", 3) as usize, "have");
    let l = vk::u8_("prefix");
    let body = vk::any_vec(have, "body");
    let mut b = vec![l];
    b.extend_from_slice(&body);
    let r32 = deserialize::<STR0_32>(&b).ok().map(|v| v.data);
    let r255 = deserialize::<STR0_255>(&b).ok().map(|v| v.data);
    vk::check(r32.is_some() == r255.is_some(), "both accept a short string");
    match r255 {
        Some(s) => { vk::check(l as usize <= have, "a prefix longer than the input must be refused"); let l = vk::concrete(l as usize); vk::check(s.as_bytes() == &body[..l], "content"); vk::check(r32 == Some(s), "content (32)"); vk::cover("accepted"); }
        None => { if (l as usize) <= have { let l = vk::concrete(l as usize); vk::check(std::str::from_utf8(&body[..l]).is_err(), "a valid string must be accepted"); vk::cover("bad utf8"); } else { vk::cover("missing bytes"); } }
    }
}
}
