//! Helpers shared by the harnesses.
use crate::vk;
use stratumv2::codec::*;
use std::io::{self, Write};

pub fn enc<T: Serializable>(v: &T) -> Vec<u8> {
    let mut w = Vec::new();
    match v.serialize(&mut w) {
        Ok(n) => vk::check(n == w.len(), "the reported number of bytes is the number of bytes written"),
        Err(_) => vk::check(false, "a valid value must serialize"),
    }
    w
}

/// `v` must encode to exactly `wire` (also through the library's serialize function).
pub fn encodes_to<T: Serializable>(v: &T, wire: &[u8]) {
    let w = enc(v);
    vk::check(w.len() == wire.len(), "encoded length");
    vk::check(w == wire, "encoded bytes");
    match serialize(v) { Ok(b) => vk::check(b == wire, "serialize() yields the same bytes"), Err(_) => vk::check(false, "serialize() of a valid value") }
}

/// How many bytes of `b` (with the decoder starting at offset `start`) decoding a T consumes; None: refused.
pub fn dec_at<T: Deserializable>(b: &[u8], start: usize) -> Option<(T, usize)> {
    let mut p = ByteParser::new(b, start);
    match T::deserialize(&mut p) {
        Ok(v) => {
            // the rest is what the parser can still deliver
            let mut lo = 0;
            while p.next_by(1).is_ok() { lo += 1; }
            Some((v, b.len() - start - lo))
        }
        Err(_) => None,
    }
}

/// Decoding `pre ++ wire ++ post` at offset pre.len() must give a value for which `same` holds, consuming
/// exactly `wire`; every strict prefix of `wire` must be refused.
pub fn decodes_from<T: Deserializable>(wire: &[u8], cuts: bool, same: impl Fn(&T) -> bool) {
    match deserialize::<T>(wire) { Ok(v) => vk::check(same(&v), "decoded value"), Err(_) => vk::check(false, "decoding an encoded value must succeed") }
    let mut b = vk::any_vec(2, "pre");
    b.extend_from_slice(wire);
    b.extend_from_slice(&vk::any::<3>("post"));
    match dec_at::<T>(&b, 2) {
        Some((v, n)) => {
            vk::check(n == wire.len(), "decoding consumes exactly the encoded bytes");
            vk::check(same(&v), "decoded value (in the middle of a buffer)");
        }
        None => vk::check(false, "decoding an encoded value in the middle of a buffer must succeed"),
    }
    if cuts {
        for k in 0..wire.len() { vk::check(deserialize::<T>(&wire[..k]).is_err(), "a truncated encoding must be refused"); }
    }
}

/// Records the first `keep` bytes written and how many follow, without looking at the content of long writes.
/// What is written straight out of the buffer at `ptr` must come in order, after the head.
pub struct Recorder { pub head: Vec<u8>, pub keep: usize, pub total: usize, pub ptr: usize, pub last: usize, pub order: bool }
impl Recorder { pub fn new(keep: usize, ptr: usize) -> Self { Recorder { head: Vec::new(), keep, total: 0, ptr, last: 0, order: true } } }
impl Write for Recorder {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.total += b.len();
        let at = b.as_ptr() as usize;
        if at == self.ptr + self.last {
            self.order &= b.is_empty() || self.head.len() == self.keep;
            self.last += b.len();
        } else {
            let mut k = self.keep - self.head.len();
            if k > b.len() { k = b.len(); }
            let k = vk::concrete(k);
            self.head.extend_from_slice(&b[..k]);
            self.last += b.len() - k;
        }
        Ok(b.len())
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> { self.write(b).map(|_| ()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
