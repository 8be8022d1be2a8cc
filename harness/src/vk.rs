//! The verification API. Under feature `sym` every call is interpreted by the symbolic executor;
//! otherwise (native replay) the same calls read recorded values and check assertions concretely.

#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        fn vk_any(p: *mut u8, n: usize, l: *const u8, ln: usize);
        fn vk_assume(c: bool);
        fn vk_assert(c: bool, m: *const u8, n: usize);
        fn vk_cover(m: *const u8, n: usize);
        fn vk_possible(c: bool) -> bool;
        fn vk_concrete(v: u64) -> u64;
        fn vk_param(m: *const u8, n: usize, d: u64) -> u64;
        fn vk_set_clock(s: u64, n: u32);
        fn vk_spawn(f: extern "C" fn(*mut u8), d: *mut u8) -> u64;
        fn vk_join(id: u64);
        fn vk_uf(n: *const u8, nl: usize, i: *const u8, il: usize, o: *mut u8, ol: usize);
    }
    /// out = an uninterpreted function `name` of `input` (names starting with "inj" are injective)
    pub fn uf(name: &str, input: &[u8], out: &mut [u8]) { unsafe { vk_uf(name.as_ptr(), name.len(), input.as_ptr(), input.len(), out.as_mut_ptr(), out.len()) } }
    pub fn any_into(b: &mut [u8], l: &str) { unsafe { vk_any(b.as_mut_ptr(), b.len(), l.as_ptr(), l.len()) } }
    pub fn assume(c: bool) { unsafe { vk_assume(c) } }
    pub fn check(c: bool, m: &str) { unsafe { vk_assert(c, m.as_ptr(), m.len()) } }
    /// can `c` be true here, for some of the inputs that lead here?
    pub fn possible(c: bool) -> bool { unsafe { vk_possible(c) } }
    pub fn cover(m: &str) { unsafe { vk_cover(m.as_ptr(), m.len()) } }
    pub fn concrete(v: usize) -> usize { unsafe { vk_concrete(v as u64) as usize } }
    pub fn param(m: &str, d: u64) -> u64 { unsafe { vk_param(m.as_ptr(), m.len(), d) } }
    pub fn set_clock(s: i64, n: u32) { unsafe { vk_set_clock(s as u64, n) } }
    pub fn spawn(f: extern "C" fn(*mut u8), d: *mut u8) -> u64 { unsafe { vk_spawn(f, d) } }
    pub fn join(id: u64) { unsafe { vk_join(id) } }
    pub const SYMBOLIC: bool = true;
}

#[cfg(not(feature = "sym"))]
mod imp {
    use std::collections::{HashMap, VecDeque};
    use std::sync::Mutex;
    pub static DRAWS: Mutex<VecDeque<(String, Vec<u8>)>> = Mutex::new(VecDeque::new());
    pub static PARAMS: Mutex<Option<HashMap<String, u64>>> = Mutex::new(None);
    /// exit codes of the replayer: 0 property held, 10 assertion failed, 11 recorded assumption not met,
    /// anything else (101 / signal) panic in the code under test
    pub fn any_into(b: &mut [u8], l: &str) {
        let mut d = DRAWS.lock().unwrap();
        match d.pop_front() {
            Some((lab, v)) => {
                if lab != l || v.len() != b.len() { eprintln!("REPLAY-MISMATCH draw {} ({} bytes) but recorded {} ({} bytes)", l, b.len(), lab, v.len()); std::process::exit(12); }
                b.copy_from_slice(&v);
            }
            None => { for x in b.iter_mut() { *x = 0; } }
        }
    }
    pub fn assume(c: bool) { if !c { println!("REPLAY-ASSUME-FAILED"); std::process::exit(11); } }
    pub fn check(c: bool, m: &str) { if !c { println!("REPLAY-ASSERT-FAILED {}", m); std::process::exit(10); } }
    pub fn possible(c: bool) -> bool { c }
    pub fn cover(m: &str) { println!("COVER {}", m); }
    pub fn concrete(v: usize) -> usize { v }
    pub fn param(m: &str, d: u64) -> u64 { PARAMS.lock().unwrap().as_ref().and_then(|p| p.get(m).copied()).unwrap_or(d) }
    extern "C" { fn vk_shim_set_clock(s: i64, n: i64); }
    pub fn set_clock(s: i64, n: u32) { unsafe { vk_shim_set_clock(s, n as i64) } }
    static THREADS: Mutex<Vec<Option<std::thread::JoinHandle<()>>>> = Mutex::new(Vec::new());
    pub fn spawn(f: extern "C" fn(*mut u8), d: *mut u8) -> u64 {
        let a = d as usize;
        let mut t = THREADS.lock().unwrap();
        t.push(Some(std::thread::spawn(move || f(a as *mut u8))));
        t.len() as u64 - 1
    }
    pub fn join(id: u64) { let h = THREADS.lock().unwrap()[id as usize].take().unwrap(); h.join().unwrap(); }
    pub const SYMBOLIC: bool = false;
}
pub use imp::*;

pub fn any<const N: usize>(l: &str) -> [u8; N] { let mut b = [0u8; N]; any_into(&mut b, l); b }
pub fn any_vec(n: usize, l: &str) -> Vec<u8> { let mut b = vec![0u8; n]; any_into(&mut b, l); b }
pub fn u8_(l: &str) -> u8 { any::<1>(l)[0] }
pub fn u16_(l: &str) -> u16 { u16::from_le_bytes(any(l)) }
pub fn u32_(l: &str) -> u32 { u32::from_le_bytes(any(l)) }
pub fn u64_(l: &str) -> u64 { u64::from_le_bytes(any(l)) }
/// an arbitrary boolean
pub fn bool_(l: &str) -> bool { u8_(l) & 1 == 1 }
/// an arbitrary number in 0..=max
pub fn upto(max: usize, l: &str) -> usize { let n = u64_(l) as usize; assume(n <= max); n }
/// an arbitrary number in 0..=max, one execution path per value
pub fn each(max: usize, l: &str) -> usize { concrete(upto(max, l)) }
/// one of the listed numbers, one execution path per number
pub fn one_of(v: &[usize], l: &str) -> usize { v[each(v.len() - 1, l)] }
/// n arbitrary ASCII characters
pub fn ascii(n: usize, l: &str) -> String {
    let b = any_vec(n, l);
    let mut acc = 0u8;
    for x in b.iter() { acc |= *x; }
    assume(acc < 0x80);
    unsafe { String::from_utf8_unchecked(b) }
}
/// a text of n bytes: `shift` arbitrary ASCII characters, then arbitrary four-byte characters as far as they fit, then ASCII
pub fn wide(n: usize, shift: usize, l: &str) -> String {
    let mut b = any_vec(n, l);
    let k = if n > shift { (n - shift) / 4 } else { 0 };
    for (i, x) in b.iter_mut().enumerate() {
        *x = if i >= shift && i < shift + 4 * k { match (i - shift) % 4 { 0 => 0xf0, 1 => 0x90 | *x & 0xf, _ => 0x80 | *x & 0x3f } } else { *x & 0x7f };
    }
    unsafe { String::from_utf8_unchecked(b) }
}
/// a byte vector of arbitrary (symbolic) length whose content is never looked at; natively it is all zero
pub fn opaque_vec(len: usize) -> Vec<u8> {
    if SYMBOLIC { let mut v = Vec::<u8>::with_capacity(1); let p = v.as_mut_ptr(); std::mem::forget(v); unsafe { Vec::from_raw_parts(p, len, len) } } else { vec![0u8; len] }
}

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C" fn $n() $b )*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$($(#[$m])* (stringify!($n), $n)),*];
    };
}
