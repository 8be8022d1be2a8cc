//! Models of the authority signature scheme used while executing symbolically: an ideal (unforgeable,
//! deterministic) signature as an uninterpreted function of the public key and the message; exactly the signatures
//! made on this path are accepted.
use crate::vk;
use ed25519_dalek::{ed25519, Keypair, PublicKey, SignatureError};

struct Entry { pk: [u8; 32], msg: Vec<u8>, sig: [u8; 64] }
static mut LOG: Vec<Entry> = Vec::new();
fn log() -> &'static mut Vec<Entry> { unsafe { &mut *std::ptr::addr_of_mut!(LOG) } }
#[no_mangle]
pub fn ov_ed25519_verify(pk: &PublicKey, msg: &[u8], sig: &ed25519::Signature) -> Result<(), SignatureError> {
    let s = sig.to_bytes();
    let mut known = false;
    for e in log().iter() { if e.msg.len() == msg.len() { known |= (e.pk == *pk.as_bytes()) & (e.msg[..] == *msg) & (e.sig == s); } }
    if known { Ok(()) } else { Err(SignatureError::new()) }
}
#[no_mangle]
pub fn ov_ed25519_try_sign(kp: &Keypair, msg: &[u8]) -> Result<ed25519::Signature, SignatureError> {
    let pk = *kp.public.as_bytes();
    let mut i = pk.to_vec();
    i.extend_from_slice(msg);
    let mut o = [0u8; 64];
    vk::uf("ed25519", &i, &mut o);
    // a signature's scalar is below 2^253
    vk::assume(o[63] & 0xe0 == 0);
    log().push(Entry { pk, msg: msg.to_vec(), sig: o });
    ed25519::Signature::from_bytes(&o)
}
/// the public key of a secret one: an uninterpreted function
#[no_mangle]
pub fn ov_ed25519_public(sk: &ed25519_dalek::SecretKey) -> PublicKey {
    let mut o = [0u8; 32];
    vk::uf("ed25519_public", sk.as_bytes(), &mut o);
    let mut p = crate::c_cert::authority(0).public;
    let at = p.as_bytes().as_ptr() as usize - std::ptr::addr_of!(p) as usize;
    unsafe { std::ptr::copy(o.as_ptr(), (std::ptr::addr_of_mut!(p) as *mut u8).add(at), 32); }
    p
}

/// UTF-8 validation of symbolic bytes without a path per byte class: the standard's rules as one formula over
/// all bytes. (The position reported in the error is not modelled: it is that of an invalid first byte.)
#[no_mangle]
pub fn ov_utf8(b: &[u8]) -> Result<&str, std::str::Utf8Error> {
    if utf8_ok(b) { return Ok(unsafe { std::str::from_utf8_unchecked(b) }); }
    std::str::from_utf8(b"\xff")
}
fn utf8_ok(b: &[u8]) -> bool {
    let n = b.len();
    let mut ok = true;
    let mut i = 0;
    while i < n + 3 {
        let mut need = false;
        if i >= 1 && i - 1 < n { need |= b[i - 1] >= 0xc0; }
        if i >= 2 && i - 2 < n { need |= b[i - 2] >= 0xe0; }
        if i >= 3 && i - 3 < n { need |= b[i - 3] >= 0xf0; }
        if i < n {
            let x = b[i];
            ok &= ((x & 0xc0) == 0x80) == need;
            ok &= (x != 0xc0) & (x != 0xc1) & (x <= 0xf4);
            if i >= 1 {
                let l = b[i - 1];
                ok &= ((l != 0xe0) | (x >= 0xa0)) & ((l != 0xed) | (x <= 0x9f)) & ((l != 0xf0) | (x >= 0x90)) & ((l != 0xf4) | (x <= 0x8f));
            }
        } else { ok &= !need; }
        i += 1;
    }
    ok
}

// The thread's random number generator as a source of fresh arbitrary bytes, every 32 of them new.
extern "C" { fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize; }
static mut DRAWS: u32 = 0;
static mut DRAWN: Vec<[u8; 32]> = Vec::new();
#[no_mangle]
pub fn ov_thread_rng() -> usize { 64 }
#[no_mangle]
pub fn ov_rng_fill(_rng: usize, dest: &mut [u8]) {
    unsafe { getrandom(dest.as_mut_ptr(), dest.len(), 0); }
    if dest.len() == 32 {
        let drawn = unsafe { &mut *std::ptr::addr_of_mut!(DRAWN) };
        for d in drawn.iter() { vk::assume(d[1..31] != dest[1..31]); }
        let mut k = [0u8; 32];
        k.copy_from_slice(dest);
        vk::assume(k[1..31] != [0u8; 30]);
        drawn.push(k);
    }
}
#[no_mangle]
pub fn ov_rng_try_fill(rng: usize, dest: &mut [u8]) -> usize { ov_rng_fill(rng, dest); 0 }
#[no_mangle]
pub fn ov_rng_u32(rng: usize) -> u32 {
    // (a sampler may reject and draw again: followed for up to three draws)
    unsafe { DRAWS += 1; vk::assume(DRAWS <= 3); }
    let mut b = [0u8; 4]; ov_rng_fill(rng, &mut b); u32::from_le_bytes(b) }
#[no_mangle]
pub fn ov_rng_u64(rng: usize) -> u64 { let mut b = [0u8; 8]; ov_rng_fill(rng, &mut b); u64::from_le_bytes(b) }

/// The hash function of the standard collections: one bucket for everything, which is as good as any other hash.
#[no_mangle]
pub fn ov_hash_finish(_h: usize) -> u64 { 0 }
#[no_mangle]
pub fn ov_hash_write(_h: usize, _b: &[u8]) {}
