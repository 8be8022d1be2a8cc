//! C16 Noise NX conformance, C17 nonces, C18 buffer lengths, C19 low-order keys, C20 turns, gating, rekey and clear,
//! C23 textual keys, C24 tampered handshakes.
use crate::{harnesses, vk};
use blake2_rfc::blake2s::Blake2s;
use hacl_star::{chacha20poly1305 as aead, curve25519};
use noiseexplorer_nx::error::NoiseError;
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, Psk, PublicKey};
use std::str::FromStr;

// ---- the Noise specification (revision 34), written down independently
pub type B32 = [u8; 32];
pub fn hash(parts: &[&[u8]]) -> B32 {
    let mut c = Blake2s::new(32);
    for p in parts { c.update(p); }
    let mut o = [0u8; 32];
    o.copy_from_slice(c.finalize().as_bytes());
    o
}
fn hmac(key: &B32, data: &[&[u8]]) -> B32 {
    let (mut i, mut o) = ([0x36u8; 64], [0x5cu8; 64]);
    for k in 0..32 { i[k] ^= key[k]; o[k] ^= key[k]; }
    let mut p: Vec<&[u8]> = vec![&i];
    p.extend_from_slice(data);
    let inner = hash(&p);
    hash(&[&o, &inner])
}
fn hkdf(ck: &B32, ikm: &[u8]) -> (B32, B32) {
    let t = hmac(ck, &[ikm]);
    let a = hmac(&t, &[&[1]]);
    let b = hmac(&t, &[&a, &[2]]);
    (a, b)
}
fn nonce(n: u64) -> [u8; 12] { let mut b = [0; 12]; b[4..].copy_from_slice(&n.to_le_bytes()); b }
pub fn seal(k: &B32, n: u64, ad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut b = pt.to_vec();
    let mut mac = [0u8; 16];
    aead::key(k).nonce(&nonce(n)).encrypt(ad, &mut b, &mut mac);
    b.extend_from_slice(&mac);
    b
}
pub fn rekeyed(k: &B32) -> B32 { let mut o = [0; 32]; o.copy_from_slice(&seal(k, u64::MAX, &[], &[0; 32])[..32]); o }
pub fn dh(sk: &B32, pk: &B32) -> B32 { let mut o = [0; 32]; curve25519::scalarmult(&mut o, sk, pk); o }
pub fn public(sk: &B32) -> B32 { curve25519::SecretKey(*sk).get_public().0 }

#[derive(Clone)]
struct Sym { h: B32, ck: B32, k: B32 }
impl Sym {
    fn new(prologue: &[u8]) -> Sym { let h = hash(&[b"Noise_NX_25519_ChaChaPoly_BLAKE2s"]); let mut s = Sym { h, ck: h, k: [0; 32] }; s.mix_hash(prologue); s }
    fn mix_hash(&mut self, d: &[u8]) { self.h = hash(&[&self.h, d]); }
    fn mix_key(&mut self, ikm: &B32) { let (a, b) = hkdf(&self.ck, ikm); self.ck = a; self.k = b; }
    /// (only ever the first message under a key)
    fn seal(&mut self, pt: &[u8]) -> Vec<u8> { let c = seal(&self.k, 0, &self.h, pt); self.mix_hash(&c); c }
}
#[derive(Clone)]
pub struct Run { pub a: Vec<u8>, pub b: Vec<u8>, pub h: B32, pub k: [B32; 2], pub ck: [B32; 2], pub hk: [B32; 2] }
/// what a conforming initiator and responder exchange
pub fn nx(prologue: &[u8], ei: &B32, er: &B32, sr: &B32, pa: &[u8], pb: &[u8]) -> Run {
    let mut s = Sym::new(prologue);
    let mut a = public(ei).to_vec();
    s.mix_hash(&a);
    s.mix_hash(pa);
    a.extend_from_slice(pa);
    let mut b = public(er).to_vec();
    s.mix_hash(&b);
    s.mix_key(&dh(er, &public(ei)));
    let one = (s.ck, s.k);
    b.extend_from_slice(&s.seal(&public(sr)));
    s.mix_key(&dh(sr, &public(ei)));
    let two = (s.ck, s.k);
    b.extend_from_slice(&s.seal(pb));
    let (k1, k2) = hkdf(&s.ck, &[]);
    Run { a, b, h: s.h, k: [k1, k2], ck: [one.0, two.0], hk: [one.1, two.1] }
}

// ---- sessions under test
pub fn secret(l: &str) -> B32 {
    let k = vk::any::<32>(l);
    let mut acc = 0u8;
    for x in k.iter() { acc |= *x; }
    vk::assume(acc != 0);
    k
}
pub fn pair(k: &B32) -> Keypair {
    match Keypair::from_private_key(PrivateKey::from_bytes(*k)) { Ok(p) => p, Err(_) => { vk::check(false, "a non-zero private key must give a keypair"); panic!() } }
}
pub struct Party { pub ei: B32, pub er: B32, pub si: B32, pub sr: B32, pub i: NoiseSession, pub r: NoiseSession }
pub fn fresh(prologue: &[u8], prologue_r: &[u8]) -> Party {
    let (ei, er, si, sr) = (secret("key_ei"), secret("key_er"), secret("key_si"), secret("key_sr"));
    let mut i = NoiseSession::init_session(true, prologue, pair(&si));
    i.set_ephemeral_keypair(pair(&ei));
    let mut r = NoiseSession::init_session(false, prologue_r, pair(&sr));
    r.set_ephemeral_keypair(pair(&er));
    Party { ei, er, si, sr, i, r }
}
pub fn room_a(p: &[u8]) -> Vec<u8> { let mut v = vec![0; 32]; v.extend_from_slice(p); v }
pub fn room_b(p: &[u8]) -> Vec<u8> { let mut v = vec![0; 80]; v.extend_from_slice(p); v.extend_from_slice(&[0; 16]); v }
pub fn room_t(p: &[u8]) -> Vec<u8> { let mut v = p.to_vec(); v.extend_from_slice(&[0; 16]); v }
fn ok(r: Result<(), NoiseError>, m: &str) { vk::check(r.is_ok(), m); }

/// both parties after an undisturbed handshake, and what the specification says it produced
pub fn connected(prologue: &[u8], pa: &[u8], pb: &[u8]) -> (Party, Run) {
    let mut p = fresh(prologue, prologue);
    let e = nx(prologue, &p.ei, &p.er, &p.sr, pa, pb);
    let mut a = room_a(pa);
    ok(p.i.send_message(&mut a), "the initiator sends the first message");
    vk::check(a == e.a, "the first message is the specified one");
    ok(p.r.recv_message(&mut a), "the responder accepts the first message");
    let mut b = room_b(pb);
    ok(p.r.send_message(&mut b), "the responder sends the second message");
    vk::check(b == e.b, "the second message is the specified one");
    ok(p.i.recv_message(&mut b), "the initiator accepts the second message");
    (p, e)
}
/// direction 0: initiator to responder
pub fn sender(p: &mut Party, d: usize) -> &mut NoiseSession { if d == 0 { &mut p.i } else { &mut p.r } }
pub fn receiver(p: &mut Party, d: usize) -> &mut NoiseSession { if d == 0 { &mut p.r } else { &mut p.i } }

/// the sizes around every limit, then the sizes around the largest message
fn lengths(big: bool) -> usize { if big && vk::param("big", 0) == 1 { vk::one_of(&[65535, 65536], "len") } else if big { vk::one_of(&[65519, 65534, 65535, 65536, 65537], "len") } else { vk::each(vk::param("max", 130) as usize, "len") } }
fn turn_error(r: &Result<(), NoiseError>) -> bool { matches!(r, Err(NoiseError::UnexpectedHandshakeTurnError)) }
fn nonzero(n: usize, l: &str) -> Vec<u8> {
    let m = vk::any_vec(n, l);
    let mut acc = 0u8;
    for x in m.iter() { acc |= *x; }
    vk::assume(acc != 0);
    m
}
fn xored(a: &[u8], m: &[u8]) -> Vec<u8> { a.iter().zip(m).map(|(x, y)| x ^ y).collect() }
/// the undisturbed rest of the handshake after `p.i` has sent `a`, and one message each way
fn finish(p: &mut Party, e: &Run, mut a: Vec<u8>, pa: &[u8], pb: &[u8]) {
    vk::check(a == e.a, "the first message is the specified one");
    ok(p.r.recv_message(&mut a), "the responder accepts the first message");
    vk::check(a[32..] == pa[..], "the responder reads the first payload");
    let mut b = room_b(pb);
    ok(p.r.send_message(&mut b), "the responder sends the second message");
    finish_b(p, e, b, pb)
}
fn finish_b(p: &mut Party, e: &Run, mut b: Vec<u8>, pb: &[u8]) {
    vk::check(b == e.b, "the second message is the specified one");
    ok(p.i.recv_message(&mut b), "the initiator accepts the second message");
    vk::check(b[80..80 + pb.len()] == pb[..], "the initiator reads the second payload");
    vk::check(p.i.get_handshake_hash() == Some(e.h) && p.r.get_handshake_hash() == Some(e.h), "both know the specified handshake hash");
    traffic(p, e, [0, 0])
}
/// one message each way, numbered n
fn traffic(p: &mut Party, e: &Run, n: [u64; 2]) {
    for d in 0..2 {
        let pt = [7u8, d as u8, 9];
        let mut m = room_t(&pt);
        ok(sender(p, d).send_message(&mut m), "a transport message is sent");
        vk::check(m == seal(&e.k[d], n[d], &[], &pt), "it is encrypted with the direction's key and message number");
        ok(receiver(p, d).recv_message(&mut m), "it is accepted");
        vk::check(m[..3] == pt, "it decrypts to what was sent");
    }
}
/// the session gives nothing away
fn closed(s: &NoiseSession) { vk::check(!s.is_transport() && s.get_handshake_hash().is_none() && s.get_remote_static_public_key().is_none(), "no keys without a complete handshake"); }
/// low-order points and their non-canonical forms, which give a Diffie-Hellman result an attacker knows
const WEAK: [&str; 12] = [
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0100000000000000000000000000000000000000000000000000000000000000",
    "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
    "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "cdeb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b880",
    "4c9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f11d7",
    "d9ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    "daffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    "dbffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
];
fn weak(i: usize) -> B32 {
    let s = WEAK[i].as_bytes();
    let d = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
    let mut o = [0u8; 32];
    for k in 0..32 { o[k] = d(s[2 * k]) << 4 | d(s[2 * k + 1]); }
    o
}
fn is_weak(k: &B32) -> bool { let mut any = false; for i in 0..12 { any |= *k == weak(i); } any }
fn first32(b: &[u8]) -> B32 { let mut o = [0; 32]; o.copy_from_slice(&b[..32]); o }
/// what a party has hashed when it has sent or received the responder's ephemeral key: the data that
/// authenticates the responder's static key
pub fn bound(prologue: &[u8], a: &[u8], b: &[u8]) -> B32 {
    let mut s = Sym::new(prologue);
    s.mix_hash(&a[..32]);
    s.mix_hash(&a[32..]);
    s.mix_hash(&b[..32]);
    s.h
}
/// message B as a conforming responder with the static public key `s` would make it, with DH results `es`
fn message_b(a: &[u8], er: &B32, e_pub: &B32, s_pub: &B32, se: &B32, pb: &[u8]) -> Vec<u8> {
    let mut ei = [0; 32];
    ei.copy_from_slice(&a[..32]);
    let mut s = Sym::new(&[]);
    s.mix_hash(&ei);
    s.mix_hash(&a[32..]);
    let mut b = e_pub.to_vec();
    s.mix_hash(&b);
    s.mix_key(&dh(er, &ei));
    b.extend_from_slice(&s.seal(s_pub));
    s.mix_key(se);
    b.extend_from_slice(&s.seal(pb));
    b
}
fn hex_text(k: &[u8], upper: &[u8]) -> Vec<u8> {
    let c = |n: u8, u: bool| if n < 10 { b'0' + n } else if u { b'A' + n - 10 } else { b'a' + n - 10 };
    let mut o = vec![];
    for (i, x) in k.iter().enumerate() { o.push(c(x >> 4, upper[i] & 1 == 1)); o.push(c(x & 15, upper[i] & 2 == 2)); }
    o
}
fn text(b: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(b) } }
fn hexval(c: u8) -> Option<u8> { match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' => Some(c - b'a' + 10), b'A'..=b'F' => Some(c - b'A' + 10), _ => None } }

/// What a direction of one party is: its key (with how often it was rekeyed) and its message number.
#[derive(Clone, Copy)]
struct Dir { k: Option<(B32, u32)>, n: u64 }

harnesses! {
fn h_c16_handshake() {
    let mut len = [3usize, 5, 7];
    len[vk::each(2, "which")] = vk::one_of(&[0, 1, 15, 16, 31, 32, 33, 63, 64, 65, 96, 128, 160], "len");
    let (pro, pa, pb) = (vk::any_vec(len[0], "prologue"), vk::any_vec(len[1], "pa"), vk::any_vec(len[2], "pb"));
    let mut p = fresh(&pro, &pro);
    let e = nx(&pro, &p.ei, &p.er, &p.sr, &pa, &pb);
    let mut a = room_a(&pa);
    ok(p.i.send_message(&mut a), "the initiator sends the first message");
    vk::check(a == e.a, "the first message is the specified one");
    ok(p.r.recv_message(&mut a), "the responder accepts the first message");
    vk::check(a[32..] == pa[..], "the responder reads the first payload");
    for s in [&p.i, &p.r] { vk::check(!s.is_transport() && s.get_handshake_hash().is_none() && s.get_remote_static_public_key().is_none(), "no keys before the handshake is complete"); }
    let mut b = room_b(&pb);
    ok(p.r.send_message(&mut b), "the responder sends the second message");
    vk::check(b == e.b, "the second message is the specified one");
    vk::check(!p.i.is_transport() && p.r.is_transport(), "only the responder is done");
    ok(p.i.recv_message(&mut b), "the initiator accepts the second message");
    vk::check(b[80..80 + pb.len()] == pb[..], "the initiator reads the second payload");
    vk::check(p.i.is_transport(), "the initiator is done");
    vk::check(p.i.get_handshake_hash() == Some(e.h) && p.r.get_handshake_hash() == Some(e.h), "both know the specified handshake hash");
    vk::check(p.i.get_remote_static_public_key().map(|k| k.as_bytes()) == Some(public(&p.sr)), "the initiator knows the responder's static key");
    vk::check(p.i.get_message_count() == 2 && p.r.get_message_count() == 2, "two messages counted");
    vk::cover("complete");
}
fn h_c16_transport() {
    let (mut p, e) = connected(&[], &[], &[]);
    let steps = vk::param("steps", 3);
    let mut n = [0u64; 2];
    for _ in 0..steps {
        let d = vk::each(1, "direction");
        let len = vk::one_of(&[0, 1, 16, 70], "len");
        let pt = vk::any_vec(len, "text");
        let mut m = room_t(&pt);
        ok(sender(&mut p, d).send_message(&mut m), "a transport message is sent");
        vk::check(m == seal(&e.k[d], n[d], &[], &pt), "it is encrypted with the direction's key and message number");
        ok(receiver(&mut p, d).recv_message(&mut m), "it is accepted");
        vk::check(m[..len] == pt[..], "it decrypts to what was sent");
        vk::check(m[len..] == [0; 16], "the room for the tag is cleared");
        n[d] += 1;
    }
    vk::check(p.i.get_message_count() == 2 + steps as u128 && p.r.get_message_count() == 2 + steps as u128, "messages are counted");
    vk::cover("transport");
}

// ---- C17
fn h_c17_order() {
    // any order of sending and delivering, including replays and skips
    let (mut p, e) = connected(&[], &[], &[]);
    vk::assume(e.k[0] != e.k[1]);
    let mut sent: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
    let mut got = [0usize; 2];
    for step in 0..vk::param("steps", 4) {
        let d = vk::each(1, "direction");
        let n = sent[d].len();
        let what = vk::each(n, "what");
        if what == n {
            let pt = [step as u8; 5];
            let mut m = room_t(&pt);
            ok(sender(&mut p, d).send_message(&mut m), "a transport message is sent");
            vk::check(m == seal(&e.k[d], n as u64, &[], &pt), "messages are numbered without gaps or repetitions");
            // no two messages look the same
            for x in sent.iter().flatten() { vk::assume(*x != m); }
            sent[d].push(m);
        } else {
            let mut m = sent[d][what].clone();
            let before = m.clone();
            let r = receiver(&mut p, d).recv_message(&mut m);
            if what == got[d] { ok(r, "the next message is accepted"); got[d] += 1; vk::cover("accepted"); }
            else { vk::check(r.is_err(), "a replayed or early message is refused"); vk::check(m == before, "a refused message is left as it was"); vk::cover("refused"); }
        }
    }
}
fn h_c17_tamper() {
    let (mut p, e) = connected(&[], &[], &[]);
    vk::assume(e.k[0] != e.k[1]);
    let d = vk::each(1, "direction");
    let len = vk::one_of(&[0, 1, 5, 16, 33], "len");
    let pt = vk::any_vec(len, "text");
    let mut m = room_t(&pt);
    ok(sender(&mut p, d).send_message(&mut m), "a transport message is sent");
    let good = m.clone();
    let mut bad = match vk::each(4, "how") {
        0 => { vk::cover("altered"); xored(&good, &nonzero(good.len(), "mask")) }
        1 => { vk::cover("cut"); let k = vk::each(len, "cut"); vk::assume(k > 0); good[..good.len() - k].to_vec() }
        2 => { vk::cover("cut-front"); let k = vk::each(len, "cut"); vk::assume(k > 0); good[k..].to_vec() }
        3 => { vk::cover("extended"); let mut g = good.clone(); let k = 1 + vk::each(2, "more"); g.extend_from_slice(&vk::any_vec(k, "extra")); g }
        _ => {
            vk::cover("reflected");
            let mut g = good.clone();
            vk::check(sender(&mut p, d).recv_message(&mut g).is_err(), "a party refuses its own message");
            vk::check(g == good, "a refused message is left as it was");
            ok(receiver(&mut p, d).recv_message(&mut m), "the unaltered message is still accepted");
            vk::check(m[..len] == pt[..], "it decrypts to what was sent");
            return;
        }
    };
    let before = bad.clone();
    vk::check(receiver(&mut p, d).recv_message(&mut bad).is_err(), "an altered message is refused");
    vk::check(bad == before, "a refused message is left as it was");
    ok(receiver(&mut p, d).recv_message(&mut m), "the unaltered message is still accepted");
    vk::check(m[..len] == pt[..], "it decrypts to what was sent");
}
#[cfg(verif_hooks)]
fn h_c17_send_number() {
    let (mut p, e) = connected(&[], &[], &[]);
    let d = vk::each(1, "direction");
    let n = [vk::u64_("n0"), vk::u64_("n1")];
    sender(&mut p, d).verif_set_nonces(n[0], n[1]);
    let len = vk::one_of(&[0, 1, 16, 40], "len");
    let pt = vk::any_vec(len, "text");
    let mut m = room_t(&pt);
    let mut want = n;
    match sender(&mut p, d).send_message(&mut m) {
        Ok(()) => {
            vk::check(n[d] != u64::MAX, "the last number is never used");
            vk::check(m == seal(&e.k[d], n[d], &[], &pt), "it is encrypted with the direction's key and message number");
            want[d] = want[d].wrapping_add(1);
            vk::cover("sent");
        }
        Err(x) => {
            vk::check(n[d] == u64::MAX && matches!(x, NoiseError::ExhaustedNonceError), "refused only because the numbers are used up");
            vk::check(m == room_t(&pt), "a refused message is left as it was");
            vk::cover("exhausted");
        }
    }
    vk::check(sender(&mut p, d).verif_nonces() == (want[0], want[1]), "the number goes up by one exactly when a message is sent");
}
#[cfg(verif_hooks)]
fn h_c17_recv_number() {
    let (mut p, e) = connected(&[], &[], &[]);
    let d = vk::each(1, "direction");
    let n = [vk::u64_("n0"), vk::u64_("n1")];
    receiver(&mut p, d).verif_set_nonces(n[0], n[1]);
    let m = vk::u64_("m");
    let len = vk::one_of(&[0, 1, 16, 40], "len");
    let pt = vk::any_vec(len, "text");
    let sealed = seal(&e.k[d], m, &[], &pt);
    let mut b = sealed.clone();
    let mut want = n;
    match receiver(&mut p, d).recv_message(&mut b) {
        Ok(()) => {
            vk::check(m == n[d] && m != u64::MAX, "only the message with the expected number is accepted");
            vk::check(b[..len] == pt[..], "it decrypts to what was sent");
            want[d] = want[d].wrapping_add(1);
            vk::cover("accepted");
        }
        Err(_) => {
            vk::check(m != n[d] || m == u64::MAX, "the message with the expected number is accepted");
            vk::check(b == sealed, "a refused message is left as it was");
            vk::cover("refused");
        }
    }
    vk::check(receiver(&mut p, d).verif_nonces() == (want[0], want[1]), "the number goes up by one exactly when a message is accepted");
}
// ---- C18
fn h_c18_first() {
    let big = vk::param("big", 0) != 0;
    let mut p = fresh(&[], &[]);
    let len = lengths(big);
    let fits = len >= 32 && len <= 65535;
    let plen = if fits { len - 32 } else { 3 };
    let content = if big { vec![0x5au8; len] } else { vk::any_vec(len, "content") };
    if vk::each(1, "op") == 0 {
        // the initiator's buffer
        let pa = if fits { content[32..].to_vec() } else { vec![1, 2, 3] };
        let e = nx(&[], &p.ei, &p.er, &p.sr, &pa, &[]);
        let mut b = content.clone();
        let r = p.i.send_message(&mut b);
        if !fits {
            vk::check(r.is_err() && b == content, "a first message that does not fit is refused and left as it was");
            closed(&p.i);
            b = room_a(&pa);
            ok(p.i.send_message(&mut b), "the initiator can still send");
            vk::cover("send-refused");
        } else { ok(r, "a first message that fits is sent"); vk::cover("sent"); }
        finish(&mut p, &e, b, &pa, &[]);
    } else {
        let pa = if fits { content[..plen].to_vec() } else { vec![1, 2, 3] };
        let e = nx(&[], &p.ei, &p.er, &p.sr, &pa, &[]);
        let mut a = room_a(&pa);
        ok(p.i.send_message(&mut a), "the initiator sends");
        if !fits {
            let mut b = content.clone();
            let r = p.r.recv_message(&mut b);
            vk::check(r.is_err() && b == content, "a first message of a wrong length is refused and left as it was");
            closed(&p.r);
            vk::cover("recv-refused");
        } else { vk::cover("received"); }
        finish(&mut p, &e, a, &pa, &[]);
    }
}
fn h_c18_second() {
    let big = vk::param("big", 0) != 0;
    let mut p = fresh(&[], &[]);
    let len = lengths(big);
    let fits = len >= 96 && len <= 65535;
    let content = if big { vec![0x5au8; len] } else { vk::any_vec(len, "content") };
    let send = vk::each(1, "op") == 0;
    let pb = if !fits { vec![1, 2, 3] } else if send { content[80..len - 16].to_vec() } else { content[..len - 96].to_vec() };
    let e = nx(&[], &p.ei, &p.er, &p.sr, &[], &pb);
    let mut a = room_a(&[]);
    ok(p.i.send_message(&mut a), "the initiator sends");
    ok(p.r.recv_message(&mut a), "the responder accepts");
    if send {
        let mut b = content.clone();
        let r = p.r.send_message(&mut b);
        if !fits {
            vk::check(r.is_err() && b == content, "a second message that does not fit is refused and left as it was");
            closed(&p.r);
            b = room_b(&pb);
            ok(p.r.send_message(&mut b), "the responder can still send");
            vk::cover("send-refused");
        } else { ok(r, "a second message that fits is sent"); vk::cover("sent"); }
        finish_b(&mut p, &e, b, &pb);
    } else {
        let mut good = room_b(&pb);
        ok(p.r.send_message(&mut good), "the responder sends");
        if !fits {
            let mut b = content.clone();
            let r = p.i.recv_message(&mut b);
            vk::check(r.is_err() && b == content, "a second message of a wrong length is refused and left as it was");
            closed(&p.i);
            vk::cover("recv-refused");
        } else { vk::cover("received"); }
        finish_b(&mut p, &e, good, &pb);
    }
}
fn h_c18_transport() {
    let big = vk::param("big", 0) != 0;
    let (mut p, e) = connected(&[], &[], &[]);
    let len = lengths(big);
    let fits = len >= 16 && len <= 65535;
    let content = if big { vec![0x5au8; len] } else { vk::any_vec(len, "content") };
    let d = vk::each(1, "direction");
    let mut n = [0, 0];
    if vk::each(1, "op") == 0 {
        let mut b = content.clone();
        let r = sender(&mut p, d).send_message(&mut b);
        if fits {
            ok(r, "a message that fits is sent");
            vk::check(b == seal(&e.k[d], 0, &[], &content[..len - 16]), "it is encrypted with the direction's key and message number");
            ok(receiver(&mut p, d).recv_message(&mut b), "it is accepted");
            vk::check(b[..len - 16] == content[..len - 16], "it decrypts to what was sent");
            n[d] = 1;
            vk::cover("sent");
        } else { vk::check(r.is_err() && b == content, "a message that does not fit is refused and left as it was"); vk::cover("send-refused"); }
    } else {
        // nobody sent this: it is the right length or not, and refused in both cases
        if fits && big { return; }
        if fits { let mut o = content.clone(); let mut m = [0; 16]; m.copy_from_slice(&content[len - 16..]); vk::assume(!aead::key(&e.k[d]).nonce(&nonce(0)).decrypt(&[], &mut o[..len - 16], &m)); }
        let mut b = content.clone();
        let r = receiver(&mut p, d).recv_message(&mut b);
        vk::check(r.is_err() && b == content, "such a message is refused and left as it was");
        if !fits { vk::cover("recv-refused"); }
    }
    traffic(&mut p, &e, n);
}
// ---- C19
fn h_c19_key() {
    let k = vk::any::<32>("k");
    match PublicKey::from_bytes(k) {
        Ok(p) => { vk::check(!is_weak(&k), "a low-order public key is refused"); vk::check(p.as_bytes() == k, "the key is the bytes given"); vk::cover("accepted"); }
        Err(_) => { vk::check(is_weak(&k), "a good public key is accepted"); vk::cover("refused"); }
    }
}
fn h_c19_text() {
    let k = weak(vk::each(11, "which"));
    let u = vk::bool_("upper");
    let t = text(hex_text(&k, &[if u { 3 } else { 0 }; 32]));
    vk::check(PublicKey::from_str(&t).is_err(), "a low-order public key is refused as text too");
    vk::cover("refused");
}
fn h_c19_first() {
    let mut p = fresh(&[], &[]);
    let pa = vk::any::<4>("pa");
    let e = nx(&[], &p.ei, &p.er, &p.sr, &pa, &[]);
    let mut m = weak(vk::each(11, "which")).to_vec();
    let more = vk::one_of(&[0, 1, 16, 40], "payload");
    m.extend_from_slice(&vk::any_vec(more, "payload"));
    let before = m.clone();
    vk::check(p.r.recv_message(&mut m).is_err(), "a first message with a low-order key is refused");
    vk::check(m == before, "and left as it was");
    closed(&p.r);
    vk::cover("refused");
    let mut b = room_b(&[]);
    vk::check(p.r.send_message(&mut b).is_err(), "and not answered");
    closed(&p.r);
    let mut a = room_a(&pa);
    ok(p.i.send_message(&mut a), "the initiator sends");
    finish(&mut p, &e, a, &pa, &[]);
}
fn h_c19_second() {
    let mut p = fresh(&[], &[]);
    let mut a = room_a(&[]);
    ok(p.i.send_message(&mut a), "the initiator sends");
    let w = weak(vk::each(11, "which"));
    let mut b = if vk::each(1, "place") == 0 {
        // an ephemeral key that makes the shared secret zero
        let mut b = w.to_vec();
        let mut s = Sym::new(&[]);
        s.mix_hash(&a);
        s.mix_hash(&[]);
        s.mix_hash(&w);
        s.mix_key(&[0; 32]);
        b.extend_from_slice(&s.seal(&public(&p.sr)));
        s.mix_key(&dh(&p.sr, &public(&p.ei)));
        b.extend_from_slice(&s.seal(&[]));
        vk::cover("ephemeral");
        b
    } else {
        vk::cover("static");
        message_b(&a, &p.er, &public(&p.er), &w, &[0; 32], &[])
    };
    vk::check(p.i.recv_message(&mut b).is_err(), "a second message with a low-order key is refused");
    closed(&p.i);
    let mut t = vec![0u8; 40];
    vk::check(p.i.send_message(&mut t).is_err() && t == [0u8; 40], "and nothing can be sent");
}
// ---- C20
fn h_c20_turns() {
    let mut p = fresh(&[], &[]);
    let e = nx(&[], &p.ei, &p.er, &p.sr, &[], &[]);
    let mut mc = [0u32; 2];
    let mut n = [0u64; 2];
    let mut wire: Option<(usize, Vec<u8>)> = None; // who sent it, what
    for _ in 0..vk::param("steps", 6) {
        let who = vk::each(1, "who"); // 0: initiator
        let send = vk::each(1, "op") == 0;
        let s = if who == 0 { &mut p.i } else { &mut p.r };
        let allowed = match mc[who] { 0 => send == (who == 0), 1 => send == (who == 1), _ => true };
        if send {
            let mut b = match mc[who] { 0 if who == 0 => room_a(&[]), 1 if who == 1 => room_b(&[]), _ => room_t(&[5, 6]) };
            if !allowed { b = vec![3; 100]; }
            let before = b.clone();
            let r = s.send_message(&mut b);
            if allowed {
                ok(r, "a party whose turn it is can send");
                let want = match mc[who] { 0 => e.a.clone(), 1 => e.b.clone(), _ => { n[who] += 1; seal(&e.k[who], n[who] - 1, &[], &[5, 6]) } };
                vk::check(b == want, "the message sent is the specified one");
                mc[who] += 1;
                if wire.is_none() { wire = Some((who, b)); } else { vk::assume(false); }
            } else { vk::check(turn_error(&r) && b == before, "sending out of turn is refused and changes nothing"); vk::cover("send-out-of-turn"); }
        } else if allowed {
            // deliver what the other party sent, if anything
            let m = match wire.take() { Some((from, m)) if from != who => m, w => { wire = w; vk::assume(false); vec![] } };
            let mut b = m;
            ok(s.recv_message(&mut b), "a party whose turn it is accepts the message");
            mc[who] += 1;
        } else {
            let mut b = match &wire { Some((_, m)) => m.clone(), None => vec![9; 100] };
            let before = b.clone();
            let r = s.recv_message(&mut b);
            vk::check(turn_error(&r) && b == before, "receiving out of turn is refused and changes nothing");
            vk::cover("recv-out-of-turn");
        }
        for (who, s) in [&p.i, &p.r].iter().enumerate() {
            let done = mc[who] >= 2;
            vk::check(s.is_transport() == done, "transport exactly after both handshake messages");
            vk::check(s.get_message_count() == mc[who] as u128, "messages are counted");
            vk::check(s.get_handshake_hash() == if done { Some(e.h) } else { None }, "the hash is given away only after the handshake");
            if who == 0 { vk::check(s.get_remote_static_public_key().map(|k| k.as_bytes()) == if done { Some(public(&p.sr)) } else { None }, "the remote key is given away only after the handshake"); }
            else { vk::check(done == s.get_remote_static_public_key().is_some(), "the remote key is given away only after the handshake"); }
            if done { vk::cover("transport"); }
        }
    }
}
fn h_c20_keys() {
    let (mut p, e) = connected(&[], &[], &[]);
    vk::assume(e.k[0] != e.k[1]);
    // what the specification says about both parties' directions
    let mut m = [[Dir { k: Some((e.k[0], 0)), n: 0 }, Dir { k: Some((e.k[1], 0)), n: 0 }]; 2];
    let mut sent: Vec<Vec<u8>> = vec![];
    for step in 0..vk::param("steps", 4) {
        let who = vk::each(1, "who");
        let s = if who == 0 { &mut p.i } else { &mut p.r };
        match vk::each(4, "op") {
            0 => {
                let (d, pt) = (who, [step as u8; 3]);
                let mut b = room_t(&pt);
                let r = s.send_message(&mut b);
                match m[who][d].k {
                    Some((k, g)) => {
                        ok(r, "a transport message is sent");
                        vk::check(b == seal(&k, m[who][d].n, &[], &pt), "it is encrypted with the direction's current key and message number");
                        // no two messages look the same
                        for x in sent.iter() { vk::assume(*x != b); }
                        sent.push(b.clone());
                        let other = &mut m[1 - who][d];
                        let fits = match other.k { Some((_, g2)) => g == g2 && other.n == m[who][d].n, None => false };
                        m[who][d].n += 1;
                        let before = b.clone();
                        let o = if who == 0 { &mut p.r } else { &mut p.i };
                        let r = o.recv_message(&mut b);
                        if fits { ok(r, "it is accepted under the same key and number"); vk::check(b[..3] == pt, "it decrypts to what was sent"); m[1 - who][d].n += 1; vk::cover("accepted"); }
                        else { vk::check(r.is_err() && b == before, "it is refused under another key or number"); vk::cover("refused"); }
                    }
                    None => { vk::check(matches!(r, Err(NoiseError::EmptyKeyError)) && b == room_t(&pt), "nothing is sent without a key"); vk::cover("closed"); }
                }
            }
            op => {
                let d = if op == 1 || op == 3 { 0 } else { 1 };
                if op == 1 || op == 2 {
                    if op == 1 { s.rekey_local_cipherstate() } else { s.rekey_remote_cipherstate() }
                    if let Some((k, g)) = m[who][d].k { let nk = rekeyed(&k); vk::assume(nk != k && nk != e.k[d]); m[who][d].k = Some((nk, g + 1)); vk::cover("rekeyed"); } else { vk::cover("rekeyed-closed"); }
                } else {
                    if op == 3 { s.clear_local_cipherstate() } else { s.clear_remote_cipherstate() }
                    m[who][d] = Dir { k: None, n: 0 };
                }
            }
        }
    }
}
fn h_c20_early() {
    // rekeying or clearing before the handshake is complete does not open or weaken anything
    let mut p = fresh(&[], &[]);
    let e = nx(&[], &p.ei, &p.er, &p.sr, &[], &[]);
    let early = |s: &mut NoiseSession| { match vk::each(4, "early") { 0 => {} 1 => s.rekey_local_cipherstate(), 2 => s.rekey_remote_cipherstate(), 3 => s.clear_local_cipherstate(), _ => s.clear_remote_cipherstate() } closed(s); };
    early(&mut p.i);
    early(&mut p.r);
    let mut a = room_a(&[]);
    ok(p.i.send_message(&mut a), "the initiator sends");
    early(&mut p.i);
    finish(&mut p, &e, a, &[], &[]);
    p.i.end_session();
    vk::cover("complete");
}
/// a connection of any age: turns, keys and counts do not depend on how many messages there were
#[cfg(verif_hooks)]
fn h_c20_age() {
    let (mut p, e) = connected(&[], &[], &[]);
    vk::assume(e.k[0] != e.k[1]);
    let n = vk::u64_("count");
    vk::assume(n >= 2 && n < 1 << 63);
    p.i.verif_set_message_count(n);
    p.r.verif_set_message_count(n);
    let mut want = [n as u128; 2];
    let mut num = [0u64; 2];
    for _ in 0..2 {
        let d = vk::each(1, "direction");
        let pt = vk::any::<3>("text");
        let mut m = room_t(&pt);
        ok(sender(&mut p, d).send_message(&mut m), "either party may send, however long the connection has lasted");
        vk::check(m == seal(&e.k[d], num[d], &[], &pt), "it is encrypted with the direction's key and message number");
        num[d] += 1;
        want[d] += 1;
        vk::check(sender(&mut p, d).get_message_count() == want[d], "a sent message is counted");
        if vk::bool_("bad") {
            let mut x = vk::any_vec(19, "bad");
            vk::assume(x != m);
            vk::check(receiver(&mut p, d).recv_message(&mut x).is_err(), "another message is refused");
            vk::check(receiver(&mut p, d).get_message_count() == want[1 - d], "a refused message is not counted");
            vk::cover("refused");
        }
        ok(receiver(&mut p, d).recv_message(&mut m), "the message is accepted");
        vk::check(m[..3] == pt, "it decrypts to what was sent");
        want[1 - d] += 1;
        vk::check(receiver(&mut p, d).get_message_count() == want[1 - d], "a received message is counted");
    }
    vk::check(p.i.is_transport() && p.r.is_transport(), "both remain connected");
    vk::cover("counted");
}
// ---- C23
fn h_c23_good() {
    // every byte value at every position, in every combination of upper and lower case
    let mut k = [0x1bu8, 0xc2, 0x3d, 0xe4, 0x5f, 0xa6, 0x70, 0x89, 0x1b, 0xc2, 0x3d, 0xe4, 0x5f, 0xa6, 0x70, 0x89, 0x1b, 0xc2, 0x3d, 0xe4, 0x5f, 0xa6, 0x70, 0x89, 0x1b, 0xc2, 0x3d, 0xe4, 0x5f, 0xa6, 0x70, 0x89];
    let at = vk::each(31, "at");
    k[at] = vk::u8_("byte");
    let mut up = [0u8; 32];
    up[at] = vk::u8_("case");
    let t = text(hex_text(&k, &up));
    good(&t, &k);
    vk::cover("parsed");
}
fn h_c23_window() {
    // any characters at all in a window
    let w = vk::param("window", 2) as usize;
    let mut t = hex_text(&[0xa5u8; 32], &[1; 32]);
    let at = vk::each(64 - w, "at");
    let c = vk::any_vec(w, "chars");
    let mut acc = 0u8;
    for x in c.iter() { acc |= *x; }
    vk::assume(acc < 0x80);
    t[at..at + w].copy_from_slice(&c);
    let mut k = [0u8; 32];
    let mut valid = true;
    for i in 0..32 { match (hexval(t[2 * i]), hexval(t[2 * i + 1])) { (Some(h), Some(l)) => k[i] = h << 4 | l, _ => valid = false } }
    let t = text(t);
    if valid { good(&t, &k); vk::cover("valid"); } else { refused(&t); vk::cover("invalid"); }
}
fn h_c23_length() {
    let n = vk::each(vk::param("max", 140) as usize, "len");
    vk::assume(n != 64);
    let d = vk::u8_("digit");
    vk::assume(hexval(d).is_some());
    refused(&text(vec![d; n]));
    vk::cover("refused");
}
fn h_c23_keypair() {
    let k = vk::any::<32>("key");
    let zero = k == [0; 32];
    vk::check(PrivateKey::from_bytes(k).is_empty() == zero, "empty exactly if all-zero");
    vk::check(Key::from_bytes(k).is_empty() == zero && Psk::from_bytes(k).is_empty() == zero, "empty exactly if all-zero");
    match PrivateKey::from_bytes(k).generate_public_key() { Ok(p) => vk::check(!zero && p.as_bytes() == public(&k), "the public key is the private key's"), Err(_) => vk::check(zero, "only the empty key has no public key") }
    match Keypair::from_private_key(PrivateKey::from_bytes(k)) {
        Ok(p) => { vk::check(!zero && p.get_public_key().as_bytes() == public(&k) && !p.is_empty(), "the pair holds the private key's public key"); vk::cover("pair"); }
        Err(_) => { vk::check(zero, "only the empty key gives no pair"); vk::cover("empty"); }
    }
    vk::check(Keypair::new_empty().is_empty() && PublicKey::empty().is_empty() && PrivateKey::empty().is_empty() && Key::new().is_empty() && Psk::default().is_empty(), "empty values are empty");
}
// ---- C24
fn h_c24_first() {
    let mut p = fresh(&[], &[]);
    let n = vk::one_of(&[0, 1, 20], "payload");
    let pa = vk::any_vec(n, "pa");
    let mut a = room_a(&pa);
    ok(p.i.send_message(&mut a), "the initiator sends");
    let mut bad = match vk::each(2, "how") {
        0 => { let x = xored(&a, &nonzero(a.len(), "mask")); vk::assume(!is_weak(&first32(&x))); vk::cover("altered"); x }
        1 => { let k = vk::each(n, "cut"); vk::assume(k > 0); vk::cover("cut"); a[..a.len() - k].to_vec() }
        _ => { vk::cover("extended"); let mut x = a.clone(); let k = vk::one_of(&[1, 2, 33], "more"); x.extend_from_slice(&vk::any_vec(k, "extra")); x }
    };
    let seen = bad.clone();
    // (the responder cannot notice: C19 has the keys it must refuse)
    ok(p.r.recv_message(&mut bad), "the responder accepts it");
    let mut b = room_b(&[]);
    ok(p.r.send_message(&mut b), "the responder answers");
    // no hash collision
    vk::assume(bound(&[], &a, &b) != bound(&[], &seen, &b));
    vk::check(p.i.recv_message(&mut b).is_err(), "the initiator notices that its first message was altered");
    closed(&p.i);
    vk::cover("noticed");
    let mut t = vec![0u8; 40];
    vk::check(p.i.send_message(&mut t).is_err() && t == [0u8; 40], "and nothing can be sent");
}
fn h_c24_second() {
    let mut p = fresh(&[], &[]);
    let mut a = room_a(&[]);
    ok(p.i.send_message(&mut a), "the initiator sends");
    let first = a.clone();
    ok(p.r.recv_message(&mut a), "the responder accepts");
    let n = vk::one_of(&[0, 1, 20], "payload");
    let pb = vk::any_vec(n, "pb");
    let mut b = room_b(&pb);
    ok(p.r.send_message(&mut b), "the responder answers");
    let mut bad = match vk::each(3, "how") {
        0 => { vk::cover("altered"); xored(&b, &nonzero(b.len(), "mask")) }
        1 => { let k = 1 + vk::each(39, "cut"); vk::cover("cut"); b[..b.len() - k].to_vec() }
        2 => { let k = 1 + vk::each(39, "cut"); vk::cover("cut-front"); b[k..].to_vec() }
        _ => { vk::cover("extended"); let k = vk::one_of(&[1, 2, 16, 33], "more"); let mut x = b.clone(); x.extend_from_slice(&vk::any_vec(k, "extra")); x }
    };
    // no hash collision
    vk::assume(bad.len() < 32 || bad[..32] == b[..32] || bound(&[], &first, &b) != bound(&[], &first, &bad));
    vk::check(p.i.recv_message(&mut bad).is_err(), "the initiator notices that the second message was altered");
    closed(&p.i);
    vk::cover("noticed");
    let mut t = vec![0u8; 40];
    vk::check(p.i.send_message(&mut t).is_err() && t == [0u8; 40], "and nothing can be sent");
}
fn h_c24_prologue() {
    let l = [0usize, 1, 16, 40];
    let (n, m) = (l[vk::each(3, "n")], l[vk::each(3, "m")]);
    let (x, y) = (vk::any_vec(n, "px"), vk::any_vec(m, "py"));
    vk::assume(x != y);
    let mut p = fresh(&x, &y);
    let mut a = room_a(&[]);
    ok(p.i.send_message(&mut a), "the initiator sends");
    let first = a.clone();
    ok(p.r.recv_message(&mut a), "the responder accepts");
    let mut b = room_b(&[]);
    ok(p.r.send_message(&mut b), "the responder answers");
    vk::assume(bound(&x, &first, &b) != bound(&y, &first, &b));
    vk::check(p.i.recv_message(&mut b).is_err(), "parties with different prologues do not connect");
    closed(&p.i);
    vk::cover("noticed");
}
fn h_c24_other_session() {
    // messages of one handshake do not fit another one
    let mut p = fresh(&[], &[]);
    let e2 = secret("key_e2");
    vk::assume(public(&e2) != public(&p.ei));
    let mut j = NoiseSession::init_session(true, &[], pair(&secret("key_s2")));
    j.set_ephemeral_keypair(pair(&e2));
    let mut a = room_a(&[]);
    ok(p.i.send_message(&mut a), "the initiator sends");
    let mut a2 = room_a(&[]);
    ok(j.send_message(&mut a2), "another initiator sends");
    let first = a.clone();
    ok(p.r.recv_message(&mut a), "the responder accepts");
    let mut b = room_b(&[]);
    ok(p.r.send_message(&mut b), "the responder answers");
    vk::assume(bound(&[], &first, &b) != bound(&[], &a2, &b));
    vk::check(j.recv_message(&mut b).is_err(), "an answer to somebody else is refused");
    closed(&j);
    vk::cover("noticed");
}
}
fn good(t: &str, k: &B32) {
    match PublicKey::from_str(t) { Ok(p) => vk::check(p.as_bytes() == *k, "a public key's text is its bytes in hexadecimal"), Err(_) => vk::check(false, "a good public key is accepted") }
    match PrivateKey::from_str(t) { Ok(p) => vk::check(p == PrivateKey::from_bytes(*k), "a private key's text is its bytes in hexadecimal"), Err(_) => vk::check(false, "a good private key is accepted") }
    match Key::from_str(t) { Ok(p) => vk::check(p.is_empty() == (*k == [0; 32]), "a key's text is its bytes in hexadecimal"), Err(_) => vk::check(false, "a good key is accepted") }
    match Psk::from_str(t) { Ok(p) => vk::check(p.is_empty() == (*k == [0; 32]), "a pre-shared key's text is its bytes in hexadecimal"), Err(_) => vk::check(false, "a good pre-shared key is accepted") }
}
fn refused(t: &str) {
    vk::check(PublicKey::from_str(t).is_err() && PrivateKey::from_str(t).is_err() && Key::from_str(t).is_err() && Psk::from_str(t).is_err(), "malformed text is refused");
}
