//! C21 the queue of pending messages, C22 the connection's handshake.
use crate::c_noise::{pair, secret, public};
use crate::{harnesses, vk};
use stratumv2::codec::*;
use stratumv2::error::Result;
use stratumv2::network::*;
use stratumv2::types::MessageType;

pub struct Dummy;
impl Encryptor for Dummy {
    fn is_handshake_complete(&self) -> bool { false }
    fn recv_handshake(&mut self, _: &mut [u8]) -> Result<Vec<u8>> { Ok(vec![]) }
    fn init_handshake(&mut self) -> Result<Vec<u8>> { Ok(vec![]) }
    fn encrypt_message(_: &[u8]) -> Vec<u8> { vec![] }
    fn decrypt_message(_: &[u8]) -> Vec<u8> { vec![] }
}
fn msg(who: u8, no: u8) -> Message { Message::new(MessageType::SetupConnection, vec![who, no]) }

extern "C" fn pusher(p: *mut u8) {
    let (peer, who, count) = unsafe { let s = &*(p as *const (&'static Peer<Dummy>, u8, u8)); (s.0, s.1, s.2) };
    for i in 0..count { peer.pending_msg_buffer.lock().unwrap().push(msg(who, i)); }
}
extern "C" fn drainer(p: *mut u8) {
    let s = unsafe { &mut *(p as *mut (&'static Peer<Dummy>, u8, Vec<Message>)) };
    for _ in 0..s.1 { let mut d = s.0.get_pending_msgs(); s.2.append(&mut d); }
}
/// every message exactly once, each sender's in the order they were queued
fn complete(got: &[Message], senders: &[(u8, u8)]) {
    let mut total = 0;
    for (who, count) in senders {
        let mut next = 0;
        for m in got { if m.payload[0] == *who { vk::check(m.payload[1] == next, "a sender's messages come out in the order they were queued, each once"); next += 1; } }
        vk::check(next == *count, "no message is lost");
        total += *count as usize;
    }
    vk::check(got.len() == total, "nothing else comes out");
}

harnesses! {
fn h_c21_sequence() {
    let peer = Peer::new(Dummy);
    vk::check(peer.setup_conn_msg.is_none() && peer.get_pending_msgs().is_empty(), "a new peer has nothing pending");
    let (mut queued, mut out) = (vec![], 0usize);
    for i in 0..vk::param("steps", 7) {
        if vk::each(1, "op") == 0 {
            let m = Message::new(MessageType::SetupConnection, vec![i as u8, vk::u8_("payload")]);
            queued.push(m.clone());
            peer.pending_msg_buffer.lock().unwrap().push(m);
            vk::cover("queued");
        } else {
            let got = peer.get_pending_msgs();
            vk::check(got[..] == queued[out..], "draining gives exactly what was queued since the last time, in order");
            vk::check(peer.pending_msg_buffer.lock().unwrap().is_empty(), "and leaves nothing");
            out = queued.len();
            if got.len() > 1 { vk::cover("drained-several"); } else if got.is_empty() { vk::cover("drained-nothing"); }
        }
    }
}
fn h_c21_concurrent() {
    let (pushers, count, drains) = (vk::param("pushers", 2) as u8, vk::param("count", 1) as u8, vk::param("drains", 2) as u8);
    let peer: &'static Peer<Dummy> = Box::leak(Box::new(Peer::new(Dummy)));
    let mut tasks: Vec<(&'static Peer<Dummy>, u8, u8)> = (0..pushers).map(|w| (peer, w, count)).collect();
    let mut d = (peer, drains, vec![]);
    let mut ids = vec![];
    for t in tasks.iter_mut() { ids.push(vk::spawn(pusher, t as *mut _ as *mut u8)); }
    ids.push(vk::spawn(drainer, &mut d as *mut _ as *mut u8));
    for i in ids { vk::join(i); }
    if d.2.len() > 0 { vk::cover("drained-meanwhile"); }
    let mut rest = peer.get_pending_msgs();
    if rest.len() > 0 { vk::cover("left-over"); }
    d.2.append(&mut rest);
    let all: Vec<(u8, u8)> = (0..pushers).map(|w| (w, count)).collect();
    complete(&d.2, &all);
    vk::check(peer.get_pending_msgs().is_empty(), "everything was taken out");
}
fn h_c21_drains() {
    // two threads draining at once never get the same message
    let count = vk::param("count", 2) as u8;
    let peer: &'static Peer<Dummy> = Box::leak(Box::new(Peer::new(Dummy)));
    for i in 0..count { peer.pending_msg_buffer.lock().unwrap().push(msg(0, i)); }
    let (mut a, mut b) = ((peer, 1u8, vec![]), (peer, 1u8, vec![]));
    let ids = [vk::spawn(drainer, &mut a as *mut _ as *mut u8), vk::spawn(drainer, &mut b as *mut _ as *mut u8)];
    for i in ids { vk::join(i); }
    vk::check(a.2.is_empty() || b.2.is_empty(), "a drain takes all there is");
    a.2.append(&mut b.2);
    complete(&a.2, &[(0, count)]);
    vk::cover("drained");
}
fn h_c22_handshake() {
    let sk = secret("key_static");
    let (mut i, mut r) = (ConnectionEncryptor::new_outbound(), ConnectionEncryptor::new_inbound(Some(pair(&sk))));
    let undone = |e: &ConnectionEncryptor| vk::check(!e.is_handshake_complete() && e.get_remote_pubkey().is_none(), "nothing is complete before the handshake");
    undone(&i);
    undone(&r);
    let mut x = match i.init_handshake() { Ok(x) => x, Err(_) => { vk::check(false, "the handshake starts"); return } };
    undone(&i);
    let mut y = match r.recv_handshake(&mut x) { Ok(y) => y, Err(_) => { vk::check(false, "the receiver answers"); return } };
    undone(&i);
    vk::check(r.is_handshake_complete(), "the receiver is done when it has answered");
    vk::check(i.recv_handshake(&mut y).is_ok(), "the initiator accepts the answer");
    vk::check(i.is_handshake_complete(), "the initiator is done");
    vk::check(i.get_remote_pubkey().map(|k| k.as_bytes()) == Some(public(&sk)), "the initiator knows the receiver's static key");
    vk::cover("complete");
}
fn h_c22_altered() {
    // nothing that happens to the two messages on their way lets the initiator believe it is connected
    let sk = secret("key_static");
    let (mut i, mut r) = (ConnectionEncryptor::new_outbound(), ConnectionEncryptor::new_inbound(Some(pair(&sk))));
    let mut x = match i.init_handshake() { Ok(x) => x, Err(_) => { vk::check(false, "the handshake starts"); return } };
    let at = vk::one_of(&[0, 31, 32, 79, 80, 500, 992, 1007], "at");
    let m = vk::any::<16>("mask");
    let mut acc = 0u8;
    for k in m.iter() { acc |= *k; }
    let first = x.clone();
    let which = vk::each(2, "which");
    if which == 0 { vk::assume(acc != 0); for k in 0..16 { x[at + k] ^= m[k]; } }
    let seen = x.clone();
    let mut y = match r.recv_handshake(&mut x) { Ok(y) => y, Err(_) => { vk::check(which == 0, "the receiver answers"); vk::check(!r.is_handshake_complete() && r.get_remote_pubkey().is_none(), "and is not complete"); return } };
    let sent = y.clone();
    if which == 1 { vk::assume(acc != 0); for k in 0..16 { y[at + k] ^= m[k]; } }
    // no hash collision
    vk::assume(which == 2 || which == 1 && at > 31 || crate::c_noise::bound(&[], &first, &y) != crate::c_noise::bound(&[], &seen, &sent));
    let ok = i.recv_handshake(&mut y).is_ok();
    vk::check(ok == (which == 2), "an altered handshake is refused, an unaltered one accepted");
    vk::check(i.is_handshake_complete() == ok && i.get_remote_pubkey().is_some() == ok, "the initiator is complete exactly if it accepted");
    vk::cover(if ok { "accepted" } else { "refused" });
}
fn h_c22_turns() {
    // calls out of turn are refused and leave the handshake as it was
    let sk = secret("key_static");
    let (mut i, mut r) = (ConnectionEncryptor::new_outbound(), ConnectionEncryptor::new_inbound(Some(pair(&sk))));
    let early = vk::any_vec(100, "early");
    let bad = |e: &mut ConnectionEncryptor, init: bool| {
        if init { vk::check(e.init_handshake().is_err(), "starting out of turn is refused"); }
        else { let mut b = early.clone(); vk::check(e.recv_handshake(&mut b).is_err() && b == early, "receiving out of turn is refused"); }
    };
    if vk::each(1, "a") == 1 { bad(&mut i, false); }
    if vk::each(1, "b") == 1 { bad(&mut r, true); }
    let mut x = match i.init_handshake() { Ok(x) => x, Err(_) => { vk::check(false, "the handshake starts"); return } };
    if vk::each(1, "c") == 1 { bad(&mut i, true); }
    if vk::each(1, "d") == 1 { bad(&mut r, true); }
    let mut y = match r.recv_handshake(&mut x) { Ok(y) => y, Err(_) => { vk::check(false, "the receiver answers"); return } };
    vk::check(r.is_handshake_complete() && !i.is_handshake_complete(), "the receiver is done when it has answered");
    if vk::each(1, "e") == 1 { bad(&mut i, true); }
    vk::check(i.recv_handshake(&mut y).is_ok() && i.is_handshake_complete(), "the initiator accepts the answer");
    vk::check(i.get_remote_pubkey().map(|k| k.as_bytes()) == Some(public(&sk)), "the initiator knows the receiver's static key");
    vk::cover("complete");
}
// ---- C25
fn h_c25_ephemeral() {
    // two sessions of the same party never use the same ephemeral key
    let sk = secret("key_static");
    let kp = pair(&sk);
    let session = |init: bool| noiseexplorer_nx::noisesession::NoiseSession::init_session(init, &[], kp.clone());
    let start = || { let mut s = session(true); let mut b = vec![0u8; 48]; if vk::each(1, "refused") == 1 { let mut t = vec![0u8; 20]; vk::check(s.send_message(&mut t).is_err(), "too small"); } match s.send_message(&mut b) { Ok(()) => b, Err(_) => { vk::check(false, "the initiator sends"); b } } };
    let answer = |a: &[u8]| { let mut s = session(false); let mut a = a.to_vec(); let mut b = vec![0u8; 112]; vk::check(s.recv_message(&mut a).is_ok() && s.send_message(&mut b).is_ok(), "the responder answers"); b };
    let (x, y) = (start(), start());
    vk::check(x[..32] != y[..32], "two initiator sessions use different ephemeral keys");
    // the same first message, twice
    let (u, v) = (answer(&x), answer(&x));
    vk::check(u[..32] != v[..32], "two responder sessions use different ephemeral keys");
    vk::check(u[..32] != x[..32] && u[..32] != y[..32], "nor those of the initiators");
    vk::cover("different");
}
fn h_c25_connections() {
    let sk = secret("key_static");
    let first = || match ConnectionEncryptor::new_outbound().init_handshake() { Ok(x) => x, Err(_) => { vk::check(false, "the handshake starts"); vec![0; 1024] } };
    let answer = |a: &[u8]| match ConnectionEncryptor::new_inbound(Some(pair(&sk))).recv_handshake(&mut a.to_vec()) { Ok(y) => y, Err(_) => { vk::check(false, "the receiver answers"); vec![0; 1024] } };
    let (x, y) = (first(), first());
    vk::check(x[..32] != y[..32], "two connections use different ephemeral keys");
    let (u, v) = (answer(&x), answer(&x));
    vk::check(u[..32] != v[..32], "two connections use different ephemeral keys");
    vk::cover("different");
}
fn h_c25_keypair() {
    let (a, b) = (noiseexplorer_nx::types::Keypair::default(), noiseexplorer_nx::types::Keypair::default());
    vk::check(!a.is_empty() && !b.is_empty(), "a generated pair is not empty");
    vk::check(a != b && a.get_public_key().as_bytes() != b.get_public_key().as_bytes(), "generated pairs are different");
    vk::cover("different");
}
fn h_c25_static() {
    // a server without a static key of its own takes a new one
    let run = |how: usize| -> Option<[u8; 32]> {
        if how == 0 {
            let (mut i, mut r) = (ConnectionEncryptor::new_outbound(), ConnectionEncryptor::new_inbound(None));
            let mut x = i.init_handshake().ok()?;
            let mut y = r.recv_handshake(&mut x).ok()?;
            i.recv_handshake(&mut y).ok()?;
            i.get_remote_pubkey().map(|k| k.as_bytes())
        } else {
            let (mut i, mut r) = (stratumv2::noise::new_noise_initiator(), stratumv2::noise::new_noise_responder(None));
            let (mut a, mut b) = ([0u8; 48], [0u8; 112]);
            i.send_message(&mut a).ok()?;
            r.recv_message(&mut a).ok()?;
            r.send_message(&mut b).ok()?;
            i.recv_message(&mut b).ok()?;
            i.get_remote_static_public_key().map(|k| k.as_bytes())
        }
    };
    match (run(vk::each(1, "first")), run(vk::each(1, "second"))) {
        (Some(a), Some(b)) => { vk::check(a != b, "two servers without a static key have different ones"); vk::cover("different"); }
        _ => vk::check(false, "the handshake runs without a given static key"),
    }
}
fn h_c25_entropy() {
    // whatever 32 bytes the generator gives, they are the key: no part of a generated secret is fixed
    match vk::each(2, "what") {
        0 => { arbitrary(|| { let k = noiseexplorer_nx::types::Keypair::default(); secret_of(&k, &k.get_public_key().as_bytes()) }); vk::cover("static"); }
        1 => { arbitrary(|| { let mut s = stratumv2::noise::new_noise_initiator(); let mut a = [0u8; 48]; vk::check(s.send_message(&mut a).is_ok(), "the initiator sends"); let mut e = [0u8; 32]; e.copy_from_slice(&a[..32]); secret_of(&s, &e) }); vk::cover("ephemeral"); }
        _ => { arbitrary(|| Some(stratumv2::noise::generate_authority_keypair().secret.to_bytes())); vk::cover("authority"); }
    }
}
fn h_c25_channel() {
    // any value the generator can give, and no panic
    let a = new_channel_id();
    vk::check(a < u32::MAX, "a channel id is below the reserved largest value");
    vk::cover("drawn");
}
}

/// the private key among the bytes of a value that holds it (None: it is kept elsewhere)
fn secret_of<T>(v: &T, public_key: &[u8; 32]) -> Option<[u8; 32]> {
    let m = crate::c_sys::memory(v);
    let mut o = 0;
    while o + 32 <= m.len() {
        let mut k = [0u8; 32];
        k.copy_from_slice(&m[o..o + 32]);
        if !vk::possible(public(&k) != *public_key) { return Some(k); }
        o += 1;
    }
    None
}
/// every bit of what `make` gives can be zero and one (but those X25519 ignores)
fn arbitrary(make: impl Fn() -> Option<[u8; 32]>) {
    let fixed = |k: &[u8; 32], v: u8| { let mut d = 0u8; for i in 0..32 { d |= (k[i] ^ v) & match i { 0 => 0xf8, 31 => 0x3f, _ => 0xff }; } d == 0 };
    if vk::SYMBOLIC {
        let k = match make() { Some(k) => k, None => return };
        vk::check(vk::possible(fixed(&k, 0xa5)) && vk::possible(fixed(&k, 0x5a)), "no part of a generated secret is fixed");
    } else {
        // natively: 600 samples must span all affine combinations of the 251 bits (a full-entropy source misses this with probability < 2^-300)
        let words = |k: &[u8; 32]| { let mut w = [0u64; 4]; for i in 0..32 { w[i / 8] |= ((k[i] & match i { 0 => 0xf8, 31 => 0x3f, _ => 0xff }) as u64) << (8 * (i % 8)); } w };
        let first = match make() { Some(k) => words(&k), None => return };
        let (mut basis, mut rank) = ([[0u64; 4]; 256], 0);
        for _ in 0..600 {
            let mut w = match make() { Some(k) => words(&k), None => return };
            for i in 0..4 { w[i] ^= first[i]; }
            for b in 0..256 {
                if w[b / 64] >> (b % 64) & 1 == 0 { continue; }
                if basis[b] == [0; 4] { basis[b] = w; rank += 1; break; }
                for i in 0..4 { w[i] ^= basis[b][i]; }
            }
        }
        vk::check(rank == 251, "no part of a generated secret is fixed");
    }
}
