//! Properties of the parts together: C26 streams of frames, C27 equality and conversions of values, C28 the
//! authenticity of a connection, C29 messages over an encrypted session, C30 erasure of secrets.
use crate::c_cert::{authority, base58, unhex, KEYS};
use crate::c_noise::{connected, dh, pair, public, receiver, rekeyed, room_a, room_b, secret, sender, B32};
use crate::msgs::*;
use crate::util::*;
use crate::{harnesses, vk, with_framed};
use std::convert::TryFrom;
use stratumv2::codec::*;
use stratumv2::network::*;
use stratumv2::noise::*;
use stratumv2::types::*;

/// one arbitrary frame and its bytes
fn some_frame(tags: &[usize], lens: &[usize]) -> (Message, Vec<u8>) {
    let (code, ch) = REGISTRY[vk::one_of(tags, "tag")];
    let n = vk::one_of(lens, "len");
    let p = vk::any_vec(n, "payload");
    let wire = W::new().u16(if ch { 0x8000 } else { 0 }).u8(code).u16(n as u16).u8(0).raw(&p).0;
    (Message::new(variant(code).unwrap(), p), wire)
}
/// the memory a value occupies, as it is
pub fn memory<T>(v: &T) -> Vec<u8> {
    let n = std::mem::size_of::<T>();
    let mut m = Vec::<u8>::with_capacity(n);
    unsafe { std::ptr::copy_nonoverlapping(v as *const T as *const u8, m.as_mut_ptr(), n); m.set_len(n); }
    m
}
/// whether `mem` contains `key` whatever the keys are
fn holds(mem: &[u8], key: &B32) -> bool {
    let mut found = false;
    for o in 0..=mem.len() - 32 {
        let mut d = 0u8;
        for i in 0..32 { d |= mem[o + i] ^ key[i]; }
        found |= !vk::possible(d != 0);
    }
    found
}
fn erased<T>(v: &T, keys: &[(&B32, &str)]) {
    let m = memory(v);
    for (k, what) in keys { vk::check(!holds(&m, k), what); }
}
fn texts(n: usize, m: usize) -> (String, String) { (vk::ascii(n, "a"), vk::ascii(m, "b")) }
macro_rules! string_type {
    ($t:ident, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        let same = a == b;
        match ($t::new(a.clone()), $t::new(b.clone())) {
            (Ok(x), Ok(y)) => {
                vk::check((x == y) == same && (x != y) != same, "two values are equal exactly if their contents are");
                vk::check((x == b) == same && (b == x) == same && x == a && a == x, "a value equals exactly its contents");
                vk::check(x.clone() == x && y.clone() == y, "a copy is equal");
                vk::check(x.data == a && x.length == a.len() as u32 as _, "a value has its contents");
                vk::cover(if same { "equal" } else { "different" });
            }
            _ => vk::check(false, "contents within the limits are accepted"),
        }
    }};
}

/// `rate`: where the hash rate stands behind the first text, if there is one
fn same_messages<T: Msg + PartialEq + Clone>(rate: Option<usize>) {
    let mut s = Shape::new([3, 1, 0, 2, 1]);
    let (a, wa) = T::make(&s);
    if T::VARS > 0 { let f = vk::each(T::VARS - 1, "field"); s.len[f] = vk::one_of(&[1, 2, 3], "len"); }
    let (b, wb) = T::make(&s);
    let (a, b) = match (a, b) { (Some(a), Some(b)) => (a, b), _ => { vk::check(false, "valid messages"); return } };
    // (the rates are numbers: zero equals minus zero, and what is no number equals nothing)
    let (mut same, mut number) = (wa == wb, true);
    if let Some(at) = rate {
        let (i, j) = if T::VARS > 0 { (at + 3, at + s.len[0]) } else { (at, at) };
        let f = |w: &[u8], i: usize| f32::from_bits(u32::from_le_bytes([w[i], w[i + 1], w[i + 2], w[i + 3]]));
        same = wa[..i] == wb[..j] && wa[i + 4..] == wb[j + 4..] && f(&wa, i) == f(&wb, j);
        number = f(&wa, i) == f(&wa, i);
    }
    vk::check((a == b) == same && (a != b) != same && (b == a) == same, "two messages are equal exactly if all their fields are");
    let c = a.clone();
    vk::check(c.dump() == wa && (c == a) == number, "a copy has the same fields");
    vk::cover(if same { "equal" } else { "different" });
}

harnesses! {
// ---- C26
fn h_c26_frames() {
    // frames sent back to back come out one by one
    let mut sent = vec![];
    let mut stream = vec![];
    for i in 0..vk::param("frames", 3) {
        let (m, w) = some_frame(if i == 0 { &[0, 3, 12, 28] } else { &[1, 28] }, if i == 0 { &[0, 1, 40, 300] } else { &[0, 7] });
        match m.serialize(&mut stream) { Ok(n) => vk::check(n == w.len() && stream[stream.len() - n..] == w[..], "a frame is appended to what was sent before"), Err(_) => vk::check(false, "a frame is sent") }
        sent.push(m);
    }
    let whole = stream.len();
    let mut p = ByteParser::new(&stream, 0);
    for m in sent.iter() {
        match Message::deserialize(&mut p) { Ok(x) => vk::check(x.message_type == m.message_type && x.payload == m.payload, "each frame comes out as it was sent"), Err(_) => vk::check(false, "each frame comes out") }
    }
    vk::check(p.next_by(1).is_err() && Message::deserialize(&mut p).is_err(), "nothing is left after the last frame");
    // cut somewhere in the last frame
    let last = 6 + sent[sent.len() - 1].payload.len();
    let cut = whole - 1 - vk::each(last - 1, "cut");
    let mut p = ByteParser::new(&stream[..cut], 0);
    for m in sent[..sent.len() - 1].iter() {
        match Message::deserialize(&mut p) { Ok(x) => vk::check(x == *m, "the frames before a cut come out as they were sent"), Err(_) => vk::check(false, "the frames before a cut come out") }
    }
    vk::check(Message::deserialize(&mut p).is_err(), "an incomplete frame is not delivered");
    vk::cover("split");
}
fn h_c26_arbitrary() {
    // whatever arrives: the frames taken out are, one after the other, the bytes that arrived
    let n = vk::param("max", 15) as usize;
    let b = vk::any_vec(n, "bytes");
    let mut p = ByteParser::new(&b, 0);
    let mut seen = vec![];
    let mut count = 0;
    while let Ok(m) = Message::deserialize(&mut p) {
        seen.extend_from_slice(&enc(&m));
        count += 1;
        vk::check(seen.len() <= n && seen[..] == b[..seen.len()], "the frames are the bytes that arrived");
        // (the parser has moved by exactly that much)
        let mut q = ByteParser::new(&b, seen.len());
        match (Message::deserialize(&mut q), { let mut r = ByteParser::new(&b, 0); for _ in 0..count { let _ = Message::deserialize(&mut r); } Message::deserialize(&mut r) }) { (Ok(x), Ok(y)) => vk::check(x == y, "the next frame starts where the last one ended"), (Err(_), Err(_)) => {} _ => vk::check(false, "the next frame starts where the last one ended") }
    }
    vk::cover(match count { 0 => "none", 1 => "one", _ => "two" });
}
fn h_c26_messages() {
    // two messages of different types in one stream, told apart by their headers
    let (k, l) = (vk::param("msg", 0) as usize, (vk::param("msg", 0) as usize + 7) % FRAMED);
    with_framed!(k, T => with_framed!(l, U => {
        let (a, wa) = T::make(&Shape::new([3, 1, 0, 2, vk::one_of(&[0, 1, 30], "len")]));
        let (b, wb) = U::make(&Shape::new([2, 1, 1, 3, 0]));
        let (a, b) = match (a, b) { (Some(a), Some(b)) => (a, b), _ => { vk::check(false, "valid messages"); return } };
        let mut stream = vec![];
        match (frame(&a).and_then(|m| m.serialize(&mut stream)), frame(&b).and_then(|m| m.serialize(&mut stream))) { (Ok(x), Ok(y)) => vk::check(x == 6 + wa.len() && y == 6 + wb.len() && stream.len() == x + y, "sizes"), _ => { vk::check(false, "valid messages are framed"); return } }
        let mut p = ByteParser::new(&stream, 0);
        let (x, y) = match (Message::deserialize(&mut p), Message::deserialize(&mut p)) { (Ok(x), Ok(y)) => (x, y), _ => { vk::check(false, "both frames arrive"); return } };
        vk::check(p.next_by(1).is_err(), "and nothing else");
        let same = CODES[k] == CODES[l];
        vk::check(same || unframe::<U>(&x).is_err() && unframe::<T>(&y).is_err(), "neither is taken for the other");
        match (unframe::<T>(&x), unframe::<U>(&y)) { (Ok(x), Ok(y)) => vk::check(x.dump() == wa && y.dump() == wb, "both messages arrive as sent"), _ => vk::check(false, "both messages arrive") }
        vk::cover("both");
    }))
}
// ---- C27
fn h_c27_strings() {
    let (n, m) = (vk::one_of(&[0, 1, 2, 5, 31], "n"), vk::one_of(&[0, 1, 2, 5, 31], "m"));
    let bytes = |n: usize, l: &str| vk::any_vec(n, l);
    match vk::each(6, "type") {
        0 => string_type!(B0_31, bytes(n, "a"), bytes(m, "b")),
        1 => string_type!(B0_32, bytes(n, "a"), bytes(m, "b")),
        2 => string_type!(B0_255, bytes(n, "a"), bytes(m, "b")),
        3 => string_type!(B0_64K, bytes(n, "a"), bytes(m, "b")),
        4 => {
            let (a, b) = (bytes(n, "a"), bytes(m, "b"));
            match (B0_16M::new(a.clone()), B0_16M::new(b.clone())) {
                (Ok(x), Ok(y)) => { vk::check((x == y) == (a == b) && (x == b) == (a == b) && (b == x) == (a == b), "two values are equal exactly if their contents are"); vk::check(x.length == a.len() as u32 && Vec::<u8>::from(x) == a, "a value gives back its contents"); vk::cover("16M"); }
                _ => vk::check(false, "contents within the limits are accepted"),
            }
        }
        5 => { let (a, b) = texts(n, m); string_type!(STR0_32, a.clone(), b.clone()); vk::check(STR0_32::new(a.clone()).map(String::from).ok() == Some(a), "a text gives back its contents") }
        _ => { let (a, b) = texts(n, m); string_type!(STR0_255, a.clone(), b.clone()); vk::check(STR0_255::new(a.clone()).map(String::from).ok() == Some(a), "a text gives back its contents") }
    }
    let a = bytes(n, "c");
    vk::check(B0_31::new(a.clone()).map(Vec::from).ok().as_ref() == Some(&a) && B0_32::new(a.clone()).map(Vec::from).ok().as_ref() == Some(&a) && B0_255::new(a.clone()).map(Vec::from).ok().as_ref() == Some(&a) && B0_64K::new(a.clone()).map(Vec::from).ok() == Some(a), "a value gives back its contents");
}
fn h_c27_fixed() {
    let (v, w, z) = (vk::u32_("v"), vk::u32_("w"), vk::u64_("z") as usize);
    let fits = v < 1 << 24;
    match U24::new(v) {
        Ok(u) => {
            vk::check(fits, "a number of more than 24 bits is refused");
            vk::check((u == w) == (v == w) && (w == u) == (v == w), "a number equals exactly itself");
            if let Ok(x) = U24::new(w) { vk::check((x == u) == (v == w), "numbers are equal exactly if their values are"); }
            vk::check(u32::from(u.clone()) == v && usize::from(u) == v as usize, "a number converts to its value");
            vk::cover("fits");
        }
        Err(_) => { vk::check(!fits, "a number of 24 bits is accepted"); vk::cover("too-big"); }
    }
    vk::check(U24::try_from(v).is_ok() == fits, "the same limit for conversions");
    match U24::try_from(z) { Ok(u) => vk::check(z < 1 << 24 && usize::from(u) == z, "a number keeps its value"), Err(_) => vk::check(z >= 1 << 24, "a number of 24 bits is accepted") }
    let (a, b) = (vk::any::<32>("a"), vk::any::<32>("b"));
    let (x, y) = (U256::from(a), U256::from(b));
    let mut d = 0u8;
    for i in 0..32 { d |= a[i] ^ b[i]; }
    vk::check((x == y) == (d == 0) && (x == b) == (d == 0) && (b == x) == (d == 0), "two 256-bit numbers are equal exactly if their bytes are");
    vk::check(x.0 == a && <[u8; 32]>::from(x.clone()) == a && x.clone() == x, "and convert to their bytes");
}
fn h_c27_messages() {
    use stratumv2::{common, job_negotiation as jn, mining};
    match vk::param("msg", 0) {
        0 => same_messages::<mining::SetupConnection>(None),
        1 => same_messages::<mining::SetupConnectionSuccess>(None),
        2 => same_messages::<mining::SetupConnectionError>(None),
        3 => same_messages::<jn::SetupConnection>(None),
        4 => same_messages::<jn::SetupConnectionSuccess>(None),
        5 => same_messages::<jn::SetupConnectionError>(None),
        7 => same_messages::<common::ChannelEndpointChanged>(None),
        8 => same_messages::<mining::OpenStandardMiningChannel>(Some(5)),
        9 => same_messages::<mining::OpenStandardMiningChannelSuccess>(None),
        10 => same_messages::<mining::OpenStandardMiningChannelError>(None),
        11 => same_messages::<mining::OpenExtendedMiningChannel>(Some(5)),
        12 => same_messages::<mining::OpenExtendedMiningChannelSuccess>(None),
        13 => same_messages::<mining::OpenExtendedMiningChannelError>(None),
        14 => same_messages::<mining::UpdateChannel>(Some(4)),
        _ => same_messages::<SignatureNoiseMessage>(None),
    }
}
fn h_c27_frames() {
    let (a, wa) = some_frame(&[0, 3, 28], &[0, 1, 5]);
    let (b, wb) = some_frame(&[0, 4, 28], &[0, 1, 5]);
    let same = wa == wb;
    vk::check((a == b) == same && (b == a) == same && (a != b) != same, "two frames are equal exactly if their types and payloads are");
    vk::check(a.clone() == a, "a copy is equal");
    vk::cover(if same { "equal" } else { "different" });
}
// ---- C28
fn h_c28_connection() {
    // the client holds the key of authority 0; somebody answers its connection and shows a certificate
    let (sk, other) = (secret("key_server"), secret("key_other"));
    let signer = vk::each(1, "signer");
    let st = pair(&sk).get_public_key();
    let cert = match SignedCertificate::new(vk::u16_("version"), 1000, 2000, &st) { Ok(c) => c, Err(_) => return };
    let msg = match SignatureNoiseMessage::from_auth_key(&authority(signer), &cert) { Ok(m) => m, Err(_) => { vk::check(false, "a certificate can be signed"); return } };
    let connect = |answering: &B32| -> Option<StaticPublicKey> {
        let (mut i, mut r) = (ConnectionEncryptor::new_outbound(), ConnectionEncryptor::new_inbound(Some(pair(answering))));
        let mut x = match i.init_handshake() { Ok(x) => x, Err(_) => { vk::check(false, "the handshake starts"); return None } };
        let mut y = match r.recv_handshake(&mut x) { Ok(y) => y, Err(_) => { vk::check(false, "the receiver answers"); return None } };
        vk::check(i.recv_handshake(&mut y).is_ok(), "the initiator accepts the answer");
        let k = i.get_remote_pubkey();
        vk::check(k.is_some(), "the initiator knows the key that answered");
        k
    };
    // (perhaps after an earlier connection to the genuine server)
    if vk::each(1, "before") == 1 { if let Some(k) = connect(&sk) { judge(&k, &msg, signer == 0); } }
    let answering = if vk::each(1, "impostor") == 1 { other } else { sk };
    if let Some(k) = connect(&answering) { judge(&k, &msg, signer == 0 && public(&answering) == public(&sk)); }
}
fn h_c28_session() {
    // as above, with the certificate in the second handshake message; an attacker can put it in its own
    let (sk, other) = (secret("key_server"), secret("key_other"));
    let st = pair(&sk).get_public_key();
    let cert = match SignedCertificate::new(0, 1000, 2000, &st) { Ok(c) => c, Err(_) => return };
    let msg = match SignatureNoiseMessage::from_auth_key(&authority(0), &cert) { Ok(m) => m, Err(_) => { vk::check(false, "a certificate can be signed"); return } };
    let answering = if vk::each(1, "impostor") == 1 { other } else { sk };
    let (mut i, mut r) = (new_noise_initiator(), new_noise_responder(Some(pair(&answering))));
    let mut a = room_a(&[]);
    let mut b = room_b(&enc(&msg));
    vk::check(i.send_message(&mut a).is_ok() && r.recv_message(&mut a).is_ok() && r.send_message(&mut b).is_ok(), "the handshake runs");
    let m = vk::any_vec(b.len(), "mask");
    let mut acc = 0u8;
    let altered = vk::each(1, "altered") == 1;
    if altered { for k in 48..b.len() { b[k] ^= m[k]; acc |= m[k]; } vk::assume(acc != 0); }
    let done = i.recv_message(&mut b).is_ok();
    vk::check(done != altered, "an altered answer is refused, an unaltered one accepted");
    if !done { vk::check(i.get_remote_static_public_key().is_none(), "nobody is at the other end"); vk::cover("altered"); return }
    let key = match i.get_remote_static_public_key() { Some(k) => k, None => { vk::check(false, "the initiator knows the key that answered"); return } };
    match deserialize::<SignatureNoiseMessage>(&b[80..154]) { Ok(m) => { vk::check(m == msg, "the certificate arrives as sent"); judge(&key, &m, public(&answering) == public(&sk)) } Err(_) => vk::check(false, "the certificate arrives") }
}
// ---- C29
fn h_c29_messages() {
    let k = vk::param("msg", 0) as usize;
    let (mut p, e) = connected(&[], &[], &[]);
    with_framed!(k, T => {
        let d = vk::each(1, "direction");
        for n in 0..2 {
            let mut shape = Shape::new([3, 1, 0, 2, 1]);
            if n == 0 && T::VARS > 0 { let f = T::VARS - 1; shape.len[f] = T::MIN[f] + vk::each(T::CAP.min(vk::param("max", 258) as usize) - T::MIN[f], "len"); }
            let (v, wire) = T::make(&shape);
            let v = match v { Some(v) => v, None => { vk::check(false, "a valid message"); return } };
            let mut buf = match frame(&v).and_then(|m| serialize(&m)) { Ok(b) => b, Err(_) => { vk::check(false, "a valid message is framed"); return } };
            let size = buf.len();
            buf.extend_from_slice(&[0; 16]);
            vk::check(sender(&mut p, d).send_message(&mut buf).is_ok(), "a message is encrypted");
            let travelled = buf.clone();
            vk::check(receiver(&mut p, d).recv_message(&mut buf).is_ok(), "it is decrypted");
            vk::check(buf.len() == size + 16, "the size");
            match deserialize::<Message>(&buf[..size]).ok().and_then(|m| unframe::<T>(&m).ok()) { Some(x) => vk::check(x.dump() == wire, "the message arrives as it was sent"), None => vk::check(false, "the message arrives") }
            // the same bytes a second time
            let mut again = travelled.clone();
            vk::check(receiver(&mut p, d).recv_message(&mut again).is_err(), "a message is not delivered twice");
        }
        vk::cover(if d == 0 { "to-server" } else { "to-client" });
        let _ = &e;
    })
}
// ---- C30
fn h_c30_handshake() {
    // a complete session does not keep what the handshake was made of
    let (p, e) = connected(&[], &[], &[]);
    let (ee, es) = (dh(&p.ei, &public(&p.er)), dh(&p.ei, &public(&p.sr)));
    let common = [(&ee, "a complete session does not keep a Diffie-Hellman result"), (&es, "a complete session does not keep a Diffie-Hellman result"), (&e.ck[0], "a complete session does not keep a chaining key"), (&e.ck[1], "a complete session does not keep a chaining key"), (&e.hk[0], "a complete session does not keep a handshake key"), (&e.hk[1], "a complete session does not keep a handshake key")];
    erased(&p.i, &common);
    erased(&p.r, &common);
    erased(&p.i, &[(&p.ei, "a complete session does not keep the ephemeral private key"), (&p.si, "a complete session does not keep the static private key")]);
    erased(&p.r, &[(&p.er, "a complete session does not keep the ephemeral private key"), (&p.sr, "a complete session does not keep the static private key")]);
    vk::cover("handshake");
}
fn h_c30_connection() {
    let sk = secret("key_static");
    let (mut i, mut r) = (ConnectionEncryptor::new_outbound(), ConnectionEncryptor::new_inbound(Some(pair(&sk))));
    let mut x = match i.init_handshake() { Ok(x) => x, Err(_) => { vk::check(false, "the handshake starts"); return } };
    let mut y = match r.recv_handshake(&mut x) { Ok(y) => y, Err(_) => { vk::check(false, "the receiver answers"); return } };
    erased(&r, &[(&sk, "a connection does not keep the static private key once its handshake is complete")]);
    vk::check(!holds(&y, &sk) && !holds(&x, &sk), "a private key is not sent");
    vk::check(i.recv_handshake(&mut y).is_ok(), "the initiator accepts the answer");
    vk::check(!holds(&y, &sk), "a private key is not sent");
    vk::cover("connection");
}
fn h_c30_keys() {
    // a key that was replaced or given up is gone
    let (mut p, e) = connected(&[], &[], &[]);
    let (mut k, mut given_up) = (e.k, [false; 2]);
    for _ in 0..2 {
        let d = vk::each(1, "direction");
        let old = k[d];
        if given_up[d] { continue; }
        match vk::each(1, "op") {
            // (the direction from initiator to responder is called local by both)
            0 => { for s in [&mut p.i, &mut p.r].iter_mut() { if d == 0 { s.rekey_local_cipherstate() } else { s.rekey_remote_cipherstate() } } k[d] = rekeyed(&old); }
            _ => { for s in [&mut p.i, &mut p.r].iter_mut() { if d == 0 { s.clear_local_cipherstate() } else { s.clear_remote_cipherstate() } } given_up[d] = true; }
        }
        erased(&p.i, &[(&old, "a replaced or cleared key is gone")]);
        erased(&p.r, &[(&old, "a replaced or cleared key is gone")]);
    }
    vk::cover("keys");
}
}
fn judge(key: &StaticPublicKey, msg: &SignatureNoiseMessage, genuine: bool) {
    let (s, n) = (vk::u64_("now_s"), vk::u32_("now_ns"));
    vk::assume(s < 1 << 33 && n < 1_000_000_000);
    vk::set_clock(s as i64, n);
    let good = genuine && s >= 1000 && s < 2000;
    let text = base58(&unhex(KEYS[0].1));
    match CertificateFormat::new(&text, key, msg) {
        Ok(c) => { let v = c.verify().is_ok(); vk::check(v == good, "the connection is authentic exactly if the authority certified the key that answered and the certificate is valid now"); vk::cover(if v { "authentic" } else { "impostor" }); }
        Err(_) => vk::check(false, "a good authority key is accepted"),
    }
}
