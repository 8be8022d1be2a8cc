//! C31 sessions and connections are independent of each other, C32 encoding and decoding have no memory.
use crate::c_noise::{fresh, nx, pair, public, room_a, room_b, room_t, secret, seal, sender, receiver, rekeyed, connected, Party, Run};
use crate::msgs::*;
use crate::util::*;
use crate::{harnesses, vk, with_framed, with_msg};
use std::io::{self, Write};
use stratumv2::codec::*;
use stratumv2::network::*;
use stratumv2::types::*;
use std::str::FromStr;
use stratumv2::common::{Protocol, SetupConnectionErrorCode};

const STEPS: usize = 5;
/// the `n`-th step of a session; `wire` carries what is on its way
fn step(p: &mut Party, e: &Run, n: usize, wire: &mut Vec<u8>, text: u8) {
    let ok = |c: bool| vk::check(c, "a session is not disturbed by another one");
    match n {
        0 => { *wire = room_a(&[]); ok(p.i.send_message(wire).is_ok()); ok(*wire == e.a); }
        1 => { ok(p.r.recv_message(wire).is_ok()); *wire = room_b(&[text]); ok(p.r.send_message(wire).is_ok()); ok(*wire == e.b); }
        2 => {
            ok(p.i.recv_message(wire).is_ok());
            ok(wire[80] == text);
            ok(p.i.get_handshake_hash() == Some(e.h) && p.r.get_handshake_hash() == Some(e.h));
            ok(p.i.get_remote_static_public_key().map(|k| k.as_bytes()) == Some(public(&p.sr)));
        }
        _ => {
            let d = n - 3;
            let pt = [text, n as u8, 1];
            *wire = room_t(&pt);
            ok(sender(p, d).send_message(wire).is_ok());
            ok(*wire == seal(&e.k[d], 0, &[], &pt));
            ok(receiver(p, d).recv_message(wire).is_ok());
            ok(wire[..3] == pt);
        }
    }
}
extern "C" fn whole_session(t: *mut u8) {
    let (p, e, text) = unsafe { let s = &mut *(t as *mut (Party, Run, u8)); (&mut s.0, &s.1, s.2) };
    let mut w = vec![];
    for n in 0..STEPS { step(p, e, n, &mut w, text); }
}

/// a writer that fails after some bytes
struct Short(usize);
impl Write for Short {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.len() > self.0 { return Err(io::Error::from(io::ErrorKind::BrokenPipe)); }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// anything the codec may have done before
fn before<T: Msg>() {
    let (v, w) = T::make(&Shape::new([2, 3, 1, 1, 4]));
    let v = match v { Some(v) => v, None => { vk::check(false, "a valid message"); return } };
    match vk::each(4, "before") {
        0 => { let n = vk::each(w.len() - 1, "cut"); let _ = deserialize::<T>(&w[..n]); vk::cover("after a message cut short"); }
        1 => { let n = vk::each(w.len() - 1, "space"); vk::check(v.serialize(&mut Short(n)).is_err(), "a failed write is reported"); vk::cover("after a failed write"); }
        2 => {
            let n = vk::one_of(&[4, 60, T::CAP.min(255)], "length");
            let s = Shape { len: [n.min(T::CAP); 5], letters: n > 100, wide: None };
            if let (Some(v), w) = T::make(&s) { vk::check(serialize(&v).is_ok() && deserialize::<T>(&w).is_ok(), "a valid message"); vk::cover("after a message"); }
        }
        3 => {
            let b = vk::any_vec(4, "bytes");
            match vk::each(4, "type") {
                0 => { let _ = deserialize::<STR0_255>(&b); }
                1 => { let _ = deserialize::<B0_31>(&b); }
                2 => { let _ = deserialize::<B0_64K>(&b); }
                3 => { let _ = deserialize::<Message>(&[&[0, 0, 1, 3, 0, 0], &b[..]].concat()); }
                _ => { let _ = SetupConnectionErrorCode::from_str("unsupported-"); let _ = deserialize::<SetupConnectionErrorCode>(&b); }
            }
            vk::cover("after other bytes");
        }
        _ => { let mut long = w.clone(); long.extend_from_slice(&[1; 40]); let _ = deserialize::<T>(&long); vk::cover("after a longer input"); }
    }
}
fn exactly<T: Msg>() -> Option<(T, Vec<u8>)> {
    let (v, w) = T::make(&Shape::new([3, 1, 0, 2, 2]));
    let v = match v { Some(v) => v, None => { vk::check(false, "a valid message"); return None } };
    encodes_to(&v, &w);
    match deserialize::<T>(&w) { Ok(x) => vk::check(x.dump() == w, "a message decodes to itself whatever was done before"), Err(_) => vk::check(false, "a message decodes whatever was done before") }
    Some((v, w))
}
/// the outcome of decoding `b` as the `k`-th type, as bytes
fn outcome(k: usize, b: &[u8]) -> Option<Vec<u8>> {
    macro_rules! o { ($t:ty, $f:expr) => { deserialize::<$t>(b).ok().map($f) }; }
    match k {
        0 => o!(STR0_32, |v| v.data.into_bytes()), 1 => o!(STR0_255, |v| v.data.into_bytes()), 2 => o!(B0_31, |v| v.data), 3 => o!(B0_32, |v| v.data), 4 => o!(B0_255, |v| v.data),
        5 => o!(B0_64K, |v| v.data), 6 => o!(B0_16M, |v| v.data), 7 => o!(Message, |m| { let mut p = m.payload.clone(); p.push(m.message_type.msg_type()); p }),
        8 => o!(bool, |v| vec![v as u8]), 9 => o!(u16, |v| v.to_le_bytes().to_vec()), 10 => o!(u32, |v| v.to_le_bytes().to_vec()), 11 => o!(f32, |v| v.to_bits().to_le_bytes().to_vec()),
        12 => o!(Protocol, |v| vec![u8::from(v)]),
        _ => o!(stratumv2::mining::SetupConnectionSuccess, |v| v.dump()),
    }
}
extern "C" fn worker(t: *mut u8) {
    let (n, text) = unsafe { let s = &*(t as *const (usize, [u8; 4])); (s.0, s.1) };
    let w = [&[n as u8], &text[..n]].concat();
    match B0_31::new(text[..n].to_vec()) { Ok(v) => encodes_to(&v, &w), Err(_) => vk::check(false, "a valid value") }
    vk::check(deserialize::<B0_31>(&w).map(|v| v.data == text[..n]).unwrap_or(false), "a value decodes to itself while others are decoded");
    let (text, code): (String, &[u8]) = (text[..n].iter().map(|b| (b & 0x7f) as char).collect(), if text[3] & 0x80 == 0 { b"unsupported-protocol" } else { b"protocol-version-mismatch" });
    let w = W::new().bytes(text.as_bytes()).0;
    vk::check(deserialize::<STR0_255>(&w).map(|v| v.data == text).unwrap_or(false) && deserialize::<STR0_32>(&w).map(|v| v.data == text).unwrap_or(false), "a text decodes to itself while others are decoded");
    let m = W::new().u32(7).bytes(code).0;
    vk::check(deserialize::<stratumv2::mining::SetupConnectionError>(&m).map(|v| v.dump() == m).unwrap_or(false), "a message decodes to itself while others are decoded");
    let (code, ch) = REGISTRY[n + 2];
    let f = W::new().u16(if ch { 0x8000 } else { 0 }).u8(code).u16(w.len() as u16).u8(0).raw(&w).0;
    match deserialize::<Message>(&f) { Ok(x) => { vk::check(x.message_type == variant(code).unwrap() && x.payload == w, "a frame decodes to itself while others are decoded"); encodes_to(&x, &f); } Err(_) => vk::check(false, "a frame decodes while others are decoded") }
}

harnesses! {
fn h_c31_sessions() {
    let pr: [&[u8]; 2] = [b"p", if vk::each(1, "prologue") == 0 { b"p" } else { b"q" }];
    let mut p = [fresh(pr[0], pr[0]), fresh(pr[1], pr[1])];
    let t = [vk::u8_("one"), vk::u8_("two")];
    let e = [nx(pr[0], &p[0].ei, &p[0].er, &p[0].sr, &[], &t[..1]), nx(pr[1], &p[1].ei, &p[1].er, &p[1].sr, &[], &t[1..])];
    let (mut at, mut wire) = ([0, 0], [vec![], vec![]]);
    while at[0] < STEPS || at[1] < STEPS {
        let k = if at[0] == STEPS { 1 } else if at[1] == STEPS { 0 } else { vk::each(1, "who") };
        step(&mut p[k], &e[k], at[k], &mut wire[k], t[k]);
        at[k] += 1;
    }
    vk::cover("both");
}
fn h_c31_disturbed() {
    // one session lives on while another one is misused, changed or ended
    let (mut p, e) = connected(b"p", &[], &[]);
    let done = vk::each(2, "done");
    for n in 0..done { step(&mut p, &e, 3 + n, &mut vec![], 5); }
    let (mut q, f) = connected(b"p", &[], &[]);
    let mut n = [0u64; 2];
    for d in 0..done { n[d] += 1; }
    match vk::each(8, "what") {
        0 => { let mut b = vk::any_vec(20, "noise"); let _ = q.r.recv_message(&mut b); vk::cover("noise"); }
        1 => { q.i.rekey_local_cipherstate(); q.r.rekey_remote_cipherstate(); vk::cover("rekeyed"); }
        2 => { q.i.clear_local_cipherstate(); q.i.clear_remote_cipherstate(); vk::cover("cleared"); }
        3 => { q.i.end_session(); q.r.end_session(); vk::cover("ended"); }
        4 => { drop(q); vk::cover("dropped"); }
        5 => { let mut b = vec![0u8; 3]; vk::check(q.i.send_message(&mut b).is_err(), "too small a buffer"); vk::cover("too small"); }
        6 => { let mut z = fresh(b"p", b"p"); let mut b = vec![0u8; 48]; vk::check(z.r.recv_message(&mut b).is_err(), "a weak key"); vk::cover("weak key"); }
        7 => { for i in 0..3u8 { let mut m = room_t(&[i, 2]); vk::check(q.i.send_message(&mut m).is_ok() && q.r.recv_message(&mut m).is_ok(), "traffic"); } vk::cover("traffic"); }
        _ => {
            // a message of the other session
            let mut m = room_t(&[1, 2]);
            vk::check(q.i.send_message(&mut m).is_ok(), "traffic");
            vk::assume(f.k[0] != e.k[0]);
            vk::check(p.r.recv_message(&mut m).is_err(), "a message of another session is refused");
            vk::cover("foreign message");
        }
    }
    for round in 0..2u64 { for d in 0..2 {
        let pt = [round as u8, d as u8, 9];
        let mut m = room_t(&pt);
        vk::check(sender(&mut p, d).send_message(&mut m).is_ok(), "the other session still sends");
        vk::check(m == seal(&e.k[d], n[d] + round, &[], &pt), "with its own key and number");
        vk::check(receiver(&mut p, d).recv_message(&mut m).is_ok() && m[..3] == pt, "and receives");
    } }
    p.i.rekey_local_cipherstate();
    let mut m = room_t(&[4]);
    vk::check(p.i.send_message(&mut m).is_ok() && m == seal(&rekeyed(&e.k[0]), n[0] + 2, &[], &[4]), "it rekeys its own key");
}
fn h_c31_threads() {
    // two sessions in two threads
    let mk = |t: u8| { let p = fresh(b"p", b"p"); let e = nx(b"p", &p.ei, &p.er, &p.sr, &[], &[t]); (p, e, t) };
    let (mut a, mut b) = (mk(1), mk(2));
    let ids = [vk::spawn(whole_session, &mut a as *mut _ as *mut u8), vk::spawn(whole_session, &mut b as *mut _ as *mut u8)];
    for i in ids { vk::join(i); }
    vk::cover("both");
}
fn h_c31_connections() {
    // a server with two clients at once
    let sk = secret("key_static");
    let mut c = [ConnectionEncryptor::new_outbound(), ConnectionEncryptor::new_outbound()];
    let mut s = [ConnectionEncryptor::new_inbound(Some(pair(&sk))), ConnectionEncryptor::new_inbound(Some(pair(&sk)))];
    let (mut at, mut wire) = ([0, 0], [vec![], vec![]]);
    while at[0] < 3 || at[1] < 3 {
        let k = if at[0] == 3 { 1 } else if at[1] == 3 { 0 } else { vk::each(1, "who") };
        let r = match at[k] { 0 => c[k].init_handshake(), 1 => s[k].recv_handshake(&mut wire[k].clone()), _ => c[k].recv_handshake(&mut wire[k].clone()) };
        match r { Ok(b) => wire[k] = b, Err(_) => { vk::check(false, "a connection is not disturbed by another one"); return } }
        at[k] += 1;
        for j in 0..2 {
            vk::check(c[j].is_handshake_complete() == (at[j] == 3) && s[j].is_handshake_complete() == (at[j] >= 2), "each connection completes on its own");
            vk::check(c[j].get_remote_pubkey().map(|x| x.as_bytes()) == if at[j] == 3 { Some(public(&sk)) } else { None }, "each client knows the server's key when it is done");
        }
    }
    vk::cover("both");
}
fn h_c31_peers() {
    let p = [Peer::new(crate::c_net::Dummy), Peer::new(crate::c_net::Dummy)];
    let mut queued = [vec![], vec![]];
    for i in 0..vk::param("steps", 6) {
        let k = vk::each(1, "peer");
        if vk::each(1, "op") == 0 {
            let m = Message::new(MessageType::SetupConnection, vec![k as u8, i as u8, vk::u8_("payload")]);
            queued[k].push(m.clone());
            p[k].pending_msg_buffer.lock().unwrap().push(m);
        } else {
            let got = p[k].get_pending_msgs();
            vk::check(got == queued[k], "a peer's messages are its own");
            if !queued[1 - k].is_empty() && !got.is_empty() { vk::cover("both had some"); }
            queued[k].clear();
        }
    }
}
fn h_c32_messages() {
    with_msg!(vk::param("msg", 0), T => { before::<T>(); let _ = exactly::<T>(); })
}
fn h_c32_frames() {
    with_framed!(vk::param("msg", 0), T => {
        if vk::each(1, "earlier") == 0 { before::<T>(); } else {
            let m = Message::new(MessageType::OpenStandardMiningChannelError, vk::any_vec(3, "payload"));
            let n = vk::each(9, "space");
            vk::check(m.serialize(&mut Short(n)).is_err() == (n < 9), "a failed write is reported");
            vk::cover("after a failed frame");
        }
        let (v, w) = match exactly::<T>() { Some(x) => x, None => return };
        let m = match frame(&v) { Ok(m) => m, Err(_) => { vk::check(false, "a message is framed whatever was done before"); return } };
        vk::check(m.payload == w, "a frame carries its own message");
        let (t, n) = (m.message_type, w.len());
        encodes_to(&m, &W::new().u16(if t.channel_bit() { 0x8000 } else { 0 }).u8(t.msg_type()).u16(n as u16).u8(0).raw(&w).0);
        // taken as another message in between
        let _ = unframe::<stratumv2::mining::UpdateChannel>(&m);
        vk::check(unframe::<T>(&m).map(|x| x.dump() == w).unwrap_or(false), "a frame gives its message whatever was done before");
    })
}
fn h_c32_again() {
    // the same bytes give the same result again, whatever is decoded in between
    let n = vk::each(vk::param("max", 6) as usize, "n");
    let (b, c) = (vk::any_vec(n, "bytes"), vk::any_vec(vk::one_of(&[3, 6], "m"), "between"));
    let (k, j) = (vk::each(13, "type"), vk::one_of(&[1, 2, 6, 7, 12, 13], "between_type"));
    let first = outcome(k, &b);
    let _ = outcome(j, &c);
    let second = outcome(k, &b);
    vk::check(first == second, "the same bytes decode to the same value again");
    vk::cover(if first.is_some() { "accepted" } else { "refused" });
}
fn h_c32_threads() {
    let mut a = (vk::each(3, "n"), vk::any::<4>("a"));
    let mut b = (vk::each(3, "m"), vk::any::<4>("b"));
    let ids = [vk::spawn(worker, &mut a as *mut _ as *mut u8), vk::spawn(worker, &mut b as *mut _ as *mut u8)];
    for i in ids { vk::join(i); }
    vk::cover("both");
}
}
