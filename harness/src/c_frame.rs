//! C06 frame layout, C07 message registry, C08 typed framing.
use crate::msgs::*;
use crate::util::*;
use crate::{harnesses, vk, with_framed};
use stratumv2::codec::*;
use stratumv2::types::*;

fn header(code: u8, ch: bool, len: usize) -> Vec<u8> { W::new().u16(if ch { 0x8000 } else { 0 }).u8(code).u16(len as u16).u8((len >> 16) as u8).0 }

fn frame_roundtrip(n: usize, payload: Vec<u8>) {
    let (code, ch) = REGISTRY[vk::each(28, "tag")];
    let t = variant(code).unwrap();
    let m = Message::new(t, payload.clone());
    vk::check(m.message_type == t && m.payload == payload, "a frame keeps its type and payload");
    let mut wire = header(code, ch, n);
    wire.extend_from_slice(&payload);
    encodes_to(&m, &wire);
    decodes_from::<Message>(&wire, n < 4, |x| x.message_type == t && x.payload == payload);
    vk::check(deserialize::<Message>(&wire[..wire.len() - 1]).is_err(), "a frame with a missing byte must be refused");
    vk::cover("round trip");
}

harnesses! {
fn h_c06_small() { let n = vk::one_of(&[0, 1, 2, 3, 5, 8, 16, 63, 64, 127, 128, 129, 254, 255, 256, 257, 300], "n"); frame_roundtrip(n, vk::any_vec(n, "payload")); }
fn h_c06_big() {
    let n = vk::one_of(&[511, 512, 767, 768, 1023, 1024, 4095, 4096, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072], "n");
    let (code, ch) = REGISTRY[vk::one_of(&[0, 3, 12, 28], "tag")];
    let t = variant(code).unwrap();
    let mut p = vec![0xa5u8; n];
    let s = vk::any::<8>("ends");
    p[..4].copy_from_slice(&s[..4]);
    p[n - 4..].copy_from_slice(&s[4..]);
    let m = Message::new(t, p.clone());
    let mut wire = header(code, ch, n);
    wire.extend_from_slice(&p);
    encodes_to(&m, &wire);
    match dec_some(&wire) { Some(x) => vk::check(x.message_type == t && x.payload == p, "round trip"), None => vk::check(false, "decoding a frame") }
    vk::check(deserialize::<Message>(&wire[..wire.len() - 1]).is_err(), "missing byte");
    vk::cover("big");
}
/// any payload length at all, payload content untouched
fn h_c06_any_length() {
    let n = vk::upto((1usize << 32) + 70000, "n");
    let (code, ch) = REGISTRY[vk::one_of(&[0, 3, 28], "tag")];
    let m = Message::new(variant(code).unwrap(), vk::opaque_vec(n));
    let mut w = Recorder::new(6, m.payload.as_ptr() as usize);
    match m.serialize(&mut w) {
        Ok(k) => {
            vk::check(n < 1 << 24, "a payload above 2^24-1 bytes must be refused");
            vk::check(k == n + 6 && w.total == n + 6 && w.last == n && w.order, "size of the frame");
            vk::check(w.head == header(code, ch, n), "header");
            vk::cover("accepted");
        }
        Err(_) => { vk::check(n >= 1 << 24, "a payload up to 2^24-1 bytes must be accepted"); vk::check(w.total == 0, "nothing is written for a refused frame"); vk::cover("refused"); }
    }
    std::mem::forget(m);
}
/// an arbitrary header in front of few arbitrary bytes
fn h_c06_decode() {
    let have = vk::each(vk::param("have", 5) as usize, "have");
    let h = vk::any::<6>("header");
    let body = vk::any_vec(have, "body");
    let mut b = h.to_vec();
    b.extend_from_slice(&body);
    let len = h[3] as usize | (h[4] as usize) << 8 | (h[5] as usize) << 16;
    let ext = (h[0] as u16 | (h[1] as u16) << 8) & 0x7fff;
    let ch = h[1] & 0x80 != 0;
    let mut known = false;
    for (c, bit) in REGISTRY.iter() { known |= h[2] == *c && ch == *bit; }
    let ok = ext == 0 && known && len <= have;
    match dec_at::<Message>(&b, 0) {
        Some((m, n)) => {
            vk::check(ok, "a malformed, unknown or truncated frame must be refused");
            let len = vk::concrete(len);
            vk::check(n == 6 + len && m.payload == body[..len], "payload");
            vk::check(m.message_type.msg_type() == h[2] && m.message_type.ext_type() == ext && m.message_type.channel_bit() == ch, "type");
            vk::check(enc(&m) == b[..n], "re-encoding a frame gives the consumed bytes");
            vk::cover("accepted");
        }
        None => { vk::check(!ok, "a well-formed frame must be accepted"); vk::cover("refused"); }
    }
    for k in 0..6 { vk::check(deserialize::<Message>(&b[..k]).is_err(), "truncated header"); }
}
/// the registry: every (extension, code) pair
fn h_c07_registry() {
    let (ext, code) = (vk::u16_("ext"), vk::u8_("code"));
    let mut known = false;
    for (c, _) in REGISTRY.iter() { known |= code == *c; }
    match MessageType::new(ext, code) {
        Ok(t) => {
            vk::check(ext == 0 && known, "an unregistered code must be refused");
            vk::check(t.ext_type() == ext && t.msg_type() == code, "a type's own codes are the ones it was made from");
            let code = vk::concrete(code as usize) as u8;
            vk::check(Some(t) == variant(code), "every code names its own message");
            let bit = REGISTRY.iter().find(|(c, _)| *c == code).map(|x| x.1);
            vk::check(Some(t.channel_bit()) == bit, "channel bit");
            vk::cover("known");
        }
        Err(_) => { vk::check(!(ext == 0 && known), "a registered code must be accepted"); vk::cover("unknown"); }
    }
}
/// every message type by name: its codes, its channel bit, and back
fn h_c07_names() {
    let i = vk::each(28, "tag");
    let (c, bit) = REGISTRY[i];
    let t = variant(c).unwrap();
    vk::check(t.ext_type() == 0 && t.msg_type() == c && t.channel_bit() == bit, "codes of a named type");
    vk::check(MessageType::new(0, c).ok() == Some(t), "back from the code");
    let j = vk::each(28, "other");
    vk::check((variant(REGISTRY[j].0).unwrap() == t) == (i == j), "types are distinct");
    vk::cover("named");
}
/// a frame whose channel bit, extension or code is not the registered one is refused
fn h_c07_channel_bit() {
    let (c, bit) = REGISTRY[vk::each(28, "tag")];
    let e = vk::u16_("ext");
    let b = W::new().u16(e).u8(c).u16(0).u8(0).0;
    let ok = e == if bit { 0x8000 } else { 0 };
    match deserialize::<Message>(&b) { Ok(m) => { vk::check(ok, "wrong channel bit or extension"); vk::check(m.message_type == variant(c).unwrap() && m.payload.is_empty(), "type"); vk::cover("right"); } Err(_) => { vk::check(!ok, "right channel bit refused"); vk::cover("wrong"); } }
}
fn h_c08_framing() {
    let k = vk::param("msg", 0) as usize;
    with_framed!(k, T => {
        let s = Shape::new([3, 1, 0, 2, vk::one_of(&[0, 4, 200], "len")]);
        let (v, wire) = T::make(&s);
        let v = match v { Some(v) => v, None => { vk::check(false, "valid message"); return } };
        let code = CODES[k];
        let own = variant(code).unwrap();
        vk::check(T::message_type() == own, "a message's own type");
        let m = match frame(&v) { Ok(m) => m, Err(_) => { vk::check(false, "framing a valid message"); return } };
        vk::check(m.message_type == own && m.payload == wire, "a frame carries the message's type and encoding");
        match unframe::<T>(&m) { Ok(x) => vk::check(x.dump() == wire, "unframing returns the message"), Err(_) => vk::check(false, "unframing a framed message") }
        // over the wire
        let bytes = enc(&m);
        match deserialize::<Message>(&bytes).ok().and_then(|m| unframe::<T>(&m).ok()) { Some(x) => vk::check(x.dump() == wire, "frame, send, receive, unframe"), None => vk::check(false, "receiving a sent frame") }
        // the same payload under every other type must not be taken for this message
        let (c2, _) = REGISTRY[vk::each(28, "tag")];
        let m2 = Message::new(variant(c2).unwrap(), wire.clone());
        match unframe::<T>(&m2) { Ok(_) => { vk::check(c2 == code, "a frame of another type must be refused"); vk::cover("own type"); } Err(_) => { vk::check(c2 != code, "own type refused"); vk::cover("other type"); } }
    });
}
/// whatever the payload, unframing under a wrong type fails and under the right type agrees with plain decoding
fn h_c08_unframe_any() {
    let k = vk::param("msg", 0) as usize;
    let n = vk::each(vk::param("max", 7) as usize, "n");
    let b = vk::any_vec(n, "payload");
    with_framed!(k, T => {
        let (c2, _) = REGISTRY[vk::each(28, "tag")];
        let m = Message::new(variant(c2).unwrap(), b.clone());
        match unframe::<T>(&m) {
            Ok(x) => { vk::check(c2 == CODES[k], "a frame of another type must be refused"); match deserialize::<T>(&b) { Ok(y) => vk::check(x.dump() == y.dump(), "same message"), Err(_) => vk::check(false, "unframing accepts what decoding refuses") } vk::cover("accepted"); }
            Err(_) => { if c2 == CODES[k] { vk::check(deserialize::<T>(&b).is_err(), "unframing refuses what decoding accepts"); } vk::cover("refused"); }
        }
    });
}
}
fn dec_some(b: &[u8]) -> Option<Message> { deserialize::<Message>(b).ok() }
