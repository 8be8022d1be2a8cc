//! C03 message layout and round trip, C04 decoders are total, C05 decoding is canonical, C09 connection setup rules,
//! C10 flags, C11 error codes, C12 writers.
use crate::msgs::*;
use crate::util::*;
use crate::{harnesses, vk, with_framed, with_msg};
use std::convert::TryFrom;
use std::io::{self, Write};
use std::str::FromStr;
use stratumv2::codec::*;
use stratumv2::common::{Protocol, SetupConnectionErrorCode as SCode};
use stratumv2::job_negotiation as jn;
use stratumv2::mining::{self, OpenMiningChannelErrorCode as OCode};
use stratumv2::noise::{Signature, SignatureNoiseMessage};
use stratumv2::types::*;

const LENS: &[usize] = &[0, 1, 2, 5, 31, 32, 33, 63, 64, 127, 128, 129, 191, 254, 255];

fn shape<T: Msg>() -> Shape {
    // different small lengths everywhere, one field (or none) takes every interesting length
    let mut len = [3, 1, 0, 2, 4];
    if T::VARS > 0 {
        let f = vk::each(T::VARS - 1, "field");
        len[f] = vk::one_of(LENS, "len");
        vk::assume(len[f] <= T::CAP && len[f] >= T::MIN[f]);
    }
    Shape::new(len)
}
/// long texts of multi-byte characters at every alignment, so that no byte position is a character boundary in all of them
fn wide_shape<T: Msg>() -> Shape {
    let mut s = Shape::new([3, 5, 4, 6, 8]);
    s.wide = Some(vk::each(3, "shift"));
    if T::VARS > 0 { let f = vk::each(T::VARS - 1, "field"); s.len[f] = vk::one_of(&[1, 4, 7, 30, 32, 66, 130, 251, 255], "len").min(T::CAP); }
    s
}

fn layout<T: Msg>(s: Shape) {
    let (v, wire) = T::make(&s);
    match v {
        Some(v) => {
            vk::check(v.dump() == wire, "the constructor keeps every field");
            encodes_to(&v, &wire);
            decodes_from::<T>(&wire, wire.len() <= 64, |x| x.dump() == wire);
            vk::check(deserialize::<T>(&wire[..wire.len() - 1]).is_err(), "a message with its last byte missing must be refused");
            vk::cover("round trip");
        }
        None => vk::check(false, "a valid message must be accepted by its constructor"),
    }
}

/// decoding `b` never panics or reads outside (checked by the executor); what is accepted is canonical
fn decode<T: Msg>(b: &[u8], canonical: bool) -> bool {
    match dec_at::<T>(b, 0) {
        Some((v, n)) => {
            if canonical {
                let d = v.dump();
                vk::check(d.len() == n, "decoding consumes exactly the bytes of the message");
                vk::check(d == b[..n], "the decoded fields are the ones on the wire");
                vk::check(enc(&v) == b[..n], "re-encoding a decoded message gives the consumed bytes");
            }
            vk::cover("accepted");
            true
        }
        None => { vk::cover("refused"); false }
    }
}

fn arbitrary<T: Msg>(canonical: bool) {
    let n = vk::each(vk::param("max", 20) as usize, "n");
    if n < vk::param("min", 0) as usize { return; }
    let b = vk::any_vec(n, "bytes");
    decode::<T>(&b, canonical);
}

/// a valid encoding with up to `k` arbitrary bytes overwritten at an arbitrary position
fn mutated<T: Msg>(canonical: bool) {
    let mut s = Shape::new([2, 1, 0, 2, 1]);
    s.letters = T::VARS > 1;
    if T::VARS > 0 { let f = vk::each(T::VARS - 1, "field"); s.len[f] = vk::one_of(&[0, 2, 30, 32], "len"); vk::assume(s.len[f] >= T::MIN[f]); }
    let (_, mut wire) = T::make(&s);
    let k = vk::param("k", 2) as usize;
    let at = vk::each(wire.len() - 1, "at");
    let m = vk::any_vec(k, "over");
    for i in 0..k { if at + i < wire.len() { wire[at + i] = m[i]; } }
    let cut = vk::each(1, "cut");
    let n = wire.len() - cut;
    decode::<T>(&wire[..n], canonical);
}

/// A writer that may accept only part of a buffer, be interrupted, or fail, at up to `budget` calls.
/// any kind of failure a writer can report, except an interruption, which asks for another attempt
fn failure() -> io::ErrorKind {
    let k = vk::u8_("kind");
    vk::assume(k <= io::ErrorKind::Other as u8 && k != io::ErrorKind::Interrupted as u8);
    unsafe { std::mem::transmute(k) }
}
struct Faulty { got: Vec<u8>, budget: usize, failed: bool }
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        if self.budget > 0 {
            match vk::each(4, "fault") {
                0 => {}
                1 => { self.budget -= 1; let k = vk::one_of(&[1, 2, 3, 5, 31], "short"); if k < b.len() { self.got.extend_from_slice(&b[..k]); return Ok(k); } }
                2 => { self.budget -= 1; return Err(io::Error::from(io::ErrorKind::Interrupted)); }
                3 => { self.budget -= 1; self.failed = true; return Err(io::Error::from(failure())); }
                _ => { self.budget -= 1; self.failed = true; return Ok(0); }
            }
        }
        self.got.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn faulty<T: Serializable>(v: &T, wire: &[u8]) {
    let mut w = Faulty { got: vec![], budget: vk::param("budget", 1) as usize, failed: false };
    match v.serialize(&mut w) {
        Ok(n) => { vk::check(!w.failed, "a failed write must be reported"); vk::check(w.got == wire, "every byte reaches the writer, in order"); vk::check(n == wire.len(), "the reported size"); vk::cover("ok"); }
        Err(_) => { vk::check(w.failed, "a writer that only writes slowly must not make serialization fail"); vk::check(w.got.len() <= wire.len() && w.got[..] == wire[..w.got.len()], "what was written before the failure is a prefix"); vk::cover("failed"); }
    }
}

fn flags_of<F: Deserializable + Serializable>(mask: u32, bits: impl Fn(&F) -> u32) {
    let x = vk::u32_("x");
    let b = x.to_le_bytes();
    match deserialize::<F>(&b) {
        Ok(f) => { vk::check(x & !mask == 0, "undefined flag bits must be refused"); vk::check(bits(&f) == x, "the flags are the received bits"); encodes_to(&f, &b); vk::cover("known"); }
        Err(_) => { vk::check(x & !mask != 0, "a combination of defined flags must be accepted"); vk::cover("unknown"); }
    }
    for k in 0..4 { vk::check(deserialize::<F>(&b[..k]).is_err(), "truncated flags"); }
}

fn codes<C>(names: &[&str], all: &[C], name: impl Fn(&C) -> usize)
where C: Deserializable + Serializable + FromStr + TryFrom<String> + TryFrom<STR0_255> + std::fmt::Display, for<'a> String: From<&'a C>, for<'a> STR0_255: From<&'a C> {
    // every code and its string, through every conversion
    for (i, c) in all.iter().enumerate() {
        let s = names[i];
        vk::check(name(c) == i, "order");
        vk::check(c.to_string() == s, "displayed string");
        vk::check(String::from(c) == s, "string of a code");
        let st = STR0_255::from(c);
        vk::check(st.data == s && st.length as usize == s.len(), "wire string of a code");
        encodes_to(c, &W::new().bytes(s.as_bytes()).0);
    }
    // any string at all
    let n = vk::each(vk::param("max", 27) as usize, "n");
    let t = vk::ascii(n, "text");
    let expect = names.iter().position(|x| *x == t);
    let ok = |r: Option<C>| match (&r, expect) { (Some(c), Some(i)) => { vk::check(name(c) == i, "a string must give its own code"); vk::cover("code"); } (None, None) => vk::cover("refused"), _ => vk::check(false, "exactly the defined strings are error codes") };
    ok(C::from_str(&t).ok());
    ok(C::try_from(t.clone()).ok());
    ok(STR0_255::new(t.clone()).ok().and_then(|s| C::try_from(s).ok()));
    ok(deserialize::<C>(&W::new().bytes(t.as_bytes()).0).ok());
}

macro_rules! setup_rules {
    ($m:ident, $mask:expr) => {{
        let (min, max, fl, port) = (vk::u16_("min"), vk::u16_("max"), vk::u32_("flags") & $mask, vk::u16_("port"));
        let mut len = [2usize, 1, 0, 1, 3];
        let f = vk::each(4, "field");
        len[f] = vk::one_of(&[0, 1, 2, 254, 255, 256, 257, 511, 512, 513], "len");
        let mut g = [0usize; 1];
        g[0] = vk::each(5, "second");
        if g[0] < 5 { len[g[0]] = vk::one_of(&[0, 256], "len2"); }
        let t: Vec<String> = (0..5).map(|i| vk::ascii(len[i], "str")).collect();
        let ok = min >= 2 && max >= 2 && len[1] > 0 && len[3] > 0 && len.iter().all(|l| *l <= 255);
        let r = $m::SetupConnection::new(min, max, $m::SetupConnectionFlags::from_bits_truncate(fl), t[0].clone(), port, t[1].clone(), t[2].clone(), t[3].clone(), t[4].clone());
        match &r { Ok(_) => { vk::check(ok, "an invalid connection request must be refused by the constructor"); vk::cover("valid"); } Err(_) => { vk::check(!ok, "a valid connection request must be accepted by the constructor"); vk::cover("invalid"); } }
        if len.iter().all(|l| *l <= 255) {
            let w = W::new().u16(min).u16(max).u32(fl).bytes(t[0].as_bytes()).u16(port).bytes(t[1].as_bytes()).bytes(t[2].as_bytes()).bytes(t[3].as_bytes()).bytes(t[4].as_bytes()).0;
            match deserialize::<$m::SetupConnection>(&w) { Ok(v) => { vk::check(ok, "an invalid connection request must be refused by the decoder"); vk::check(v.dump() == w, "decoded fields"); vk::cover("decoded"); } Err(_) => { vk::check(!ok, "a valid connection request must be accepted by the decoder"); vk::cover("refused"); } }
        }
    }};
}

harnesses! {
fn h_c03_layout() { with_msg!(vk::param("msg", 0), T => layout::<T>(shape::<T>())); }
fn h_c03_wide() { with_msg!(vk::param("msg", 0), T => layout::<T>(wide_shape::<T>())); }
fn h_c04_arbitrary() { with_msg!(vk::param("msg", 0), T => arbitrary::<T>(false)); }
/// texts where the specification has a field for them: multi-byte characters at every alignment, long and short
fn h_c04_texts() {
    let n = vk::one_of(&[2, 5, 20, 26, 28, 40, 67, 100, 131, 200, 255], "n");
    let t = vk::wide(n, vk::each(3, "shift"), "text");
    let flags = vk::u32_("flags");
    let e = W::new().u32(flags).bytes(t.as_bytes()).0;
    vk::check(!decode::<mining::SetupConnectionError>(&e, false), "an unknown error code is refused");
    vk::check(!decode::<jn::SetupConnectionError>(&e, false), "an unknown error code is refused");
    vk::check(!decode::<mining::OpenStandardMiningChannelError>(&e, false), "an unknown error code is refused");
    vk::check(!decode::<mining::OpenExtendedMiningChannelError>(&e, false), "an unknown error code is refused");
    vk::check(SCode::from_str(&t).is_err() && OCode::from_str(&t).is_err() && SCode::try_from(t.clone()).is_err() && OCode::try_from(t.clone()).is_err(), "an unknown error code is refused");
    vk::cover("texts");
}
fn h_c04_mutated() { with_msg!(vk::param("msg", 0), T => mutated::<T>(false)); }
fn h_c05_arbitrary() { with_msg!(vk::param("msg", 0), T => arbitrary::<T>(true)); }
fn h_c05_mutated() { with_msg!(vk::param("msg", 0), T => mutated::<T>(true)); }
/// all remaining decodable types on arbitrary bytes, and typed extraction from a frame
fn h_c04_types() {
    let k = vk::each(20, "type");
    let n = vk::each(if k == 20 { 66 } else { 8 }, "n");
    let b = vk::any_vec(n, "bytes");
    fn d<T: Deserializable>(b: &[u8]) { match deserialize::<T>(b) { Ok(_) => vk::cover("accepted"), Err(_) => vk::cover("refused") } }
    match k {
        0 => d::<bool>(&b), 1 => d::<u8>(&b), 2 => d::<u16>(&b), 3 => d::<u32>(&b), 4 => d::<f32>(&b), 5 => d::<U24>(&b), 6 => d::<U256>(&b),
        7 => d::<B0_31>(&b), 8 => d::<B0_32>(&b), 9 => d::<B0_255>(&b), 10 => d::<B0_64K>(&b), 11 => d::<B0_16M>(&b),
        12 => d::<mining::SetupConnectionFlags>(&b), 13 => d::<mining::SetupConnectionSuccessFlags>(&b), 14 => d::<jn::SetupConnectionFlags>(&b), 15 => d::<jn::SetupConnectionSuccessFlags>(&b),
        16 => d::<Protocol>(&b), 17 => d::<Message>(&b),
        18 => { vk::assume(n < 5 || b[0] > 4); d::<SCode>(&b) }
        19 => { vk::assume(n < 5 || b[0] > 4); d::<OCode>(&b) }
        _ => d::<Signature>(&b),
    }
}
/// extraction of every message type from a frame with an arbitrary small payload
fn h_c04_unframe() {
    let n = vk::each(vk::param("max", 6) as usize, "n");
    let b = vk::any_vec(n, "bytes");
    let t = variant(REGISTRY[vk::each(28, "tag")].0).unwrap();
    let m = Message::new(t, b);
    with_framed!(vk::each(FRAMED - 1, "msg"), T => match unframe::<T>(&m) { Ok(_) => vk::cover("accepted"), Err(_) => vk::cover("refused") });
}
fn h_c09_mining() { setup_rules!(mining, 7); }
fn h_c09_jn() { setup_rules!(jn, 1); }
/// the protocol byte selects the variant; unknown and unsupported protocols are refused
fn h_c09_protocol() {
    let p = vk::u8_("protocol");
    match deserialize::<Protocol>(&[p]) {
        Ok(q) => { vk::check(p <= 3, "unknown protocol"); vk::check(u8::from(q) == p && u8::from(&q) == p, "protocol byte"); encodes_to(&q, &[p]); let e = match q { Protocol::Mining => 0, Protocol::JobNegotiation => 1, Protocol::TemplateDistribution => 2, Protocol::JobDistribution => 3 }; vk::check(e == p, "protocol numbering"); vk::cover("known"); }
        Err(_) => { vk::check(p > 3, "a known protocol must be accepted"); vk::cover("unknown"); }
    }
    vk::check(Protocol::try_from(p).is_ok() == (p <= 3), "conversion from a byte");
    // two requests that differ only in the protocol byte
    let s = Shape::new([2, 1, 0, 1, 3]);
    let (v, body) = jn::SetupConnection::make(&s);
    vk::check(v.is_some(), "valid request");
    let mut w = vec![p];
    w.extend_from_slice(&body);
    match deserialize::<stratumv2::common::SetupConnection>(&w) {
        Ok(v) => {
            vk::check(p <= 1, "a protocol that is not implemented must be refused");
            match v {
                stratumv2::common::SetupConnection::Mining(m) => { vk::check(p == 0, "protocol 0 is mining"); vk::check(m.dump() == body, "fields"); vk::cover("mining"); }
                stratumv2::common::SetupConnection::JobNegotiation(m) => { vk::check(p == 1, "protocol 1 is job negotiation"); vk::check(m.dump() == body, "fields"); vk::cover("job negotiation"); }
            }
        }
        Err(_) => vk::check(p > 1, "a valid request must be accepted"),
    }
}
/// flag bits allowed for one protocol are not leaked to the other through the combined message
fn h_c10_combined() {
    let p = vk::each(1, "protocol") as u8;
    let fl = vk::u32_("flags");
    let w = W::new().u8(p).u16(2).u16(2).u32(fl).bytes(b"h").u16(1).bytes(b"v").bytes(b"").bytes(b"f").bytes(b"").0;
    let mask = if p == 0 { 7 } else { 1 };
    match deserialize::<stratumv2::common::SetupConnection>(&w) { Ok(v) => { vk::check(fl & !mask == 0, "undefined flags"); vk::check(v.dump() == w, "fields"); vk::cover("ok"); } Err(_) => { vk::check(fl & !mask != 0, "defined flags"); vk::cover("refused"); } }
    let w = W::new().u16(2).u16(2).u32(fl).bytes(b"h").u16(1).bytes(b"v").bytes(b"").bytes(b"f").bytes(b"").0;
    vk::check(deserialize::<mining::SetupConnection>(&w).is_ok() == (fl & !7 == 0), "mining setup flags");
    vk::check(deserialize::<jn::SetupConnection>(&w).is_ok() == (fl & !1 == 0), "job negotiation setup flags");
    let s = W::new().u16(vk::u16_("v")).u32(fl).0;
    vk::check(deserialize::<mining::SetupConnectionSuccess>(&s).is_ok() == (fl & !3 == 0), "mining success flags");
    vk::check(deserialize::<jn::SetupConnectionSuccess>(&s).is_ok() == (fl == 0), "job negotiation success flags");
    let e = W::new().u32(fl).bytes(b"unsupported-protocol").0;
    vk::check(deserialize::<mining::SetupConnectionError>(&e).is_ok() == (fl & !7 == 0), "mining error flags");
    vk::check(deserialize::<jn::SetupConnectionError>(&e).is_ok() == (fl & !1 == 0), "job negotiation error flags");
}
fn h_c10_flags() {
    match vk::each(3, "type") {
        0 => flags_of::<mining::SetupConnectionFlags>(7, |f| f.bits()),
        1 => flags_of::<mining::SetupConnectionSuccessFlags>(3, |f| f.bits()),
        2 => flags_of::<jn::SetupConnectionFlags>(1, |f| f.bits()),
        _ => flags_of::<jn::SetupConnectionSuccessFlags>(0, |f| f.bits()),
    }
    // each named flag is its own bit
    vk::check(mining::SetupConnectionFlags::REQUIRES_STANDARD_JOBS.bits() == 1, "requires standard jobs");
    vk::check(mining::SetupConnectionFlags::REQUIRES_WORK_SELECTION.bits() == 2, "requires work selection");
    vk::check(mining::SetupConnectionFlags::REQUIRES_VERSION_ROLLING.bits() == 4, "requires version rolling");
    vk::check(mining::SetupConnectionSuccessFlags::REQUIRES_FIXED_VERSION.bits() == 1, "requires fixed version");
    vk::check(mining::SetupConnectionSuccessFlags::REQUIRES_EXTENDED_CHANNELS.bits() == 2, "requires extended channels");
    vk::check(jn::SetupConnectionFlags::REQUIRES_ASYNC_JOB_MINING.bits() == 1, "requires async job mining");
    vk::check(mining::SetupConnectionSuccessFlags::NONE.bits() == 0 && jn::SetupConnectionSuccessFlags::NONE.bits() == 0, "none");
}
fn h_c11_setup_codes() {
    codes(&["unsupported-feature-flags", "unsupported-protocol", "protocol-version-mismatch"], &[SCode::UnsupportedFeatureFlags, SCode::UnsupportedProtocol, SCode::ProtocolVersionMismatch], |c| match c { SCode::UnsupportedFeatureFlags => 0, SCode::UnsupportedProtocol => 1, SCode::ProtocolVersionMismatch => 2 });
}
fn h_c11_open_codes() {
    codes(&["unknown-user", "max-target-out-of-range"], &[OCode::UnknownUser, OCode::MaxTargetOutOfRange], |c| match c { OCode::UnknownUser => 0, OCode::MaxTargetOutOfRange => 1 });
}
/// long texts, of ASCII and of multi-byte characters, are no code
fn h_c11_long() {
    let n = vk::each(255 - 28, "n") + 28;
    let t = if vk::bool_("ascii") { vk::ascii(n, "text") } else { vk::wide(n, n % 4, "text") };
    let w = W::new().bytes(t.as_bytes()).0;
    vk::check(SCode::from_str(&t).is_err() && SCode::try_from(t.clone()).is_err() && deserialize::<SCode>(&w).is_err(), "an unknown setup error must be refused");
    vk::check(OCode::from_str(&t).is_err() && OCode::try_from(t.clone()).is_err() && deserialize::<OCode>(&w).is_err(), "an unknown opening error must be refused");
    vk::cover("refused");
}
/// an unsupported-flags refusal must name the flags, in constructor and decoder
fn h_c11_error_rule() {
    macro_rules! rule { ($m:ident, $mask:expr) => {{
        let fl = vk::u32_("flags") & $mask;
        let (c, n) = [(SCode::UnsupportedFeatureFlags, "unsupported-feature-flags"), (SCode::UnsupportedProtocol, "unsupported-protocol"), (SCode::ProtocolVersionMismatch, "protocol-version-mismatch")][vk::each(2, "code")];
        let ok = !(fl == 0 && c == SCode::UnsupportedFeatureFlags);
        match $m::SetupConnectionError::new($m::SetupConnectionFlags::from_bits_truncate(fl), c) { Ok(v) => { vk::check(ok, "unsupported flags must be named (constructor)"); vk::check(v.flags.bits() == fl && v.error_code == c, "fields"); vk::cover("ok"); } Err(_) => { vk::check(!ok, "valid error refused (constructor)"); vk::cover("refused"); } }
        let w = W::new().u32(fl).bytes(n.as_bytes()).0;
        match deserialize::<$m::SetupConnectionError>(&w) { Ok(v) => { vk::check(ok, "unsupported flags must be named (decoder)"); vk::check(v.flags.bits() == fl && v.error_code == c, "fields"); } Err(_) => vk::check(!ok, "valid error refused (decoder)") }
    }}; }
    if vk::each(1, "protocol") == 0 { rule!(mining, 7) } else { rule!(jn, 1) }
}
fn h_c12_messages() {
    with_msg!(vk::param("msg", 0), T => { let mut s = Shape::new([3, 1, 0, 2, 40]); if vk::bool_("wide") { s.wide = Some(1); s.len[..4].copy_from_slice(&[5, 7, 0, 9]); } let (v, w) = T::make(&s); match v { Some(v) => faulty(&v, &w), None => vk::check(false, "valid message") } });
}
fn h_c12_types() {
    match vk::each(13, "type") {
        12 => { let v = vk::wide(32, 3, "v"); faulty(&STR0_32::new(v.clone()).unwrap(), &W::new().bytes(v.as_bytes()).0) }
        0 => { let v = vk::bool_("v"); faulty(&v, &[v as u8]) }
        1 => { let v = vk::u8_("v"); faulty(&v, &[v]) }
        2 => { let v = vk::u16_("v"); faulty(&v, &v.to_le_bytes()) }
        3 => { let v = vk::u32_("v"); faulty(&v, &v.to_le_bytes()) }
        4 => { let v = vk::u32_("v"); faulty(&f32::from_bits(v), &v.to_le_bytes()) }
        5 => { let v = vk::any::<3>("v"); faulty(&deserialize::<U24>(&v).unwrap(), &v) }
        6 => { let v = vk::any::<32>("v"); faulty(&U256(v), &v) }
        7 => { let v = vk::any_vec(40, "v"); faulty(&B0_255::new(v.clone()).unwrap(), &W::new().bytes(&v).0) }
        8 => { let v = vk::any_vec(31, "v"); faulty(&B0_31::new(v.clone()).unwrap(), &W::new().bytes(&v).0) }
        9 => { let v = vk::any_vec(300, "v"); faulty(&B0_64K::new(v.clone()).unwrap(), &W::new().u16(300).raw(&v).0) }
        10 => { let v = vk::any_vec(300, "v"); faulty(&B0_16M::new(v.clone()).unwrap(), &W::new().u16(300).u8(0).raw(&v).0) }
        11 => { let v = vk::ascii(32, "v"); faulty(&STR0_32::new(v.clone()).unwrap(), &W::new().bytes(v.as_bytes()).0) }
        _ => { let (i, b) = (vk::each(28, "tag"), vk::any_vec(50, "v")); let (c, ch) = REGISTRY[i]; faulty(&Message::new(variant(c).unwrap(), b.clone()), &W::new().u16(if ch { 0x8000 } else { 0 }).u8(c).u16(50).u8(0).raw(&b).0) }
    }
}
}
