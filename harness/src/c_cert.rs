//! C13 certificate verification, C14 certificate and signature message rules, C15 timestamps.
use crate::c_noise::{pair, secret};
use crate::util::*;
use crate::{harnesses, vk};
use ed25519_dalek::{Keypair, Verifier};
use noiseexplorer_nx::types::PublicKey;
use std::time::{Duration, SystemTime};
use stratumv2::codec::*;
use stratumv2::noise::*;
use stratumv2::types::unix_timestamp::{system_unix_time_to_u32, unix_u32_now};

/// the first two test vectors of RFC 8032
pub const KEYS: [(&str, &str); 2] = [
    ("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60", "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a"),
    ("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb", "3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c"),
];
pub fn unhex(s: &str) -> Vec<u8> { s.as_bytes().chunks(2).map(|c| { let d = |x: u8| if x <= b'9' { x - b'0' } else { x - b'a' + 10 }; d(c[0]) << 4 | d(c[1]) }).collect() }
pub fn authority(i: usize) -> Keypair {
    let mut b = unhex(KEYS[i].0);
    b.extend(unhex(KEYS[i].1));
    match Keypair::from_bytes(&b) { Ok(k) => k, Err(_) => panic!() }
}
const ALPHABET: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub fn base58(b: &[u8]) -> String {
    let mut digits: Vec<u8> = vec![];
    for x in b {
        let mut carry = *x as u32;
        for d in digits.iter_mut() { carry += (*d as u32) << 8; *d = (carry % 58) as u8; carry /= 58; }
        while carry > 0 { digits.push((carry % 58) as u8); carry /= 58; }
    }
    let mut s = String::new();
    for x in b { if *x == 0 { s.push('1') } else { break } }
    for d in digits.iter().rev() { s.push(ALPHABET[*d as usize] as char) }
    s
}
/// how many bytes a base58 text stands for
fn base58_len(t: &[u8]) -> usize {
    let mut bytes: Vec<u8> = vec![];
    for c in t {
        let mut carry = ALPHABET.iter().position(|x| x == c).unwrap() as u32;
        for b in bytes.iter_mut() { carry += *b as u32 * 58; *b = carry as u8; carry >>= 8; }
        while carry > 0 { bytes.push(carry as u8); carry >>= 8; }
    }
    bytes.len() + t.iter().take_while(|c| **c == b'1').count()
}
/// what an authority signs
pub fn signed(version: u16, from: u32, after: u32, key: &[u8; 32]) -> Vec<u8> {
    let mut w = version.to_le_bytes().to_vec();
    w.extend_from_slice(&from.to_le_bytes());
    w.extend_from_slice(&after.to_le_bytes());
    w.extend_from_slice(key);
    w
}
fn public_key(b: [u8; 32]) -> Option<PublicKey> { PublicKey::from_bytes(b).ok() }
/// a symbolic system time in whole and nano seconds, `s` seconds after the epoch
fn now(max: u64) -> (u64, u32) {
    let (s, n) = (vk::u64_("now_s"), vk::u32_("now_ns"));
    vk::assume(s <= max && n < 1_000_000_000);
    vk::set_clock(s as i64, n);
    (s, n)
}

harnesses! {
fn h_c13_verify() {
    // anything the network or the clock can do to a certificate
    let kp = authority(0);
    let st = pair(&secret("key_static")).get_public_key();
    let (version, from, after) = (vk::u16_("version"), vk::u32_("from"), vk::u32_("after"));
    vk::assume(from < after);
    let cert = match SignedCertificate::new(version, from, after, &st) { Ok(c) => c, Err(_) => { vk::check(false, "a valid period is accepted"); return } };
    let msg = match SignatureNoiseMessage::from_auth_key(&kp, &cert) { Ok(m) => m, Err(_) => { vk::check(false, "a certificate can be signed"); return } };
    let mut wire = enc(&msg);
    vk::check(wire.len() == 74, "the message has 74 bytes");
    let mut altered = 0u8;
    let lo = vk::each(2, "what");
    let (a, b) = [(0, 10), (10, 74), (0, 74)][lo];
    let mask = vk::any_vec(b - a, "mask");
    for i in a..b { wire[i] ^= mask[i - a]; altered |= mask[i - a]; }
    let m2 = match deserialize::<SignatureNoiseMessage>(&wire) { Ok(m) => m, Err(_) => { vk::check(altered != 0, "an unaltered message is read back"); vk::cover("unreadable"); return } };
    let mut sb = st.as_bytes();
    if vk::each(1, "static") == 1 { let sm = vk::any::<32>("static_mask"); for i in 0..32 { sb[i] ^= sm[i]; altered |= sm[i]; } vk::assume(sb[3] > 1 && sb[4] != 0x7c && sb[4] != 0xbc && sb[4] != 0xff); }
    let st2 = match public_key(sb) { Some(k) => k, None => { vk::check(altered != 0, "the key itself is accepted"); return } };
    let auth = vk::each(1, "authority");
    let text = base58(&unhex(KEYS[auth].1));
    let c = match CertificateFormat::new(&text, &st2, &m2) { Ok(c) => c, Err(_) => { vk::check(false, "a good authority key is accepted"); return } };
    let (s, _) = now(1 << 33);
    let valid = altered == 0 && auth == 0 && s <= u32::MAX as u64 && m2.valid_from as u64 <= s && s < m2.not_valid_after as u64;
    let r = c.verify();
    if r.is_ok() { vk::check(valid, "only an unaltered certificate of this authority within its period is accepted"); vk::cover("accepted"); }
    else { vk::check(!valid, "a good certificate is accepted within its period"); vk::cover("refused"); }
}
fn h_c13_time() {
    // the clock may be anywhere, before the epoch too
    let kp = authority(0);
    let st = pair(&secret("key_static")).get_public_key();
    let (version, from, after) = (vk::u16_("version"), vk::u32_("from"), vk::u32_("after"));
    let sig = { use ed25519_dalek::Signer; kp.sign(&signed(version, from, after, &st.as_bytes())) };
    let m = SignatureNoiseMessage { version, valid_from: from, not_valid_after: after, signature: sig };
    let text = base58(&unhex(KEYS[0].1));
    let c = match CertificateFormat::new(&text, &st, &m) { Ok(c) => c, Err(_) => { vk::check(false, "a good authority key is accepted"); return } };
    let (s, n) = (vk::u64_("now_s") as i64, vk::u32_("now_ns"));
    vk::assume(n < 1_000_000_000 && s > -(1 << 40) && s < 1 << 40);
    vk::set_clock(s, n);
    let valid = s >= from as i64 && s < after as i64;
    vk::check(c.verify().is_ok() == valid, "accepted exactly within the period");
    vk::cover(if valid { "accepted" } else { "refused" });
}
fn h_c13_twice() {
    // what was verified before changes nothing
    let kp = authority(0);
    let (a, b) = (pair(&secret("key_static")).get_public_key(), pair(&secret("key_other")).get_public_key());
    let (version, from, after) = (vk::u16_("version"), vk::u32_("from"), vk::u32_("after"));
    let cert = match SignedCertificate::new(version, from, after, &a) { Ok(c) => c, Err(_) => return };
    let good = match SignatureNoiseMessage::from_auth_key(&kp, &cert) { Ok(m) => m, Err(_) => { vk::check(false, "a certificate can be signed"); return } };
    let texts = [base58(&unhex(KEYS[0].1)), base58(&unhex(KEYS[1].1))];
    let step = |kind: usize| {
        let mut m = good.clone();
        let (s, n) = (vk::u64_("now_s") as i64, vk::u32_("now_ns"));
        vk::assume(n < 1_000_000_000 && s >= 0 && s < 1 << 33);
        vk::set_clock(s, n);
        let (mut key, mut by, mut genuine) = (a, 0, true);
        match kind {
            0 => {}
            1 => { key = b; genuine = a == b; }
            2 => { let d = vk::u32_("later"); m.not_valid_after ^= d; genuine = d == 0; }
            3 => { let d = vk::u16_("version_mask"); m.version ^= d; genuine = d == 0; }
            4 => { by = 1; genuine = false; }
            _ => { let mut w = m.signature.to_bytes(); w[vk::one_of(&[0, 31, 32, 62], "at")] ^= 1; m.signature = match deserialize::<Signature>(&w) { Ok(x) => x, Err(_) => return }; genuine = false; }
        }
        let c = match CertificateFormat::new(&texts[by], &key, &m) { Ok(c) => c, Err(_) => { vk::check(false, "a good authority key is accepted"); return } };
        let valid = genuine && s >= m.valid_from as i64 && s < m.not_valid_after as i64;
        vk::check(c.verify().is_ok() == valid, "whatever was verified before, exactly an untouched certificate is accepted");
        vk::cover(if valid { "accepted" } else { "refused" });
    };
    let kinds = [(0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (1, 0), (2, 0), (4, 0), (1, 1)];
    let k = kinds[vk::each(kinds.len() - 1, "kinds")];
    step(k.0);
    step(k.1);
}
fn h_c13_key_text() {
    let kp = authority(0);
    let st = pair(&secret("key_static")).get_public_key();
    let cert = match SignedCertificate::new(0, 1, 2, &st) { Ok(c) => c, Err(_) => return };
    let msg = match SignatureNoiseMessage::from_auth_key(&kp, &cert) { Ok(m) => m, Err(_) => return };
    let good = base58(&unhex(KEYS[0].1));
    match vk::each(2, "how") {
        0 => {
            // a character that base58 does not have
            let at = vk::each(good.len() - 1, "at");
            let c = vk::u8_("char");
            let mut inside = c >= 0x80;
            for x in ALPHABET.iter() { inside |= c == *x; }
            vk::assume(!inside);
            let mut t = good.into_bytes();
            t[at] = c;
            let t = unsafe { String::from_utf8_unchecked(t) };
            vk::check(CertificateFormat::new(&t, &st, &msg).is_err(), "text that is not base58 is refused");
            vk::cover("not-base58");
        }
        1 => {
            let n = vk::each(60, "len");
            let t = match vk::each(1, "digit") { 0 => "2", _ => "1" }.repeat(n);
            let r = CertificateFormat::new(&t, &st, &msg);
            if base58_len(t.as_bytes()) != 32 { vk::check(r.is_err(), "a key of a wrong length is refused"); vk::cover("wrong-length"); }
        }
        _ => {
            // 32 bytes, but not a point of the curve
            let mut k = [0u8; 32];
            k[0] = 2;
            let t = base58(&k);
            vk::check(CertificateFormat::new(&t, &st, &msg).is_err(), "a key that is no point of the curve is refused");
            vk::cover("no-point");
        }
    }
}
// ---- C14
fn h_c14_rule() {
    let st = pair(&secret("key_static")).get_public_key();
    let (version, from, after) = (vk::u16_("version"), vk::u32_("from"), vk::u32_("after"));
    match SignedCertificate::new(version, from, after, &st) {
        Ok(c) => {
            vk::check(from < after, "a certificate's period is not empty");
            vk::check(c.version == version && c.valid_from == from && c.not_valid_after == after && *c.public_key == st, "the certificate has the values given");
            encodes_to(&c, &signed(version, from, after, &st.as_bytes()));
            let kp = authority(0);
            match SignatureNoiseMessage::from_auth_key(&kp, &c) {
                Ok(m) => {
                    vk::check(m.version == version && m.valid_from == from && m.not_valid_after == after, "the message has the certificate's values");
                    vk::check(kp.public.verify(&signed(version, from, after, &st.as_bytes()), &m.signature).is_ok(), "the signature is the authority's over version, period and static key");
                    let n = SignatureNoiseMessage::new(&c, m.signature);
                    vk::check(n == m, "the message made from the signature is the same");
                }
                Err(_) => vk::check(false, "a certificate can be signed"),
            }
            vk::cover("accepted");
        }
        Err(_) => { vk::check(from >= after, "a period that is not empty is accepted"); vk::cover("refused"); }
    }
}
fn h_c14_wire() {
    let b = vk::any_vec(74, "wire");
    let canonical = b[73] & 0xe0 == 0;
    match deserialize::<SignatureNoiseMessage>(&b) {
        Ok(m) => {
            vk::check(canonical, "a malformed signature is refused");
            vk::check(m.version == u16::from_le_bytes([b[0], b[1]]) && m.valid_from == u32::from_le_bytes([b[2], b[3], b[4], b[5]]) && m.not_valid_after == u32::from_le_bytes([b[6], b[7], b[8], b[9]]) && m.signature.to_bytes()[..] == b[10..], "the fields are those encoded");
            encodes_to(&m, &b);
            decodes_from::<SignatureNoiseMessage>(&b, true, |x| *x == m);
            vk::cover("accepted");
        }
        Err(_) => { vk::check(!canonical, "a well-formed message is accepted"); vk::cover("refused"); }
    }
}
// ---- C15
fn h_c15_convert() {
    let (s, n) = (vk::u64_("s"), vk::u32_("ns"));
    vk::assume(n < 1_000_000_000 && s < 1 << 62);
    let d = Duration::new(s, n);
    if vk::each(1, "before") == 0 {
        let t = match SystemTime::UNIX_EPOCH.checked_add(d) { Some(t) => t, None => { vk::check(false, "in range"); return } };
        match system_unix_time_to_u32(&t) {
            Ok(v) => { vk::check(v as u64 == s, "the timestamp is the number of whole seconds"); vk::cover("converted"); }
            Err(_) => { vk::check(s > u32::MAX as u64, "a time that fits is converted"); vk::cover("too-late"); }
        }
    } else {
        vk::assume(s > 0 || n > 0);
        let t = match SystemTime::UNIX_EPOCH.checked_sub(d) { Some(t) => t, None => { vk::check(false, "in range"); return } };
        vk::check(system_unix_time_to_u32(&t).is_err(), "a time before the epoch is refused");
        vk::cover("too-early");
    }
}
fn h_c15_now() {
    let (s, n) = (vk::u64_("now_s") as i64, vk::u32_("now_ns"));
    vk::assume(n < 1_000_000_000 && s > -(1 << 60) && s < 1 << 60);
    vk::set_clock(s, n);
    match unix_u32_now() {
        Ok(v) => { vk::check(v as i64 == s, "now is the number of whole seconds"); vk::cover("converted"); }
        Err(_) => { vk::check(s < 0 || s > u32::MAX as i64, "a time that fits is converted"); vk::cover("refused"); }
    }
}
}
