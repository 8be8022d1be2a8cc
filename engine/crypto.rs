//! Ideal models of the external cryptographic primitives: uninterpreted functions over byte strings plus the
//! algebraic facts a user of the primitive relies on (DH commutes, decryption inverts encryption, different
//! authenticated inputs have different tags, hash outputs do not collide and are not all-zero).
use crate::exec::*;
use crate::expr::*;
use crate::ir::Ty;
use std::rc::Rc;

pub fn is_crypto(n: &str) -> bool {
    matches!(n, "Hacl_Chacha20Poly1305_aead_encrypt" | "Hacl_Chacha20Poly1305_aead_decrypt" | "Hacl_Curve25519_crypto_scalarmult") || (n.contains("7blake2s") && n.ends_with("7Blake2s8compress"))
}

/// canonical encodings of the low-order points of Curve25519
const LOW: [&str; 5] = [
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0100000000000000000000000000000000000000000000000000000000000000",
    "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
    "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
];

/// every encoding of a low-order point, up to the ignored top bit: the shared secret is zero
const WEAK: [&str; 7] = [
    LOW[0], LOW[1], LOW[2], LOW[3], LOW[4],
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
];

impl<'a> Engine<'a> {
    fn all_eq(&mut self, a: &[EId], b: &[EId]) -> EId {
        let mut acc = self.ar.cst(1, 1);
        if a.len() != b.len() { return self.ar.cst(0, 1); }
        for i in 0..a.len() {
            if a[i] == b[i] { continue; }
            let e = self.ar.bin(Op::Eq, a[i], b[i]);
            if self.ar.get_const(e) == Some(0) { return e; }
            acc = self.ar.bin(Op::And, acc, e);
        }
        acc
    }
    /// Record an application of an injective function: equal outputs imply equal inputs.
    pub fn injective(&mut self, st: &mut State, class: u8, ins: Vec<EId>, out: EId) -> R<()> {
        if self.ar.get_const(out).is_some() { return Ok(()); }
        if st.apps.iter().any(|x| x.0 == class && x.2 == out) { return Ok(()); }
        let apps = st.apps.clone();
        for (c, i2, o2) in apps.iter() {
            if *c != class { continue; }
            let same = self.all_eq(&ins, i2);
            let oe = self.ar.bin(Op::Eq, out, *o2);
            let no = self.ar.not1(oe);
            let ax = self.ar.bin(Op::Or, no, same);
            self.axiom(st, ax)?;
        }
        Rc::make_mut(&mut st.apps).push((class, ins, out));
        Ok(())
    }
    fn not_equal(&mut self, st: &mut State, a: &[EId], k: &[u8]) -> R<()> {
        let b: Vec<EId> = k.iter().map(|x| self.ar.cst(*x as u128, 8)).collect();
        let e = self.all_eq(a, &b);
        let n = self.ar.not1(e);
        self.axiom(st, n)
    }
    fn keystream(&mut self, st: &mut State, key: &[u32], nonce: &[u32], n: u64) -> R<Vec<u32>> {
        let mut full = vec![];
        for i in 0..(n.max(32) + 63) / 64 {
            let c: Vec<u32> = (i as u32).to_le_bytes().iter().map(|x| *x as u32).collect();
            full.extend(self.uf_bytes(st, "chacha", &[key, nonce, &c], 64));
        }
        let e = self.bytes_e(st, &full[..32]);
        self.not_equal(st, &e, &[0u8; 32])?;
        Ok(full[..n as usize].to_vec())
    }
    fn xor(&mut self, st: &State, a: &[u32], b: &[u32]) -> Vec<u32> {
        (0..a.len()).map(|i| { let (x, y) = (self.byte_val(st, a[i]), self.byte_val(st, b[i])); let v = self.bin(Op::Xor, &x, &y, 8); self.val_byte(&v) }).collect()
    }
    fn tag(&mut self, st: &mut State, key: &[u32], nonce: &[u32], ad: &[u32], ct: &[u32]) -> R<Vec<u32>> {
        if ct.len() <= 512 { return Ok(self.uf_bytes(st, "poly", &[key, nonce, ad, ct], 16)); }
        // fold long texts so that no application gets too many arguments
        let mut acc: Vec<u32> = (ct.len() as u32).to_le_bytes().iter().map(|x| *x as u32).collect();
        for c in ct.chunks(256) { acc = self.uf_bytes(st, "polyfold", &[&acc, c], 16); }
        Ok(self.uf_bytes(st, "polylong", &[key, nonce, ad, &acc], 16))
    }
    /// The condition under which an ideal authenticated encryption accepts: exactly this was encrypted before.
    fn authentic(&mut self, st: &mut State, parts: [&[u32]; 5]) -> EId {
        let q: Vec<Vec<EId>> = parts.iter().map(|p| self.bytes_e(st, p)).collect();
        let log = st.aead.clone();
        let mut acc = self.ar.cst(0, 1);
        'next: for e in log.iter() {
            let mut same = self.ar.cst(1, 1);
            for (x, y) in e.iter().zip(&q) {
                let c = self.all_eq(x, y);
                same = self.ar.bin(Op::And, same, c);
                if self.ar.get_const(same) == Some(0) { continue 'next; }
            }
            acc = self.ar.bin(Op::Or, acc, same);
        }
        acc
    }
    pub fn finish_summary(&mut self, st: &mut State, sm: &Summ) -> R<()> {
        let now = self.read(st, sm.ptr, sm.before.len() as u64)?;
        let ch: Vec<usize> = (0..now.len()).filter(|&i| now[i] != sm.before[i]).collect();
        let key = (sm.before.clone(), sm.extra.clone());
        if now.iter().all(|b| *b < 256 || *b == UNDEF) {
            self.summaries.insert(key, ch.iter().map(|&i| (i, now[i])).collect());
            return Ok(());
        }
        let u = self.uf_bytes(st, "blake2s_compress", &[&sm.before, &sm.extra], ch.len() as u64);
        let outs: Vec<(usize, u32)> = ch.iter().zip(u).map(|(i, b)| (*i, b)).collect();
        self.summaries.insert(key, outs.clone());
        self.apply_summary(st, sm, &outs)
    }
    fn apply_summary(&mut self, st: &mut State, sm: &Summ, outs: &[(usize, u32)]) -> R<()> {
        for (i, b) in outs { self.write(st, sm.ptr + *i as u64, &[*b])?; }
        if outs.iter().all(|o| o.1 < 256) { return Ok(()); }
        let ob: Vec<u32> = outs.iter().map(|o| o.1).collect();
        let oe = self.bytes_e(st, &ob);
        self.not_equal(st, &oe, &vec![0u8; ob.len()])?;
        if self.params.get("inj_hash").copied().unwrap_or(0) != 0 {
            let mut ins = self.bytes_e(st, &sm.before);
            ins.extend(self.bytes_e(st, &sm.extra));
            let v = self.join(st, &ob[..16]);
            let ve = self.e(&v, 128);
            self.injective(st, 2, ins, ve)?;
        }
        Ok(())
    }
    pub fn crypto(&mut self, st: &mut State, name: &str, a: Vec<Val>, dst: Option<u32>, cont: Option<u32>) -> R<()> {
        self.stubs.insert(name.to_string());
        if name.contains("8compress") {
            let p = self.c64(st, &a[0], "hash state")?;
            let (b, o) = match self.find(st, p) { Some(x) => x, None => return Err(Stop::Mem("hash state".into())) };
            let mut n = o.data.len() as u64 - (p - b);
            // the state is 64 + 32 + 8 + 8 bytes, rounded up to its alignment
            if n > 112 { n = 112; }
            let before = self.read(st, p, n)?;
            // normalise: bytes already determined on this path
            let before: Vec<u32> = before.iter().map(|x| { let v = self.byte_val(st, *x); self.val_byte(&v) }).collect();
            let mut extra = vec![];
            for x in &a[1..] { extra.extend(self.split(x, 4)); }
            let sm = Rc::new(Summ { ptr: p, before: before.clone(), extra: extra.clone() });
            if let Some(outs) = self.summaries.get(&(before, extra)).cloned() {
                self.apply_summary(st, &sm, &outs)?;
                return self.ret(st, dst, cont, Val::U);
            }
            // write back the normalised bytes so that the execution sees the same inputs
            let nb = sm.before.clone();
            self.write(st, p, &nb)?;
            let cur = st.cur;
            self.push_frame(st, cur, name, a, dst, cont)?;
            st.threads[cur].frames.last_mut().unwrap().summ = Some(sm);
            return Ok(());
        }
        match name {
            "Hacl_Curve25519_crypto_scalarmult" => {
                let (o, s, p) = (self.c64(st, &a[0], "dh")?, self.c64(st, &a[1], "dh")?, self.c64(st, &a[2], "dh")?);
                let (sk, pt) = (self.read(st, s, 32)?, self.read(st, p, 32)?);
                let ske = self.bytes_e(st, &sk);
                let pte = self.bytes_e(st, &pt);
                let base = pte.iter().enumerate().all(|(i, e)| self.ar.get_const(*e) == Some(if i == 0 { 9 } else { 0 }));
                let weak = pte.iter().map(|e| self.ar.get_const(*e).map(|x| x as u8)).collect::<Option<Vec<u8>>>().map_or(false, |p| WEAK.iter().any(|w| (0..32).all(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).unwrap() | if i == 31 { 0x80 } else { 0 } == p[i] | if i == 31 { 0x80 } else { 0 })));
                let out = if weak { vec![0; 32] } else if base {
                    let out = self.uf_bytes(st, "x25519_base", &[&sk], 32);
                    let oe = self.bytes_e(st, &out);
                    for l in LOW { let k: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect(); self.not_equal(st, &oe, &k)?; }
                    // a canonical encoding: below 2^255 - 19
                    let m = self.ar.cst(0x80, 8);
                    let c = self.ar.bin(Op::Ult, oe[31], m);
                    self.axiom(st, c)?;
                    // different (clamped) secret keys have different public keys
                    if self.params.get("inj_dh").copied().unwrap_or(0) != 0 {
                        let mut ins = ske.clone();
                        let (lo, hi, top) = (self.ar.cst(0xf8, 8), self.ar.cst(0x3f, 8), self.ar.cst(0x40, 8));
                        ins[0] = self.ar.bin(Op::And, ins[0], lo);
                        let h = self.ar.bin(Op::And, ins[31], hi);
                        ins[31] = self.ar.bin(Op::Or, h, top);
                        let v = self.join(st, &out);
                        let ve = self.e(&v, 256);
                        self.injective(st, 3, ins, ve)?;
                    }
                    for b0 in 0xedu8..=0xff { let mut k = [0xffu8; 32]; k[0] = b0; k[31] = 0x7f; self.not_equal(st, &oe, &k)?; }
                    out
                } else {
                    // is the point itself a public key derived from a known secret?
                    let mut peer: Option<Vec<EId>> = None;
                    if let Node::Extract(u, 0) = self.ar.nodes[pte[0] as usize].clone() {
                        if let Node::App(_, args) = self.ar.nodes[u as usize].clone() {
                            if args.len() == 32 {
                                let k: Vec<u32> = args.iter().map(|e| { let v = self.v(*e); self.val_byte(&v) }).collect();
                                let q = self.uf_bytes(st, "x25519_base", &[&k], 32);
                                let qe = self.bytes_e(st, &q);
                                if qe == pte { peer = Some(args.to_vec()); }
                            }
                        }
                    }
                    match peer {
                        Some(k) => {
                            let (x, y) = if ske <= k { (ske, k) } else { (k, ske) };
                            let xb: Vec<u32> = x.iter().map(|e| { let v = self.v(*e); self.val_byte(&v) }).collect();
                            let yb: Vec<u32> = y.iter().map(|e| { let v = self.v(*e); self.val_byte(&v) }).collect();
                            self.uf_bytes(st, "x25519_shared", &[&xb, &yb], 32)
                        }
                        None => self.uf_bytes(st, "x25519", &[&sk, &pt], 32),
                    }
                };
                self.write(st, o, &out)?;
                self.ret(st, dst, cont, Val::U)
            }
            "Hacl_Chacha20Poly1305_aead_encrypt" => {
                // (c, mac, m, mlen, aad, aadlen, k, n)
                let c = self.c64(st, &a[0], "aead")?;
                let mac = self.c64(st, &a[1], "aead")?;
                let m = self.c64(st, &a[2], "aead")?;
                let ml = self.c64(st, &a[3], "aead length")? & 0xffff_ffff;
                let ad = self.c64(st, &a[4], "aead")?;
                let al = self.c64(st, &a[5], "aead length")? & 0xffff_ffff;
                let (k, n) = (self.c64(st, &a[6], "aead")?, self.c64(st, &a[7], "aead")?);
                let (m, ad, k, n) = (self.read(st, m, ml)?, self.read(st, ad, al)?, self.read(st, k, 32)?, self.read(st, n, 12)?);
                let ks = self.keystream(st, &k, &n, ml)?;
                let ct = self.xor(st, &m, &ks);
                let t = self.tag(st, &k, &n, &ad, &ct)?;
                self.write(st, c, &ct)?;
                self.write(st, mac, &t)?;
                let entry: Vec<Vec<EId>> = [&k, &n, &ad, &ct, &t].iter().map(|p| self.bytes_e(st, p)).collect();
                Rc::make_mut(&mut st.aead).push(entry);
                self.ret(st, dst, cont, Val::C(0))
            }
            "Hacl_Chacha20Poly1305_aead_decrypt" => {
                // (m, c, mlen, mac, aad, aadlen, k, n) -> 0 when authentic; the output is written only then
                let m = self.c64(st, &a[0], "aead")?;
                let c = self.c64(st, &a[1], "aead")?;
                let ml = self.c64(st, &a[2], "aead length")? & 0xffff_ffff;
                let mac = self.c64(st, &a[3], "aead")?;
                let ad = self.c64(st, &a[4], "aead")?;
                let al = self.c64(st, &a[5], "aead length")? & 0xffff_ffff;
                let (k, n) = (self.c64(st, &a[6], "aead")?, self.c64(st, &a[7], "aead")?);
                let (ct, mac, ad, k, n) = (self.read(st, c, ml)?, self.read(st, mac, 16)?, self.read(st, ad, al)?, self.read(st, k, 32)?, self.read(st, n, 12)?);
                let eq = self.authentic(st, [&k, &n, &ad, &ct, &mac]);
                let v = self.v(eq);
                let ok = match self.subst(st, v) { Val::C(k) => k != 0, Val::S(e) => self.branch(st, e)?, _ => return Err(Stop::Unsup("tag".into())) };
                if ok {
                    let ks = self.keystream(st, &k, &n, ml)?;
                    let pt = self.xor(st, &ct, &ks);
                    self.write(st, m, &pt)?;
                }
                let _ = Ty::Int(32);
                self.ret(st, dst, cont, Val::C(if ok { 0 } else { 1 }))
            }
            _ => Err(Stop::Unsup(format!("crypto {}", name))),
        }
    }
}

/// Models written in Rust inside the harness crate: calls of a library function whose mangled name contains all
/// the fragments are redirected to the harness function of the same signature.
const OVERRIDES: &[(&[&str], &str)] = &[
    (&["4core3str8converts9from_utf8"], "ov_utf8"),
    (&["4core3stre9from_utf8"], "ov_utf8"),
    (&["13ed25519_dalek", "9PublicKey", "8Verifier", "6verify"], "ov_ed25519_verify"),
    (&["13ed25519_dalek", "9PublicKey", "13verify_strict"], "ov_ed25519_verify"),
    (&["13ed25519_dalek", "9PublicKey", "4From", "9SecretKey", "4from"], "ov_ed25519_public"),
    (&["13ed25519_dalek", "7Keypair", "6Signer", "8try_sign"], "ov_ed25519_try_sign"),
    (&["4core4hash3sip", "6Hasher6finish"], "ov_hash_finish"),
    (&["4core4hash3sip", "6Hasher5write"], "ov_hash_write"),
    (&["4rand4rngs6thread10thread_rng"], "ov_thread_rng"),
    (&["9ThreadRng", "7RngCore10fill_bytes"], "ov_rng_fill"),
    (&["9ThreadRng", "7RngCore14try_fill_bytes"], "ov_rng_try_fill"),
    (&["5OsRng", "7RngCore10fill_bytes"], "ov_rng_fill"),
    (&["5OsRng", "7RngCore14try_fill_bytes"], "ov_rng_try_fill"),
    (&["9ThreadRng", "7RngCore8next_u32"], "ov_rng_u32"),
    (&["9ThreadRng", "7RngCore8next_u64"], "ov_rng_u64"),
    (&["9rand_core5block", "8BlockRng", "7RngCore8next_u32"], "ov_rng_u32"),
    (&["9rand_core5block", "8BlockRng", "7RngCore8next_u64"], "ov_rng_u64"),
    (&["9rand_core5block", "8BlockRng", "7RngCore10fill_bytes"], "ov_rng_fill"),
];

impl<'a> Engine<'a> {
    pub fn find_overrides(&mut self) {
        let names: Vec<Rc<str>> = self.m.fsrc.keys().cloned().collect();
        for (pat, to) in OVERRIDES {
            if !self.m.fsrc.contains_key(*to) { continue; }
            for n in &names { if !n.contains(to) && pat.iter().all(|p| n.contains(p)) { self.overrides.insert(n.clone(), (*to).into()); } }
        }
    }
}
