//! Hash-consed bit-vector expressions with constant folding.
use std::collections::HashMap;
use std::rc::Rc;

pub type EId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, FAdd, FSub, FMul, FDiv, FExt, FTrunc }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Sym(u32),
    Const(u128),
    Bin(Op, EId, EId),
    Ite(EId, EId, EId),
    Concat(EId, EId), // hi, lo
    Extract(EId, u32), // low bit; width in arena
    ZExt(EId),
    SExt(EId),
    App(u32, Rc<[EId]>),
}

pub struct SymInfo { pub name: String, pub width: u32 }

pub struct Arena {
    pub nodes: Vec<Node>,
    pub width: Vec<u32>,
    map: HashMap<(Node, u32), EId>,
    pub syms: Vec<SymInfo>,
    pub sym_eid: Vec<EId>,
    pub ufs: Vec<(String, Vec<u32>, u32)>,
    uf_map: HashMap<(String, Vec<u32>, u32), u32>,
    support2: [HashMap<EId, Rc<Vec<u32>>>; 2],
    umaxc: Vec<u128>,
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn fold(op: Op, a: u128, b: u128, w: u32) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { return None } else { a / b },
        Op::URem => if b == 0 { return None } else { a % b },
        Op::SDiv => { if b == 0 { return None } (sext(a, w).wrapping_div(sext(b, w))) as u128 & m }
        Op::SRem => { if b == 0 { return None } (sext(a, w).wrapping_rem(sext(b, w))) as u128 & m }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; (sext(a, w) >> s.min(127)) as u128 & m }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        Op::FExt => f64b(f32::from_bits(a as u32) as f64),
        Op::FTrunc => f32b(f64::from_bits(a as u64) as f32),
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv if w == 32 => {
            let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
            f32b(match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y })
        }
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
            f64b(match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y })
        }
    })
}
/// Bits of a floating-point result; every NaN result is the canonical one, as in the solver's encoding.
fn f32b(x: f32) -> u128 { if x.is_nan() { 0x7fc0_0000 } else { x.to_bits() as u128 } }
fn f64b(x: f64) -> u128 { if x.is_nan() { 0x7ff8_0000_0000_0000 } else { x.to_bits() as u128 } }
pub fn rwidth(op: Op, w: u32) -> u32 { match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, Op::FExt => 64, Op::FTrunc => 32, _ => w } }

impl Arena {
    pub fn new() -> Self {
        Arena { nodes: vec![], width: vec![], map: HashMap::new(), syms: vec![], sym_eid: vec![], ufs: vec![], uf_map: HashMap::new(), support2: [HashMap::new(), HashMap::new()], umaxc: vec![] }
    }
    fn mk(&mut self, n: Node, w: u32) -> EId {
        if let Some(&e) = self.map.get(&(n.clone(), w)) { return e; }
        let id = self.nodes.len() as EId;
        let um = self.umax_of(&n, w);
        self.umaxc.push(um);
        self.nodes.push(n.clone());
        self.width.push(w);
        self.map.insert((n, w), id);
        id
    }
    /// an upper bound of the value
    pub fn umax(&self, e: EId) -> u128 { self.umaxc[e as usize] }
    fn umax_of(&self, n: &Node, w: u32) -> u128 {
        let m = mask(w);
        if w > 128 { return u128::MAX; }
        let ones = |x: u128| if x == 0 { 0 } else { u128::MAX >> x.leading_zeros() };
        match n {
            Node::Const(c) => *c,
            Node::ZExt(x) => self.umax(*x),
            Node::Ite(_, a, b) => self.umax(*a).max(self.umax(*b)),
            Node::Extract(x, lo) if self.w(*x) <= 128 => { let u = self.umax(*x) >> lo; if u <= m { u } else { m } }
            Node::Concat(h, l) => { let lw = self.w(*l); (self.umax(*h) << lw) | if self.umax(*h) == 0 { self.umax(*l) } else { mask(lw) } }
            Node::Bin(op, a, b) => {
                let (x, y) = (self.umax(*a), self.umax(*b));
                match op {
                    Op::Add => x.checked_add(y).filter(|s| *s <= m).unwrap_or(m),
                    Op::Mul => x.checked_mul(y).filter(|s| *s <= m).unwrap_or(m),
                    Op::And => x.min(y),
                    Op::Or | Op::Xor => (ones(x) | ones(y)) & m,
                    Op::UDiv => if let Some(k) = self.get_const(*b) { if k > 0 { x / k } else { m } } else { m },
                    Op::URem => if let Some(k) = self.get_const(*b) { if k > 0 { x.min(k - 1) } else { x } } else { x },
                    Op::LShr => if let Some(k) = self.get_const(*b) { if k < 128 { x >> k } else { 0 } } else { x },
                    Op::Shl => if let Some(k) = self.get_const(*b) { if k < 128 && x.leading_zeros() as u128 >= k && (x << k) <= m { x << k } else { m } } else { m },
                    _ => m,
                }
            }
            _ => m,
        }
    }
    pub fn w(&self, e: EId) -> u32 { self.width[e as usize] }
    pub fn cst(&mut self, v: u128, w: u32) -> EId { let v = v & mask(w); self.mk(Node::Const(v), w) }
    pub fn get_const(&self, e: EId) -> Option<u128> { if let Node::Const(c) = self.nodes[e as usize] { Some(c) } else { None } }
    pub fn fresh(&mut self, name: String, w: u32) -> EId {
        let i = self.syms.len() as u32;
        self.syms.push(SymInfo { name, width: w });
        let e = self.mk(Node::Sym(i), w);
        self.sym_eid.push(e);
        e
    }
    pub fn uf(&mut self, name: &str, args: &[EId], outw: u32) -> EId {
        let ws: Vec<u32> = args.iter().map(|&a| self.w(a)).collect();
        let key = (name.to_string(), ws, outw);
        let id = match self.uf_map.get(&key) {
            Some(&i) => i,
            None => { let i = self.ufs.len() as u32; self.ufs.push(key.clone()); self.uf_map.insert(key, i); i }
        };
        self.mk(Node::App(id, Rc::from(args)), outw)
    }
    pub fn not1(&mut self, e: EId) -> EId {
        debug_assert!(self.w(e) == 1);
        let one = self.cst(1, 1);
        self.bin(Op::Xor, e, one)
    }
    pub fn ite(&mut self, c: EId, a: EId, b: EId) -> EId {
        if a == b { return a; }
        if let Some(v) = self.get_const(c) { return if v != 0 { a } else { b }; }
        let w = self.w(a);
        if w == 1 {
            match (self.get_const(a), self.get_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not1(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not1(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        // ite(!c, a, b) -> ite(c, b, a)
        if let Node::Bin(Op::Xor, x, k) = self.nodes[c as usize] {
            if self.get_const(k) == Some(1) { return self.ite(x, b, a); }
        }
        self.mk(Node::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, e: EId, w: u32) -> EId {
        let ew = self.w(e);
        if ew == w { return e; }
        assert!(w > ew);
        match self.nodes[e as usize].clone() {
            Node::Const(c) => self.cst(c, w),
            Node::ZExt(x) => self.zext(x, w),
            _ => self.mk(Node::ZExt(e), w),
        }
    }
    pub fn sext_e(&mut self, e: EId, w: u32) -> EId {
        let ew = self.w(e);
        if ew == w { return e; }
        match self.nodes[e as usize].clone() {
            Node::Const(c) => self.cst(sext(c, ew) as u128, w),
            Node::ZExt(x) => self.zext(x, w),
            _ => self.mk(Node::SExt(e), w),
        }
    }
    pub fn concat(&mut self, hi: EId, lo: EId) -> EId {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if let (Some(a), Some(b)) = (self.get_const(hi), self.get_const(lo)) {
            if w <= 128 { return self.cst((a << lw) | b, w); }
        }
        if self.get_const(hi) == Some(0) { return self.zext(lo, w); }
        if let (Node::Extract(a, al), Node::Extract(b, bl)) = (self.nodes[hi as usize].clone(), self.nodes[lo as usize].clone()) {
            if a == b && al == bl + lw { return self.extract(a, bl, w); }
        }
        // concat(x, concat(y, z)) where x,y adjacent extracts
        if let Node::Concat(y, z) = self.nodes[lo as usize].clone() {
            if let (Node::Extract(a, al), Node::Extract(b, bl)) = (self.nodes[hi as usize].clone(), self.nodes[y as usize].clone()) {
                let yw = self.w(y);
                if a == b && al == bl + yw { let xy = self.extract(a, bl, hw + yw); return self.concat(xy, z); }
            }
        }
        self.mk(Node::Concat(hi, lo), w)
    }
    pub fn extract(&mut self, e: EId, lo: u32, w: u32) -> EId {
        let ew = self.w(e);
        assert!(lo + w <= ew);
        if lo == 0 && w == ew { return e; }
        match self.nodes[e as usize].clone() {
            Node::Const(c) => self.cst(if lo >= 128 { 0 } else { c >> lo }, w),
            Node::Extract(x, l2) => self.extract(x, l2 + lo, w),
            Node::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw { self.extract(h, lo - lw, w) }
                else if lo + w <= lw { self.extract(l, lo, w) }
                else {
                    let a = self.extract(h, 0, lo + w - lw);
                    let b = self.extract(l, lo, lw - lo);
                    self.concat(a, b)
                }
            }
            Node::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw { self.cst(0, w) }
                else if lo + w <= xw { self.extract(x, lo, w) }
                else { let a = self.extract(x, lo, xw - lo); self.zext(a, w) }
            }
            Node::SExt(x) if lo + w <= self.w(x) => self.extract(x, lo, w),
            Node::Ite(c, a, b) if self.get_const(a).is_some() || self.get_const(b).is_some() => {
                let a = self.extract(a, lo, w); let b = self.extract(b, lo, w); self.ite(c, a, b)
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
                let a = self.extract(a, lo, w); let b = self.extract(b, lo, w); self.bin(op, a, b)
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) if lo == 0 && w >= 8 && (self.is_ext(a) || self.is_ext(b)) => {
                let a = self.extract(a, lo, w); let b = self.extract(b, lo, w); self.bin(op, a, b)
            }
            Node::Bin(Op::Shl, a, b) => {
                if let Some(k) = self.get_const(b) {
                    let k = k as u32;
                    if k < ew {
                        if lo >= k { return self.extract(a, lo - k, w); }
                        if lo + w <= k { return self.cst(0, w); }
                        // part zero, part a
                        let zl = k - lo;
                        let hi = self.extract(a, 0, w - zl);
                        let z = self.cst(0, zl);
                        return self.concat(hi, z);
                    }
                }
                self.mk(Node::Extract(e, lo), w)
            }
            Node::Bin(Op::LShr, a, b) => {
                if let Some(k) = self.get_const(b) {
                    let k = k as u32;
                    if k < ew {
                        if lo + k + w <= ew { return self.extract(a, lo + k, w); }
                        if lo + k >= ew { return self.cst(0, w); }
                        let x = self.extract(a, lo + k, ew - lo - k);
                        return self.zext(x, w);
                    }
                }
                self.mk(Node::Extract(e, lo), w)
            }
            _ => self.mk(Node::Extract(e, lo), w),
        }
    }
    fn is_ext(&self, e: EId) -> bool { matches!(self.nodes[e as usize], Node::ZExt(_) | Node::Const(_) | Node::Concat(..)) }
    pub fn bin(&mut self, op: Op, mut a: EId, mut b: EId) -> EId {
        let w = self.w(a);
        debug_assert!(w == self.w(b), "width mismatch {:?} {} {}", op, w, self.w(b));
        let rw = rwidth(op, w);
        let (mut ca, mut cb) = (self.get_const(a), self.get_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if w <= 128 { if let Some(r) = fold(op, x, y, w) { return self.cst(r, rw); } }
        }
        match op {
            Op::Ult => if let Some(k) = cb { if self.umax(a) < k { return self.cst(1, 1); } } else if let Some(k) = ca { if self.umax(b) <= k { return self.cst(0, 1); } },
            Op::Ule => if let Some(k) = cb { if self.umax(a) <= k { return self.cst(1, 1); } } else if let Some(k) = ca { if self.umax(b) < k { return self.cst(0, 1); } },
            _ => {}
        }
        if matches!(op, Op::Ult | Op::Ule) && w <= 127 {
            // sums that cannot wrap: x + y < x, y <= x + y, ~x < y
            let sum = |s: &Self, e: EId, o: EId| matches!(s.nodes[e as usize], Node::Bin(Op::Add, x, y) if (x == o || y == o) && s.umax(x) + s.umax(y) <= mask(w));
            if op == Op::Ult && sum(self, a, b) { return self.cst(0, 1); }
            if op == Op::Ule && sum(self, b, a) { return self.cst(1, 1); }
            let neg = |s: &Self, e: EId, o: EId| matches!(s.nodes[e as usize], Node::Bin(Op::Xor, x, k) if s.get_const(k) == Some(mask(w)) && s.umax(x) + s.umax(o) <= mask(w));
            if op == Op::Ult && neg(self, a, b) { return self.cst(0, 1); }
            if op == Op::Ule && neg(self, b, a) { return self.cst(1, 1); }
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let (Some(k), Node::Bin(Op::Add, x, y)) = (cb, self.nodes[a as usize].clone()) {
                    if let Some(k2) = self.get_const(y) { let c = self.cst(k.wrapping_add(k2), w); return self.bin(Op::Add, x, c); }
                }
            }
            Op::Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.cst(0, w); }
                if let Some(k) = cb { let c = self.cst(0u128.wrapping_sub(k), w); return self.bin(Op::Add, a, c); }
                // (x + y) - x -> y
                if let Node::Bin(Op::Add, x, y) = self.nodes[a as usize].clone() {
                    if x == b { return y; }
                    if y == b { return x; }
                    if let (Some(k), true) = (self.get_const(y), w <= 128) { let d = self.bin(Op::Sub, x, b); let c = self.cst(k, w); return self.bin(Op::Add, d, c); }
                }
            }
            Op::Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(k) = cb { if k.is_power_of_two() { let s = self.cst(k.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, s); } }
            }
            Op::UDiv => {
                if cb == Some(1) { return a; }
                if let Some(k) = cb { if k.is_power_of_two() { let s = self.cst(k.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, s); } }
            }
            Op::URem => {
                if cb == Some(1) { return self.cst(0, w); }
                if let Some(k) = cb { if k.is_power_of_two() { let s = self.cst(k - 1, w); return self.bin(Op::And, a, s); } }
            }
            Op::And => {
                if cb == Some(0) { return b; }
                if cb == Some(m) && w <= 128 { return a; }
                if a == b { return a; }
                if let Some(k) = cb {
                    // and with low mask -> zext(extract)
                    if (k & (k + 1)) == 0 { let n = k.count_ones(); let x = self.extract(a, 0, n); return self.zext(x, w); }
                    if let Node::ZExt(x) = self.nodes[a as usize].clone() {
                        let xw = self.w(x); let kk = self.cst(k, xw); let r = self.bin(Op::And, x, kk); return self.zext(r, w);
                    }
                }
                if w == 1 { if self.is_neg_of(a, b) { return self.cst(0, 1); } }
            }
            Op::Or => {
                if cb == Some(0) { return a; }
                if cb == Some(m) && w <= 128 { return b; }
                if a == b { return a; }
                if w == 1 { if self.is_neg_of(a, b) { return self.cst(1, 1); } }
                // or of disjoint (x << k) | zext(y) with y width <= k  => concat
                if let Some(r) = self.try_or_concat(a, b, w) { return r; }
                if let Some(r) = self.try_or_concat(b, a, w) { return r; }
            }
            Op::Xor => {
                if cb == Some(0) { return a; }
                if a == b { return self.cst(0, w); }
                if let Node::Bin(Op::Xor, x, y) = self.nodes[a as usize].clone() {
                    if x == b { return y; }
                    if y == b { return x; }
                    if let (Some(k), Some(k2)) = (cb, self.get_const(y)) { let c = self.cst(k ^ k2, w); return self.bin(Op::Xor, x, c); }
                }
                if let Node::Bin(Op::Xor, x, y) = self.nodes[b as usize].clone() {
                    if x == a { return y; }
                    if y == a { return x; }
                }
                if w == 1 && cb == Some(1) {
                    // negate comparisons
                    match self.nodes[a as usize].clone() {
                        Node::Bin(Op::Ult, x, y) => return self.bin(Op::Ule, y, x),
                        Node::Bin(Op::Ule, x, y) => return self.bin(Op::Ult, y, x),
                        Node::Bin(Op::Slt, x, y) => return self.bin(Op::Sle, y, x),
                        Node::Bin(Op::Sle, x, y) => return self.bin(Op::Slt, y, x),
                        _ => {}
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) { return a; }
                if let Some(k) = cb {
                    if k >= w as u128 && op != Op::AShr { return self.cst(0, w); }
                    let k = k as u32;
                    if op == Op::LShr && k < w { let x = self.extract(a, k, w - k); return self.zext(x, w); }
                    if op == Op::Shl && k < w && w <= 128 {
                        let x = self.extract(a, 0, w - k); let z = self.cst(0, k);
                        return self.concat(x, z);
                    }
                }
            }
            Op::Eq => {
                if a == b { return self.cst(1, 1); }
                if w == 1 { if let Some(k) = cb { return if k == 1 { a } else { self.not1(a) }; } }
                if let Some(k) = cb {
                    match self.nodes[a as usize].clone() {
                        Node::ZExt(x) => {
                            let xw = self.w(x);
                            if k > mask(xw) { return self.cst(0, 1); }
                            let kk = self.cst(k, xw);
                            return self.bin(Op::Eq, x, kk);
                        }
                        Node::SExt(x) => {
                            let xw = self.w(x);
                            if (sext(k & mask(xw), xw) as u128) & m != k { return self.cst(0, 1); }
                            let kk = self.cst(k, xw);
                            return self.bin(Op::Eq, x, kk);
                        }
                        Node::Ite(c, x, y) => {
                            let (kx, ky) = (self.get_const(x), self.get_const(y));
                            if kx.is_some() || ky.is_some() {
                                let ex = self.bin(Op::Eq, x, b);
                                let ey = self.bin(Op::Eq, y, b);
                                return self.ite(c, ex, ey);
                            }
                        }
                        Node::Concat(h, l) if w <= 128 => {
                            let (hw, lw) = (self.w(h), self.w(l));
                            let kh = self.cst(k >> lw, hw);
                            let kl = self.cst(k, lw);
                            let x = self.bin(Op::Eq, h, kh);
                            let y = self.bin(Op::Eq, l, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Node::Bin(Op::Add, x, y) => {
                            if let Some(k2) = self.get_const(y) { let kk = self.cst(k.wrapping_sub(k2), w); return self.bin(Op::Eq, x, kk); }
                        }
                        Node::Bin(Op::Xor, x, y) => {
                            if let Some(k2) = self.get_const(y) { let kk = self.cst(k ^ k2, w); return self.bin(Op::Eq, x, kk); }
                            if k == 0 { return self.bin(Op::Eq, x, y); }
                        }
                        _ => {}
                    }
                }
                if let (Node::ZExt(x), Node::ZExt(y)) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone()) {
                    if self.w(x) == self.w(y) { return self.bin(Op::Eq, x, y); }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) { return self.cst(0, 1); }
                if cb == Some(1) { let z = self.cst(0, w); return self.bin(Op::Eq, a, z); }
                if ca == Some(0) { let z = self.cst(0, w); let e = self.bin(Op::Eq, b, z); return self.not1(e); }
                if ca == Some(m) && w <= 128 { return self.cst(0, 1); }
                if let Some(r) = self.cmp_zext(op, a, b, ca, cb) { return r; }
            }
            Op::Ule => {
                if a == b || ca == Some(0) || (cb == Some(m) && w <= 128) { return self.cst(1, 1); }
                if cb == Some(0) { return self.bin(Op::Eq, a, b); }
                if let Some(k) = cb { if w <= 128 { let c = self.cst(k + 1, w); return self.bin(Op::Ult, a, c); } }
                if let Some(r) = self.cmp_zext(op, a, b, ca, cb) { return r; }
            }
            Op::Slt => {
                if a == b { return self.cst(0, 1); }
                // both known non-negative (zext)
                if self.nonneg(a) && self.nonneg(b) { return self.bin(Op::Ult, a, b); }
                if cb == Some(0) && w <= 128 { return self.extract(a, w - 1, 1); }
            }
            Op::Sle => {
                if a == b { return self.cst(1, 1); }
                if self.nonneg(a) && self.nonneg(b) { return self.bin(Op::Ule, a, b); }
            }
            _ => {}
        }
        self.mk(Node::Bin(op, a, b), rw)
    }
    fn is_neg_of(&self, a: EId, b: EId) -> bool {
        let f = |x: EId, y: EId| matches!(self.nodes[x as usize], Node::Bin(Op::Xor, p, k) if p == y && self.get_const(k) == Some(1));
        f(a, b) || f(b, a)
    }
    fn try_or_concat(&mut self, a: EId, b: EId, w: u32) -> Option<EId> {
        // a = concat(x, 0_k), b = zext(y), w(y) <= k
        if let (Node::Concat(x, z), Node::ZExt(y)) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone()) {
            if self.get_const(z) == Some(0) && self.w(y) <= self.w(z) {
                let k = self.w(z);
                let l = self.zext(y, k);
                let r = self.concat(x, l);
                debug_assert!(self.w(r) == w);
                return Some(r);
            }
        }
        // a = zext(concat(x, 0_k)), b = zext(y) with w(y) <= k
        if let (Node::ZExt(c), Node::ZExt(y)) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone()) {
            if let Node::Concat(x, z) = self.nodes[c as usize].clone() {
                if self.get_const(z) == Some(0) && self.w(y) <= self.w(z) {
                    let k = self.w(z);
                    let l = self.zext(y, k);
                    let r = self.concat(x, l);
                    return Some(self.zext(r, w));
                }
            }
        }
        None
    }
    fn nonneg(&self, e: EId) -> bool {
        match self.nodes[e as usize] { Node::ZExt(_) => true, Node::Const(c) => { let w = self.w(e); w <= 128 && (c >> (w - 1)) & 1 == 0 } _ => false }
    }
    fn cmp_zext(&mut self, op: Op, a: EId, b: EId, ca: Option<u128>, cb: Option<u128>) -> Option<EId> {
        if let (Node::ZExt(x), Some(k)) = (self.nodes[a as usize].clone(), cb) {
            let xw = self.w(x);
            if k > mask(xw) { return Some(self.cst(1, 1)); }
            let kk = self.cst(k, xw);
            return Some(self.bin(op, x, kk));
        }
        if let (Some(k), Node::ZExt(y)) = (ca, self.nodes[b as usize].clone()) {
            let yw = self.w(y);
            if k > mask(yw) { return Some(self.cst(0, 1)); }
            let kk = self.cst(k, yw);
            return Some(self.bin(op, kk, y));
        }
        if let (Node::ZExt(x), Node::ZExt(y)) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone()) {
            if self.w(x) == self.w(y) { return Some(self.bin(op, x, y)); }
        }
        None
    }
    /// Sorted list of symbol ids (and uninterpreted-function ids | 1<<31) an expression depends on.
    pub fn support_o(&mut self, e: EId, opaque: bool) -> Rc<Vec<u32>> {
        let o = opaque as usize;
        if let Some(s) = self.support2[o].get(&e) { return s.clone(); }
        // iterative post-order
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.support2[o].contains_key(&x) { continue; }
            let ch = self.children_o(x, opaque);
            if !done {
                st.push((x, true));
                for c in ch { if !self.support2[o].contains_key(&c) { st.push((c, false)); } }
            } else {
                let mut v: Vec<u32> = vec![];
                match &self.nodes[x as usize] { Node::Sym(i) => v.push(*i), Node::App(f, _) => v.push(if opaque { x } else { *f } | 1 << 31), _ => {} }
                let mut one: Option<Rc<Vec<u32>>> = None;
                let mut multi = !v.is_empty();
                for c in &ch {
                    let s = self.support2[o][c].clone();
                    if s.is_empty() { continue; }
                    if !multi && one.is_none() { one = Some(s); continue; }
                    if let Some(o) = &one { if Rc::ptr_eq(o, &s) || **o == *s { continue; } }
                    if let Some(o) = one.take() { v.extend(o.iter()); }
                    multi = true;
                    v.extend(s.iter());
                }
                let r = if let Some(o) = one { o } else { v.sort(); v.dedup(); Rc::new(v) };
                self.support2[o].insert(x, r);
            }
        }
        self.support2[o][&e].clone()
    }
    pub fn children_o(&self, e: EId, opaque: bool) -> Vec<EId> { if opaque && matches!(self.nodes[e as usize], Node::App(..)) { vec![] } else { self.children(e) } }
    pub fn children(&self, e: EId) -> Vec<EId> {
        match &self.nodes[e as usize] {
            Node::Sym(_) | Node::Const(_) => vec![],
            Node::Bin(_, a, b) | Node::Concat(a, b) => vec![*a, *b],
            Node::Ite(a, b, c) => vec![*a, *b, *c],
            Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => vec![*a],
            Node::App(_, v) => v.to_vec(),
        }
    }
    /// Evaluate under an assignment of symbols (missing = 0). None if it involves UFs or >128-bit values.
    pub fn eval(&self, e: EId, m: &HashMap<u32, u128>, memo: &mut HashMap<EId, u128>) -> Option<u128> {
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if memo.contains_key(&x) { continue; }
            if self.w(x) > 128 { return None; }
            let w = self.w(x);
            if !done {
                match &self.nodes[x as usize] {
                    Node::Const(c) => { memo.insert(x, *c); continue; }
                    Node::Sym(i) => { memo.insert(x, m.get(i).copied().unwrap_or(0)); continue; }
                    Node::App(..) => match m.get(&(x | 1 << 31)) { Some(v) => { memo.insert(x, *v); continue; } None => return None },
                    _ => {}
                }
                st.push((x, true));
                for c in self.children(x) { if !memo.contains_key(&c) { st.push((c, false)); } }
            } else {
                let v = match &self.nodes[x as usize] {
                    Node::Bin(op, a, b) => {
                        let aw = self.w(*a);
                        match fold(*op, memo[a], memo[b], aw) {
                            Some(v) => v,
                            None => match op { Op::UDiv => mask(aw), Op::URem | Op::SRem => memo[a], Op::SDiv => if sext(memo[a], aw) < 0 { 1 } else { mask(aw) }, _ => return None },
                        }
                    }
                    Node::Ite(c, a, b) => if memo[c] != 0 { memo[a] } else { memo[b] },
                    Node::Concat(a, b) => (memo[a] << self.w(*b)) | memo[b],
                    Node::Extract(a, lo) => (memo[a] >> lo) & mask(w),
                    Node::ZExt(a) => memo[a],
                    Node::SExt(a) => (sext(memo[a], self.w(*a)) as u128) & mask(w),
                    _ => return None,
                };
                memo.insert(x, v);
            }
        }
        memo.get(&e).copied()
    }

    /// Values of `e`, whose only symbol is the (at most 8-bit wide) symbol `sym`, for every value of that symbol.
    pub fn table(&self, e: EId, tabs: &mut HashMap<EId, Box<[u128; 256]>>) -> bool {
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if tabs.contains_key(&x) { continue; }
            let w = self.w(x);
            if w > 128 { return false; }
            if !done {
                match &self.nodes[x as usize] {
                    Node::Const(c) => { tabs.insert(x, Box::new([*c; 256])); continue; }
                    Node::Sym(_) => { let mut t = Box::new([0u128; 256]); for i in 0..256 { t[i] = i as u128 & mask(w); } tabs.insert(x, t); continue; }
                    Node::App(..) => return false,
                    _ => {}
                }
                st.push((x, true));
                for c in self.children(x) { if !tabs.contains_key(&c) { st.push((c, false)); } }
                continue;
            }
            let mut t = Box::new([0u128; 256]);
            match &self.nodes[x as usize] {
                Node::Bin(op, a, b) => {
                    let aw = self.w(*a);
                    let (p, q) = (&tabs[a], &tabs[b]);
                    for i in 0..256 {
                        t[i] = match fold(*op, p[i], q[i], aw) {
                            Some(v) => v,
                            None => match op { Op::UDiv => mask(aw), Op::URem | Op::SRem => p[i], Op::SDiv => if sext(p[i], aw) < 0 { 1 } else { mask(aw) }, _ => return false },
                        };
                    }
                }
                Node::Ite(c, a, b) => { let (k, p, q) = (&tabs[c], &tabs[a], &tabs[b]); for i in 0..256 { t[i] = if k[i] != 0 { p[i] } else { q[i] }; } }
                Node::Concat(a, b) => { let bw = self.w(*b); let (p, q) = (&tabs[a], &tabs[b]); for i in 0..256 { t[i] = (p[i] << bw) | q[i]; } }
                Node::Extract(a, lo) => { let p = &tabs[a]; for i in 0..256 { t[i] = (p[i] >> lo) & mask(w); } }
                Node::ZExt(a) => { t = tabs[a].clone(); }
                Node::SExt(a) => { let aw = self.w(*a); let p = &tabs[a]; for i in 0..256 { t[i] = (sext(p[i], aw) as u128) & mask(w); } }
                _ => return false,
            }
            tabs.insert(x, t);
        }
        true
    }

    /// `e` with the given symbols replaced by their values.
    pub fn replace(&mut self, e: EId, fixed: &HashMap<u32, u128>, memo: &mut HashMap<EId, EId>) -> EId {
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if memo.contains_key(&x) { continue; }
            if !done {
                if !self.support_o(x, true).iter().any(|k| fixed.contains_key(k)) { memo.insert(x, x); continue; }
                if let Node::Sym(i) = self.nodes[x as usize] { let w = self.w(x); let k = self.cst(fixed[&i], w); memo.insert(x, k); continue; }
                st.push((x, true));
                for c in self.children_o(x, true) { if !memo.contains_key(&c) { st.push((c, false)); } }
                continue;
            }
            let w = self.w(x);
            let r = match self.nodes[x as usize].clone() {
                Node::Bin(op, a, b) => self.bin(op, memo[&a], memo[&b]),
                Node::Ite(c, a, b) => match self.get_const(memo[&c]) { Some(0) => memo[&b], Some(_) => memo[&a], None => self.ite(memo[&c], memo[&a], memo[&b]) },
                Node::Concat(a, b) => self.concat(memo[&a], memo[&b]),
                Node::Extract(a, lo) => self.extract(memo[&a], lo, w),
                Node::ZExt(a) => self.zext(memo[&a], w),
                Node::SExt(a) => self.sext_e(memo[&a], w),
                _ => x,
            };
            memo.insert(x, r);
        }
        memo[&e]
    }
    /// Readable form, for debugging.
    #[allow(dead_code)]
    pub fn show(&self, e: EId, d: u32) -> String {
        if d == 0 { return "..".into(); }
        match &self.nodes[e as usize] {
            Node::Const(c) => format!("{}", c),
            Node::Sym(i) => format!("s{}:{}", i, self.w(e)),
            Node::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(*a, d - 1), self.show(*b, d - 1)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.show(*c, d - 1), self.show(*a, d - 1), self.show(*b, d - 1)),
            Node::Concat(a, b) => format!("{}++{}", self.show(*a, d - 1), self.show(*b, d - 1)),
            Node::Extract(a, lo) => format!("{}[{}+{}]", self.show(*a, d - 1), lo, self.w(e)),
            Node::ZExt(a) => format!("zx{}({})", self.w(e), self.show(*a, d - 1)),
            Node::SExt(a) => format!("sx{}({})", self.w(e), self.show(*a, d - 1)),
            Node::App(f, _) => format!("uf{}", f),
        }
    }
}
