//! Path-forking symbolic executor over the parsed LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::smt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val { C(u128), S(EId), A(Rc<Vec<Val>>), U }

pub const UNDEF: u32 = 256;
pub const SBASE: u32 = 1024;

#[derive(Clone)]
/// `lim`: the size of an allocation of symbolic size; `data` then holds the part touched so far
pub struct Obj { pub data: Vec<u32>, pub ro: bool, pub heap: bool, pub lim: Option<EId> }
/// address space set aside for an allocation of symbolic size
pub const LAZY: u64 = 1 << 32;

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub bb: u32, pub ip: usize, pub prev: u32, pub regs: Vec<Val>, pub dst: Option<u32>, pub cont: Option<u32>, pub allocas: Vec<u64>, pub summ: Option<Rc<Summ>>, pub forks: u32 }

/// A call whose effect is to be replaced, on return, by an uninterpreted function of its inputs.
pub struct Summ { pub ptr: u64, pub before: Vec<u32>, pub extra: Vec<u32> }

#[derive(Clone)]
pub struct Draw { pub label: String, pub bytes: Vec<u32> }

#[derive(Clone)]
pub struct Thread { pub frames: Vec<Frame>, pub wait: Option<u64>, pub done: bool, pub last: (usize, u32, usize) }

#[derive(Clone)]
pub struct State {
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    /// next free address of each thread's own part of the address space
    pub next: [u64; 8],
    pub pc: Vec<EId>,
    pub known: Rc<HashMap<EId, u128>>,
    /// symbols with a single possible value, and the values still possible for single bytes
    pub fixed: Rc<HashMap<u32, u128>>,
    pub dom: Rc<HashMap<u32, [bool; 256]>>,
    pub model: Rc<HashMap<u32, u128>>,
    pub model_ok: bool,
    pub draws: Vec<Draw>,
    pub ndraw: u32,
    pub covers: Rc<BTreeSet<String>>,
    pub steps: u64,
    pub clock: u64,
    pub side: u32,
    pub sched: Vec<u8>,
    pub switches: u32,
    pub tls_base: HashMap<(usize, u64), u64>,
    pub trace: Rc<Vec<String>>,
    pub apps: Rc<Vec<(u8, Vec<EId>, EId)>>,
    /// what was encrypted on this path: key, nonce, associated data, ciphertext, tag
    pub aead: Rc<Vec<Vec<Vec<EId>>>>,
}

pub enum Stop { Forked, Merge(usize), Ret(Val), End, Infeasible, Panic(String), Fail(String), Mem(String), Unsup(String) }
pub type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Violation { pub kind: String, pub what: String, pub stack: Vec<String>, pub draws: Vec<(String, Vec<u8>)>, pub sched: Vec<u8> }

pub struct Engine<'a> {
    pub m: Module<'a>,
    pub funcs: HashMap<Rc<str>, Rc<Func>>,
    pub ar: Arena,
    pub smt: Smt,
    pub gaddr: HashMap<Rc<str>, u64>,
    pub gaddr_rev: BTreeMap<u64, (Rc<str>, u64)>,
    pub gmem: HashMap<u64, Rc<Obj>>,
    pub faddr: HashMap<Rc<str>, u64>,
    pub faddr_rev: HashMap<u64, Rc<str>>,
    pub work: Vec<State>,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub covers: BTreeSet<String>,
    /// one input per cover, to be replayed on the compiled code
    pub witnesses: Vec<(Vec<String>, Vec<(String, Vec<u8>)>, Vec<u8>)>,
    pub used: BTreeMap<Rc<str>, u64>,
    pub stubs: BTreeSet<String>,
    pub symcache: HashMap<(String, u32), EId>,
    pub max_paths: u64,
    pub max_steps: u64,
    pub deadline: Instant,
    pub max_viol: usize,
    pub shard: (u64, u64),
    pub max_switches: u32,
    pub verbose: bool,
    pub params: HashMap<String, u64>,
    pub sites: HashMap<Rc<str>, u8>,
    pub summaries: HashMap<(Vec<u32>, Vec<u32>), Vec<(usize, u32)>>,
    pub overrides: HashMap<Rc<str>, Rc<str>>,
    pub replaced: HashMap<(EId, Vec<(u32, u128)>), EId>,
    /// predicates whose forks are joined again on return (see `merge`): number of frames at which the
    /// exploration in progress ends, predicates worth joining, those that cannot be joined
    pub mbase: usize,
    pub eager: HashSet<Rc<str>>,
    pub nomerge: HashSet<Rc<str>>,
    pub merges: u64,
    /// threads that read and wrote an address by synchronising operations; addresses with a conflict
    pub acc: HashMap<u64, (u32, u32)>,
    pub contended: HashSet<u64>,
    pub grew: bool,
}

pub fn lo64(v: u128) -> u64 { v as u64 }

impl<'a> Engine<'a> {
    pub fn new(m: Module<'a>) -> Self {
        let mut e = Engine {
            m, funcs: HashMap::new(), ar: Arena::new(), smt: Smt::new(20_000), gaddr: HashMap::new(), gaddr_rev: BTreeMap::new(), gmem: HashMap::new(), faddr: HashMap::new(), faddr_rev: HashMap::new(),
            work: vec![], violations: vec![], inconclusive: vec![], paths: 0, pruned: 0, forks: 0, steps: 0, asserts: 0, assert_queries: 0, covers: BTreeSet::new(), witnesses: vec![], used: BTreeMap::new(), stubs: BTreeSet::new(), symcache: HashMap::new(),
            max_paths: u64::MAX, max_steps: 400_000_000, deadline: Instant::now() + std::time::Duration::from_secs(600), max_viol: 3, shard: (0, 1), max_switches: 0, verbose: false, params: HashMap::new(), sites: HashMap::new(), summaries: HashMap::new(), overrides: HashMap::new(), replaced: HashMap::new(), mbase: 0, eager: HashSet::new(), nomerge: HashSet::new(), merges: 0, acc: HashMap::new(), contended: HashSet::new(), grew: false,
        };
        // function addresses
        let mut names: Vec<Rc<str>> = e.m.fsrc.keys().chain(e.m.declared.keys()).cloned().collect();
        names.sort();
        for (i, n) in names.iter().enumerate() {
            let a = 0x1000_0000 + 16 * i as u64;
            e.faddr.insert(n.clone(), a);
            e.faddr_rev.insert(a, n.clone());
        }
        let mut gn: Vec<Rc<str>> = e.m.globals.keys().cloned().collect();
        gn.sort();
        let mut at = 0x4000_0000u64;
        for n in gn {
            let (sz, al) = { let g = &e.m.globals[&n]; (e.size(&g.ty), g.align.max(e.align(&g.ty)).max(16)) };
            at = (at + al - 1) / al * al;
            e.gaddr.insert(n.clone(), at);
            e.gaddr_rev.insert(at, (n.clone(), sz));
            at += sz.max(1) + 32;
        }
        assert!(at < 0x1_0000_0000 * 4);
        e
    }
    // ---- types
    pub fn res(&self, t: &Ty) -> Ty { if let Ty::Named(n) = t { self.m.types.get(n).cloned().unwrap_or(Ty::Other) } else { t.clone() } }
    pub fn size(&self, t: &Ty) -> u64 {
        match t {
            Ty::Void => 0,
            Ty::Int(w) => { let b = ((w + 7) / 8) as u64; if b <= 1 { 1 } else if b <= 2 { 2 } else if b <= 4 { 4 } else if b <= 8 { 8 } else { (b + 15) / 16 * 16 } }
            Ty::Ptr => 8,
            Ty::Float(b) => (*b / 8) as u64,
            Ty::Arr(n, e) => n * self.size(e),
            Ty::Vec(n, e) => { let w = self.bits(e); let b = (n * w as u64 + 7) / 8; b.next_power_of_two() }
            Ty::Struct(v, packed) => {
                let mut o = 0;
                let mut ma = 1;
                for e in v.iter() { let a = if *packed { 1 } else { self.align(e) }; ma = ma.max(a); o = (o + a - 1) / a * a; o += self.size(e); }
                (o + ma - 1) / ma * ma
            }
            Ty::Named(_) => self.size(&self.res(t)),
            Ty::Other => 0,
        }
    }
    pub fn align(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(_) | Ty::Float(_) => self.size(t).min(16),
            Ty::Ptr => 8,
            Ty::Arr(_, e) => self.align(e),
            Ty::Vec(..) => self.size(t),
            Ty::Struct(v, p) => if *p { 1 } else { v.iter().map(|e| self.align(e)).max().unwrap_or(1) },
            Ty::Named(_) => self.align(&self.res(t)),
            _ => 1,
        }
    }
    fn field_off(&self, v: &[Ty], packed: bool, k: usize) -> u64 {
        let mut o = 0;
        for (i, e) in v.iter().enumerate() {
            let a = if packed { 1 } else { self.align(e) };
            o = (o + a - 1) / a * a;
            if i == k { return o; }
            o += self.size(e);
        }
        o
    }
    pub fn bits(&self, t: &Ty) -> u32 {
        match t { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(b) => *b, Ty::Vec(n, e) => *n as u32 * self.bits(e), _ => panic!("bits of {:?}", t) }
    }
    // ---- scalars
    pub fn e(&mut self, v: &Val, w: u32) -> EId {
        match v { Val::C(c) => self.ar.cst(*c, w), Val::S(e) => { debug_assert!(self.ar.w(*e) == w, "width {} vs {}", self.ar.w(*e), w); *e } Val::U => self.ar.cst(0, w), Val::A(_) => panic!("aggregate as scalar") }
    }
    pub fn v(&self, e: EId) -> Val { match self.ar.get_const(e) { Some(c) => Val::C(c), None => Val::S(e) } }
    pub fn bin(&mut self, op: Op, a: &Val, b: &Val, w: u32) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) { if let Some(r) = fold(op, *x, *y, w) { return Val::C(r); } }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ar.bin(op, x, y);
        self.v(r)
    }
    pub fn not(&mut self, a: &Val) -> Val { match a { Val::C(c) => Val::C(c ^ 1), _ => { let x = self.e(a, 1); let r = self.ar.not1(x); self.v(r) } } }
    pub fn trunc(&mut self, a: &Val, from: u32, to: u32) -> Val {
        match a { Val::C(c) => Val::C(c & mask(to)), Val::U => Val::U, Val::S(e) => { let _ = from; let r = self.ar.extract(*e, 0, to); self.v(r) } _ => panic!() }
    }
    pub fn zext(&mut self, a: &Val, to: u32) -> Val { match a { Val::C(c) => Val::C(*c), Val::U => Val::U, Val::S(e) => { let r = self.ar.zext(*e, to); self.v(r) } _ => panic!() } }
    pub fn ite(&mut self, c: EId, a: &Val, b: &Val, t: &Ty) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let t = self.res(t);
                let v = (0..x.len()).map(|i| { let et = match &t { Ty::Struct(v, _) => v[i].clone(), Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), _ => panic!() }; self.ite(c, &x[i], &y[i], &et) }).collect();
                Val::A(Rc::new(v))
            }
            (Val::U, Val::U) => Val::U,
            (Val::A(_), _) | (_, Val::A(_)) => panic!("ite agg/scalar"),
            _ => { let w = self.bits(t); let (x, y) = (self.e(a, w), self.e(b, w)); let r = self.ar.ite(c, x, y); self.v(r) }
        }
    }
    // ---- state helpers
    fn frame<'s>(st: &'s mut State) -> &'s mut Frame { let c = st.cur; st.threads[c].frames.last_mut().unwrap() }
    pub fn subst(&mut self, st: &State, v: Val) -> Val {
        if let Val::S(e) = v {
            if let Some(k) = st.known.get(&e) { return Val::C(*k); }
            if !st.fixed.is_empty() {
                let sup = self.ar.support_o(e, true);
                let key: Vec<(u32, u128)> = sup.iter().filter_map(|k| st.fixed.get(k).map(|v| (*k, *v))).collect();
                if !key.is_empty() {
                    let r = match self.replaced.get(&(e, key.clone())) {
                        Some(r) => *r,
                        None => { let r = self.ar.replace(e, &st.fixed, &mut HashMap::new()); self.replaced.insert((e, key), r); r }
                    };
                    return match self.ar.get_const(r) { Some(k) => Val::C(k), None => match st.known.get(&r) { Some(k) => Val::C(*k), None => Val::S(r) } };
                }
            }
        }
        v
    }
    fn learn(&mut self, st: &mut State, e: EId, v: u128) {
        // record e == v and consequences
        if self.ar.get_const(e).is_some() { return; }
        let k = Rc::make_mut(&mut st.known);
        if k.insert(e, v).is_some() { return; }
        let w = self.ar.w(e);
        match self.ar.nodes[e as usize].clone() {
            Node::Sym(i) => { Rc::make_mut(&mut st.fixed).insert(i, v); }
            Node::Concat(h, l) => { let lw = self.ar.w(l); if w <= 128 { self.learn(st, h, v >> lw); self.learn(st, l, v & mask(lw)); } }
            Node::ZExt(x) => self.learn(st, x, v),
            Node::SExt(x) => { let xw = self.ar.w(x); self.learn(st, x, v & mask(xw)); }
            Node::Bin(Op::Add, x, y) => if let Some(c) = self.ar.get_const(y) { self.learn(st, x, v.wrapping_sub(c) & mask(w)) },
            Node::Bin(Op::Eq, x, y) if v == 1 => { if let Some(c) = self.ar.get_const(y) { self.learn(st, x, c) } else if let Some(c) = st.known.get(&y).copied() { self.learn(st, x, c) } else if let Some(c) = st.known.get(&x).copied() { self.learn(st, y, c) } }
            Node::Bin(Op::And, x, y) if w == 1 && v == 1 => { self.learn(st, x, 1); self.learn(st, y, 1); }
            Node::Bin(Op::Or, x, y) if w == 1 && v == 0 => { self.learn(st, x, 0); self.learn(st, y, 0); }
            Node::Bin(Op::Xor, x, y) => if let Some(c) = self.ar.get_const(y) { self.learn(st, x, v ^ c) },
            _ => {}
        }
    }
    fn conjuncts(&mut self, c: EId) -> Option<[EId; 2]> {
        let (op, x, y) = match self.ar.nodes[c as usize] { Node::Bin(op, x, y) => (op, x, y), _ => return None };
        let or = |s: &Self, e: EId| match s.ar.nodes[e as usize] { Node::Bin(Op::Or, a, b) => Some((a, b)), _ => None };
        match op {
            Op::And if self.ar.w(x) == 1 => Some([x, y]),
            Op::Xor if self.ar.get_const(y) == Some(1) && self.ar.w(y) == 1 => { let (a, b) = or(self, x)?; Some([self.ar.not1(a), self.ar.not1(b)]) }
            Op::Slt if self.ar.get_const(x) == Some(mask(self.ar.w(x))) => { let (a, b) = or(self, y)?; Some([self.ar.bin(Op::Slt, x, a), self.ar.bin(Op::Slt, x, b)]) }
            Op::Eq if self.ar.get_const(y) == Some(0) => { let (a, b) = or(self, x)?; Some([self.ar.bin(Op::Eq, a, y), self.ar.bin(Op::Eq, b, y)]) }
            _ => None,
        }
    }
    pub fn assume(&mut self, st: &mut State, c: EId) {
        if self.ar.get_const(c).is_some() { return; }
        // a conjunction is recorded by its parts, so that unrelated inputs stay unrelated
        if let Some(parts) = self.conjuncts(c) {
            self.learn(st, c, 1);
            let n = self.ar.not1(c);
            Rc::make_mut(&mut st.known).insert(n, 0);
            for p in parts { self.assume(st, p); }
            return;
        }
        st.pc.push(c);
        self.learn(st, c, 1);
        let n = self.ar.not1(c);
        Rc::make_mut(&mut st.known).insert(n, 0);
        let sup = self.ar.support_o(c, true);
        if sup.len() == 1 && sup[0] >> 31 == 0 && !st.fixed.contains_key(&sup[0]) {
            let s = sup[0];
            if let Some(m) = self.smt.mask(&mut self.ar, c, s) {
                let d = Rc::make_mut(&mut st.dom).entry(s).or_insert([true; 256]);
                for i in 0..256 { d[i] &= m[i]; }
                let mut it = (0..256).filter(|&i| d[i]);
                if let (Some(v), None) = (it.next(), it.next()) { let e = self.ar.sym_eid[s as usize]; self.learn(st, e, v as u128); }
            }
        }
    }
    /// Add a fact that holds by construction of a model (an axiom), keeping the cached assignment honest.
    pub fn axiom(&mut self, st: &mut State, c: EId) -> R<()> {
        if self.ar.get_const(c).is_some() { return Ok(()); }
        if st.known.get(&c) == Some(&1) { return Ok(()); }
        let bad = self.eval_model(st, c) == Some(0);
        self.assume(st, c);
        if bad {
            match self.smt.check(&mut self.ar, &st.fixed, &st.pc, &[c], None, true) { Res::Sat(m, _) => Self::merge_model(st, m), Res::Unsat => return Err(Stop::Infeasible), Res::Unknown => return Err(Stop::Unsup("solver returned unknown".into())) }
        }
        Ok(())
    }
    fn merge_model(st: &mut State, m: HashMap<u32, u128>) { let mm = Rc::make_mut(&mut st.model); for (k, v) in m { mm.insert(k, v); } }
    /// Is `c` satisfiable together with the path condition? Does not change the state.
    pub fn sat(&mut self, st: &State, c: EId) -> R<Option<HashMap<u32, u128>>> {
        match self.smt.check(&mut self.ar, &st.fixed, &st.pc, &[c], None, true) {
            Res::Sat(m, _) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Unsup("solver returned unknown".into())),
        }
    }
    fn eval_model(&mut self, st: &State, e: EId) -> Option<u128> {
        if !st.model_ok { return None; }
        let mut memo = HashMap::new();
        self.ar.eval(e, &st.model, &mut memo)
    }
    /// Decide a symbolic branch. Returns the direction for the current state; may queue the other one
    /// (the queued clone re-executes the same instruction with the condition known).
    pub fn branch(&mut self, st: &mut State, c: EId) -> R<bool> {
        let n = self.ar.not1(c);
        match self.eval_model(st, c) {
            Some(v) => {
                let (here, other) = if v != 0 { (c, n) } else { (n, c) };
                if let Some(m) = self.sat(st, other)? {
                    self.merge_point(st)?;
                    let mut o = st.clone();
                    self.assume(&mut o, other);
                    Self::merge_model(&mut o, m);
                    self.forks += 1;
                    self.work.push(o);
                }
                self.assume(st, here);
                Ok(v != 0)
            }
            None => {
                let a = self.sat(st, c)?;
                let b = self.sat(st, n)?;
                match (a, b) {
                    (Some(m), Some(m2)) => {
                        self.merge_point(st)?;
                        let mut o = st.clone();
                        self.assume(&mut o, n);
                        Self::merge_model(&mut o, m2);
                        self.forks += 1;
                        self.work.push(o);
                        self.assume(st, c);
                        Self::merge_model(st, m);
                        Ok(true)
                    }
                    (Some(m), None) => { self.assume(st, c); Self::merge_model(st, m); Ok(true) }
                    (None, Some(m)) => { self.assume(st, n); Self::merge_model(st, m); Ok(false) }
                    (None, None) => Err(Stop::Infeasible),
                }
            }
        }
    }
    /// Make a value concrete by splitting the path over every feasible value.
    pub fn concrete(&mut self, st: &mut State, v: &Val, what: &str) -> R<u128> {
        let e = match v { Val::C(c) => return Ok(*c), Val::S(e) => *e, Val::U => return Err(Stop::Unsup(format!("undefined value used as {}", what))), _ => return Err(Stop::Unsup("aggregate".into())) };
        let w = self.ar.w(e);
        let mut cons = st.pc.clone();
        let mut vals = vec![];
        let cap = 70_000;
        let full = self.ar.support_o(e, true).iter().any(|k| k >> 31 == 1);
        loop {
            match self.smt.check(&mut self.ar, &st.fixed, &cons, &[], Some(e), !full) {
                Res::Sat(m, Some(v)) => {
                    let k = self.ar.cst(v, w);
                    let eq = self.ar.bin(Op::Eq, e, k);
                    let ne = self.ar.not1(eq);
                    vals.push((eq, v, m));
                    cons.push(ne);
                    if vals.len() > cap { return Err(Stop::Unsup(format!("more than {} values for {}", cap, what))); }
                    if self.verbose && vals.len() % 1000 == 0 { eprintln!("concretising {}: {} values", what, vals.len()); }
                }
                Res::Unsat => break,
                _ => return Err(Stop::Unsup("solver unknown".into())),
            }
        }
        if vals.is_empty() { return Err(Stop::Infeasible); }
        if vals.len() == 1 {
            let (eq, v, m) = vals.pop().unwrap();
            self.assume(st, eq);
            self.learn(st, e, v);
            Self::merge_model(st, m);
            return Ok(v);
        }
        vals.sort_by(|a, b| b.1.cmp(&a.1));
        for (eq, v, m) in vals {
            let mut o = st.clone();
            self.assume(&mut o, eq);
            self.learn(&mut o, e, v);
            Self::merge_model(&mut o, m);
            self.forks += 1;
            self.work.push(o);
        }
        Err(Stop::Forked)
    }
    // ---- memory
    pub fn alloc(&mut self, st: &mut State, size: u64, align: u64, init: u32, heap: bool) -> u64 {
        let al = align.max(16);
        let me = st.cur & 7;
        let a = (st.next[me] + al - 1) / al * al;
        st.next[me] = a + size + 64;
        st.mem.insert(a, Rc::new(Obj { data: vec![init; size as usize], ro: false, heap, lim: None }));
        a
    }
    pub fn alloc_lazy(&mut self, st: &mut State, size: EId, align: u64) -> u64 {
        let al = align.max(16);
        let me = st.cur & 7;
        let a = (st.next[me] + al - 1) / al * al;
        st.next[me] = a + LAZY + 64;
        st.mem.insert(a, Rc::new(Obj { data: vec![], ro: false, heap: true, lim: Some(size) }));
        a
    }
    fn gobj(&mut self, base: u64) -> Rc<Obj> {
        if let Some(o) = self.gmem.get(&base) { return o.clone(); }
        let name = self.gaddr_rev[&base].0.clone();
        let (ty, init, ro) = { let g = &self.m.globals[&name]; (g.ty.clone(), g.init.clone(), g.constant) };
        let mut data = vec![0u32; self.size(&ty) as usize];
        if let Some(c) = init { self.init(&mut data, 0, &ty, &c); }
        let o = Rc::new(Obj { data, ro, heap: false, lim: None });
        self.gmem.insert(base, o.clone());
        o
    }
    fn init(&mut self, d: &mut [u32], off: u64, ty: &Ty, c: &Cst) {
        let ty = self.res(ty);
        match c {
            Cst::Zero => {}
            Cst::Undef => { let n = self.size(&ty); for i in 0..n { d[(off + i) as usize] = UNDEF; } }
            Cst::Bytes(b) => for (i, x) in b.iter().enumerate() { d[off as usize + i] = *x as u32; },
            Cst::Agg(v) => {
                for (i, (t, k)) in v.iter().enumerate() {
                    let o = match &ty { Ty::Struct(f, p) => self.field_off(f, *p, i), Ty::Arr(_, e) | Ty::Vec(_, e) => i as u64 * self.size(e), _ => panic!("agg init") };
                    self.init(d, off + o, t, k);
                }
            }
            Cst::Splat(p) => { if let Ty::Vec(n, e) = &ty { let s = self.size(e); for i in 0..*n { self.init(d, off + i * s, &p.0, &p.1); } } }
            _ => {
                let v = self.cst_scalar(c);
                let n = self.size(&ty);
                for i in 0..n { d[(off + i) as usize] = if i < 16 { ((v >> (8 * i)) & 0xff) as u32 } else { 0 }; }
            }
        }
    }
    pub fn gptr(&mut self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) { return *a; }
        if let Some(a) = self.faddr.get(n) { return *a; }
        if let Some(t) = self.m.aliases.get(n).cloned() { return self.gptr(&t); }
        panic!("unknown global {}", n)
    }
    fn cst_scalar(&mut self, c: &Cst) -> u128 {
        match c {
            Cst::Int(v) => *v,
            Cst::Undef | Cst::Zero => 0,
            Cst::Global(n) => self.gptr(n) as u128,
            Cst::Gep(g) => {
                let base = self.cst_scalar(&g.1[0].1) as u64;
                let mut off = 0i64;
                let mut t = g.0.clone();
                for (k, (it, ic)) in g.1[1..].iter().enumerate() {
                    let w = self.bits(it);
                    let i = sext(self.cst_scalar(ic) & mask(w), w) as i64;
                    if k == 0 { off += i * self.size(&t) as i64; continue; }
                    let rt = self.res(&t);
                    match rt {
                        Ty::Struct(v, p) => { off += self.field_off(&v, p, i as usize) as i64; t = v[i as usize].clone(); }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => { off += i * self.size(&e) as i64; t = (*e).clone(); }
                        _ => panic!("gep const"),
                    }
                }
                base.wrapping_add(off as u64) as u128
            }
            Cst::Cast(p) => { let v = self.cst_scalar(&p.1); let w = self.bits(&p.2); v & mask(w) }
            Cst::BinC(p) => { let (a, b) = (self.cst_scalar(&p.1), self.cst_scalar(&p.2)); match p.0.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), _ => a ^ b } }
            _ => panic!("scalar const {:?}", c),
        }
    }
    pub fn cst_val(&mut self, c: &Cst, t: &Ty) -> Val {
        let t = self.res(t);
        match (&t, c) {
            (_, Cst::Undef) => match &t {
                Ty::Struct(v, _) => { let x = v.iter().map(|e| self.cst_val(c, e)).collect(); Val::A(Rc::new(x)) }
                Ty::Arr(n, e) | Ty::Vec(n, e) => { let k = self.cst_val(c, e); Val::A(Rc::new(vec![k; *n as usize])) }
                _ => Val::U,
            },
            (Ty::Struct(v, _), Cst::Zero) => { let x = v.iter().map(|e| self.cst_val(&Cst::Zero, e)).collect(); Val::A(Rc::new(x)) }
            (Ty::Arr(n, e), Cst::Zero) | (Ty::Vec(n, e), Cst::Zero) => { let k = self.cst_val(&Cst::Zero, e); Val::A(Rc::new(vec![k; *n as usize])) }
            (_, Cst::Agg(v)) => { let x = v.iter().map(|(t, k)| self.cst_val(k, t)).collect(); Val::A(Rc::new(x)) }
            (Ty::Arr(..), Cst::Bytes(b)) | (Ty::Vec(..), Cst::Bytes(b)) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128)).collect())),
            (Ty::Vec(n, _), Cst::Splat(p)) => { let k = self.cst_val(&p.1, &p.0); Val::A(Rc::new(vec![k; *n as usize])) }
            _ => { let w = self.bits(&t); Val::C(self.cst_scalar(c) & mask(w)) }
        }
    }
    pub fn find(&mut self, st: &State, addr: u64) -> Option<(u64, Rc<Obj>)> {
        if addr >= 0x10_0000_0000 {
            let (b, o) = st.mem.range(..=addr).next_back()?;
            if addr <= *b + if o.lim.is_some() { LAZY } else { o.data.len() as u64 } { return Some((*b, o.clone())); }
            return None;
        }
        if addr < 0x4000_0000 { return None; }
        let (b, (_, sz)) = self.gaddr_rev.range(..=addr).next_back()?;
        let (b, sz) = (*b, *sz);
        if addr > b + sz { return None; }
        if let Some(o) = st.mem.get(&b) { return Some((b, o.clone())); }
        Some((b, self.gobj(b)))
    }
    fn check_range(&mut self, st: &State, addr: u64, n: u64, what: &str) -> R<(u64, Rc<Obj>)> {
        match self.find(st, addr) {
            Some((b, o)) => {
                if let Some(size) = o.lim {
                    let end = self.ar.cst((addr + n - b) as u128, 64);
                    let short = self.ar.bin(Op::Ult, size, end);
                    if addr + n - b <= LAZY && self.sat(st, short)?.is_none() { return Ok((b, o)); }
                } else if addr + n <= b + o.data.len() as u64 { return Ok((b, o)); }
                Err(Stop::Mem(format!("{} of {} bytes at {:#x} outside any live object", what, n, addr)))
            }
            _ => Err(Stop::Mem(format!("{} of {} bytes at {:#x} outside any live object", what, n, addr))),
        }
    }
    pub fn read(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<u32>> {
        if n == 0 { return Ok(vec![]); }
        let (b, o) = self.check_range(st, addr, n, "read")?;
        let s = (addr - b) as usize;
        if s + n as usize > o.data.len() { return Ok((s..s + n as usize).map(|i| o.data.get(i).copied().unwrap_or(UNDEF)).collect()); }
        Ok(o.data[s..s + n as usize].to_vec())
    }
    pub fn write(&mut self, st: &mut State, addr: u64, bytes: &[u32]) -> R<()> {
        if bytes.is_empty() { return Ok(()); }
        let n = bytes.len() as u64;
        let (b, o) = self.check_range(st, addr, n, "write")?;
        if o.ro { return Err(Stop::Mem(format!("write to constant at {:#x}", addr))); }
        drop(o);
        if !st.mem.contains_key(&b) { let o = self.gobj(b); st.mem.insert(b, o); }
        let o = Rc::make_mut(st.mem.get_mut(&b).unwrap());
        let s = (addr - b) as usize;
        if s + n as usize > o.data.len() { o.data.resize(s + n as usize, UNDEF); }
        o.data[s..s + n as usize].copy_from_slice(bytes);
        Ok(())
    }
    pub fn byte_val(&mut self, st: &State, b: u32) -> Val { if b < 256 { Val::C(b as u128) } else if b == UNDEF { Val::U } else { self.subst(st, Val::S(b - SBASE)) } }
    pub fn val_byte(&mut self, v: &Val) -> u32 { match v { Val::C(c) => (*c & 0xff) as u32, Val::U => UNDEF, Val::S(e) => e + SBASE, _ => panic!() } }
    /// bytes (little endian) -> scalar of 8*n bits
    pub fn join(&mut self, st: &State, b: &[u32]) -> Val {
        if b.len() <= 16 && b.iter().all(|x| *x < 256) {
            let mut r = 0u128;
            for (i, x) in b.iter().enumerate() { r |= (*x as u128) << (8 * i); }
            return Val::C(r);
        }
        if b.iter().all(|x| *x == UNDEF) { return Val::U; }
        let mut acc: Option<EId> = None;
        for x in b.iter() {
            let v = self.byte_val(st, *x);
            let e = self.e(&v, 8);
            acc = Some(match acc { None => e, Some(a) => self.ar.concat(e, a) });
        }
        let r = acc.unwrap();
        let v = self.v(r);
        self.subst(st, v)
    }
    pub fn split(&mut self, v: &Val, n: u64) -> Vec<u32> {
        match v {
            Val::C(c) => (0..n).map(|i| if i < 16 { ((c >> (8 * i)) & 0xff) as u32 } else { 0 }).collect(),
            Val::U => vec![UNDEF; n as usize],
            Val::S(e) => { let w = self.ar.w(*e); let mut e2 = *e; if (w as u64) < 8 * n { e2 = self.ar.zext(*e, 8 * n as u32); } (0..n).map(|i| { let x = self.ar.extract(e2, 8 * i as u32, 8); let v = self.v(x); self.val_byte(&v) }).collect() }
            _ => panic!(),
        }
    }
    pub fn load(&mut self, st: &State, t: &Ty, addr: u64) -> R<Val> {
        let t = self.res(t);
        match &t {
            Ty::Int(w) => {
                let n = ((w + 7) / 8) as u64;
                let b = self.read(st, addr, n)?;
                let v = self.join(st, &b);
                let bits = 8 * n as u32;
                Ok(if *w < bits { self.trunc(&v, bits, *w) } else { v })
            }
            Ty::Ptr => { let b = self.read(st, addr, 8)?; Ok(self.join(st, &b)) }
            Ty::Float(f) => { let b = self.read(st, addr, (*f / 8) as u64)?; Ok(self.join(st, &b)) }
            Ty::Struct(v, p) => { let mut r = vec![]; for (i, e) in v.iter().enumerate() { let o = self.field_off(v, *p, i); r.push(self.load(st, e, addr + o)?); } Ok(Val::A(Rc::new(r))) }
            Ty::Arr(n, e) => { let s = self.size(e); let mut r = vec![]; for i in 0..*n { r.push(self.load(st, e, addr + i * s)?); } Ok(Val::A(Rc::new(r))) }
            Ty::Vec(n, e) => {
                if self.bits(e) % 8 == 0 { let s = self.bits(e) as u64 / 8; let mut r = vec![]; for i in 0..*n { r.push(self.load(st, e, addr + i * s)?); } Ok(Val::A(Rc::new(r))) }
                else { Err(Stop::Unsup("load of sub-byte vector".into())) }
            }
            _ => Err(Stop::Unsup(format!("load {:?}", t))),
        }
    }
    pub fn store(&mut self, st: &mut State, t: &Ty, addr: u64, v: &Val) -> R<()> {
        let t = self.res(t);
        match &t {
            Ty::Int(w) => { let n = ((w + 7) / 8) as u64; let b = self.split(v, n); self.write(st, addr, &b) }
            Ty::Ptr => { let b = self.split(v, 8); self.write(st, addr, &b) }
            Ty::Float(f) => { let b = self.split(v, (*f / 8) as u64); self.write(st, addr, &b) }
            Ty::Struct(f, p) => { if let Val::A(x) = v { for i in 0..x.len() { let o = self.field_off(f, *p, i); self.store(st, &f[i], addr + o, &x[i])?; } } Ok(()) }
            Ty::Arr(_, e) => { let s = self.size(e); if let Val::A(x) = v { for i in 0..x.len() { self.store(st, e, addr + i as u64 * s, &x[i])?; } } Ok(()) }
            Ty::Vec(_, e) => {
                if self.bits(e) % 8 != 0 { return Err(Stop::Unsup("store of sub-byte vector".into())); }
                let s = self.bits(e) as u64 / 8;
                if let Val::A(x) = v { for i in 0..x.len() { self.store(st, e, addr + i as u64 * s, &x[i])?; } }
                Ok(())
            }
            _ => Err(Stop::Unsup(format!("store {:?}", t))),
        }
    }
    /// Load through a possibly symbolic address.
    fn load_at(&mut self, st: &mut State, t: &Ty, p: &Val) -> R<Val> {
        let e = match p { Val::C(a) => return self.load(st, t, lo64(*a)), Val::S(e) => *e, _ => return Err(Stop::Unsup("undefined address".into())) };
        let scalar = matches!(self.res(t), Ty::Int(_) | Ty::Ptr);
        if scalar {
            let v0 = match self.smt.check(&mut self.ar, &st.fixed, &st.pc, &[], Some(e), true) { Res::Sat(_, Some(v)) => lo64(v), Res::Unsat => return Err(Stop::Infeasible), _ => return Err(Stop::Unsup("solver unknown".into())) };
            if let Some((b, o)) = self.find(st, v0) {
                let n = self.size(t);
                let sz = o.data.len() as u64;
                // a lookup table becomes a selection; in a buffer with symbolic contents the position is split instead
                let table = o.ro || !o.heap || o.data.iter().all(|b| *b < 256 || *b == UNDEF);
                if sz >= n && sz <= 2048 && table {
                    // inside [b, b+sz-n] for every value?
                    let cb = self.ar.cst(b as u128, 64);
                    let off = self.ar.bin(Op::Sub, e, cb);
                    let lim = self.ar.cst((sz - n) as u128, 64);
                    let inside = self.ar.bin(Op::Ule, off, lim);
                    let outside = self.ar.not1(inside);
                    if self.sat(st, outside)?.is_none() {
                        // stride
                        let mut stride = 1u64;
                        for s in [16u64, 8, 4, 2] { if n <= s && (v0 - b) % s < s { let low = self.ar.extract(off, 0, s.trailing_zeros()); let k = self.ar.cst(((v0 - b) % s) as u128, s.trailing_zeros()); let eq = self.ar.bin(Op::Eq, low, k); let ne = self.ar.not1(eq); if self.sat(st, ne)?.is_none() { stride = s; break; } } }
                        let start = (v0 - b) % stride;
                        let mut acc: Option<Val> = None;
                        let mut o = start;
                        while o + n <= sz {
                            let v = self.load(st, t, b + o)?;
                            acc = Some(match acc { None => v, Some(a) => { let k = self.ar.cst((b + o) as u128, 64); let c = self.ar.bin(Op::Eq, e, k); self.ite(c, &v, &a, t) } });
                            o += stride;
                        }
                        return Ok(acc.unwrap());
                    }
                }
            }
        }
        let a = self.concrete(st, p, "load address")?;
        self.load(st, t, lo64(a))
    }
    // ---- operands
    pub fn opd(&mut self, st: &State, o: &Opd, t: &Ty) -> Val {
        match o {
            Opd::Reg(r) => { let v = st.threads[st.cur].frames.last().unwrap().regs[*r as usize].clone(); self.subst(st, v) }
            Opd::C(c) => self.cst_val(c, t),
        }
    }
    fn set(&mut self, st: &mut State, d: u32, v: Val) { Self::frame(st).regs[d as usize] = v; }
    pub fn flat(&mut self, v: &Val, t: &Ty) -> Val {
        match v {
            Val::A(x) => {
                let et = if let Ty::Vec(_, e) = self.res(t) { (*e).clone() } else { panic!("flat") };
                let w = self.bits(&et);
                if x.iter().all(|k| matches!(k, Val::U)) { return Val::U; }
                let mut acc: Option<EId> = None;
                for k in x.iter() { let e = self.e(k, w); acc = Some(match acc { None => e, Some(a) => self.ar.concat(e, a) }); }
                self.v(acc.unwrap())
            }
            _ => v.clone(),
        }
    }
    pub fn unflat(&mut self, v: &Val, t: &Ty) -> Val {
        if let Ty::Vec(n, e) = self.res(t) {
            let w = self.bits(&e);
            let r = (0..n).map(|i| match v { Val::U => Val::U, Val::C(c) => Val::C((c >> (i as u32 * w)) & mask(w)), Val::S(x) => { let k = self.ar.extract(*x, i as u32 * w, w); self.v(k) } _ => panic!() }).collect();
            Val::A(Rc::new(r))
        } else { v.clone() }
    }
    pub fn stack(&self, st: &State) -> Vec<String> { st.threads[st.cur].frames.iter().rev().take(14).map(|f| f.f.name.to_string()).collect() }
    /// Confirm with the complete path condition, then record. Returns false when the path is infeasible after all.
    fn record(&mut self, st: &State, kind: &str, what: String, extra: Option<EId>) -> bool {
        let all: Vec<EId> = st.pc.iter().copied().chain(extra).collect();
        let mut model: HashMap<u32, u128> = (*st.model).clone();
        match self.smt.check(&mut self.ar, &HashMap::new(), &[], &all, None, false) {
            Res::Sat(m, _) => for (k, v) in m { model.insert(k, v); },
            Res::Unsat => { self.pruned += 1; return false; }
            Res::Unknown => { self.inconclusive.push(format!("solver unknown while confirming: {}", what)); return false; }
        }
        let draws = self.draws_of(st, &model);
        self.violations.push(Violation { kind: kind.into(), what, stack: self.stack(st), draws, sched: st.sched.clone() });
        true
    }
    fn draws_of(&self, st: &State, model: &HashMap<u32, u128>) -> Vec<(String, Vec<u8>)> {
        st.draws.iter().map(|d| {
            let b = d.bytes.iter().map(|b| if *b < 256 { *b as u8 } else if *b == UNDEF { 0 } else {
                let mut memo = HashMap::new();
                self.ar.eval(*b - SBASE, model, &mut memo).unwrap_or(0) as u8
            }).collect();
            (d.label.clone(), b)
        }).collect()
    }
    pub fn fail(&mut self, st: &State, what: &str, cond: Option<EId>) -> bool { self.record(st, "assert", what.to_string(), cond) }
    pub fn func(&mut self, n: &str) -> Rc<Func> {
        if let Some(f) = self.funcs.get(n) { return f.clone(); }
        let f = Rc::new(self.m.parse_func(n));
        self.funcs.insert(n.into(), f.clone());
        f
    }
    pub fn push_frame(&mut self, st: &mut State, tid: usize, name: &str, args: Vec<Val>, dst: Option<u32>, cont: Option<u32>) -> R<()> {
        let f = self.func(name);
        *self.used.entry(f.name.clone()).or_insert(0) += 1;
        let mut regs = vec![Val::U; f.nregs];
        for (i, (_, r)) in f.params.iter().enumerate() { if i < args.len() { regs[*r as usize] = args[i].clone(); } }
        if st.threads[tid].frames.len() > 2000 { return Err(Stop::Mem("stack overflow (recursion deeper than 2000 frames)".into())); }
        st.threads[tid].frames.push(Frame { f, bb: 0, ip: 0, prev: u32::MAX, regs, dst, cont, allocas: vec![], summ: None, forks: 0 });
        Ok(())
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let mut st = State { threads: vec![Thread { frames: vec![], wait: None, done: false, last: (0, 0, 0) }], cur: 0, mem: BTreeMap::new(), next: [0, 1, 2, 3, 4, 5, 6, 7].map(|t| 0x10_0000_1000 + (t << 42)), pc: vec![], known: Rc::new(HashMap::new()), fixed: Rc::new(HashMap::new()), dom: Rc::new(HashMap::new()), model: Rc::new(HashMap::new()), model_ok: true, draws: vec![], ndraw: 0, covers: Rc::new(BTreeSet::new()), steps: 0, clock: 0, side: 0, sched: vec![], switches: 0, tls_base: HashMap::new(), trace: Rc::new(vec![]), apps: Rc::new(vec![]), aead: Rc::new(vec![]) };
        let _ = self.push_frame(&mut st, 0, entry, vec![], None, None);
        st
    }
    /// Threads are switched only at synchronising operations on addresses that another thread uses too; which these
    /// are is found out while exploring, so the exploration is repeated until no new one turns up.
    pub fn run(&mut self, entry: &str) {
        loop {
            self.grew = false;
            self.explore(entry);
            if !self.grew || !self.violations.is_empty() || Instant::now() > self.deadline { break; }
            self.inconclusive.clear();
            self.work.clear();
            self.paths = 0;
            self.pruned = 0;
        }
    }
    fn explore(&mut self, entry: &str) {
        let st = self.initial(entry);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.grew && self.paths < 2000 { return; }
            if self.paths + self.pruned > self.max_paths { self.inconclusive.push("path limit".into()); break; }
            let r = loop {
                if self.steps & 0xfff == 0 && Instant::now() > self.deadline { break Stop::Unsup("time limit".into()); }
                if st.steps > self.max_steps { break Stop::Unsup("step limit on one path".into()); }
                if let Err(s) = self.step_or_merge(&mut st) { break s; }
            };
            match r {
                Stop::Forked => {}
                Stop::Merge(_) | Stop::Ret(_) => unreachable!(),
                Stop::End => { self.paths += 1; if st.covers.iter().any(|c| !self.covers.contains(c)) {
                    // a cover counts only when the complete path condition is satisfiable
                    match self.smt.check(&mut self.ar, &HashMap::new(), &[], &st.pc.clone(), None, false) { Res::Sat(m, _) => {
                            let mut model: HashMap<u32, u128> = (*st.model).clone();
                            for (k, v) in m { model.insert(k, v); }
                            let d = self.draws_of(&st, &model);
                            self.witnesses.push((st.covers.iter().cloned().collect(), d, st.sched.clone()));
                            for c in st.covers.iter() { self.covers.insert(c.clone()); }
                        }
                        _ => {}
                    }
                } }
                Stop::Infeasible => self.pruned += 1,
                Stop::Panic(w) => { self.paths += 1; let _ = self.record(&st, "panic", w, None); }
                Stop::Mem(w) => { self.paths += 1; let _ = self.record(&st, "memory", w, None); }
                Stop::Fail(w) => { self.paths += 1; let _ = self.record(&st, "assert", w, None); }
                Stop::Unsup(w) => {
                    let s = self.stack(&st);
                    self.inconclusive.push(format!("{} in {:?}", w, s.iter().take(6).collect::<Vec<_>>()));
                    if self.inconclusive.len() >= 20 || Instant::now() > self.deadline { break; }
                }
            }
            if self.violations.len() >= self.max_viol { break; }
        }
    }
    /// A fork inside a predicate (a function returning a bool) that forks repeatedly: explore the predicate's
    /// paths to their return first and continue as one path with the predicate's value as a formula.
    fn merge_point(&mut self, st: &mut State) -> R<()> {
        if st.threads.len() != 1 { return Ok(()); }
        let n = st.threads[0].frames.len();
        for k in (self.mbase.max(1)..n).rev() {
            let f = &mut st.threads[0].frames[k];
            if f.summ.is_some() { return Ok(()); }
            if !matches!(f.f.rty, Ty::Int(1)) { continue; }
            if self.nomerge.contains(&f.f.name) { continue; }
            f.forks += 1;
            if f.forks > 3 && !self.eager.contains(&f.f.name) { let n = f.f.name.clone(); self.eager.insert(n); }
            if self.eager.contains(&f.f.name) { return Err(Stop::Merge(k)); }
            return Ok(());
        }
        Ok(())
    }
    fn step_or_merge(&mut self, st: &mut State) -> R<()> {
        match self.step(st) {
            Err(Stop::Merge(k)) => match self.merge(st, k) {
                Some((o, v)) => { *st = o; self.merges += 1; self.do_return(st, Some(v)) }
                None => { let n = st.threads[0].frames[k].f.name.clone(); self.nomerge.insert(n); Ok(()) }
            },
            r => r,
        }
    }
    /// All paths of frame `k` up to its return, joined into one state when they differ in the returned bool only.
    fn merge(&mut self, st0: &State, k: usize) -> Option<(State, Val)> {
        let work = std::mem::take(&mut self.work);
        let base = std::mem::replace(&mut self.mbase, k + 1);
        let mut out: Vec<(State, Val)> = vec![];
        let mut ok = true;
        self.work.push(st0.clone());
        while let Some(mut st) = self.work.pop() {
            let r = loop {
                if self.steps & 0xfff == 0 && Instant::now() > self.deadline { break Stop::Unsup("time limit".into()); }
                if st.steps > self.max_steps { break Stop::Unsup("step limit on one path".into()); }
                if let Err(s) = self.step_or_merge(&mut st) { break s; }
            };
            match r { Stop::Forked => {} Stop::Ret(v) => out.push((st, v)), _ => { ok = false; break; } }
            if out.len() + self.work.len() > 300 { ok = false; break; }
        }
        self.work = work;
        self.mbase = base;
        if !ok || out.is_empty() { return None; }
        for (st, _) in out.iter_mut() {
            let f = st.threads.first_mut()?.frames.get_mut(k)?;
            let al = std::mem::take(&mut f.allocas);
            for a in al { st.mem.remove(&a); }
        }
        let n0 = st0.pc.len();
        let first = out[0].0.mem.clone();
        for (st, v) in &out {
            let same = st.threads.len() == 1 && st.threads[0].frames.len() == k + 1 && st.pc.len() >= n0 && st.pc[..n0] == st0.pc[..]
                && st.ndraw == st0.ndraw && st.draws.len() == st0.draws.len() && st.covers == st0.covers && st.clock == st0.clock && st.side == st0.side && st.sched == st0.sched && st.switches == st0.switches
                && st.tls_base == st0.tls_base && st.trace == st0.trace && Rc::ptr_eq(&st.apps, &st0.apps) && Rc::ptr_eq(&st.aead, &st0.aead) && st.model_ok == st0.model_ok
                && matches!(v, Val::C(_) | Val::S(_))
                && st.mem.len() == first.len()
                && st.mem.iter().zip(first.iter()).all(|((a, x), (b, y))| a == b && (Rc::ptr_eq(x, y) || x.data == y.data && x.ro == y.ro && x.heap == y.heap && x.lim == y.lim));
            if !same { return None; }
        }
        let mut sets = [vec![], vec![]];
        for (st, v) in &out {
            let mut c = self.ar.cst(1, 1);
            for p in &st.pc[n0..] { c = self.ar.bin(Op::And, c, *p); }
            match v {
                Val::C(b) => sets[*b as usize & 1].push(c),
                Val::S(e) => { let t = self.ar.bin(Op::And, c, *e); sets[1].push(t); let n = self.ar.not1(*e); let f = self.ar.bin(Op::And, c, n); sets[0].push(f); }
                _ => return None,
            }
        }
        let pick = if sets[0].is_empty() { return self.joined(st0, out, Val::C(1)); } else if sets[1].is_empty() { return self.joined(st0, out, Val::C(0)); } else if sets[1].len() <= sets[0].len() { 1 } else { 0 };
        let mut acc = self.ar.cst(0, 1);
        for c in &sets[pick] { acc = self.ar.bin(Op::Or, acc, *c); }
        if pick == 0 { acc = self.ar.not1(acc); }
        let v = self.v(acc);
        self.joined(st0, out, v)
    }
    fn joined(&mut self, st0: &State, out: Vec<(State, Val)>, v: Val) -> Option<(State, Val)> {
        let next = out.iter().map(|o| o.0.next[0]).max().unwrap();
        let steps = out.iter().map(|o| o.0.steps).max().unwrap();
        let mut st = out.into_iter().next().unwrap().0;
        st.pc = st0.pc.clone();
        st.known = st0.known.clone();
        st.fixed = st0.fixed.clone();
        st.dom = st0.dom.clone();
        st.model = st0.model.clone();
        st.next[0] = next;
        st.steps = steps;
        Some((st, v))
    }
    fn jump(&mut self, st: &mut State, t: u32) {
        let f = Self::frame(st);
        f.prev = f.bb;
        f.bb = t;
        f.ip = 0;
        // phis evaluated in parallel
        let func = f.f.clone();
        let prev = f.prev;
        let mut vals = vec![];
        for i in func.blocks[t as usize].iter() {
            if let Inst::Phi { dst, ty, inc } = i {
                let (o, _) = inc.iter().find(|(_, b)| *b == prev).expect("phi");
                let v = self.opd(st, o, ty);
                vals.push((*dst, v));
            } else { break; }
        }
        let n = vals.len();
        let f = Self::frame(st);
        for (d, v) in vals { f.regs[d as usize] = v; }
        f.ip = n;
    }
    pub fn do_return(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let tid = st.cur;
        if self.mbase != 0 && tid == 0 && st.threads[0].frames.len() == self.mbase { return Err(Stop::Ret(v.unwrap_or(Val::U))); }
        let fr = st.threads[tid].frames.pop().unwrap();
        for a in &fr.allocas { st.mem.remove(a); }
        if let Some(sm) = &fr.summ { self.finish_summary(st, sm)?; }
        if st.threads[tid].frames.is_empty() {
            if tid == 0 { return Err(Stop::End); }
            st.threads[tid].done = true;
            return self.reschedule(st);
        }
        if let (Some(d), Some(v)) = (fr.dst, v) { self.set(st, d, v); }
        match fr.cont { Some(c) => self.jump(st, c), None => { Self::frame(st).ip += 1; } }
        Ok(())
    }
    pub fn reschedule(&mut self, st: &mut State) -> R<()> {
        // current thread cannot continue: pick among runnable ones (fork)
        let run: Vec<usize> = (0..st.threads.len()).filter(|&i| !st.threads[i].done && st.threads[i].wait.is_none()).collect();
        if run.is_empty() { return Err(Stop::Fail("deadlock: no thread can run".into())); }
        for &t in run.iter().skip(1) { let mut o = st.clone(); o.cur = t; o.sched.push(t as u8); self.forks += 1; self.work.push(o); }
        st.cur = run[0];
        st.sched.push(run[0] as u8);
        Ok(())
    }
    fn sync(&mut self, st: &mut State, ad: u64, write: bool) {
        let me = st.cur;
        if st.threads.len() < 2 || (0..st.threads.len()).all(|t| t == me || st.threads[t].done) { return; }
        let e = self.acc.entry(ad).or_insert((0, 0));
        if write { e.1 |= 1 << me } else { e.0 |= 1 << me }
        let (r, w) = *e;
        if (0..st.threads.len()).any(|t| w >> t & 1 == 1 && (r | w) & !(1 << t) != 0) && self.contended.insert(ad) { self.grew = true; }
        if !self.contended.contains(&ad) { return; }
        // a load repeated in a waiting loop gives no new place to switch
        let f = st.threads[me].frames.last().unwrap();
        let here = (Rc::as_ptr(&f.f) as usize, f.bb, f.ip);
        if !write && st.threads[me].last == here { return; }
        st.threads[me].last = here;
        self.preempt(st);
    }
    /// Possible preemption before a synchronising operation.
    pub fn preempt(&mut self, st: &mut State) {
        if st.threads.len() < 2 || st.switches >= self.max_switches { return; }
        let cur = st.cur;
        for t in 0..st.threads.len() {
            if t != cur && !st.threads[t].done && st.threads[t].wait.is_none() {
                let mut o = st.clone();
                o.switches += 1;
                o.cur = t;
                o.sched.push(t as u8);
                self.forks += 1;
                self.work.push(o);
            }
        }
    }
    fn scalar_bin(&mut self, st: &mut State, op: &str, a: &Val, b: &Val, w: u32) -> R<Val> {
        if let (Val::U, _) | (_, Val::U) = (a, b) { if matches!(op, "add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr") && matches!((a, b), (Val::U, Val::U)) { return Ok(Val::U); } }
        let o = match op {
            "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem,
            "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr,
            "fadd" if w == 32 || w == 64 => Op::FAdd, "fsub" if w == 32 || w == 64 => Op::FSub, "fmul" if w == 32 || w == 64 => Op::FMul, "fdiv" if w == 32 || w == 64 => Op::FDiv,
            _ => return Err(Stop::Unsup(format!("float op {}", op))),
        };
        if matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
            match b {
                Val::C(0) => return Err(Stop::Mem("division by zero (undefined behaviour)".into())),
                Val::S(e) => { let z = self.ar.cst(0, w); let c = self.ar.bin(Op::Eq, *e, z); if self.sat(st, c)?.is_some() { return Err(Stop::Mem("division by possibly zero (undefined behaviour)".into())); } }
                _ => {}
            }
        }
        Ok(self.bin(o, a, b, w))
    }
    pub fn icmp(&mut self, pred: &str, a: &Val, b: &Val, w: u32) -> Val {
        match pred {
            "eq" => self.bin(Op::Eq, a, b, w),
            "ne" => { let r = self.bin(Op::Eq, a, b, w); self.not(&r) }
            "ult" => self.bin(Op::Ult, a, b, w), "ule" => self.bin(Op::Ule, a, b, w), "ugt" => self.bin(Op::Ult, b, a, w), "uge" => self.bin(Op::Ule, b, a, w),
            "slt" => self.bin(Op::Slt, a, b, w), "sle" => self.bin(Op::Sle, a, b, w), "sgt" => self.bin(Op::Slt, b, a, w), _ => self.bin(Op::Sle, b, a, w),
        }
    }
    fn cast1(&mut self, op: &str, a: &Val, fw: u32, tw: u32) -> R<Val> {
        Ok(match op {
            "zext" => self.zext(a, tw),
            "sext" => match a { Val::C(c) => Val::C((sext(*c, fw) as u128) & mask(tw)), Val::U => Val::U, Val::S(e) => { let r = self.ar.sext_e(*e, tw); self.v(r) } _ => panic!() },
            "trunc" => self.trunc(a, fw, tw),
            "ptrtoint" | "inttoptr" | "ptrtoaddr" => if tw < fw { self.trunc(a, fw, tw) } else if tw > fw { self.zext(a, tw) } else { a.clone() },
            "fpext" if (fw, tw) == (32, 64) => self.bin(Op::FExt, a, a, fw),
            "fptrunc" if (fw, tw) == (64, 32) => self.bin(Op::FTrunc, a, a, fw),
            "uitofp" | "sitofp" | "fptoui" | "fptosi" => match a {
                Val::C(c) => {
                    let f = |b: u128| if fw == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) };
                    Val::C(match (op, tw) {
                        ("uitofp", 32) => (*c as f32).to_bits() as u128, ("uitofp", 64) => (*c as f64).to_bits() as u128,
                        ("sitofp", 32) => (sext(*c, fw) as f32).to_bits() as u128, ("sitofp", 64) => (sext(*c, fw) as f64).to_bits() as u128,
                        ("fptoui", _) if fw == 32 || fw == 64 => f(*c) as u128 & mask(tw),
                        ("fptosi", _) if fw == 32 || fw == 64 => f(*c) as i128 as u128 & mask(tw),
                        _ => return Err(Stop::Unsup(format!("cast {}", op))),
                    })
                }
                _ => return Err(Stop::Unsup(format!("cast {}", op))),
            },
            _ => return Err(Stop::Unsup(format!("cast {}", op))),
        })
    }
    fn elt(&self, t: &Ty) -> Option<Ty> { if let Ty::Vec(_, e) = self.res(t) { Some((*e).clone()) } else { None } }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.steps += 1;
        let (func, bb, ip) = { let f = st.threads[st.cur].frames.last().unwrap(); (f.f.clone(), f.bb as usize, f.ip) };
        let inst = &func.blocks[bb][ip];
        match inst {
            Inst::Phi { .. } => return Err(Stop::Unsup("phi in the middle".into())),
            Inst::Alloca { dst, ty, n, align } => {
                let nv = self.opd(st, n, &Ty::Int(64));
                let k = self.concrete(st, &nv, "alloca size")?;
                let sz = self.size(ty) * lo64(k);
                let a = self.alloc(st, sz, *align, UNDEF, false);
                let f = Self::frame(st);
                f.allocas.push(a);
                f.regs[*dst as usize] = Val::C(a as u128);
            }
            Inst::Load { dst, ty, p, atomic } => { let a = self.opd(st, p, &Ty::Ptr); if *atomic && st.threads.len() > 1 { let ad = lo64(self.concrete(st, &a, "atomic address")?); self.sync(st, ad, false); } let v = self.load_at(st, ty, &a)?; let v = self.subst(st, v); self.set(st, *dst, v); }
            Inst::Store { ty, v, p, atomic } => {
                let a = self.opd(st, p, &Ty::Ptr);
                let ad = lo64(self.concrete(st, &a, "store address")?);
                if *atomic { self.sync(st, ad, true); }
                let x = self.opd(st, v, ty);
                self.store(st, ty, ad, &x)?;
            }
            Inst::Gep { dst, ty, base, idx } => {
                let mut acc = self.opd(st, base, &Ty::Ptr);
                let mut t = ty.clone();
                for (k, (it, io)) in idx.iter().enumerate() {
                    let iv = self.opd(st, io, it);
                    let iw = self.bits(it);
                    let (scale, nt) = if k == 0 { (self.size(&t), t.clone()) } else {
                        match self.res(&t) {
                            Ty::Struct(v, p) => {
                                let i = if let Val::C(c) = iv { c as usize } else { return Err(Stop::Unsup("symbolic struct index".into())) };
                                let o = self.field_off(&v, p, i);
                                let c = Val::C(o as u128);
                                acc = self.bin(Op::Add, &acc, &c, 64);
                                t = v[i].clone();
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (self.size(&e), (*e).clone()),
                            _ => return Err(Stop::Unsup("gep".into())),
                        }
                    };
                    let i64v = if iw < 64 { self.cast1("sext", &iv, iw, 64)? } else { iv };
                    let sc = Val::C(scale as u128);
                    let o = self.bin(Op::Mul, &i64v, &sc, 64);
                    acc = self.bin(Op::Add, &acc, &o, 64);
                    t = nt;
                }
                self.set(st, *dst, acc);
            }
            Inst::Bin { dst, op, ty, a, b } => {
                let (x, y) = (self.opd(st, a, ty), self.opd(st, b, ty));
                let r = if let Some(et) = self.elt(ty) {
                    let w = self.bits(&et);
                    if let (Val::A(p), Val::A(q)) = (&x, &y) { let mut r = vec![]; for i in 0..p.len() { r.push(self.scalar_bin(st, op, &p[i], &q[i], w)?); } Val::A(Rc::new(r)) } else { return Err(Stop::Unsup("vec op".into())) }
                } else { let w = self.bits(ty); self.scalar_bin(st, op, &x, &y, w)? };
                self.set(st, *dst, r);
            }
            Inst::Icmp { dst, pred, ty, a, b } => {
                let (x, y) = (self.opd(st, a, ty), self.opd(st, b, ty));
                let r = if let Some(et) = self.elt(ty) {
                    let w = self.bits(&et);
                    if let (Val::A(p), Val::A(q)) = (&x, &y) { let r = (0..p.len()).map(|i| self.icmp(pred, &p[i], &q[i], w)).collect(); Val::A(Rc::new(r)) } else { return Err(Stop::Unsup("vec icmp".into())) }
                } else {
                    let w = self.bits(ty);
                    // (guarded code may compare a value that is not there: any result will do)
                    if matches!((&x, &y), (Val::U, _) | (_, Val::U)) { let e = self.ar.fresh("undefined".into(), 1); self.v(e) } else { self.icmp(pred, &x, &y, w) }
                };
                let r = self.subst(st, r);
                self.set(st, *dst, r);
            }
            Inst::Fcmp { dst, pred, ty, a, b } => {
                let (x, y) = (self.opd(st, a, ty), self.opd(st, b, ty));
                let w = self.bits(ty);
                let r = self.fcmp(pred, &x, &y, w)?;
                self.set(st, *dst, r);
            }
            Inst::Cast { dst, op, from, a, to } => {
                let x = self.opd(st, a, from);
                let r = if *op == "bitcast" { let f = self.flat(&x, from); self.unflat(&f, to) }
                else if let (Some(fe), Some(te)) = (self.elt(from), self.elt(to)) {
                    let (fw, tw) = (self.bits(&fe), self.bits(&te));
                    if let Val::A(p) = &x { let mut r = vec![]; for k in p.iter() { r.push(self.cast1(op, k, fw, tw)?); } Val::A(Rc::new(r)) } else { return Err(Stop::Unsup("vec cast".into())) }
                } else { let (fw, tw) = (self.bits(from), self.bits(to)); self.cast1(op, &x, fw, tw)? };
                self.set(st, *dst, r);
            }
            Inst::Select { dst, cty, c, ty, a, b } => {
                let cv = self.opd(st, c, cty);
                let (x, y) = (self.opd(st, a, ty), self.opd(st, b, ty));
                let r = match &cv {
                    Val::C(k) => if *k != 0 { x } else { y },
                    Val::S(e) => if matches!((&x, &y), (Val::U, Val::A(_)) | (Val::A(_), Val::U)) { return Err(Stop::Unsup("select".into())) } else { self.ite(*e, &x, &y, ty) },
                    Val::A(cs) => {
                        let et = self.elt(ty).unwrap();
                        if let (Val::A(p), Val::A(q)) = (&x, &y) {
                            let r = (0..p.len()).map(|i| match &cs[i] { Val::C(k) => if *k != 0 { p[i].clone() } else { q[i].clone() }, Val::S(e) => self.ite(*e, &p[i], &q[i], &et), _ => Val::U }).collect();
                            Val::A(Rc::new(r))
                        } else { return Err(Stop::Unsup("vec select".into())) }
                    }
                    Val::U => Val::U,
                };
                self.set(st, *dst, r);
            }
            Inst::Jmp { t } => { self.jump(st, *t); return Ok(()); }
            Inst::Br { c, t, f } => {
                let cv = self.opd(st, c, &Ty::Int(1));
                let d = match cv { Val::C(k) => k != 0, Val::S(e) => self.branch(st, e)?, _ => return Err(Stop::Unsup("branch on undefined value".into())) };
                self.jump(st, if d { *t } else { *f });
                return Ok(());
            }
            Inst::Switch { ty, v, def, cases } => {
                let x = self.opd(st, v, ty);
                let w = self.bits(ty);
                match x {
                    Val::C(k) => { let t = cases.iter().find(|(c, _)| *c == k).map(|(_, b)| *b).unwrap_or(*def); self.jump(st, t); }
                    Val::S(e) => {
                        // fork over feasible targets (one successor per distinct target)
                        let mut opts: Vec<(u32, EId)> = vec![];
                        let mut none = self.ar.cst(1, 1);
                        for (c, b) in cases {
                            let k = self.ar.cst(*c, w);
                            let eq = self.ar.bin(Op::Eq, e, k);
                            let ne = self.ar.not1(eq);
                            none = self.ar.bin(Op::And, none, ne);
                            opts.push((*b, eq));
                        }
                        opts.push((*def, none));
                        let mut feas = vec![];
                        for (b, c) in opts { if self.ar.get_const(c) == Some(0) { continue; } if let Some(m) = self.sat(st, c)? { feas.push((b, c, m)); } }
                        if feas.is_empty() { return Err(Stop::Infeasible); }
                        let n = feas.len();
                        for (i, (b, c, m)) in feas.into_iter().enumerate() {
                            if i + 1 == n {
                                self.assume(st, c);
                                Self::merge_model(st, m);
                                self.jump(st, b);
                            } else {
                                let mut o = st.clone();
                                self.assume(&mut o, c);
                                Self::merge_model(&mut o, m);
                                self.jump(&mut o, b);
                                self.forks += 1;
                                self.work.push(o);
                            }
                        }
                    }
                    _ => return Err(Stop::Unsup("switch on undefined value".into())),
                }
                return Ok(());
            }
            Inst::Call { dst, rty, f, args, cont } => {
                let fv = self.opd(st, f, &Ty::Ptr);
                let addr = lo64(self.concrete(st, &fv, "call target")?);
                let name = match self.faddr_rev.get(&addr) { Some(n) => n.clone(), None => return Err(Stop::Mem(format!("call of non-function address {:#x}", addr))) };
                let av: Vec<Val> = args.iter().map(|(t, o)| if *t == Ty::Other { Val::U } else { self.opd(st, o, t) }).collect();
                return self.call(st, &name, av, args, rty, *dst, *cont);
            }
            Inst::Ret { ty, v } => { let r = v.as_ref().map(|o| self.opd(st, o, ty)); return self.do_return(st, r); }
            Inst::Unreachable => return Err(Stop::Mem("unreachable code reached (undefined behaviour)".into())),
            Inst::ExtractVal { dst, a, aty, idx } => {
                let mut x = self.opd(st, a, aty);
                for i in idx { x = match x { Val::A(v) => v[*i as usize].clone(), Val::U => Val::U, _ => return Err(Stop::Unsup("extractvalue".into())) }; }
                let x = self.subst(st, x);
                self.set(st, *dst, x);
            }
            Inst::InsertVal { dst, a, aty, vty, v, idx } => {
                let x = self.opd(st, a, aty);
                let y = self.opd(st, v, vty);
                fn ins(x: Val, idx: &[u32], y: Val) -> Val { match x { Val::A(v) => { let mut n = (*v).clone(); let i = idx[0] as usize; n[i] = if idx.len() == 1 { y } else { ins(n[i].clone(), &idx[1..], y) }; Val::A(Rc::new(n)) } _ => panic!("insertvalue") } }
                let r = ins(x, idx, y);
                self.set(st, *dst, r);
            }
            Inst::Freeze { dst, ty, a } => { let x = self.opd(st, a, ty); let x = if let Val::U = x { Val::C(0) } else { x }; self.set(st, *dst, x); }
            Inst::Fence => {}
            Inst::Rmw { dst, op, p, ty, v } => {
                let a = self.opd(st, p, &Ty::Ptr);
                let ad = lo64(self.concrete(st, &a, "atomic address")?);
                self.sync(st, ad, true);
                let old = self.load(st, ty, ad)?;
                let x = self.opd(st, v, ty);
                let w = self.bits(ty);
                let n = match op.as_str() {
                    "xchg" => x,
                    "add" => self.bin(Op::Add, &old, &x, w),
                    "sub" => self.bin(Op::Sub, &old, &x, w),
                    "and" => self.bin(Op::And, &old, &x, w),
                    "or" => self.bin(Op::Or, &old, &x, w),
                    "xor" => self.bin(Op::Xor, &old, &x, w),
                    "nand" => { let r = self.bin(Op::And, &old, &x, w); let m = Val::C(mask(w)); self.bin(Op::Xor, &r, &m, w) }
                    "umax" | "umin" | "max" | "min" => {
                        let c = self.icmp(match op.as_str() { "umax" => "uge", "umin" => "ule", "max" => "sge", _ => "sle" }, &old, &x, w);
                        let c = self.e(&c, 1);
                        self.ite(c, &old, &x, ty)
                    }
                    _ => return Err(Stop::Unsup(format!("atomicrmw {}", op))),
                };
                self.store(st, ty, ad, &n)?;
                self.set(st, *dst, old);
            }
            Inst::CmpXchg { dst, p, ty, c, n } => {
                let a = self.opd(st, p, &Ty::Ptr);
                let ad = lo64(self.concrete(st, &a, "atomic address")?);
                self.sync(st, ad, true);
                let old = self.load(st, ty, ad)?;
                let exp = self.opd(st, c, ty);
                let new = self.opd(st, n, ty);
                let w = self.bits(ty);
                let eq = self.icmp("eq", &old, &exp, w);
                match eq {
                    Val::C(k) => if k != 0 { self.store(st, ty, ad, &new)?; },
                    Val::S(k) => { let n = self.ite(k, &new, &old, ty); self.store(st, ty, ad, &n)?; }
                    _ => return Err(Stop::Unsup("undefined cmpxchg".into())),
                }
                self.set(st, *dst, Val::A(Rc::new(vec![old, eq])));
            }
            Inst::ExtractElt { dst, vty, v, i } => {
                let x = self.opd(st, v, vty);
                let iv = self.opd(st, i, &Ty::Int(64));
                let k = self.concrete(st, &iv, "vector index")? as usize;
                let r = match x { Val::A(p) => p[k].clone(), _ => Val::U };
                self.set(st, *dst, r);
            }
            Inst::InsertElt { dst, vty, v, ety, e, i } => {
                let x = self.opd(st, v, vty);
                let y = self.opd(st, e, ety);
                let iv = self.opd(st, i, &Ty::Int(64));
                let k = self.concrete(st, &iv, "vector index")? as usize;
                if let Val::A(p) = x { let mut n = (*p).clone(); n[k] = y; self.set(st, *dst, Val::A(Rc::new(n))); }
            }
            Inst::Shuffle { dst, vty, a, b, mty, m } => {
                let (x, y, mm) = (self.opd(st, a, vty), self.opd(st, b, vty), self.opd(st, m, mty));
                if let (Val::A(p), Val::A(q), Val::A(ms)) = (x, y, mm) {
                    let n = p.len();
                    let r = ms.iter().map(|k| match k { Val::C(i) => { let i = *i as usize; if i < n { p[i].clone() } else { q[i - n].clone() } } _ => Val::U }).collect();
                    self.set(st, *dst, Val::A(Rc::new(r)));
                } else { return Err(Stop::Unsup("shuffle".into())) }
            }
            Inst::Bad(s) => return Err(Stop::Unsup(format!("instruction: {}", s.trim().chars().take(160).collect::<String>()))),
        }
        Self::frame(st).ip += 1;
        Ok(())
    }
    fn fcmp(&mut self, pred: &str, a: &Val, b: &Val, w: u32) -> R<Val> {
        let (mbits, ebits) = match w { 32 => (23, 8), 64 => (52, 11), _ => return Err(Stop::Unsup("fcmp width".into())) };
        let nan = |s: &mut Self, v: &Val| -> Val {
            let e = s.e(v, w);
            let ex = s.ar.extract(e, mbits, ebits);
            let mx = s.ar.cst(mask(ebits), ebits);
            let c1 = s.ar.bin(Op::Eq, ex, mx);
            let mn = s.ar.extract(e, 0, mbits);
            let z = s.ar.cst(0, mbits);
            let c2 = s.ar.bin(Op::Eq, mn, z);
            let n2 = s.ar.not1(c2);
            let r = s.ar.bin(Op::And, c1, n2);
            s.v(r)
        };
        let (na, nb) = (nan(self, a), nan(self, b));
        let uno = self.bin(Op::Or, &na, &nb, 1);
        let bits_eq = self.bin(Op::Eq, a, b, w);
        let (ta, tb) = (self.trunc(a, w, w - 1), self.trunc(b, w, w - 1));
        let z = Val::C(0);
        let za = self.bin(Op::Eq, &ta, &z, w - 1);
        let zb = self.bin(Op::Eq, &tb, &z, w - 1);
        let bz = self.bin(Op::And, &za, &zb, 1);
        let e0 = self.bin(Op::Or, &bits_eq, &bz, 1);
        let ord = self.not(&uno);
        let oeq = self.bin(Op::And, &e0, &ord, 1);
        Ok(match pred {
            "oeq" => oeq,
            "une" => self.not(&oeq),
            "uno" => uno,
            "ord" => ord,
            "ueq" => self.bin(Op::Or, &uno, &e0, 1),
            "one" => { let n = self.not(&e0); self.bin(Op::And, &n, &ord, 1) }
            _ => {
                // ordering: map to sign-magnitude comparison
                let key = |s: &mut Self, v: &Val| -> EId {
                    let e = s.e(v, w);
                    let neg = s.ar.extract(e, w - 1, 1);
                    let mag = s.ar.extract(e, 0, w - 1);
                    let m = s.ar.zext(mag, w + 1);
                    let zz = s.ar.cst(0, w + 1);
                    let nm = s.ar.bin(Op::Sub, zz, m);
                    s.ar.ite(neg, nm, m)
                };
                let (ka, kb) = (key(self, a), key(self, b));
                let r = match &pred[1..] { "lt" => self.ar.bin(Op::Slt, ka, kb), "le" => self.ar.bin(Op::Sle, ka, kb), "gt" => self.ar.bin(Op::Slt, kb, ka), "ge" => self.ar.bin(Op::Sle, kb, ka), _ => return Err(Stop::Unsup(format!("fcmp {}", pred))) };
                let v = self.v(r);
                if pred.starts_with('o') { self.bin(Op::And, &v, &ord, 1) } else { self.bin(Op::Or, &v, &uno, 1) }
            }
        })
    }
}
