//! Z3 back end (C API of the installed libz3), with constraint slicing and a query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, d: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().to_string();
        eprintln!("ENGINE-ERROR z3: {}", m);
        std::process::exit(3);
    }
}

pub enum Res { Sat(HashMap<u32, u128>, Option<u128>), Unsat, Unknown }

pub struct Smt {
    c: P,
    s: P,
    bv2: [HashMap<EId, P>; 2],
    bo2: [HashMap<EId, P>; 2],
    decl: HashMap<u32, P>,
    cache: HashMap<(bool, Vec<EId>), Option<HashMap<u32, u128>>>,
    pub full: u64,
    fp: bool,
    pub queries: u64,
    pub cached: u64,
    pub bytewise: u64,
    tabs: HashMap<u32, HashMap<EId, Box<[u128; 256]>>>,
    masks: HashMap<EId, [bool; 256]>,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub slowest: f64,
}

pub fn z3_version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() } }

impl Smt {
    pub fn new(timeout_ms: u32) -> Smt {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            let k = CString::new("random_seed").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 1);
            Z3_solver_set_params(c, s, p);
            Smt { c, s, bv2: [HashMap::new(), HashMap::new()], bo2: [HashMap::new(), HashMap::new()], full: 0, fp: false, decl: HashMap::new(), cache: HashMap::new(), queries: 0, cached: 0, bytewise: 0, tabs: HashMap::new(), masks: HashMap::new(), sat: 0, unsat: 0, time: 0.0, slowest: 0.0 }
        }
    }
    fn is_bool(a: &Arena, e: EId) -> bool { a.w(e) == 1 }
    fn conv(&mut self, a: &Arena, e: EId, opaque: bool) {
        let o = opaque as usize;
        // ensure bv[e] (and bo[e] for width 1) are built; iterative
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.bv2[o].contains_key(&x) { continue; }
            if !done {
                st.push((x, true));
                for c in a.children_o(x, opaque) { if !self.bv2[o].contains_key(&c) { st.push((c, false)); } }
                continue;
            }
            unsafe {
                let c = self.c;
                let w = a.w(x);
                let sort = Z3_mk_bv_sort(c, w);
                let mut boolv: Option<P> = None;
                let mut bvv: Option<P> = None;
                match &a.nodes[x as usize] {
                    Node::Sym(i) => {
                        let n = CString::new(format!("s{}", i)).unwrap();
                        bvv = Some(Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), sort));
                    }
                    Node::Const(k) => {
                        if w == 1 { boolv = Some(if *k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }); }
                        let n = CString::new(format!("{}", k)).unwrap();
                        bvv = Some(Z3_mk_numeral(c, n.as_ptr(), sort));
                    }
                    Node::Bin(op, p, q) => {
                        let pw = a.w(*p);
                        if pw == 1 && matches!(op, Op::And | Op::Or | Op::Xor | Op::Eq) {
                            let (u, v) = (self.bo2[o][p], self.bo2[o][q]);
                            let arr = [u, v];
                            boolv = Some(match op {
                                Op::And => Z3_mk_and(c, 2, arr.as_ptr()),
                                Op::Or => Z3_mk_or(c, 2, arr.as_ptr()),
                                Op::Xor => if a.get_const(*q) == Some(1) { Z3_mk_not(c, u) } else { Z3_mk_xor(c, u, v) },
                                _ => Z3_mk_eq(c, u, v),
                            });
                        } else {
                            let (u, v) = (self.bv2[o][p], self.bv2[o][q]);
                            match op {
                                Op::Eq => boolv = Some(Z3_mk_eq(c, u, v)),
                                Op::Ult => boolv = Some(Z3_mk_bvult(c, u, v)),
                                Op::Ule => boolv = Some(Z3_mk_bvule(c, u, v)),
                                Op::Slt => boolv = Some(Z3_mk_bvslt(c, u, v)),
                                Op::Sle => boolv = Some(Z3_mk_bvsle(c, u, v)),
                                Op::Add => bvv = Some(Z3_mk_bvadd(c, u, v)),
                                Op::Sub => bvv = Some(Z3_mk_bvsub(c, u, v)),
                                Op::Mul => bvv = Some(Z3_mk_bvmul(c, u, v)),
                                Op::UDiv => bvv = Some(Z3_mk_bvudiv(c, u, v)),
                                Op::SDiv => bvv = Some(Z3_mk_bvsdiv(c, u, v)),
                                Op::URem => bvv = Some(Z3_mk_bvurem(c, u, v)),
                                Op::SRem => bvv = Some(Z3_mk_bvsrem(c, u, v)),
                                Op::And => bvv = Some(Z3_mk_bvand(c, u, v)),
                                Op::Or => bvv = Some(Z3_mk_bvor(c, u, v)),
                                Op::Xor => bvv = Some(Z3_mk_bvxor(c, u, v)),
                                Op::Shl => bvv = Some(Z3_mk_bvshl(c, u, v)),
                                Op::LShr => bvv = Some(Z3_mk_bvlshr(c, u, v)),
                                Op::AShr => bvv = Some(Z3_mk_bvashr(c, u, v)),
                                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FExt | Op::FTrunc => {
                                    self.fp = true;
                                    let (s32, s64) = (Z3_mk_fpa_sort_32(c), Z3_mk_fpa_sort_64(c));
                                    let so = if pw == 32 { s32 } else { s64 };
                                    let (fu, fv) = (Z3_mk_fpa_to_fp_bv(c, u, so), Z3_mk_fpa_to_fp_bv(c, v, so));
                                    let rm = Z3_mk_fpa_rne(c);
                                    let r = match op {
                                        Op::FAdd => Z3_mk_fpa_add(c, rm, fu, fv),
                                        Op::FSub => Z3_mk_fpa_sub(c, rm, fu, fv),
                                        Op::FMul => Z3_mk_fpa_mul(c, rm, fu, fv),
                                        Op::FDiv => Z3_mk_fpa_div(c, rm, fu, fv),
                                        Op::FExt => Z3_mk_fpa_to_fp_float(c, rm, fu, s64),
                                        _ => Z3_mk_fpa_to_fp_float(c, rm, fu, s32),
                                    };
                                    let (rb, q) = if w == 32 { (Z3_mk_fpa_to_ieee_bv(c, r), 0x7fc0_0000u64) } else { (Z3_mk_fpa_to_ieee_bv(c, r), 0x7ff8_0000_0000_0000) };
                                    let qn = Z3_mk_unsigned_int64(c, q, Z3_mk_bv_sort(c, w));
                                    bvv = Some(Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, r), qn, rb));
                                }
                            }
                        }
                    }
                    Node::Ite(k, p, q) => {
                        if w == 1 { boolv = Some(Z3_mk_ite(c, self.bo2[o][k], self.bo2[o][p], self.bo2[o][q])); }
                        else { bvv = Some(Z3_mk_ite(c, self.bo2[o][k], self.bv2[o][p], self.bv2[o][q])); }
                    }
                    Node::Concat(p, q) => bvv = Some(Z3_mk_concat(c, self.bv2[o][p], self.bv2[o][q])),
                    Node::Extract(p, lo) => bvv = Some(Z3_mk_extract(c, lo + w - 1, *lo, self.bv2[o][p])),
                    Node::ZExt(p) => bvv = Some(Z3_mk_zero_ext(c, w - a.w(*p), self.bv2[o][p])),
                    Node::SExt(p) => bvv = Some(Z3_mk_sign_ext(c, w - a.w(*p), self.bv2[o][p])),
                    Node::App(..) if opaque => {
                        let n = CString::new(format!("app{}", x)).unwrap();
                        bvv = Some(Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), sort));
                    }
                    Node::App(f, args) => {
                        let d = match self.decl.get(f) {
                            Some(&d) => d,
                            None => {
                                let (name, ws, ow) = &a.ufs[*f as usize];
                                let n = CString::new(format!("uf{}_{}", f, name)).unwrap();
                                let dom: Vec<P> = ws.iter().map(|&k| Z3_mk_bv_sort(c, k)).collect();
                                let d = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, n.as_ptr()), dom.len() as c_uint, dom.as_ptr(), Z3_mk_bv_sort(c, *ow));
                                self.decl.insert(*f, d);
                                d
                            }
                        };
                        let av: Vec<P> = args.iter().map(|k| self.bv2[o][k]).collect();
                        bvv = Some(Z3_mk_app(c, d, av.len() as c_uint, av.as_ptr()));
                    }
                }
                if w == 1 {
                    let one = CString::new("1").unwrap();
                    let zero = CString::new("0").unwrap();
                    let (n1, n0) = (Z3_mk_numeral(c, one.as_ptr(), sort), Z3_mk_numeral(c, zero.as_ptr(), sort));
                    let b = match boolv { Some(b) => b, None => Z3_mk_eq(c, bvv.unwrap(), n1) };
                    let v = match bvv { Some(v) => v, None => Z3_mk_ite(c, b, n1, n0) };
                    self.bo2[o].insert(x, b);
                    self.bv2[o].insert(x, v);
                } else {
                    self.bv2[o].insert(x, bvv.unwrap());
                }
            }
        }
    }
    /// Constraints of `pc` connected (through shared symbols) to `cond`.
    pub fn slice(&self, a: &mut Arena, fixed: &HashMap<u32, u128>, pc: &[EId], seed: &[EId], opaque: bool) -> Vec<EId> {
        let mut set: std::collections::HashSet<u32> = std::collections::HashSet::new();
        for &s in seed { for &k in a.support_o(s, opaque).iter() { if !fixed.contains_key(&k) { set.insert(k); } } }
        let sups: Vec<_> = pc.iter().map(|&p| a.support_o(p, opaque)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if used[i] { continue; }
                if sups[i].iter().any(|k| set.contains(k)) {
                    used[i] = true;
                    ch = true;
                    for &k in sups[i].iter() { if !fixed.contains_key(&k) { set.insert(k); } }
                }
            }
            if !ch { break; }
        }
        (0..pc.len()).filter(|&i| used[i]).map(|i| pc[i]).collect()
    }
    fn mask_in<'m>(a: &mut Arena, masks: &'m mut HashMap<EId, [bool; 256]>, tabs: &mut HashMap<EId, Box<[u128; 256]>>, n: usize, e: EId) -> Option<&'m [bool; 256]> {
        if !masks.contains_key(&e) {
            if !a.table(e, tabs) { return None; }
            let mut m = [false; 256];
            for i in 0..n { m[i] = tabs[&e][i] != 0; }
            masks.insert(e, m);
        }
        masks.get(&e)
    }
    /// The values of the byte-sized symbol `sym` for which the condition `e` over it alone holds.
    pub fn mask(&mut self, a: &mut Arena, e: EId, sym: u32) -> Option<[bool; 256]> {
        let w = a.w(a.sym_eid[sym as usize]);
        if w > 8 { return None; }
        Self::mask_in(a, &mut self.masks, self.tabs.entry(sym).or_default(), 1 << w, e).copied()
    }
    /// Feasibility questions about a single byte are decided by evaluating all of its values.
    fn by_byte(&mut self, a: &mut Arena, q: &[EId], want: Option<EId>) -> Option<Res> {
        let mut sym = None;
        for &e in q.iter().chain(want.iter()) {
            for &k in a.support_o(e, true).iter() {
                if k >> 31 == 1 || *sym.get_or_insert(k) != k { return None; }
            }
        }
        let sym = sym?;
        let w = a.w(a.sym_eid[sym as usize]);
        if w > 8 { return None; }
        let n = 1usize << w;
        if self.tabs.values().map(|t| t.len()).sum::<usize>() > 100_000 { self.tabs.clear(); }
        let tabs = self.tabs.entry(sym).or_default();
        let mut ok = [true; 256];
        for &e in q {
            if a.get_const(e).is_some() { continue; }
            let m = Self::mask_in(a, &mut self.masks, tabs, n, e)?;
            for i in 0..n { ok[i] &= m[i]; }
        }
        let wt = match want { Some(e) => { if !a.table(e, tabs) { return None; } Some(&tabs[&e]) } None => None };
        self.bytewise += 1;
        match (0..n).find(|&i| ok[i]) {
            Some(i) => Some(Res::Sat(HashMap::from([(sym, i as u128)]), wt.map(|t| t[i]))),
            None => Some(Res::Unsat),
        }
    }
    /// With `opaque`, applications of uninterpreted functions are treated as unconstrained values: Unsat is then still
    /// conclusive, Sat only means "not excluded yet".
    /// Is pc /\ conds satisfiable? Returns a model of the involved symbols and, if asked, the value of `want`.
    pub fn check(&mut self, a: &mut Arena, fixed: &HashMap<u32, u128>, pc: &[EId], conds: &[EId], want: Option<EId>, opaque: bool) -> Res {
        let o = opaque as usize;
        let mut want2 = want;
        let mut seed: Vec<EId> = conds.to_vec();
        if let Some(w) = want { seed.push(w); }
        let mut q = self.slice(a, fixed, pc, &seed, opaque);
        q.extend_from_slice(conds);
        if opaque && !fixed.is_empty() {
            // values the path condition already determines are put in
            let mut memo = HashMap::new();
            for e in q.iter_mut() { *e = a.replace(*e, fixed, &mut memo); }
            want2 = want.map(|w| a.replace(w, fixed, &mut memo));
        }
        let want = want2;
        q.retain(|&e| a.get_const(e) != Some(1));
        if q.iter().any(|&e| a.get_const(e) == Some(0)) { return Res::Unsat; }
        q.sort();
        q.dedup();
        if q.is_empty() { if let Some(k) = want.and_then(|w| a.get_const(w)) { return Res::Sat(HashMap::new(), Some(k)); } }
        if want.is_none() {
            if let Some(r) = self.cache.get(&(opaque, q.clone())) {
                self.cached += 1;
                return match r { Some(m) => Res::Sat(m.clone(), None), None => Res::Unsat };
            }
        }
        if opaque { if let Some(r) = self.by_byte(a, &q, want) { return r; } }
        let t0 = Instant::now();
        self.queries += 1;
        if !opaque { self.full += 1; }
        for &e in &q { self.conv(a, e, opaque); debug_assert!(Self::is_bool(a, e)); }
        if let Some(w) = want { self.conv(a, w, opaque); }
        let mut syms: Vec<u32> = vec![];
        for &e in &q { for &k in a.support_o(e, opaque).iter() { if opaque || k >> 31 == 0 { syms.push(k); } } }
        if let Some(w) = want { for &k in a.support_o(w, opaque).iter() { if opaque || k >> 31 == 0 { syms.push(k); } } }
        syms.sort();
        syms.dedup();
        let se: Vec<EId> = syms.iter().map(|&s| if s >> 31 == 1 { s & 0x7fff_ffff } else { a.sym_eid[s as usize] }).collect();
        for &e in &se { self.conv(a, e, opaque); }
        let res = unsafe {
            let c = self.c;
            Z3_solver_push(c, self.s);
            for e in &q { Z3_solver_assert(c, self.s, self.bo2[o][e]); }
            let mut r = Z3_solver_check(c, self.s);
            let mut solver = self.s;
            let mut extra: Option<P> = None;
            if r == 0 {
                // retry with the dedicated bit-vector strategy
                let n = CString::new(if self.fp { "QF_FPBV" } else { "QF_UFBV" }).unwrap();
                let s2 = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, n.as_ptr()));
                Z3_solver_inc_ref(c, s2);
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 120_000);
                Z3_solver_set_params(c, s2, p);
                for e in &q { Z3_solver_assert(c, s2, self.bo2[o][e]); }
                r = Z3_solver_check(c, s2);
                solver = s2;
                extra = Some(s2);
            }
            let out = if r == 1 {
                let m = Z3_solver_get_model(c, solver);
                Z3_model_inc_ref(c, m);
                let mut vals = HashMap::new();
                let ev = |e: EId| -> Option<u128> {
                    let mut ov: P = std::ptr::null_mut();
                    if Z3_model_eval(c, m, self.bv2[o][&e], true, &mut ov) {
                        CStr::from_ptr(Z3_get_numeral_string(c, ov)).to_str().unwrap().parse().ok()
                    } else { None }
                };
                for (i, &e) in se.iter().enumerate() { vals.insert(syms[i], ev(e).unwrap_or(0)); }
                let wv = want.map(|w| ev(w).expect("model value"));
                Z3_model_dec_ref(c, m);
                Res::Sat(vals, wv)
            } else if r == -1 { Res::Unsat } else { Res::Unknown };
            if let Some(s2) = extra { Z3_solver_dec_ref(c, s2); }
            Z3_solver_pop(c, self.s, 1);
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.slowest { self.slowest = dt; }
        match &res {
            Res::Sat(m, _) => { self.sat += 1; if want.is_none() { self.cache.insert((opaque, q), Some(m.clone())); } }
            Res::Unsat => { self.unsat += 1; if want.is_none() { self.cache.insert((opaque, q), None); } }
            Res::Unknown => {}
        }
        res
    }
}
