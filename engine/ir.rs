//! Parser for the textual LLVM IR produced by rustc/llvm-dis (the subset rustc emits).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, Float(u32), Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Vec(u64, Rc<Ty>), Named(Rc<str>), Other }

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Undef,
    Zero,
    Bytes(Rc<Vec<u8>>),
    Agg(Rc<Vec<(Ty, Cst)>>),
    Splat(Rc<(Ty, Cst)>),
    Global(Rc<str>),
    Gep(Rc<(Ty, Vec<(Ty, Cst)>)>),
    Cast(Rc<(Ty, Cst, Ty)>),
    BinC(Rc<(String, Cst, Cst)>),
}

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), C(Cst) }

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: u32, ty: Ty, n: Opd, align: u64 },
    Load { dst: u32, ty: Ty, p: Opd, atomic: bool },
    Store { ty: Ty, v: Opd, p: Opd, atomic: bool },
    Gep { dst: u32, ty: Ty, base: Opd, idx: Vec<(Ty, Opd)> },
    Bin { dst: u32, op: &'static str, ty: Ty, a: Opd, b: Opd },
    Icmp { dst: u32, pred: &'static str, ty: Ty, a: Opd, b: Opd },
    Fcmp { dst: u32, pred: String, ty: Ty, a: Opd, b: Opd },
    Cast { dst: u32, op: &'static str, from: Ty, a: Opd, to: Ty },
    Select { dst: u32, cty: Ty, c: Opd, ty: Ty, a: Opd, b: Opd },
    Phi { dst: u32, ty: Ty, inc: Vec<(Opd, u32)> },
    Br { c: Opd, t: u32, f: u32 },
    Jmp { t: u32 },
    Switch { ty: Ty, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Call { dst: Option<u32>, rty: Ty, f: Opd, args: Vec<(Ty, Opd)>, cont: Option<u32> },
    Ret { ty: Ty, v: Option<Opd> },
    Unreachable,
    ExtractVal { dst: u32, a: Opd, aty: Ty, idx: Vec<u32> },
    InsertVal { dst: u32, a: Opd, aty: Ty, vty: Ty, v: Opd, idx: Vec<u32> },
    Freeze { dst: u32, ty: Ty, a: Opd },
    Rmw { dst: u32, op: String, p: Opd, ty: Ty, v: Opd },
    CmpXchg { dst: u32, p: Opd, ty: Ty, c: Opd, n: Opd },
    Fence,
    ExtractElt { dst: u32, vty: Ty, v: Opd, i: Opd },
    InsertElt { dst: u32, vty: Ty, v: Opd, ety: Ty, e: Opd, i: Opd },
    Shuffle { dst: u32, vty: Ty, a: Opd, b: Opd, mty: Ty, m: Opd },
    Bad(String),
}

pub struct Func { pub name: Rc<str>, pub params: Vec<(Ty, u32)>, pub nregs: usize, pub blocks: Vec<Vec<Inst>>, pub rty: Ty }
pub struct Global { pub name: Rc<str>, pub ty: Ty, pub init: Option<Cst>, pub constant: bool, pub tls: bool, pub align: u64 }

pub struct Module<'a> {
    pub fsrc: HashMap<Rc<str>, (usize, usize)>, // line range
    pub declared: HashMap<Rc<str>, ()>,
    pub globals: HashMap<Rc<str>, Global>,
    pub aliases: HashMap<Rc<str>, Rc<str>>,
    pub types: HashMap<Rc<str>, Ty>,
    pub lines: Vec<&'a str>,
}

struct Lx<'a> { s: &'a [u8], p: usize }

impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self { Lx { s: s.as_bytes(), p: 0 } }
    fn ws(&mut self) { while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') { self.p += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.p < self.s.len() && self.s[self.p] != b';' { self.s[self.p] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.p += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat(c) { panic!("expected '{}' at {} in: {}", c as char, self.p, String::from_utf8_lossy(self.s)); } }
    fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.p..]).to_string() }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() { let c = self.s[self.p]; if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'+' || c == b'$' { self.p += 1 } else { break } }
        String::from_utf8_lossy(&self.s[st..self.p]).to_string()
    }
    fn peek_word(&mut self) -> String { let p = self.p; let w = self.word(); self.p = p; w }
    fn kw(&mut self, k: &str) -> bool { let p = self.p; if self.word() == k { true } else { self.p = p; false } }
    fn name(&mut self) -> String {
        // after % or @
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' { self.p += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).to_string();
            self.p += 1;
            r
        } else { let st = self.p; while self.p < self.s.len() { let c = self.s[self.p]; if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' { self.p += 1 } else { break } } String::from_utf8_lossy(&self.s[st..self.p]).to_string() }
    }
    fn skip_parens(&mut self) { // at '('
        let mut d = 0;
        loop {
            if self.p >= self.s.len() { return; }
            let c = self.s[self.p];
            self.p += 1;
            if c == b'"' { while self.s[self.p] != b'"' { self.p += 1; } self.p += 1; }
            if c == b'(' || c == b'[' || c == b'{' { d += 1 }
            if c == b')' || c == b']' || c == b'}' { d -= 1; if d == 0 { return; } }
        }
    }
    fn uint(&mut self) -> u64 { self.word().parse().unwrap_or_else(|_| panic!("uint in {}", String::from_utf8_lossy(self.s))) }
    fn ty(&mut self) -> Ty {
        let c = self.peek();
        let mut t = match c {
            b'[' => { self.p += 1; let n = self.uint(); assert!(self.kw("x")); let e = self.ty(); self.expect(b']'); Ty::Arr(n, Rc::new(e)) }
            b'{' => { self.p += 1; let mut v = vec![]; if !self.eat(b'}') { loop { v.push(self.ty()); if !self.eat(b',') { break; } } self.expect(b'}'); } Ty::Struct(Rc::new(v), false) }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    let t = self.ty();
                    self.expect(b'>');
                    if let Ty::Struct(v, _) = t { Ty::Struct(v, true) } else { unreachable!() }
                } else { let n = self.uint(); assert!(self.kw("x")); let e = self.ty(); self.expect(b'>'); Ty::Vec(n, Rc::new(e)) }
            }
            b'%' => { self.p += 1; Ty::Named(self.name().into()) }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::Float(32), "double" => Ty::Float(64), "half" => Ty::Float(16), "fp128" => Ty::Float(128),
                    "metadata" | "label" | "token" | "x86_fp80" => Ty::Other,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => panic!("type? '{}' in {}", w, String::from_utf8_lossy(self.s)),
                }
            }
        };
        if self.peek_word() == "addrspace" { self.word(); self.ws(); self.skip_parens(); }
        // function type "i64 (i64, ...)"
        if self.peek() == b'(' && self.is_fn_ty() { self.skip_parens(); let _ = &mut t; }
        t
    }
    fn is_fn_ty(&mut self) -> bool {
        // function types are only used before callee: "(...types...) @f(" or "(..) %f("
        let sp = self.p;
        self.ws();
        self.skip_parens();
        let c = self.peek();
        self.p = sp;
        c == b'@' || c == b'%'
    }
    fn attrs(&mut self) {
        // skip parameter/return attributes
        loop {
            let c = self.peek();
            if c == b'"' { self.p += 1; while self.s[self.p] != b'"' { self.p += 1; } self.p += 1; if self.eat(b'=') { self.ws(); self.p += 1; while self.s[self.p] != b'"' { self.p += 1; } self.p += 1; } continue; }
            if c == b'#' { self.p += 1; self.word(); continue; }
            let w = self.peek_word();
            match w.as_str() {
                "zeroext" | "signext" | "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly" | "writable" | "dead_on_unwind" | "dead_on_return" | "nofree" | "inreg" | "immarg" | "returned" | "nest" | "swiftself" | "allocptr" | "allocalign" | "noext" | "nofpclass"
                | "fastcc" | "ccc" | "coldcc" | "tailcc" | "dso_local" | "unnamed_addr" | "local_unnamed_addr" | "internal" | "private" | "hidden" | "protected" | "linkonce_odr" | "weak" | "weak_odr" | "linkonce" | "available_externally" | "external" | "extern_weak" | "dllimport" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "preserve_mostcc" | "preserve_allcc" | "cold" => { self.word(); if self.peek() == b'(' && w == "nofpclass" { self.skip_parens(); } }
                "align" => { self.word(); if self.peek() == b'(' { self.ws(); self.skip_parens(); } else { self.word(); } }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "range" | "captures" | "elementtype" | "initializes" | "byref" | "inalloca" | "preallocated" | "memory" => { self.word(); self.ws(); if self.peek() == b'(' { self.skip_parens(); } }
                _ => return,
            }
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        // at the opening quote
        self.expect(b'"');
        let mut v = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' { v.push(b'\\'); self.p += 2; continue; }
                let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                self.p += 3;
            } else { v.push(self.s[self.p]); self.p += 1; }
        }
        self.p += 1;
        v
    }
    fn cst(&mut self, ty: &Ty) -> Cst {
        let c = self.peek();
        match c {
            b'@' => { self.p += 1; Cst::Global(self.name().into()) }
            b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => { self.p += 1; Cst::Bytes(Rc::new(self.cstr())) }
            b'{' | b'[' => { self.p += 1; let end = if c == b'{' { b'}' } else { b']' }; let v = self.tylist(end); Cst::Agg(Rc::new(v)) }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' { self.p += 1; let v = self.tylist(b'}'); self.expect(b'>'); Cst::Agg(Rc::new(v)) }
                else { let v = self.tylist(b'>'); Cst::Agg(Rc::new(v)) }
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "true" => Cst::Int(1),
                    "false" | "null" => Cst::Int(0),
                    "none" => Cst::Int(0),
                    "undef" | "poison" => Cst::Undef,
                    "zeroinitializer" => Cst::Zero,
                    "splat" => { self.expect(b'('); let t = self.ty(); let k = self.cst(&t); self.expect(b')'); Cst::Splat(Rc::new((t, k))) }
                    "getelementptr" => {
                        while matches!(self.peek_word().as_str(), "inbounds" | "nuw" | "nusw" | "inrange") { let w = self.word(); if w == "inrange" { self.ws(); self.skip_parens(); } }
                        self.expect(b'(');
                        let t = self.ty();
                        self.expect(b',');
                        let v = self.tylist(b')');
                        Cst::Gep(Rc::new((t, v)))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let k = self.cst(&t);
                        assert!(self.kw("to"));
                        let t2 = self.ty();
                        self.expect(b')');
                        Cst::Cast(Rc::new((t, k, t2)))
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while matches!(self.peek_word().as_str(), "nuw" | "nsw") { self.word(); }
                        self.expect(b'(');
                        let t = self.ty();
                        let a = self.cst(&t);
                        self.expect(b',');
                        let t = self.ty();
                        let b = self.cst(&t);
                        self.expect(b')');
                        Cst::BinC(Rc::new((w, a, b)))
                    }
                    _ => {
                        if let Ty::Float(bits) = ty {
                            if let Some(h) = w.strip_prefix("0x") {
                                let d = u64::from_str_radix(h, 16).unwrap_or(0);
                                return Cst::Int(if *bits == 32 { (f64::from_bits(d) as f32).to_bits() as u128 } else { d as u128 });
                            }
                            let d: f64 = w.parse().unwrap_or(0.0);
                            return Cst::Int(if *bits == 32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 });
                        }
                        if let Some(n) = w.strip_prefix('-') { let v: u128 = n.parse().unwrap_or_else(|_| panic!("const '{}' in {}", w, String::from_utf8_lossy(self.s))); Cst::Int(0u128.wrapping_sub(v)) }
                        else { Cst::Int(w.parse().unwrap_or_else(|_| panic!("const '{}' in {}", w, String::from_utf8_lossy(self.s)))) }
                    }
                }
            }
        }
    }
    fn tylist(&mut self, end: u8) -> Vec<(Ty, Cst)> {
        let mut v = vec![];
        if self.eat(end) { return v; }
        loop { let t = self.ty(); self.attrs(); let k = self.cst(&t); v.push((t, k)); if !self.eat(b',') { break; } }
        self.expect(end);
        v
    }
}

fn linkage_words(lx: &mut Lx) -> (bool, bool, bool, bool) {
    // returns (external, constant, tls, isalias)
    let (mut ext, mut tls) = (false, false);
    loop {
        let w = lx.peek_word();
        match w.as_str() {
            "external" | "extern_weak" => { ext = true; lx.word(); }
            "thread_local" => { tls = true; lx.word(); if lx.peek() == b'(' { lx.skip_parens(); } }
            "private" | "internal" | "linkonce_odr" | "weak" | "weak_odr" | "linkonce" | "common" | "appending" | "available_externally" | "hidden" | "protected" | "default" | "dso_local" | "unnamed_addr" | "local_unnamed_addr" | "externally_initialized" => { lx.word(); }
            "global" => { lx.word(); return (ext, false, tls, false); }
            "constant" => { lx.word(); return (ext, true, tls, false); }
            "alias" => { lx.word(); return (ext, true, tls, true); }
            _ => panic!("global linkage '{}' in {}", w, lx.rest()),
        }
    }
}

impl<'a> Module<'a> {
    pub fn parse(text: &'a str) -> Module<'a> {
        let lines: Vec<&str> = text.lines().collect();
        let mut m = Module { fsrc: HashMap::new(), declared: HashMap::new(), globals: HashMap::new(), aliases: HashMap::new(), types: HashMap::new(), lines: vec![] };
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with("define ") {
                let at = l.find('@').unwrap();
                let mut lx = Lx { s: l.as_bytes(), p: at + 1 };
                let n: Rc<str> = lx.name().into();
                let st = i;
                while lines[i] != "}" { i += 1; }
                m.fsrc.insert(n, (st, i));
            } else if l.starts_with("declare ") {
                let at = l.find('@').unwrap();
                let mut lx = Lx { s: l.as_bytes(), p: at + 1 };
                m.declared.insert(lx.name().into(), ());
            } else if l.starts_with('@') {
                let mut lx = Lx { s: l.as_bytes(), p: 1 };
                let n: Rc<str> = lx.name().into();
                lx.expect(b'=');
                let (ext, constant, tls, alias) = linkage_words(&mut lx);
                let ty = lx.ty();
                if alias {
                    lx.expect(b',');
                    lx.ty();
                    if let Cst::Global(g) = lx.cst(&Ty::Ptr) { m.aliases.insert(n, g); }
                } else {
                    let init = if ext { None } else { Some(lx.cst(&ty)) };
                    let mut align = 1;
                    if let Some(p) = l.rfind(", align ") { align = l[p + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(1); }
                    m.globals.insert(n.clone(), Global { name: n, ty, init, constant, tls, align });
                }
            } else if l.starts_with('%') {
                let mut lx = Lx { s: l.as_bytes(), p: 1 };
                let n: Rc<str> = lx.name().into();
                lx.expect(b'=');
                if lx.kw("type") && lx.peek_word() != "opaque" { let t = lx.ty(); m.types.insert(n, t); }
            }
            i += 1;
        }
        m.lines = lines;
        m
    }

    pub fn parse_func(&self, name: &str) -> Func {
        let (st, en) = self.fsrc[name];
        let hdr = self.lines[st];
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut lx = Lx::new(hdr);
        lx.word(); // define
        lx.attrs();
        let rty = lx.ty();
        lx.attrs();
        lx.expect(b'@');
        let n = lx.name();
        lx.expect(b'(');
        let mut params = vec![];
        if !lx.eat(b')') {
            loop {
                if lx.peek() == b'.' { lx.word(); break; }
                let t = lx.ty();
                lx.attrs();
                let pn = if lx.eat(b'%') { lx.name() } else { format!("{}", params.len()) };
                let id = regs.len() as u32;
                regs.insert(pn, id);
                params.push((t, id));
                if !lx.eat(b',') { break; }
            }
        }
        // logical lines
        let mut ll: Vec<String> = vec![];
        for k in st + 1..en {
            let l = self.lines[k];
            if l.is_empty() || l.starts_with(';') { continue; }
            if l.starts_with("    ") || l == "  ]" || l.starts_with("  ], ") { let last = ll.last_mut().unwrap(); last.push(' '); last.push_str(l.trim()); }
            else { ll.push(l.to_string()); }
        }
        // labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nb = 0u32;
        let lab = |l: &str| -> Option<String> {
            if l.starts_with(' ') { return None; }
            if l.starts_with('"') { let e = l[1..].find('"').unwrap(); return Some(l[1..1 + e].to_string()); }
            let e = l.find(':')?;
            Some(l[..e].to_string())
        };
        if !ll.is_empty() && lab(&ll[0]).is_none() {
            // unnamed entry block: implicit number = count of unnamed params
            let num = regs.keys().filter(|k| k.parse::<u32>().is_ok()).count();
            labels.insert(format!("{}", num), 0);
            nb = 1;
        }
        for l in &ll { if let Some(n) = lab(l) { labels.insert(n, nb); nb += 1; } }
        let mut blocks: Vec<Vec<Inst>> = (0..nb).map(|_| vec![]).collect();
        let mut cur = 0usize;
        let mut px = P { m: self, regs, labels };
        for l in &ll {
            if let Some(n) = lab(l) { cur = px.labels[&n] as usize; continue; }
            let i = px.inst(l);
            blocks[cur].push(i);
        }
        Func { name: n.into(), params, nregs: px.regs.len(), blocks, rty }
    }
}

struct P<'m, 'a> { m: &'m Module<'a>, regs: HashMap<String, u32>, labels: HashMap<String, u32> }

const BINS: [&str; 18] = ["add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"];
const CASTS: [&str; 14] = ["zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "ptrtoaddr", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc"];
const PREDS: [&str; 10] = ["eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"];

impl<'m, 'a> P<'m, 'a> {
    fn reg(&mut self, n: String) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n).or_insert(k) }
    fn opd(&mut self, lx: &mut Lx, ty: &Ty) -> Opd {
        if lx.eat(b'%') { let n = lx.name(); return Opd::Reg(self.reg(n)); }
        Opd::C(lx.cst(ty))
    }
    fn label(&mut self, lx: &mut Lx) -> u32 {
        assert!(lx.kw("label"));
        lx.expect(b'%');
        let n = lx.name();
        *self.labels.get(&n).unwrap_or_else(|| panic!("label {}", n))
    }
    fn inst(&mut self, l: &str) -> Inst {
        let _ = &self.m;
        let mut lx = Lx::new(l);
        let mut dst = None;
        if lx.peek() == b'%' {
            lx.p += 1;
            let n = lx.name();
            dst = Some(self.reg(n));
            lx.expect(b'=');
        }
        let mut op = lx.word();
        if matches!(op.as_str(), "tail" | "musttail" | "notail") { op = lx.word(); }
        let d = dst.unwrap_or(0);
        if let Some(b) = BINS.iter().find(|b| **b == op) {
            while matches!(lx.peek_word().as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { lx.word(); }
            let ty = lx.ty();
            let a = self.opd(&mut lx, &ty);
            lx.expect(b',');
            let bb = self.opd(&mut lx, &ty);
            return Inst::Bin { dst: d, op: b, ty, a, b: bb };
        }
        if let Some(c) = CASTS.iter().find(|b| **b == op) {
            while matches!(lx.peek_word().as_str(), "nuw" | "nsw" | "nneg") { lx.word(); }
            let from = lx.ty();
            let a = self.opd(&mut lx, &from);
            assert!(lx.kw("to"));
            let to = lx.ty();
            return Inst::Cast { dst: d, op: c, from, a, to };
        }
        match op.as_str() {
            "fneg" => {
                while matches!(lx.peek_word().as_str(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { lx.word(); }
                let ty = lx.ty();
                let a = self.opd(&mut lx, &ty);
                let w = if let Ty::Float(w) = ty { w } else { 64 };
                return Inst::Bin { dst: d, op: "xor", ty, a, b: Opd::C(Cst::Int(1u128 << (w - 1))) };
            }
            "alloca" => {
                lx.kw("inalloca");
                let ty = lx.ty();
                let mut n = Opd::C(Cst::Int(1));
                let mut align = 1;
                while lx.eat(b',') {
                    if lx.peek_word() == "align" { lx.word(); align = lx.uint(); }
                    else if lx.peek_word() == "addrspace" || lx.peek() == b'!' { break; }
                    else { let t = lx.ty(); n = self.opd(&mut lx, &t); }
                }
                Inst::Alloca { dst: d, ty, n, align }
            }
            "load" => {
                let mut atomic = false;
                while matches!(lx.peek_word().as_str(), "atomic" | "volatile") { atomic |= lx.word() == "atomic"; }
                let ty = lx.ty();
                lx.expect(b',');
                let pt = lx.ty();
                let p = self.opd(&mut lx, &pt);
                Inst::Load { dst: d, ty, p, atomic }
            }
            "store" => {
                let mut atomic = false;
                while matches!(lx.peek_word().as_str(), "atomic" | "volatile") { atomic |= lx.word() == "atomic"; }
                let ty = lx.ty();
                let v = self.opd(&mut lx, &ty);
                lx.expect(b',');
                let pt = lx.ty();
                let p = self.opd(&mut lx, &pt);
                Inst::Store { ty, v, p, atomic }
            }
            "getelementptr" => {
                while matches!(lx.peek_word().as_str(), "inbounds" | "nuw" | "nusw" | "inrange") { lx.word(); }
                let ty = lx.ty();
                lx.expect(b',');
                let pt = lx.ty();
                let base = self.opd(&mut lx, &pt);
                let mut idx = vec![];
                while lx.eat(b',') { if lx.peek() == b'!' { break; } let t = lx.ty(); let o = self.opd(&mut lx, &t); idx.push((t, o)); }
                if matches!(pt, Ty::Vec(..)) { return Inst::Bad(l.to_string()); }
                Inst::Gep { dst: d, ty, base, idx }
            }
            "icmp" => {
                lx.kw("samesign");
                let pw = lx.word();
                let pred = PREDS.iter().find(|p| **p == pw).unwrap();
                let ty = lx.ty();
                let a = self.opd(&mut lx, &ty);
                lx.expect(b',');
                let b = self.opd(&mut lx, &ty);
                Inst::Icmp { dst: d, pred, ty, a, b }
            }
            "fcmp" => {
                while matches!(lx.peek_word().as_str(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { lx.word(); }
                let pred = lx.word();
                let ty = lx.ty();
                let a = self.opd(&mut lx, &ty);
                lx.expect(b',');
                let b = self.opd(&mut lx, &ty);
                Inst::Fcmp { dst: d, pred, ty, a, b }
            }
            "select" => {
                lx.attrs();
                let cty = lx.ty();
                let c = self.opd(&mut lx, &cty);
                lx.expect(b',');
                let ty = lx.ty();
                let a = self.opd(&mut lx, &ty);
                lx.expect(b',');
                let ty = lx.ty();
                let b = self.opd(&mut lx, &ty);
                Inst::Select { dst: d, cty, c, ty, a, b }
            }
            "phi" => {
                lx.attrs();
                let ty = lx.ty();
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let v = self.opd(&mut lx, &ty);
                    lx.expect(b',');
                    lx.expect(b'%');
                    let n = lx.name();
                    lx.expect(b']');
                    inc.push((v, self.labels[&n]));
                    if !lx.eat(b',') || lx.peek() == b'!' { break; }
                }
                Inst::Phi { dst: d, ty, inc }
            }
            "br" => {
                if lx.peek_word() == "label" { let t = self.label(&mut lx); return Inst::Jmp { t }; }
                let t = lx.ty();
                let c = self.opd(&mut lx, &t);
                lx.expect(b',');
                let t = self.label(&mut lx);
                lx.expect(b',');
                let f = self.label(&mut lx);
                Inst::Br { c, t, f }
            }
            "switch" => {
                let ty = lx.ty();
                let v = self.opd(&mut lx, &ty);
                lx.expect(b',');
                let def = self.label(&mut lx);
                lx.expect(b'[');
                let mut cases = vec![];
                while !lx.eat(b']') {
                    let t = lx.ty();
                    let w = if let Ty::Int(w) = t { w } else { 64 };
                    if let Cst::Int(k) = lx.cst(&t) {
                        lx.expect(b',');
                        let b = self.label(&mut lx);
                        cases.push((k & crate::expr::mask(w), b));
                    }
                }
                Inst::Switch { ty, v, def, cases }
            }
            "call" | "invoke" => {
                lx.attrs();
                if lx.peek_word() == "cc" { lx.word(); }
                lx.attrs();
                let rty = lx.ty();
                lx.attrs();
                if lx.peek_word() == "asm" { return if l.contains("call void asm sideeffect \"\",") { Inst::Fence } else { Inst::Bad(l.to_string()) }; }
                let f = self.opd(&mut lx, &Ty::Ptr);
                lx.expect(b'(');
                let mut args = vec![];
                if !lx.eat(b')') {
                    loop {
                        let t = lx.ty();
                        if t == Ty::Other {
                            // metadata operand: skip to matching end
                            let mut dpt = 0;
                            while lx.p < lx.s.len() { let c = lx.s[lx.p]; if c == b'(' { dpt += 1 } if c == b')' { if dpt == 0 { break } dpt -= 1 } if c == b',' && dpt == 0 { break } lx.p += 1; }
                            args.push((t, Opd::C(Cst::Undef)));
                        } else {
                            lx.attrs();
                            let o = self.opd(&mut lx, &t);
                            args.push((t, o));
                        }
                        if !lx.eat(b',') { break; }
                    }
                    lx.expect(b')');
                }
                let mut cont = None;
                if op == "invoke" {
                    let r = lx.rest();
                    let k = r.find("to label %").expect("invoke target");
                    let mut l2 = Lx::new(&r[k + 10..]);
                    cont = Some(self.labels[&l2.name()]);
                }
                Inst::Call { dst, rty, f, args, cont }
            }
            "ret" => {
                let ty = lx.ty();
                if ty == Ty::Void { return Inst::Ret { ty, v: None }; }
                let v = self.opd(&mut lx, &ty);
                Inst::Ret { ty, v: Some(v) }
            }
            "unreachable" => Inst::Unreachable,
            "fence" => Inst::Fence,
            "extractvalue" => {
                let aty = lx.ty();
                let a = self.opd(&mut lx, &aty);
                let mut idx = vec![];
                while lx.eat(b',') { if lx.peek() == b'!' { break; } idx.push(lx.uint() as u32); }
                Inst::ExtractVal { dst: d, a, aty, idx }
            }
            "insertvalue" => {
                let aty = lx.ty();
                let a = self.opd(&mut lx, &aty);
                lx.expect(b',');
                let vty = lx.ty();
                let v = self.opd(&mut lx, &vty);
                let mut idx = vec![];
                while lx.eat(b',') { if lx.peek() == b'!' { break; } idx.push(lx.uint() as u32); }
                Inst::InsertVal { dst: d, a, aty, vty, v, idx }
            }
            "freeze" => { let ty = lx.ty(); let a = self.opd(&mut lx, &ty); Inst::Freeze { dst: d, ty, a } }
            "atomicrmw" => {
                lx.kw("volatile");
                let o = lx.word();
                let pt = lx.ty();
                let p = self.opd(&mut lx, &pt);
                lx.expect(b',');
                let ty = lx.ty();
                let v = self.opd(&mut lx, &ty);
                Inst::Rmw { dst: d, op: o, p, ty, v }
            }
            "cmpxchg" => {
                while matches!(lx.peek_word().as_str(), "weak" | "volatile") { lx.word(); }
                let pt = lx.ty();
                let p = self.opd(&mut lx, &pt);
                lx.expect(b',');
                let ty = lx.ty();
                let c = self.opd(&mut lx, &ty);
                lx.expect(b',');
                let ty = lx.ty();
                let n = self.opd(&mut lx, &ty);
                Inst::CmpXchg { dst: d, p, ty, c, n }
            }
            "extractelement" => {
                let vty = lx.ty();
                let v = self.opd(&mut lx, &vty);
                lx.expect(b',');
                let t = lx.ty();
                let i = self.opd(&mut lx, &t);
                Inst::ExtractElt { dst: d, vty, v, i }
            }
            "insertelement" => {
                let vty = lx.ty();
                let v = self.opd(&mut lx, &vty);
                lx.expect(b',');
                let ety = lx.ty();
                let e = self.opd(&mut lx, &ety);
                lx.expect(b',');
                let t = lx.ty();
                let i = self.opd(&mut lx, &t);
                Inst::InsertElt { dst: d, vty, v, ety, e, i }
            }
            "shufflevector" => {
                let vty = lx.ty();
                let a = self.opd(&mut lx, &vty);
                lx.expect(b',');
                let t = lx.ty();
                let b = self.opd(&mut lx, &t);
                lx.expect(b',');
                let mty = lx.ty();
                let m = self.opd(&mut lx, &mty);
                Inst::Shuffle { dst: d, vty, a, b, mty, m }
            }
            _ => Inst::Bad(l.to_string()),
        }
    }
}
