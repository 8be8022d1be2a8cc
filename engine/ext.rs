//! Calls: harness API, LLVM intrinsics, allocator and libc models, and the ideal models of external crates.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

impl<'a> Engine<'a> {
    pub fn ret(&mut self, st: &mut State, dst: Option<u32>, cont: Option<u32>, v: Val) -> R<()> {
        let cur = st.cur;
        {
            let f = st.threads[cur].frames.last_mut().unwrap();
            if let Some(d) = dst { f.regs[d as usize] = v; }
        }
        match cont {
            Some(c) => { self.goto(st, c); }
            None => { st.threads[cur].frames.last_mut().unwrap().ip += 1; }
        }
        Ok(())
    }
    pub fn goto(&mut self, st: &mut State, t: u32) {
        let cur = st.cur;
        let f = st.threads[cur].frames.last_mut().unwrap();
        f.prev = f.bb;
        f.bb = t;
        f.ip = 0;
        let func = f.f.clone();
        let prev = f.prev;
        let mut vals = vec![];
        for i in func.blocks[t as usize].iter() {
            if let Inst::Phi { dst, ty, inc } = i {
                let (o, _) = inc.iter().find(|(_, b)| *b == prev).expect("phi");
                let v = self.opd(st, o, ty);
                vals.push((*dst, v));
            } else { break; }
        }
        let n = vals.len();
        let f = st.threads[cur].frames.last_mut().unwrap();
        for (d, v) in vals { f.regs[d as usize] = v; }
        f.ip = n;
    }
    fn text(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let a = lo64(self.concrete(st, p, "string address")?);
        let l = lo64(self.concrete(st, n, "string length")?);
        let b = self.read(st, a, l)?;
        Ok(b.iter().map(|x| if *x < 256 { *x as u8 as char } else { '?' }).collect())
    }
    pub fn draw(&mut self, st: &mut State, label: &str, n: u64) -> Vec<u32> {
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n {
            let key = (format!("{}#{}", label, st.ndraw), i as u32);
            let e = match self.symcache.get(&key) { Some(e) => *e, None => { let e = self.ar.fresh(format!("{}#{}[{}]", label, st.ndraw, i), 8); self.symcache.insert(key, e); e } };
            v.push(e + SBASE);
        }
        st.ndraw += 1;
        v
    }
    pub fn bytes_e(&mut self, st: &State, b: &[u32]) -> Vec<EId> { b.iter().map(|x| { let v = self.byte_val(st, *x); self.e(&v, 8) }).collect() }
    /// Result of an uninterpreted function over byte strings, as `n` bytes.
    pub fn uf_bytes(&mut self, st: &State, name: &str, args: &[&[u32]], n: u64) -> Vec<u32> {
        let mut ev = vec![];
        for a in args { ev.extend(self.bytes_e(st, a)); }
        let nm = format!("{}_{}", name, args.iter().map(|a| a.len().to_string()).collect::<Vec<_>>().join("_"));
        // one application per 16-byte chunk keeps every value within 128 bits
        let mut out = vec![];
        let mut k = 0;
        while (k as u64) < n {
            let m = (n - k as u64).min(16);
            let e = self.ar.uf(&format!("{}_{}", nm, k), &ev, 8 * m as u32);
            for i in 0..m { let x = self.ar.extract(e, 8 * i as u32, 8); let v = self.v(x); let v = self.subst(st, v); out.push(self.val_byte(&v)); }
            k += m as usize;
        }
        out
    }
    fn cmp_bytes(&mut self, st: &State, a: &[u32], b: &[u32]) -> Val {
        // equality of two byte strings as a 1-bit value
        let mut acc = Val::C(1);
        for i in 0..a.len() {
            if a[i] == b[i] { continue; }
            let (x, y) = (self.byte_val(st, a[i]), self.byte_val(st, b[i]));
            let e = self.icmp("eq", &x, &y, 8);
            if let Val::C(0) = e { return Val::C(0); }
            acc = self.bin(Op::And, &acc, &e, 1);
        }
        acc
    }
    /// a symbolic size with many possible values (which need not be told apart), none of them huge
    fn open_size(&mut self, st: &mut State, v: &Val) -> R<Option<EId>> {
        let e = match self.subst(st, v.clone()) { Val::S(e) => e, _ => return Ok(None) };
        let k = self.ar.cst(256, 64);
        let big = self.ar.bin(Op::Ult, k, e);
        if self.sat(st, big)?.is_none() { return Ok(None); }
        let k = self.ar.cst(1 << 32, 64);
        let huge = self.ar.bin(Op::Ult, k, e);
        Ok(if self.sat(st, huge)?.is_some() { None } else { Some(e) })
    }
    pub fn c64(&mut self, st: &mut State, v: &Val, w: &str) -> R<u64> { Ok(lo64(self.concrete(st, v, w)?)) }

    pub fn call(&mut self, st: &mut State, name: &str, a: Vec<Val>, at: &[(Ty, Opd)], rty: &Ty, dst: Option<u32>, cont: Option<u32>) -> R<()> {
        let resolved;
        let name: &str = if let Some(t) = self.m.aliases.get(name) { resolved = t.clone(); &resolved } else { name };
        let kind = match self.sites.get(name) { Some(k) => *k, None => { let k = classify(name); self.sites.insert(name.into(), k); k } };
        if kind == 0 {
            let mut ov = self.overrides.get(name).cloned();
            if ov.as_deref() == Some("ov_utf8") {
                // concrete bytes are validated by the real code
                let k = a.len();
                let (p, l) = (self.c64(st, &a[k - 2], "utf8")?, self.c64(st, &a[k - 1], "utf8")?);
                let b = if l == 0 { vec![] } else { self.read(st, p, l)? };
                let mut conc = true;
                for x in b { if !matches!(self.byte_val(st, x), Val::C(_)) { conc = false; break; } }
                if conc { ov = None; }
            }
            if let Some(o) = ov {
                self.stubs.insert(format!("{} -> {}", name, o));
                let cur = st.cur;
                return self.push_frame(st, cur, &o, a, dst, cont);
            }
            if self.m.fsrc.contains_key(name) { let cur = st.cur; return self.push_frame(st, cur, name, a, dst, cont); }
            return Err(Stop::Unsup(format!("external function {}", name)));
        }
        if kind == 1 { return self.intrinsic(st, name, a, at, rty, dst, cont); }
        if kind == 3 { self.stubs.insert(name.to_string()); }
        if kind == 4 { return Err(Stop::Panic(name.to_string())); }
        if kind == 5 { return self.crypto(st, name, a, dst, cont); }
        let n = short(name);
        match n {
            "vk_any" => {
                let p = self.c64(st, &a[0], "vk_any")?;
                let len = self.c64(st, &a[1], "vk_any")?;
                let l = self.text(st, &a[2], &a[3])?;
                let b = self.draw(st, &l, len);
                self.write(st, p, &b)?;
                st.draws.push(Draw { label: l, bytes: b });
                self.ret(st, dst, cont, Val::U)
            }
            "vk_assume" => {
                match &a[0] {
                    Val::C(0) => return Err(Stop::Infeasible),
                    Val::C(_) => {}
                    Val::S(e) => match self.sat(st, *e)? { None => return Err(Stop::Infeasible), Some(m) => { self.assume(st, *e); let mm = Rc::make_mut(&mut st.model); for (k, v) in m { mm.insert(k, v); } } },
                    _ => return Err(Stop::Unsup("assume of undefined".into())),
                }
                self.ret(st, dst, cont, Val::U)
            }
            "vk_assert" => {
                self.asserts += 1;
                match &a[0] {
                    Val::C(0) => { let m = self.text(st, &a[1], &a[2])?; return Err(Stop::Fail(m)); }
                    Val::C(_) => {}
                    Val::S(e) => {
                        self.assert_queries += 1;
                        let ne = self.ar.not1(*e);
                        if let Some(m) = self.sat(st, ne)? {
                            let t = self.text(st, &a[1], &a[2])?;
                            let mut o = st.clone();
                            let mm = Rc::make_mut(&mut o.model);
                            for (k, v) in m { mm.insert(k, v); }
                            let real = self.fail(&o, &t, Some(ne));
                            if !real { self.assume(st, *e); return self.ret(st, dst, cont, Val::U); }
                            if self.violations.len() >= self.max_viol { return Err(Stop::Infeasible); }
                            match self.sat(st, *e)? { None => return Err(Stop::Infeasible), Some(m) => { let mm = Rc::make_mut(&mut st.model); for (k, v) in m { mm.insert(k, v); } } }
                        }
                        self.assume(st, *e);
                    }
                    _ => return Err(Stop::Unsup("assert of undefined".into())),
                }
                self.ret(st, dst, cont, Val::U)
            }
            "vk_cover" => { let m = self.text(st, &a[0], &a[1])?; Rc::make_mut(&mut st.covers).insert(m); self.ret(st, dst, cont, Val::U) }
            "vk_uf" => {
                // (name, name_len, in, in_len, out, out_len): out = uninterpreted function of the input bytes
                let nm = self.text(st, &a[0], &a[1])?;
                let (p, l) = (self.c64(st, &a[2], "uf")?, self.c64(st, &a[3], "uf")?);
                let (q, m) = (self.c64(st, &a[4], "uf")?, self.c64(st, &a[5], "uf")?);
                let b = self.read(st, p, l)?;
                let o = self.uf_bytes(st, &format!("vk_{}", nm), &[&b], m);
                if nm.starts_with("inj") {
                    let ins = self.bytes_e(st, &b);
                    let v = self.join(st, &o[..16]);
                    let ve = self.e(&v, 128);
                    self.injective(st, 3, ins, ve)?;
                }
                self.write(st, q, &o)?;
                self.ret(st, dst, cont, Val::U)
            }
            "vk_concrete" => { let v = self.concrete(st, &a[0], "vk_concrete")?; self.ret(st, dst, cont, Val::C(v)) }
            "vk_possible" => {
                // can the condition be true at this point? (an undefined one can)
                let v = match &a[0] { Val::C(v) => *v & 1, Val::S(e) => self.sat(st, *e)?.is_some() as u128, _ => 1 };
                self.ret(st, dst, cont, Val::C(v))
            }
            "vk_is_symbolic" => self.ret(st, dst, cont, Val::C(1)),
            "vk_param" => { let m = self.text(st, &a[0], &a[1])?; let d = self.c64(st, &a[2], "param")?; let v = self.params.get(&m).copied().unwrap_or(d); self.ret(st, dst, cont, Val::C(v as u128)) }
            "vk_set_clock" => {
                // (secs: u64 as i64, nanos: u32): fixes what the system clock returns from now on
                let base = self.gclock(st);
                let b = self.split(&a[0], 8);
                self.write(st, base, &b)?;
                let b = self.split(&a[1], 4);
                self.write(st, base + 8, &b)?;
                self.ret(st, dst, cont, Val::U)
            }
            "vk_log" => { if self.verbose { let m = self.text(st, &a[0], &a[1])?; eprintln!("LOG {} {:?} {}", m, a[2], if let Val::S(e) = a[2] { format!("{:?}", self.ar.nodes[e as usize]) } else { String::new() }); } self.ret(st, dst, cont, Val::U) }
            "vk_spawn" => {
                // (fn(*mut u8), data) -> thread id
                let f = self.c64(st, &a[0], "thread function")?;
                let nm = match self.faddr_rev.get(&f) { Some(n) => n.clone(), None => return Err(Stop::Mem("spawn of non-function".into())) };
                let id = st.threads.len();
                st.threads.push(Thread { frames: vec![], wait: None, done: false, last: (0, 0, 0) });
                self.push_frame(st, id, &nm, vec![a[1].clone()], None, None)?;
                self.ret(st, dst, cont, Val::C(id as u128))
            }
            "vk_join" => {
                let id = self.c64(st, &a[0], "thread id")? as usize;
                if !st.threads[id].done {
                    // busy: let another thread run, re-execute the join later
                    let cur = st.cur;
                    let run: Vec<usize> = (0..st.threads.len()).filter(|&i| i != cur && !st.threads[i].done && st.threads[i].wait.is_none()).collect();
                    if run.is_empty() { return Err(Stop::Fail("deadlock: joined thread can never finish".into())); }
                    for &t in run.iter().skip(1) { let mut o = st.clone(); o.cur = t; o.sched.push(t as u8); self.forks += 1; self.work.push(o); }
                    st.cur = run[0];
                    st.sched.push(run[0] as u8);
                    return Ok(());
                }
                self.ret(st, dst, cont, Val::U)
            }
            "__rust_no_alloc_shim_is_unstable_v2" => self.ret(st, dst, cont, Val::U),
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let al = self.c64(st, &a[1], "alignment")?;
                if n == "__rust_alloc" { if let Some(e) = self.open_size(st, &a[0])? { let p = self.alloc_lazy(st, e, al); return self.ret(st, dst, cont, Val::C(p as u128)); } }
                let s = self.c64(st, &a[0], "allocation size")?;
                if s > 1 << 26 { return Err(Stop::Unsup(format!("allocation of {} bytes", s))); }
                let p = self.alloc(st, s, al, if n == "__rust_alloc" { UNDEF } else { 0 }, true);
                self.ret(st, dst, cont, Val::C(p as u128))
            }
            "malloc" => { let s = self.c64(st, &a[0], "allocation size")?; let p = self.alloc(st, s, 16, UNDEF, true); self.ret(st, dst, cont, Val::C(p as u128)) }
            "__rust_dealloc" | "free" => {
                let p = self.c64(st, &a[0], "free")?;
                if p != 0 { match st.mem.get(&p) { Some(o) if o.heap => { st.mem.remove(&p); } _ => return Err(Stop::Mem(format!("free of invalid pointer {:#x}", p))) } }
                self.ret(st, dst, cont, Val::U)
            }
            "__rust_realloc" => {
                let p = self.c64(st, &a[0], "realloc")?;
                let al = self.c64(st, &a[2], "alignment")?;
                if let Some(e) = self.open_size(st, &a[3])? {
                    let old = match st.mem.remove(&p) { Some(o) if o.heap => o, _ => return Err(Stop::Mem(format!("realloc of invalid pointer {:#x}", p))) };
                    let q = self.alloc_lazy(st, e, al);
                    Rc::make_mut(st.mem.get_mut(&q).unwrap()).data = old.data.clone();
                    return self.ret(st, dst, cont, Val::C(q as u128));
                }
                let ns = self.c64(st, &a[3], "allocation size")?;
                if ns > 1 << 26 { return Err(Stop::Unsup(format!("allocation of {} bytes", ns))); }
                let old = match st.mem.remove(&p) { Some(o) if o.heap => o, _ => return Err(Stop::Mem(format!("realloc of invalid pointer {:#x}", p))) };
                let q = self.alloc(st, ns, al, UNDEF, true);
                let k = old.data.len().min(ns as usize);
                Rc::make_mut(st.mem.get_mut(&q).unwrap()).data[..k].copy_from_slice(&old.data[..k]);
                self.ret(st, dst, cont, Val::C(q as u128))
            }
            "memcpy" | "memmove" => { self.memcpy(st, &a[0], &a[1], &a[2])?; let v = a[0].clone(); self.ret(st, dst, cont, v) }
            "memset" => { let c = self.trunc(&a[1], 32, 8); self.memset(st, &a[0], &c, &a[2])?; let v = a[0].clone(); self.ret(st, dst, cont, v) }
            "bcmp" | "memcmp" => {
                let l = self.c64(st, &a[2], "memcmp length")?;
                let (p, q) = (self.c64(st, &a[0], "memcmp")?, self.c64(st, &a[1], "memcmp")?);
                let (x, y) = (self.read(st, p, l)?, self.read(st, q, l)?);
                let r = if n == "bcmp" { let e = self.cmp_bytes(st, &x, &y); let ne = self.not(&e); self.zext(&ne, 32) } else {
                    let mut acc = Val::C(0);
                    for i in (0..l as usize).rev() {
                        let (u, v) = (self.byte_val(st, x[i]), self.byte_val(st, y[i]));
                        let lt = self.bin(Op::Ult, &u, &v, 8);
                        let eq = self.icmp("eq", &u, &v, 8);
                        let s = match lt { Val::C(k) => Val::C(if k != 0 { 0xffff_ffff } else { 1 }), Val::S(e) => self.ite(e, &Val::C(0xffff_ffff), &Val::C(1), &Ty::Int(32)), _ => return Err(Stop::Unsup("memcmp".into())) };
                        acc = match eq { Val::C(k) => if k != 0 { acc } else { s }, Val::S(e) => self.ite(e, &acc, &s, &Ty::Int(32)), _ => return Err(Stop::Unsup("memcmp".into())) };
                    }
                    acc
                };
                self.ret(st, dst, cont, r)
            }
            "strlen" => {
                let p = self.c64(st, &a[0], "strlen")?;
                let mut k = 0;
                loop { let b = self.read(st, p + k, 1)?; if b[0] == 0 { break; } if b[0] >= 256 { return Err(Stop::Unsup("strlen symbolic".into())); } k += 1; }
                self.ret(st, dst, cont, Val::C(k as u128))
            }
            "clock_nanosleep" | "nanosleep" | "sched_yield" | "usleep" => self.ret(st, dst, cont, Val::C(0)),
            "getenv" => self.ret(st, dst, cont, Val::C(0)),
            "__cxa_thread_atexit_impl" => self.ret(st, dst, cont, Val::C(0)), // destructors of thread-locals are not run
            // output of the process goes nowhere
            "write" if matches!(a[0], Val::C(1) | Val::C(2)) => { let n = a[2].clone(); self.ret(st, dst, cont, n) }
            "clock_gettime" => {
                let p = self.c64(st, &a[1], "clock_gettime")?;
                let base = self.gclock(st);
                let b = self.read(st, base, 16)?;
                self.write(st, p, &b)?;
                self.ret(st, dst, cont, Val::C(0))
            }
            "getrandom" => {
                // fresh environment bytes (not replayed): an arbitrary value per call
                let p = self.c64(st, &a[0], "getrandom")?;
                let l = self.c64(st, &a[1], "getrandom")?;
                let mut v = vec![];
                for i in 0..l { let e = self.ar.fresh(format!("rng{}[{}]", st.side, i), 8); v.push(e + SBASE); }
                st.side += 1;
                self.write(st, p, &v)?;
                self.ret(st, dst, cont, Val::C(l as u128))
            }
            "syscall" => {
                let nr = self.c64(st, &a[0], "syscall")?;
                if nr == 318 {
                    let v = vec![a[1].clone(), a[2].clone(), a[3].clone()];
                    return self.call(st, "getrandom", v, &[], rty, dst, cont);
                }
                if nr == 202 {
                    // futex(uaddr, op, val, ...)
                    let ua = self.c64(st, &a[1], "futex")?;
                    let op = self.c64(st, &a[2], "futex")? & 0x7f;
                    if op == 0 || op == 9 {
                        let v = self.load(st, &Ty::Int(32), ua)?;
                        let w = self.trunc(&a[3], 64, 32);
                        let (x, y) = (self.concrete(st, &v, "futex")?, self.concrete(st, &w, "futex")?);
                        if x != y { return self.ret(st, dst, cont, Val::C(u64::MAX as u128)); }
                        self.ret(st, dst, cont, Val::C(0))?;
                        let c = st.cur;
                        st.threads[c].wait = Some(ua);
                        return self.reschedule(st);
                    }
                    if op == 1 || op == 10 {
                        let k = self.c64(st, &a[3], "futex")?;
                        let mut woke = 0;
                        for t in st.threads.iter_mut() { if t.wait == Some(ua) && woke < k { t.wait = None; woke += 1; } }
                        return self.ret(st, dst, cont, Val::C(woke as u128));
                    }
                }
                Err(Stop::Unsup(format!("syscall {}", nr)))
            }
            "__errno_location" => { let g = self.gclock(st); self.ret(st, dst, cont, Val::C((g + 64) as u128)) }
            _ => Err(Stop::Unsup(format!("external function {}", name))),
        }
    }
    /// Scratch object holding the modelled clock (and errno).
    fn gclock(&mut self, st: &mut State) -> u64 {
        if st.clock == 0 {
            let p = self.alloc(st, 128, 16, 0, false);
            st.clock = p - 0x10_0000_0000;
            let secs = self.draw(st, "clock", 4);
            let mut b = secs;
            b.extend([0u32; 4]);
            let _ = self.write(st, p, &b);
        }
        0x10_0000_0000 + st.clock
    }
    pub fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val) -> R<()> {
        let l = self.c64(st, n, "copy length")?;
        if l == 0 { return Ok(()); }
        let (p, q) = (self.c64(st, d, "copy destination")?, self.c64(st, s, "copy source")?);
        let b = self.read(st, q, l)?;
        self.write(st, p, &b)
    }
    pub fn memset(&mut self, st: &mut State, d: &Val, c: &Val, n: &Val) -> R<()> {
        let l = self.c64(st, n, "fill length")?;
        if l == 0 { return Ok(()); }
        let p = self.c64(st, d, "fill destination")?;
        let b = self.val_byte(c);
        self.write(st, p, &vec![b; l as usize])
    }
    fn intrinsic(&mut self, st: &mut State, name: &str, a: Vec<Val>, at: &[(Ty, Opd)], rty: &Ty, dst: Option<u32>, cont: Option<u32>) -> R<()> {
        let n = &name[5..];
        let pre = |p: &str| n.starts_with(p);
        let vecelt = |t: &Ty| if let Ty::Vec(_, e) = t { Some((**e).clone()) } else { None };
        let v = if pre("lifetime") || pre("experimental.noalias") || pre("assume") || pre("dbg") || pre("donothing") || pre("prefetch") || pre("invariant") || pre("x86.sse2.pause") || pre("sideeffect") || pre("fake.use") {
            Val::U
        } else if pre("memcpy") || pre("memmove") { self.memcpy(st, &a[0], &a[1], &a[2])?; Val::U }
        else if pre("fabs.f32") { self.bin(Op::And, &a[0], &Val::C(0x7fff_ffff), 32) }
        else if pre("fabs.f64") { self.bin(Op::And, &a[0], &Val::C(0x7fff_ffff_ffff_ffff), 64) }
        else if pre("memset") { self.memset(st, &a[0], &a[1], &a[2])?; Val::U }
        else if pre("trap") || pre("ubsantrap") || pre("debugtrap") { return Err(Stop::Panic("llvm.trap".into())); }
        else if pre("expect") { a[0].clone() }
        else if pre("is.constant") { Val::C(0) }
        else if pre("threadlocal.address") {
            // one private copy per thread
            let base = self.c64(st, &a[0], "tls")?;
            if st.cur == 0 { a[0].clone() } else {
                let key = (st.cur, base);
                let p = match st.tls_base.get(&key) { Some(p) => *p, None => {
                    let sz = self.gaddr_rev.get(&base).map(|x| x.1).unwrap_or(0);
                    // fresh copy from the initial image
                    let nm = self.gaddr_rev[&base].0.clone();
                    let _ = nm;
                    let saved = st.mem.remove(&base);
                    let img = self.read(st, base, sz)?;
                    if let Some(o) = saved { st.mem.insert(base, o); }
                    let p = self.alloc(st, sz, 64, 0, false);
                    self.write(st, p, &img)?;
                    st.tls_base.insert(key, p);
                    p
                } };
                Val::C(p as u128)
            }
        }
        else if n.contains(".with.overflow") {
            let w = self.bits(&at[0].0);
            let signed = pre("s");
            let op = if n[1..].starts_with("add") { Op::Add } else if n[1..].starts_with("sub") { Op::Sub } else { Op::Mul };
            let r = self.bin(op, &a[0], &a[1], w);
            let o = if signed {
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let big = 2 * w;
                if big > 128 && op == Op::Mul && !matches!((&a[0], &a[1]), (Val::C(_), Val::C(_))) { return Err(Stop::Unsup("wide signed multiply".into())); }
                let (bx, by) = (self.ar.sext_e(x, big), self.ar.sext_e(y, big));
                let br = self.ar.bin(op, bx, by);
                let lo = self.ar.extract(br, 0, w);
                let back = self.ar.sext_e(lo, big);
                let eq = self.ar.bin(Op::Eq, br, back);
                let ne = self.ar.not1(eq);
                self.v(ne)
            } else {
                match op {
                    Op::Add => {
                        let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                        if w <= 127 && self.ar.umax(x) + self.ar.umax(y) <= mask(w) { Val::C(0) } else { self.bin(Op::Ult, &r, &a[0], w) }
                    }
                    Op::Sub => self.bin(Op::Ult, &a[0], &a[1], w),
                    _ => {
                        if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) { Val::C(match x.checked_mul(*y) { Some(p) => (p > mask(w)) as u128, None => 1 }) }
                        else if let (x, Val::C(k)) | (Val::C(k), x) = (&a[0], &a[1]) {
                            if *k == 0 { Val::C(0) } else { let lim = Val::C(mask(w) / *k); let x = x.clone(); self.bin(Op::Ult, &lim, &x, w) }
                        } else {
                            let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                            let (bx, by) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w));
                            let br = self.ar.bin(Op::Mul, bx, by);
                            let hi = self.ar.extract(br, w, w);
                            let z = self.ar.cst(0, w);
                            let eq = self.ar.bin(Op::Eq, hi, z);
                            let ne = self.ar.not1(eq);
                            self.v(ne)
                        }
                    }
                }
            };
            Val::A(Rc::new(vec![r, o]))
        } else {
            // lane-wise scalar intrinsics
            if n.starts_with("vector.reduce.") {
                let et = vecelt(&at[0].0).ok_or(Stop::Unsup(name.to_string()))?;
                let w = self.bits(&et);
                let xs = if let Val::A(x) = &a[0] { x.clone() } else { return Err(Stop::Unsup(name.to_string())) };
                let op = if n.contains(".or.") { Op::Or } else if n.contains(".and.") { Op::And } else if n.contains(".add.") { Op::Add } else if n.contains(".xor.") { Op::Xor } else { return Err(Stop::Unsup(name.to_string())) };
                let mut acc = xs[0].clone();
                for k in xs.iter().skip(1) { acc = self.bin(op, &acc, k, w); }
                return self.ret(st, dst, cont, acc);
            }
            if let Some(et) = vecelt(rty) {
                let w = self.bits(&et);
                let len = if let Val::A(x) = &a[0] { x.len() } else { 0 };
                let mut r = vec![];
                for i in 0..len {
                    let args: Vec<Val> = a.iter().map(|x| if let Val::A(v) = x { v[i].clone() } else { x.clone() }).collect();
                    r.push(self.scalar_intr(st, n, &args, w)?);
                }
                Val::A(Rc::new(r))
            } else {
                let w = if at.is_empty() { 64 } else { self.bits(&at[0].0) };
                let r = self.scalar_intr(st, n, &a, w)?;
                let rw = self.bits(rty);
                let _ = rw;
                r
            }
        };
        self.ret(st, dst, cont, v)
    }
    fn pick(&mut self, c: Val, a: &Val, b: &Val, w: u32) -> Val { match c { Val::C(k) => if k != 0 { a.clone() } else { b.clone() }, Val::S(e) => self.ite(e, a, b, &Ty::Int(w)), _ => Val::U } }
    fn scalar_intr(&mut self, _st: &mut State, n: &str, a: &[Val], w: u32) -> R<Val> {
        let pre = |p: &str| n.starts_with(p);
        Ok(if pre("umax") { let c = self.bin(Op::Ult, &a[0], &a[1], w); self.pick(c, &a[1], &a[0], w) }
        else if pre("umin") { let c = self.bin(Op::Ult, &a[0], &a[1], w); self.pick(c, &a[0], &a[1], w) }
        else if pre("smax") { let c = self.bin(Op::Slt, &a[0], &a[1], w); self.pick(c, &a[1], &a[0], w) }
        else if pre("smin") { let c = self.bin(Op::Slt, &a[0], &a[1], w); self.pick(c, &a[0], &a[1], w) }
        else if pre("abs") { let z = Val::C(0); let c = self.bin(Op::Slt, &a[0], &z, w); let m = self.bin(Op::Sub, &z, &a[0], w); self.pick(c, &m, &a[0], w) }
        else if pre("usub.sat") { let c = self.bin(Op::Ult, &a[0], &a[1], w); let d = self.bin(Op::Sub, &a[0], &a[1], w); self.pick(c, &Val::C(0), &d, w) }
        else if pre("uadd.sat") { let r = self.bin(Op::Add, &a[0], &a[1], w); let c = self.bin(Op::Ult, &r, &a[0], w); self.pick(c, &Val::C(mask(w)), &r, w) }
        else if pre("fshl") || pre("fshr") {
            let k = if let Val::C(k) = a[2] { (k % w as u128) as u32 } else { return Err(Stop::Unsup("symbolic funnel shift".into())) };
            let k = if pre("fshl") { k } else { (w - k) % w };
            if k == 0 { return Ok(if pre("fshl") { a[0].clone() } else { a[1].clone() }); }
            let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
            let h = self.ar.extract(x, 0, w - k);
            let l = self.ar.extract(y, w - k, k);
            let r = self.ar.concat(h, l);
            self.v(r)
        }
        else if pre("bswap") {
            match &a[0] { Val::C(c) => { let mut r = 0u128; for i in 0..w / 8 { r |= ((c >> (8 * i)) & 0xff) << (w - 8 - 8 * i); } Val::C(r) }
                Val::S(e) => { let mut acc: Option<EId> = None; for i in 0..w / 8 { let b = self.ar.extract(*e, 8 * i, 8); acc = Some(match acc { None => b, Some(x) => self.ar.concat(x, b) }); } let r = acc.unwrap(); self.v(r) }
                _ => Val::U }
        }
        else if pre("bitreverse") { match &a[0] { Val::C(c) => { let mut r = 0u128; for i in 0..w { r |= ((c >> i) & 1) << (w - 1 - i); } Val::C(r) } _ => return Err(Stop::Unsup("bitreverse".into())) } }
        else if pre("ctpop") { match &a[0] { Val::C(c) => Val::C(c.count_ones() as u128), Val::S(e) => { let mut acc = self.ar.cst(0, w); for i in 0..w { let b = self.ar.extract(*e, i, 1); let z = self.ar.zext(b, w); acc = self.ar.bin(Op::Add, acc, z); } self.v(acc) } _ => Val::U } }
        else if pre("cttz") { match &a[0] { Val::C(c) => Val::C(if *c == 0 { w as u128 } else { c.trailing_zeros() as u128 }), Val::S(e) => { let mut acc = self.ar.cst(w as u128, w); for i in (0..w).rev() { let b = self.ar.extract(*e, i, 1); let k = self.ar.cst(i as u128, w); acc = self.ar.ite(b, k, acc); } self.v(acc) } _ => Val::U } }
        else if pre("ctlz") { match &a[0] { Val::C(c) => Val::C(if *c == 0 { w as u128 } else { (c.leading_zeros() - (128 - w)) as u128 }), Val::S(e) => { let mut acc = self.ar.cst(w as u128, w); for i in 0..w { let b = self.ar.extract(*e, i, 1); let k = self.ar.cst((w - 1 - i) as u128, w); acc = self.ar.ite(b, k, acc); } self.v(acc) } _ => Val::U } }
        else if pre("ucmp") || pre("scmp") {
            let lt = if pre("u") { Op::Ult } else { Op::Slt };
            let rw = n[5..].split('.').next().and_then(|t| t.strip_prefix('i')).and_then(|t| t.parse::<u32>().ok()).unwrap_or(8);
            let l = self.bin(lt, &a[0], &a[1], w);
            let g = self.bin(lt, &a[1], &a[0], w);
            let r = self.pick(g, &Val::C(1), &Val::C(0), rw);
            self.pick(l, &Val::C(mask(rw)), &r, rw)
        }
        else { return Err(Stop::Unsup(format!("intrinsic llvm.{}", n))) })
    }
}

pub fn short(n: &str) -> &str {
    // "_RNvCs..._7___rustc12___rust_alloc" -> "__rust_alloc"
    if let Some(p) = n.find("7___rustc") {
        let r = &n[p + 9..];
        let d = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(0);
        let r = &r[d..];
        return r.strip_prefix('_').unwrap_or(r);
    }
    n
}

/// 0 = execute, 1 = LLVM intrinsic, 2 = engine/libc model, 3 = modelled external, 4 = panic, 5 = ideal crypto model
fn classify(n: &str) -> u8 {
    if n.starts_with("llvm.") { return 1; }
    if n.contains("4core9panicking") || n.contains("rust_begin_unwind") || n == "abort" || n == "_exit" || n.contains("18handle_alloc_error") || n.contains("3std9panicking20rust_panic_with_hook") || n.contains("3std9panicking11begin_panic") || n.contains("3std7process5abort") || n.contains("17abort_internal") { return 4; }
    if n.starts_with("vk_") { return 2; }
    if n.contains("7___rustc") { return 2; }
    if crate::crypto::is_crypto(n) { return 5; }
    match n { "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen" | "malloc" | "free" => 2, "clock_gettime" | "getrandom" | "syscall" | "__errno_location" | "clock_nanosleep" | "nanosleep" | "sched_yield" | "usleep" | "getenv" | "write" | "__cxa_thread_atexit_impl" => 3, _ => 0 }
}
