mod crypto;
mod exec;
mod expr;
mod ext;
mod ir;
mod smt;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn main() {
    // engine FILE.ll HARNESS OUT.json [time=SECS] [viol=N] [verbose=1] [switches=N] [name=value ...]
    let args: Vec<String> = std::env::args().collect();
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&args[1]).expect("ll file");
    let m = ir::Module::parse(&text);
    let tparse = t0.elapsed().as_secs_f64();
    if args[2] == "--list" {
        let mut v: Vec<_> = m.fsrc.keys().filter(|k| k.starts_with("h_")).collect();
        v.sort();
        for k in v { println!("{}", k); }
        return;
    }
    let mut e = exec::Engine::new(m);
    for a in &args[4..] {
        let (k, v) = a.split_once('=').expect("name=value");
        let v: u64 = v.parse().unwrap();
        match k { "time" => e.deadline = t0 + Duration::from_secs(v), "viol" => e.max_viol = v as usize, "verbose" => e.verbose = v != 0, "switches" => e.max_switches = v as u32, "paths" => e.max_paths = v, _ => { e.params.insert(k.into(), v); } }
    }
    if !e.m.fsrc.contains_key(args[2].as_str()) { eprintln!("ENGINE-ERROR no harness {}", args[2]); std::process::exit(3); }
    e.find_overrides();
    let ent = args[2].clone();
    e.run(&ent);
    let mut o = String::new();
    o.push_str(&format!("{{\"harness\":\"{}\",\"paths\":{},\"pruned\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"assert_queries\":{},\"queries\":{},\"full_queries\":{},\"cached\":{},\"bytewise\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"slowest_s\":{:.3},\"wall_s\":{:.3},\"parse_s\":{:.3},\"solver\":\"{}\",", args[2], e.paths, e.pruned, e.forks, e.steps, e.asserts, e.assert_queries, e.smt.queries, e.smt.full, e.smt.cached, e.smt.bytewise, e.smt.sat, e.smt.unsat, e.smt.time, e.smt.slowest, t0.elapsed().as_secs_f64(), tparse, esc(&smt::z3_version())));
    o.push_str(&format!("\"covers\":[{}],", e.covers.iter().map(|c| format!("\"{}\"", esc(c))).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"inconclusive\":[{}],", e.inconclusive.iter().map(|c| format!("\"{}\"", esc(c))).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"stubs\":[{}],", e.stubs.iter().map(|c| format!("\"{}\"", esc(c))).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"functions\":[{}],", e.used.iter().map(|(c, n)| format!("[\"{}\",{}]", esc(c), n)).collect::<Vec<_>>().join(",")));
    let vs: Vec<String> = e.violations.iter().map(|v| format!("{{\"kind\":\"{}\",\"what\":\"{}\",\"stack\":[{}],\"sched\":[{}],\"draws\":[{}]}}", v.kind, esc(&v.what), v.stack.iter().map(|c| format!("\"{}\"", esc(c))).collect::<Vec<_>>().join(","), v.sched.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","), v.draws.iter().map(|(l, b)| format!("[\"{}\",\"{}\"]", esc(l), hex(b))).collect::<Vec<_>>().join(","))).collect();
    let ds = |d: &Vec<(String, Vec<u8>)>| d.iter().map(|(l, b)| format!("[\"{}\",\"{}\"]", esc(l), hex(b))).collect::<Vec<_>>().join(",");
    o.push_str(&format!("\"witnesses\":[{}],", e.witnesses.iter().map(|(c, d, s)| format!("{{\"covers\":[{}],\"sched\":[{}],\"draws\":[{}]}}", c.iter().map(|c| format!("\"{}\"", esc(c))).collect::<Vec<_>>().join(","), s.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","), ds(d))).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"violations\":[{}]}}\n", vs.join(",")));
    std::fs::write(&args[3], &o).expect("write result");
    let code = if !e.violations.is_empty() { 1 } else if !e.inconclusive.is_empty() { 3 } else { 0 };
    std::process::exit(code);
}
