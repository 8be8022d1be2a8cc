//! Native replay of a counterexample: replay FILE
//! FILE: first line "harness NAME", then "param NAME VALUE" and "draw LABEL HEX" lines (labels without spaces).
use harness::vk;

static mut CLOCK: Option<(i64, i64)> = None;
#[no_mangle]
pub extern "C" fn vk_shim_set_clock(s: i64, n: i64) { unsafe { CLOCK = Some((s, n)) } }
extern "C" { fn syscall(n: i64, a: i64, b: *mut i64) -> i64; }
/// The process' own clock, so that a replay can fix what the system time is.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    if id == 0 { if let Some((s, n)) = CLOCK { *ts = s; *ts.add(1) = n; return 0; } }
    syscall(228, id as i64, ts) as i32
}

fn main() {
    let f = std::env::args().nth(1).expect("replay FILE");
    let text = std::fs::read_to_string(f).expect("replay file");
    let mut name = String::new();
    let mut params = std::collections::HashMap::new();
    {
        let mut d = vk::DRAWS.lock().unwrap();
        for l in text.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] {
                "harness" => name = w[1].to_string(),
                "param" => { params.insert(w[1].to_string(), w[2].parse::<u64>().unwrap()); }
                "draw" => { let h = w.get(2).copied().unwrap_or(""); d.push_back((w[1].to_string(), (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect())); }
                _ => {}
            }
        }
    }
    *vk::PARAMS.lock().unwrap() = Some(params);
    let h = harness::tables().into_iter().find(|(n, _)| *n == name).expect("no such harness").1;
    h();
    println!("REPLAY-HELD");
}
