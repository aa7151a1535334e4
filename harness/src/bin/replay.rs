//! Runs a harness natively on the values of a file.
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Default)]
struct Tape {
    t: [Vec<u64>; 4],
    pos: [usize; 4],
    prg: HashMap<([u64; 4], u64), u32>,
    params: Vec<u64>,
    seed: u64,
    allow: bool,
    never: Option<u32>,
    entry: String,
}
static TAPE: Mutex<Option<Tape>> = Mutex::new(None);

fn with<A>(f: impl FnOnce(&mut Tape) -> A) -> A {
    let mut g = TAPE.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().unwrap())
}
fn draw(k: usize) -> u64 {
    with(|t| {
        let i = t.pos[k];
        t.pos[k] += 1;
        t.t[k].get(i).copied().unwrap_or(0)
    })
}
fn say(s: String) {
    use std::io::Write;
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "{}", s);
    let _ = o.flush();
}

#[no_mangle]
extern "C" fn sym_u8() -> u8 {
    draw(0) as u8
}
#[no_mangle]
extern "C" fn sym_u16() -> u16 {
    draw(1) as u16
}
#[no_mangle]
extern "C" fn sym_u32() -> u32 {
    draw(2) as u32
}
#[no_mangle]
extern "C" fn sym_os_u32() -> u32 {
    draw(2) as u32
}
#[no_mangle]
extern "C" fn sym_u64() -> u64 {
    draw(3)
}
#[no_mangle]
extern "C" fn sym_assume(c: u32) {
    if c == 0 {
        say("ASSUME".into());
        std::process::exit(5)
    }
}
#[no_mangle]
extern "C" fn sym_assert(c: u32, id: u32) {
    if c == 0 {
        say(format!("FAIL {}", id));
        std::process::exit(3)
    }
}
/// the loader's functions are called again, with other arguments
#[no_mangle]
extern "C" fn sym_args(argc: i32, argv: *const *const u8, envp: *const *const u8) {
    type F = extern "C" fn(i32, *const *const u8, *const *const u8);
    extern "C" {
        static __init_array_start: F;
        static __init_array_end: F;
    }
    unsafe {
        let mut p = &raw const __init_array_start;
        let e = &raw const __init_array_end;
        while p < e {
            (*p)(argc, argv, envp);
            p = p.add(1);
        }
    }
}
#[no_mangle]
extern "C" fn sym_exists(c: u32, id: u32) {
    // the executor found that no input makes the condition true; this run is one of them
    if c == 0 && with(|t| t.never == Some(id)) {
        say(format!("FAIL {}", id));
        std::process::exit(3)
    }
}
#[no_mangle]
extern "C" fn sym_cover(_id: u32) {}
#[no_mangle]
extern "C" fn sym_observe(v: u64, id: u32) {
    say(format!("OBS {} {}", id, v));
}
#[no_mangle]
extern "C" fn sym_param(i: u32) -> u64 {
    with(|t| t.params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
extern "C" fn sym_allow_panic(b: u32) {
    with(|t| t.allow = b != 0)
}
#[no_mangle]
extern "C" fn sym_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn sym_policy(_p: u32) {}
#[no_mangle]
extern "C" fn sym_pick(i: u64) -> u64 {
    let seed = with(|t| t.seed);
    let mut x = seed.wrapping_add(i.wrapping_mul(0x9e37_79b9_7f4a_7c15)).wrapping_add(0x1234_5678_9abc_def1);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}
#[no_mangle]
unsafe extern "C" fn sym_prg_u32(seed: *const u8, index: u64) -> u32 {
    let b = std::slice::from_raw_parts(seed, 32);
    let mut k = [0u64; 4];
    for i in 0..4 {
        k[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    with(|t| match t.prg.get(&(k, index)) {
        Some(v) => *v,
        None => {
            let mut x = index.wrapping_mul(0x9e37_79b9_7f4a_7c15);
            for y in k {
                x = (x ^ y).wrapping_mul(0xff51_afd7_ed55_8ccd);
                x ^= x >> 32;
            }
            x as u32
        }
    })
}

fn main() {
    let f = std::env::args().nth(1).expect("usage: replay FILE");
    let text = std::fs::read_to_string(&f).expect("cannot read the replay file");
    let mut t = Tape { seed: 1, ..Default::default() };
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        let n = |i: usize| -> u64 { w[i].parse().unwrap() };
        match w.first().copied() {
            Some("entry") => t.entry = w[1].to_string(),
            Some("params") => t.params = (1..w.len()).map(n).collect(),
            Some("never") => t.never = Some(n(1) as u32),
            Some("seed") => t.seed = n(1),
            Some(k @ ("u8" | "u16" | "u32" | "u64")) => {
                let i = ["u8", "u16", "u32", "u64"].iter().position(|x| *x == k).unwrap();
                t.t[i] = (1..w.len()).map(n).collect()
            }
            Some("prg") => {
                t.prg.insert(([n(1), n(2), n(3), n(4)], n(5)), n(6) as u32);
            }
            Some("env") => std::env::set_var(w[1], w.get(2).copied().unwrap_or("")),
            _ => {}
        }
    }
    let name = t.entry.clone();
    *TAPE.lock().unwrap() = Some(t);
    std::panic::set_hook(Box::new(|i| {
        let allow = match TAPE.try_lock() {
            Ok(mut g) => g.as_mut().map(|t| t.allow).unwrap_or(false),
            Err(_) => false,
        };
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|x| x.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        say(format!("PANIC {:?} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default()));
        std::process::exit(if allow { 0 } else { 4 })
    }));
    let e = harness::find(&name).expect("no such harness");
    e();
    say("DONE".into());
}
