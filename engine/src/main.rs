mod access;
mod dbg;
mod exec;
mod ext;
mod imply;
mod ir;
mod mem;
mod report;
mod solve;
mod state;
mod term;

use exec::*;
use state::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::rc::Rc;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<A>(v: &[A], f: impl Fn(&A) -> String) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}
fn tapes(t: &[Vec<u128>; 4]) -> String {
    format!("[{}]", t.iter().map(|v| jl(v, |x| x.to_string())).collect::<Vec<_>>().join(","))
}
fn prg(p: &[([u64; 4], u64, u64)]) -> String {
    jl(p, |(s, i, v)| format!("[[{},{},{},{}],{},{}]", s[0], s[1], s[2], s[3], i, v))
}
fn obs(o: &[(u32, u128)]) -> String {
    jl(o, |(i, v)| format!("[{},{}]", i, v))
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    let mut pos = Vec::new();
    let mut roots = Vec::new();
    let mut files: Vec<(String, String)> = Vec::new();
    let mut i = 1;
    while i < a.len() {
        if let Some(k) = a[i].strip_prefix("--") {
            let v = a.get(i + 1).cloned().unwrap_or_default();
            if k == "root" {
                roots.push(v);
            } else if k == "file" {
                let (p, d) = v.split_once('=').unwrap();
                files.push((p.into(), d.into()));
            } else {
                opt.insert(k.into(), v);
            }
            i += 2;
        } else {
            pos.push(a[i].clone());
            i += 1;
        }
    }
    if pos.len() < 2 {
        eprintln!("usage: symir MODULE.ll ENTRY [--params 1,2] [--out F] ...");
        return 2;
    }
    let num = |k: &str, d: u64| opt.get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let t0 = Instant::now();
    let m = match ir::Mod::load(&pos[0]) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot read the module: {:?}", e);
            return 2;
        }
    };
    let tmp = opt.get("tmp").cloned().unwrap_or_else(|| {
        let d = format!("/tmp/symir.{}", std::process::id());
        d
    });
    let _ = std::fs::create_dir_all(&tmp);
    let mut c = term::Ctx::new();
    c.abs_mul = num("abs-mul", 0) != 0;
    let mut s = solve::Solver::new(tmp.clone(), num("soft-ms", 3000), num("hard-ms", 60_000));
    s.deadline = Some(t0 + Duration::from_secs(num("time", 600)));
    let entry = match m.ix.gix.get(&pos[1]) {
        Some(g) => *g,
        None => {
            eprintln!("no function {}", pos[1]);
            return 2;
        }
    };
    let params: Vec<u64> = opt
        .get("params")
        .map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(0)).collect())
        .unwrap_or_default();
    let mut e = Engine {
        m,
        c,
        s,
        ginit: Default::default(),
        params,
        tapes: Default::default(),
        prg: vec![],
        violations: vec![],
        inconclusive: vec![],
        partial: vec![],
        partial_splits: 0,
        wide_splits: Default::default(),
        covers: Default::default(),
        finals: vec![],
        nfinal: 0,
        steps: 0,
        max_steps: num("max-steps", 2_000_000_000),
        last_queries: 0,
        deadline: t0 + Duration::from_secs(num("time", 600)),
        ext: Default::default(),
        dbg_seen: vec![],
        stack: vec![],
        cur_dbg: 0,
        n_branch: 0,
        n_fork: 0,
        n_merge: 0,
        n_paths: 0,
        n_split: 0,
        n_guess: 0,
        sums: Default::default(),
        max_states: num("max-states", 20_000),
        os_bound: opt.get("os-bound").and_then(|x| x.parse().ok()),
        trace: opt.contains_key("trace"),
        max_final: num("finals", 4) as usize,
        assert_ids: Default::default(),
        funcs_run: Default::default(),
        hang: false,
        seed: num("seed", 1),
        split_cap: num("split-cap", 600) as usize,
        stub_fmt: num("stub-fmt", 1) != 0,
        rnd: Vec::new(),
        max_mb: num("max-mb", 3200),
        exists: Default::default(),
        max_viol: num("max-viol", 1) as usize,
        samples: vec![],
    };
    let mut st = State::empty();
    st.policy = num("policy", 1) as u8;
    for (p, d) in files {
        let cells = d.bytes().map(mem::Cell::c).collect::<Vec<_>>();
        Rc::make_mut(&mut st.files).insert(p.into_bytes(), Rc::new(cells));
    }
    st.model = Some(Rc::new(term::Model::new(vec![])));
    let r = e.call_func(st, entry, vec![]);
    let mut error = String::new();
    match r {
        Ok(rs) => {
            for (st, _) in rs {
                e.n_paths += 1;
                e.finish_path(&st);
            }
        }
        Err(Stop::Fatal(m)) => error = m,
        Err(Stop::End) => {}
        Err(Stop::Split(_)) => error = "split".into(),
    }
    if error.is_empty() {
        e.close_exists();
    }
    let mut o = String::new();
    let _ = write!(o, "{{\"entry\":{},\"params\":{:?},", js(&pos[1]), e.params);
    let _ = write!(o, "\"error\":{},\"hang\":{},", js(&error), e.hang);
    let _ = write!(
        o,
        "\"violations\":{},",
        jl(&e.violations, |v| format!(
            "{{\"kind\":{},\"msg\":{},\"loc\":{},\"stack\":{},\"tape\":{},\"prg\":{},\"obs\":{}}}",
            js(&v.kind),
            js(&v.msg),
            js(&v.loc),
            jl(&v.stack, |s| js(s)),
            tapes(&v.tape),
            prg(&v.prg),
            obs(&v.obs)
        ))
    );
    let _ = write!(o, "\"partial\":{},", jl(&e.partial, |s| js(s)));
    let _ = write!(o, "\"inconclusive\":{},", jl(&e.inconclusive, |s| js(s)));
    let _ = write!(
        o,
        "\"finals\":{},",
        jl(&e.finals, |v| format!("{{\"tape\":{},\"prg\":{},\"obs\":{}}}", tapes(&v.tape), prg(&v.prg), obs(&v.obs)))
    );
    let cov: Vec<u32> = e.covers.iter().copied().collect();
    let _ = write!(o, "\"covers\":{:?},", cov);
    let ids: Vec<String> = e.assert_ids.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let _ = write!(o, "\"asserts\":{{{}}},", ids.join(","));
    let enc = e.encoded(&roots);
    let ev: Vec<String> = enc.iter().map(|(k, v)| format!("{}:{:?}", js(k), v.iter().collect::<Vec<_>>())).collect();
    let _ = write!(o, "\"encoded\":{{{}}},", ev.join(","));
    let q = &e.s.st;
    let _ = write!(
        o,
        "\"stats\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"hard\":{},\"solver_s\":{:.3},\"asserts_solver\":{},\"asserts_norm\":{},\"steps\":{},\"paths\":{},\"finals\":{},\"branches\":{},\"forks\":{},\"merges\":{},\"splits\":{},\"guessed\":{},\"terms\":{},\"mulvars\":{},\"functions\":{},\"wall_s\":{:.3},\"vars\":{}}}}}",
        q.queries, q.sat, q.unsat, q.unknown, q.cached, q.hard, q.solver_us as f64 / 1e6, q.asserts_solver, q.asserts_norm,
        e.steps, e.n_paths, e.nfinal, e.n_branch, e.n_fork, e.n_merge, e.n_split, e.n_guess, e.c.nodes.len(), e.c.mulvars.len(), e.funcs_run.len(),
        t0.elapsed().as_secs_f64(), e.c.vars.len()
    );
    match opt.get("out") {
        Some(f) => std::fs::write(f, &o).unwrap(),
        None => println!("{}", o),
    }
    let _ = std::fs::remove_dir_all(&tmp);
    // leaving without running the destructors of deep structures
    use std::io::Write as _;
    let _ = std::io::stdout().flush();
    drop(std::mem::replace(&mut e.s, solve::Solver::new(String::new(), 0, 0)));
    std::process::exit(0)
}

fn main() {
    let h = std::thread::Builder::new().stack_size(3 << 30).spawn(real_main).unwrap();
    let r = h.join().unwrap_or(3);
    std::process::exit(r)
}
