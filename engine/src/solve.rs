//! SMT back ends: an incremental z3 process for path queries and a one-shot portfolio for hard ones.
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::rc::Rc;
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat(BTreeMap<u32, u128>),
    Unsat,
    Unknown,
}

struct Proc {
    child: Child,
    inp: std::process::ChildStdin,
    rx: Receiver<String>,
    defined: HashSet<T>,
    declared: HashSet<u32>,
    /// the sums of small terms, by name
    sums: HashMap<String, usize>,
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub hard: u64,
    pub solver_us: u64,
    pub asserts_solver: u64,
    pub asserts_norm: u64,
    pub assert_terms: u64,
}

pub struct Solver {
    proc_: Option<Proc>,
    /// products are arbitrary words
    opaque: bool,
    abs: Option<Box<Solver>>,
    pub st: Stats,
    cache: HashMap<Vec<T>, Res>,
    varsets: HashMap<T, Rc<Vec<u32>>>,
    pub soft_ms: u64,
    pub hard_ms: u64,
    /// nothing is asked after this point, and no question may take much longer
    pub deadline: Option<Instant>,
    pub tmp: String,
    pub log: bool,
    nfile: u64,
}

fn bv(w: u8, v: u128) -> String {
    if w == 1 {
        if v & 1 == 1 { "true".into() } else { "false".into() }
    } else {
        format!("(_ bv{} {})", v & mask(w), w)
    }
}

fn tname(c: &Ctx, t: T) -> String {
    match c.op(t) {
        Op::Const(v) => bv(c.w(t), *v),
        Op::Var(i) => format!("v{}", i),
        _ => format!("t{}", t),
    }
}
/// the name as a bit vector even when the width is 1
fn bvname(c: &Ctx, t: T) -> String {
    if c.w(t) == 1 {
        match c.op(t) {
            Op::Const(v) => format!("#b{}", v & 1),
            _ => format!("(ite {} #b1 #b0)", tname(c, t)),
        }
    } else {
        tname(c, t)
    }
}

fn mon_str(c: &Ctx, w: u8, coef: u128, f: &[T]) -> String {
    // a factor that is a small tree of constants becomes an ite
    for (i, &x) in f.iter().enumerate() {
        let n = c.n(x);
        if n.ctree && n.leaves <= 8 && n.leaves > 1 {
            let mut rest = f.to_vec();
            rest.remove(i);
            return mon_tree(c, w, coef, x, &rest);
        }
    }
    if coef == 0 {
        return bv(w, 0);
    }
    let mut s = String::new();
    if f.is_empty() {
        return bv(w, coef);
    }
    let prod = if f.len() == 1 {
        tname(c, f[0])
    } else {
        let mut s = String::from("(bvmul");
        for &x in f {
            let _ = write!(s, " {}", tname(c, x));
        }
        s.push(')');
        s
    };
    if coef & mask(w) == 1 {
        prod
    } else if coef & mask(w) == mask(w) {
        let _ = write!(s, "(bvneg {})", prod);
        s
    } else {
        let _ = write!(s, "(bvmul {} {})", bv(w, coef), prod);
        s
    }
}
fn mon_tree(c: &Ctx, w: u8, coef: u128, x: T, rest: &[T]) -> String {
    match c.op(x) {
        Op::Const(v) => mon_str(c, w, coef.wrapping_mul(*v) & mask(w), rest),
        Op::Ite(k, a, b) => {
            format!("(ite {} {} {})", tname(c, *k), mon_tree(c, w, coef, *a, rest), mon_tree(c, w, coef, *b, rest))
        }
        _ => unreachable!(),
    }
}
fn lut_str(c: &Ctx, idx: T, tab: &[u64], base: usize, bit: i32, w: u8) -> String {
    let n = 1usize << (bit + 1);
    let s = &tab[base..base + n];
    if s.iter().all(|x| *x == s[0]) {
        return bv(w, s[0] as u128);
    }
    let h = 1usize << bit;
    let hi = lut_str(c, idx, tab, base + h, bit - 1, w);
    let lo = lut_str(c, idx, tab, base, bit - 1, w);
    let cond = if c.w(idx) == 1 {
        tname(c, idx)
    } else {
        format!("(= ((_ extract {} {}) {}) #b1)", bit, bit, tname(c, idx))
    };
    format!("(ite {} {} {})", cond, hi, lo)
}

pub fn smt(c: &Ctx, t: T) -> String {
    let w = c.w(t);
    let b = w == 1;
    match c.op(t) {
        Op::Const(_) | Op::Var(_) => tname(c, t),
        Op::Poly(k, m) => {
            let mut v: Vec<String> = m.iter().map(|x| mon_str(c, w, x.coef, &x.f)).collect();
            if *k != 0 {
                v.push(bv(w, *k));
            }
            if v.len() == 1 {
                v.pop().unwrap()
            } else {
                format!("(bvadd {})", v.join(" "))
            }
        }
        Op::Concat(s) => {
            let v: Vec<String> = s.iter().map(|x| bvname(c, *x)).collect();
            format!("(concat {})", v.join(" "))
        }
        Op::Extract(x, lo) => {
            let e = format!("((_ extract {} {}) {})", *lo as u32 + w as u32 - 1, lo, bvname(c, *x));
            if b {
                format!("(= {} #b1)", e)
            } else {
                e
            }
        }
        Op::Not(a) => format!("({} {})", if b { "not" } else { "bvnot" }, tname(c, *a)),
        Op::And(x, y) => format!("({} {} {})", if b { "and" } else { "bvand" }, tname(c, *x), tname(c, *y)),
        Op::Or(x, y) => format!("({} {} {})", if b { "or" } else { "bvor" }, tname(c, *x), tname(c, *y)),
        Op::Xor(x, y) => format!("({} {} {})", if b { "xor" } else { "bvxor" }, tname(c, *x), tname(c, *y)),
        Op::Ite(k, x, y) => format!("(ite {} {} {})", tname(c, *k), tname(c, *x), tname(c, *y)),
        Op::Eq(x, y) => format!("(= {} {})", tname(c, *x), tname(c, *y)),
        Op::Ult(x, y) => format!("(bvult {} {})", bvname(c, *x), bvname(c, *y)),
        Op::Slt(x, y) => format!("(bvslt {} {})", bvname(c, *x), bvname(c, *y)),
        Op::Udiv(x, y) => format!("(bvudiv {} {})", tname(c, *x), tname(c, *y)),
        Op::Urem(x, y) => format!("(bvurem {} {})", tname(c, *x), tname(c, *y)),
        Op::Sdiv(x, y) => format!("(bvsdiv {} {})", tname(c, *x), tname(c, *y)),
        Op::Srem(x, y) => format!("(bvsrem {} {})", tname(c, *x), tname(c, *y)),
        Op::Shl(x, y) => format!("(bvshl {} {})", tname(c, *x), tname(c, *y)),
        Op::Lshr(x, y) => format!("(bvlshr {} {})", tname(c, *x), tname(c, *y)),
        Op::Ashr(x, y) => format!("(bvashr {} {})", tname(c, *x), tname(c, *y)),
        Op::Sext(x) => format!("((_ sign_extend {}) {})", w - c.w(*x), bvname(c, *x)),
        Op::Lut(i, tab) => lut_str(c, *i, tab, 0, c.w(*i) as i32 - 1, w),
    }
}

pub fn children_of(c: &Ctx, t: T) -> Vec<T> {
    match c.op(t) {
        Op::Const(_) | Op::Var(_) => vec![],
        op => children(op),
    }
}

/// a product by a constant with many bits, or of two terms
pub fn is_product(c: &Ctx, t: T) -> bool {
    let w = c.w(t);
    match c.op(t) {
        Op::Poly(_, m) => w >= 32 && m.iter().any(|m| m.f.len() > 1 || m.coef.count_ones() > 8 && (!m.coef & mask(w)).count_ones() > 8),
        _ => false,
    }
}

/// the integers between which one lies that is congruent to the term
fn srange(c: &Ctx, t: T) -> Option<(i128, i128)> {
    let n = c.n(t);
    let w = c.w(t);
    let sx = |v: u128| if w > 0 && v >> (w - 1) & 1 == 1 { v as i128 - (1i128 << w) } else { v as i128 };
    if w > 64 {
        return None;
    }
    match c.op(t) {
        Op::Const(v) => Some((sx(*v), sx(*v))),
        Op::Ite(_, a, b) if n.ctree && n.leaves <= 16 => {
            let (x, y) = (srange(c, *a)?, srange(c, *b)?);
            Some((x.0.min(y.0), x.1.max(y.1)))
        }
        _ if w > 1 && n.hi >> (w - 1) == 0 => Some((n.lo as i128, n.hi as i128)),
        _ => None,
    }
}
/// a name for that integer, the same for terms of different widths that stand for the same one
fn integer(c: &Ctx, t: T, out: &mut String) {
    let n = c.n(t);
    match c.op(t) {
        Op::Const(_) => {
            let _ = write!(out, "{}", srange(c, t).unwrap().0);
        }
        Op::Ite(k, a, b) if n.ctree => {
            let _ = write!(out, "({} ", k);
            integer(c, *a, out);
            out.push(' ');
            integer(c, *b, out);
            out.push(')');
        }
        Op::Concat(s) => {
            for x in s.iter().skip_while(|x| matches!(c.op(**x), Op::Const(0))) {
                let _ = write!(out, "z{}", x);
            }
        }
        _ => {
            let _ = write!(out, "z{}", t);
        }
    }
}
/// Several terms of a sum, each of which is much smaller than the modulus: their name, the bounds of their sum, and
/// the other terms
pub fn small_terms(c: &Ctx, t: T) -> Option<(String, i128, i128, Vec<Mon>)> {
    let w = c.w(t);
    let m = match c.op(t) {
        Op::Poly(_, m) if w >= 17 && w <= 64 && m.len() >= 3 => m,
        _ => return None,
    };
    let mut kept = Vec::new();
    let mut small = Vec::new();
    let (mut lo, mut hi) = (0i128, 0i128);
    for x in m.iter() {
        let k = x.coef & mask(w);
        let k = if k >> (w - 1) & 1 == 1 { k as i128 - (1i128 << w) } else { k as i128 };
        let mut r = Some((k, k));
        for &f in x.f.iter() {
            r = match (r, srange(c, f)) {
                (Some((a, b)), Some((d, e))) => (|| {
                    let v = [a.checked_mul(d)?, a.checked_mul(e)?, b.checked_mul(d)?, b.checked_mul(e)?];
                    Some((*v.iter().min()?, *v.iter().max()?))
                })(),
                _ => None,
            };
        }
        match r {
            Some((a, b)) if a > -(1i128 << (w - 2)) && b < 1i128 << (w - 2) => {
                lo += a;
                hi += b;
                let mut s = format!("{}", k);
                let mut fs: Vec<String> = x
                    .f
                    .iter()
                    .map(|f| {
                        let mut s = String::from("*");
                        integer(c, *f, &mut s);
                        s
                    })
                    .collect();
                fs.sort();
                s.push_str(&fs.concat());
                small.push(s);
            }
            _ => kept.push(x.clone()),
        }
    }
    if small.len() < 3 {
        return None;
    }
    small.sort();
    Some((small.join("+"), lo, hi, kept))
}

/// Append the declarations and definitions that `ts` need.
fn define(c: &Ctx, ts: &[T], out: &mut String, defined: &mut HashSet<T>, declared: &mut HashSet<u32>, mut abs: Option<&mut HashMap<String, usize>>) {
    let opaque = abs.is_some();
    // iterative post-order
    let mut st: Vec<(T, bool)> = ts.iter().map(|t| (*t, false)).collect();
    st.reverse();
    while let Some((t, done)) = st.pop() {
        if defined.contains(&t) {
            continue;
        }
        match c.op(t) {
            Op::Const(_) => continue,
            Op::Var(i) => {
                if declared.insert(*i) {
                    let w = c.w(t);
                    if w == 1 {
                        let _ = writeln!(out, "(declare-const v{} Bool)", i);
                    } else {
                        let _ = writeln!(out, "(declare-const v{} (_ BitVec {}))", i, w);
                    }
                }
                continue;
            }
            Op::Poly(k, _) if opaque && small_terms(c, t).is_some() => {
                let w = c.w(t);
                let (name, lo, hi, kept) = small_terms(c, t).unwrap();
                if !done {
                    st.push((t, true));
                    st.extend(kept.iter().flat_map(|m| m.f.iter()).filter(|x| !defined.contains(*x)).map(|x| (*x, false)));
                    continue;
                }
                let sums = abs.as_mut().unwrap();
                let next = sums.len();
                let i = *sums.entry(name).or_insert(next);
                let b = |v: i128| bv(64, v as u128 & mask(64));
                if i == next {
                    let _ = writeln!(out, "(declare-const s{} (_ BitVec 64))\n(assert (bvsle {} s{}))\n(assert (bvsle s{} {}))", i, b(lo), i, i, b(hi));
                }
                defined.insert(t);
                // the others have a power of two in common
                let z = kept.iter().map(|x| x.coef.trailing_zeros()).min().unwrap_or(0).min(w as u32 - 1) as u8;
                let mut v: Vec<String> = Vec::new();
                if z > 0 {
                    let top = w - z - 1;
                    let ms: Vec<String> = kept
                        .iter()
                        .map(|x| {
                            let mut s = format!("(bvmul {}", bv(top + 1, x.coef >> z));
                            for f in x.f.iter() {
                                let _ = write!(s, " ((_ extract {} 0) {})", top, bvname(c, *f));
                            }
                            s.push(')');
                            s
                        })
                        .collect();
                    let ms = if ms.len() == 1 { ms[0].clone() } else { format!("(bvadd {})", ms.join(" ")) };
                    v.push(if top == 0 {
                        // a single bit is still a bit vector here
                        format!("(concat {} (_ bv0 {}))", ms.replace("true", "#b1").replace("false", "#b0"), z)
                    } else {
                        format!("(concat {} (_ bv0 {}))", ms, z)
                    });
                } else {
                    v.extend(kept.iter().map(|x| mon_str(c, w, x.coef, &x.f)));
                }
                if *k != 0 {
                    v.push(bv(w, *k));
                }
                v.push(format!("((_ extract {} 0) s{})", w - 1, i));
                let _ = writeln!(out, "(define-fun t{} () (_ BitVec {}) {})", t, w, if v.len() == 1 { v.pop().unwrap() } else { format!("(bvadd {})", v.join(" ")) });
            }
            _ if opaque && is_product(c, t) => {
                defined.insert(t);
                let _ = writeln!(out, "(declare-const t{} (_ BitVec {}))", t, c.w(t));
            }
            op => {
                if !done {
                    st.push((t, true));
                    for x in children(op) {
                        if !defined.contains(&x) {
                            st.push((x, false));
                        }
                    }
                } else {
                    defined.insert(t);
                    let w = c.w(t);
                    let s = smt(c, t);
                    if w == 1 {
                        let _ = writeln!(out, "(define-fun t{} () Bool {})", t, s);
                    } else {
                        let _ = writeln!(out, "(define-fun t{} () (_ BitVec {}) {})", t, w, s);
                    }
                }
            }
        }
    }
}

fn parse_values(s: &str) -> BTreeMap<u32, u128> {
    // ((v0 #x00) (v1 true) (v2 #b0))
    let mut out = BTreeMap::new();
    let toks: Vec<&str> =
        s.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|x| !x.is_empty()).collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(n) = toks[i].strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) {
            let v = toks[i + 1];
            let val = if let Some(h) = v.strip_prefix("#x") {
                u128::from_str_radix(h, 16).unwrap_or(0)
            } else if let Some(h) = v.strip_prefix("#b") {
                u128::from_str_radix(h, 2).unwrap_or(0)
            } else if v == "true" {
                1
            } else if v == "_" {
                // (_ bvN w)
                toks.get(i + 2).and_then(|x| x.strip_prefix("bv")).and_then(|x| x.parse().ok()).unwrap_or(0)
            } else {
                0
            };
            out.insert(n, val);
        }
        i += 1;
    }
    out
}

impl Solver {
    pub fn new(tmp: String, soft_ms: u64, hard_ms: u64) -> Self {
        Solver {
            proc_: None,
            opaque: false,
            abs: None,
            st: Stats::default(),
            cache: HashMap::new(),
            varsets: HashMap::new(),
            soft_ms,
            hard_ms,
            deadline: None,
            tmp,
            log: false,
            nfile: 0,
        }
    }

    pub fn vars(&mut self, c: &Ctx, t: T) -> Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&t) {
            return v.clone();
        }
        // iterative: collect over unseen cone
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if self.varsets.contains_key(&x) {
                continue;
            }
            match c.op(x) {
                Op::Const(_) => {
                    self.varsets.insert(x, Rc::new(vec![]));
                }
                Op::Var(i) => {
                    self.varsets.insert(x, Rc::new(vec![*i]));
                }
                op => {
                    let ch = children(op);
                    if !done {
                        st.push((x, true));
                        for y in ch {
                            if !self.varsets.contains_key(&y) {
                                st.push((y, false));
                            }
                        }
                    } else {
                        let mut v: Vec<u32> = Vec::new();
                        let mut same: Option<Rc<Vec<u32>>> = None;
                        for y in &ch {
                            let s = &self.varsets[y];
                            if same.is_none() || s.len() > same.as_ref().unwrap().len() {
                                same = Some(s.clone());
                            }
                            v.extend(s.iter());
                        }
                        v.sort_unstable();
                        v.dedup();
                        let r = match same {
                            Some(s) if s.len() == v.len() => s,
                            _ => Rc::new(v),
                        };
                        self.varsets.insert(x, r);
                    }
                }
            }
        }
        self.varsets[&t].clone()
    }

    fn start(&mut self) -> std::io::Result<()> {
        let mut child = Command::new("z3-new")
            .arg("-in")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()?;
        let inp = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let r = BufReader::new(out);
            for l in r.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        let mut p = Proc { child, inp, rx, defined: HashSet::new(), declared: HashSet::new(), sums: HashMap::new() };
        let _ = p.inp.write_all(b"(set-option :produce-models true)\n");
        self.proc_ = Some(p);
        Ok(())
    }

    /// Query the conjunction of `ts`; the result of Sat covers the variables of `ts`.
    pub fn check(&mut self, c: &Ctx, ts: &[T], hard: bool) -> Res {
        let mut key: Vec<T> = ts.iter().copied().filter(|t| *t != c.tt).collect();
        key.sort_unstable();
        key.dedup();
        if key.contains(&c.ff) {
            return Res::Unsat;
        }
        if key.is_empty() {
            return Res::Sat(BTreeMap::new());
        }
        if let Some(r) = self.cache.get(&key) {
            if *r != Res::Unknown || !hard {
                self.st.cached += 1;
                return r.clone();
            }
        }
        let (s0, h0) = (self.soft_ms, self.hard_ms);
        if let Some(d) = self.deadline {
            let left = d.saturating_duration_since(Instant::now()).as_millis() as u64;
            if left == 0 {
                return Res::Unknown;
            }
            self.soft_ms = s0.min(left + 100);
            self.hard_ms = h0.min(left + 100);
        }
        self.st.queries += 1;
        let t0 = Instant::now();
        let mut r = self.incremental(c, &key);
        if r == Res::Unknown && hard {
            self.st.hard += 1;
            r = self.oneshot(c, &key);
        }
        (self.soft_ms, self.hard_ms) = (s0, h0);
        self.st.solver_us += t0.elapsed().as_micros() as u64;
        match r {
            Res::Sat(_) => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        self.cache.insert(key, r.clone());
        r
    }

    /// unsatisfiable even when products are arbitrary words?
    pub fn refuted(&mut self, c: &Ctx, q: &[T]) -> bool {
        if self.abs.is_none() {
            let mut a = Solver::new(self.tmp.clone(), 300, 300);
            a.opaque = true;
            self.abs = Some(Box::new(a));
        }
        let t0 = Instant::now();
        if let Ok(d) = std::env::var("SYM_DUMP") {
            self.nfile += 1;
            let mut s = String::new();
            define(c, q, &mut s, &mut HashSet::new(), &mut HashSet::new(), Some(&mut HashMap::new()));
            for &t in q {
                let _ = writeln!(s, "(assert {})", tname(c, t));
            }
            let _ = std::fs::write(format!("{}/a{}.smt2", d, self.nfile), &s);
        }
        let a = self.abs.as_mut().unwrap();
        let r = a.incremental(c, q) == Res::Unsat;
        self.st.queries += 1;
        if r {
            self.st.unsat += 1;
        }
        self.st.solver_us += t0.elapsed().as_micros() as u64;
        r
    }

    fn incremental(&mut self, c: &Ctx, key: &[T]) -> Res {
        if self.proc_.as_ref().map(|p| p.defined.len() > 400_000).unwrap_or(false) {
            self.proc_ = None;
        }
        if self.proc_.is_none() && self.start().is_err() {
            return Res::Unknown;
        }
        let mut vs: Vec<u32> = Vec::new();
        for &t in key {
            vs.extend(self.vars(c, t).iter());
        }
        vs.sort_unstable();
        vs.dedup();
        let soft = self.soft_ms;
        let p = self.proc_.as_mut().unwrap();
        let mut s = String::new();
        define(c, key, &mut s, &mut p.defined, &mut p.declared, if self.opaque { Some(&mut p.sums) } else { None });
        let _ = writeln!(s, "(push)\n(set-option :timeout {})", soft);
        for &t in key {
            let _ = writeln!(s, "(assert {})", tname(c, t));
        }
        s.push_str("(check-sat)\n");
        if p.inp.write_all(s.as_bytes()).is_err() || p.inp.flush().is_err() {
            self.proc_ = None;
            return Res::Unknown;
        }
        let lim = Duration::from_millis(soft * 2 + 3_000);
        let ans = loop {
            match p.rx.recv_timeout(lim) {
                Ok(l) => {
                    if l.starts_with("sat") || l.starts_with("unsat") || l.starts_with("unknown") {
                        break l;
                    }
                    if l.contains("error") {
                        eprintln!("solver: {}", l);
                        break "error".into();
                    }
                }
                Err(_) => break "dead".into(),
            }
        };
        match ans.as_str() {
            "unsat" => {
                let _ = p.inp.write_all(b"(pop)\n");
                Res::Unsat
            }
            "sat" => {
                if vs.is_empty() || self.opaque {
                    let _ = p.inp.write_all(b"(pop)\n");
                    return Res::Sat(BTreeMap::new());
                }
                let mut s = String::from("(get-value (");
                for v in &vs {
                    let _ = write!(s, "v{} ", v);
                }
                s.push_str("))\n(pop)\n(echo \"done\")\n");
                if p.inp.write_all(s.as_bytes()).is_err() {
                    self.proc_ = None;
                    return Res::Unknown;
                }
                let mut acc = String::new();
                loop {
                    match p.rx.recv_timeout(lim) {
                        Ok(l) => {
                            if l.contains("done") {
                                break;
                            }
                            if l.contains("error") {
                                eprintln!("solver: {}", l);
                                self.proc_ = None;
                                return Res::Unknown;
                            }
                            acc.push_str(&l);
                            acc.push(' ');
                        }
                        Err(_) => {
                            self.proc_ = None;
                            return Res::Unknown;
                        }
                    }
                }
                Res::Sat(parse_values(&acc))
            }
            "unknown" => {
                let _ = p.inp.write_all(b"(pop)\n");
                Res::Unknown
            }
            _ => {
                self.proc_ = None;
                Res::Unknown
            }
        }
    }

    /// Fresh processes of several solvers on one file; the first definite answer wins.
    pub fn oneshot(&mut self, c: &Ctx, key: &[T]) -> Res {
        let mut vs: Vec<u32> = Vec::new();
        for &t in key {
            vs.extend(self.vars(c, t).iter());
        }
        vs.sort_unstable();
        vs.dedup();
        let mut s = String::from("(set-option :produce-models true)\n(set-logic QF_BV)\n");
        define(c, key, &mut s, &mut HashSet::new(), &mut HashSet::new(), None);
        for &t in key {
            let _ = writeln!(s, "(assert {})", tname(c, t));
        }
        s.push_str("(check-sat)\n");
        if !vs.is_empty() {
            s.push_str("(get-value (");
            for v in &vs {
                let _ = write!(s, "v{} ", v);
            }
            s.push_str("))\n");
        }
        self.nfile += 1;
        let path = format!("{}/q{}.smt2", self.tmp, self.nfile);
        if let Ok(d) = std::env::var("SYM_DUMP") {
            let _ = std::fs::write(format!("{}/q{}.smt2", d, self.nfile), &s);
        }
        if std::fs::write(&path, &s).is_err() {
            return Res::Unknown;
        }
        let secs = (self.hard_ms / 1000).max(1);
        let cmds: Vec<Vec<String>> = vec![
            vec!["z3-new".into(), format!("-T:{}", secs), "-memory:6000".into(), path.clone()],
            vec!["cvc5".into(), format!("--tlimit={}", self.hard_ms), path.clone()],
        ];
        let (tx, rx) = channel();
        let mut kids = Vec::new();
        for cmd in &cmds {
            let ch = Command::new(&cmd[0]).args(&cmd[1..]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
            if let Ok(mut ch) = ch {
                let out = ch.stdout.take().unwrap();
                let tx = tx.clone();
                std::thread::spawn(move || {
                    let mut s = String::new();
                    use std::io::Read;
                    let _ = BufReader::new(out).read_to_string(&mut s);
                    let _ = tx.send(s);
                });
                kids.push(ch);
            }
        }
        let mut res = Res::Unknown;
        let t0 = Instant::now();
        let mut left = kids.len();
        while left > 0 {
            let el = t0.elapsed().as_millis() as u64;
            let lim = (self.hard_ms + 2000).saturating_sub(el);
            match rx.recv_timeout(Duration::from_millis(lim.max(1))) {
                Ok(s) => {
                    left -= 1;
                    let mut l = s.splitn(2, '\n');
                    match l.next().map(|x| x.trim()) {
                        Some("unsat") => {
                            res = Res::Unsat;
                            break;
                        }
                        Some("sat") => {
                            res = Res::Sat(parse_values(l.next().unwrap_or("")));
                            break;
                        }
                        _ => {}
                    }
                }
                Err(_) => break,
            }
        }
        for mut k in kids {
            let _ = k.kill();
            let _ = k.wait();
        }
        let _ = std::fs::remove_file(&path);
        res
    }
}
