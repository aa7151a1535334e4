//! Assertions, counterexamples and their exact realisation.
use crate::exec::*;
use crate::solve::*;
use crate::state::*;
use crate::term::*;
use std::collections::HashSet;
use std::rc::Rc;

impl Engine {
    pub fn check_assert(&mut self, st: &mut State, t: T, id: u32) -> X<()> {
        if self.c.as_const(t) == Some(1) {
            self.s.st.asserts_norm += 1;
            return Ok(());
        }
        if self.fact(st, t) == Some(1) {
            self.s.st.asserts_norm += 1;
            return Ok(());
        }
        let n = self.c.not(t);
        if let Some(m) = self.guess(st, n) {
            let s2 = st.clone();
            self.report(&s2, "assert", &format!("assertion {}", id), &[n], Some(m))?;
            if self.feasible(st, t).is_none() {
                return Err(Stop::End);
            }
            self.assume(st, t);
            return Ok(());
        }
        let t0 = std::time::Instant::now();
        match self.solve(st, &[n], true) {
            Some(None) => {
                self.s.st.asserts_solver += 1;
                self.set_fact(st, t, 1);
                if t0.elapsed().as_millis() > 300 {
                    // a lemma for the queries that follow
                    self.assume(st, t);
                }
            }
            Some(Some(m)) => {
                let s2 = st.clone();
                self.report(&s2, "assert", &format!("assertion {}", id), &[n], Some(m))?;
                if self.feasible(st, t).is_none() {
                    return Err(Stop::End);
                }
                self.assume(st, t);
            }
            None => {
                if std::env::var("SYMIR_DIFF").is_ok() {
                    let mut x = t;
                    while let Op::And(a, _) = *self.c.op(x) {
                        x = a;
                    }
                    if let Op::Eq(a, b) = *self.c.op(x) {
                        let mut k = 2;
                        self.term_diff(a, b, 0, &mut k);
                    }
                }
                let l = self.loc();
                self.inconclusive.push(format!("assertion {} at {}", id, l));
                self.assume(st, t);
            }
        }
        Ok(())
    }

    /// Some input of some path that comes here makes `t` true.
    pub fn check_exists(&mut self, st: &mut State, t: T, id: u32) -> X<()> {
        if self.exists.get(&id).map(|x| x.is_none()).unwrap_or(false) {
            return Ok(());
        }
        if self.c.as_const(t) == Some(1) || self.guess(st, t).is_some() {
            self.s.st.asserts_norm += 1;
            self.exists.insert(id, None);
            return Ok(());
        }
        match self.solve(st, &[t], true) {
            Some(Some(m)) => {
                if self.c.mulvars.is_empty() || matches!(self.realize(st, &[t], &m), Some(Some(_))) {
                    self.s.st.asserts_solver += 1;
                    self.exists.insert(id, None);
                } else {
                    let l = self.loc();
                    self.inconclusive.push(format!("existence {} at {}", id, l));
                }
            }
            Some(None) => {
                if !self.exists.contains_key(&id) {
                    let tt = self.c.tt;
                    let m = match self.guess(st, tt) {
                        Some(m) => Some(m),
                        None => self.solve(st, &[], true).flatten(),
                    };
                    if let Some(m) = m {
                        let (tape, prg, obs) = self.tape_of(st, &m);
                        let v = Violation {
                            kind: "never".into(),
                            msg: format!("{}", id),
                            loc: self.loc(),
                            stack: self.full_stack(),
                            tape,
                            prg,
                            obs,
                            exact: true,
                        };
                        self.exists.insert(id, Some(v));
                    }
                }
            }
            None => {
                let l = self.loc();
                self.inconclusive.push(format!("existence {} at {}", id, l));
            }
        }
        Ok(())
    }
    /// Conditions that no path could make true.
    pub fn close_exists(&mut self) {
        for (id, v) in std::mem::take(&mut self.exists) {
            if v.is_some() && !self.partial.is_empty() {
                self.inconclusive.push(format!("existence {}: not all values explored", id));
                continue;
            }
            self.violations.extend(v);
        }
    }

    /// A pseudo-random assignment that satisfies the path condition and `t`, if one of a few does.
    fn guess(&mut self, st: &State, t: T) -> Option<Rc<Model>> {
        let n = self.c.vars.len();
        if self.rnd.is_empty() {
            self.rnd = (0..3).map(|_| Rc::new(Model::new(Vec::new()))).collect();
        }
        let conds = pc_conds(&st.pc);
        for k in 0..self.rnd.len() {
            if self.rnd[k].vals.len() < n || self.rnd[k].size() > 4_000_000 {
                let old = self.rnd[k].vals.len();
                let mut vals = self.rnd[k].vals.clone();
                for i in old..n {
                    let mut z = (self.seed ^ (k as u64) << 40 ^ i as u64).wrapping_add(0x9e37_79b9_7f4a_7c15);
                    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                    z ^= z >> 31;
                    vals.push(if self.c.vars[i].mul.is_some() { None } else { Some(z as u128) });
                }
                let m = match Rc::try_unwrap(std::mem::replace(&mut self.rnd[k], Rc::new(Model::new(Vec::new())))) {
                    Ok(m) => m.with(vals),
                    Err(_) => Model::new(vals),
                };
                self.rnd[k] = Rc::new(m);
            }
            let m = self.rnd[k].clone();
            if m.eval(&self.c, t) != 0 && conds.iter().all(|c| m.eval(&self.c, *c) != 0) {
                return Some(m);
            }
        }
        None
    }

    fn holds(&self, m: &Model, ts: &[T]) -> bool {
        ts.iter().all(|t| m.eval(&self.c, *t) != 0)
    }

    /// A model in which abstracted products have their true value.
    /// None: no such model exists.  Some(None): not found.
    pub fn realize(&mut self, st: &State, extra: &[T], m: &Rc<Model>) -> Option<Option<Rc<Model>>> {
        let mut all = pc_conds(&st.pc);
        all.extend_from_slice(extra);
        // 1: drop the values of the abstracted products
        let strip = |e: &Engine, m: &Model| {
            let mut vals = m.vals.clone();
            for (i, v) in e.c.vars.iter().enumerate() {
                if v.mul.is_some() && i < vals.len() {
                    vals[i] = None;
                }
            }
            Model::new(vals)
        };
        let x = strip(self, m);
        if self.holds(&x, &all) {
            return Some(Some(Rc::new(x)));
        }
        // the products that matter, transitively
        let mut rel: Vec<usize> = Vec::new();
        let mut inner: HashSet<usize> = HashSet::new();
        let mut seen: HashSet<usize> = HashSet::new();
        let mut todo: Vec<(T, bool)> = all.iter().map(|t| (*t, false)).collect();
        while let Some((t, nested)) = todo.pop() {
            for v in self.s.vars(&self.c, t).iter() {
                if let Some(k) = self.c.vars[*v as usize].mul {
                    let k = k as usize;
                    if nested {
                        inner.insert(k);
                    }
                    if seen.insert(k) {
                        rel.push(k);
                        todo.push((self.c.mulvars[k].arg, true));
                    }
                }
            }
        }
        if rel.is_empty() {
            return Some(None);
        }
        let old = self.c.abs_mul;
        self.c.abs_mul = false;
        let mut defs = Vec::new();
        for k in &rel {
            let mv = self.c.mulvars[*k].clone();
            let c = self.c.cst(mv.w, mv.coef);
            let p = self.c.mul(c, mv.arg);
            let e = self.c.eq(mv.var, p);
            defs.push(e);
        }
        self.c.abs_mul = old;
        let mut q = all.clone();
        q.extend(defs);
        // 2: with the outermost products pinned to their abstract values
        let mut q2 = q.clone();
        for k in &rel {
            if !inner.contains(k) {
                let mv = self.c.mulvars[*k].clone();
                let v = m.eval(&self.c, mv.var);
                let c = self.c.cst(mv.w, v);
                let e = self.c.eq(mv.var, c);
                q2.push(e);
            }
        }
        let hard = self.s.hard_ms;
        self.s.hard_ms = hard.min(20_000);
        let r = self.s.oneshot(&self.c, &q2);
        self.s.hard_ms = hard;
        if let Res::Sat(sol) = r {
            let x = self.from_sol(&sol);
            let x = strip(self, &x);
            if self.holds(&x, &all) {
                return Some(Some(Rc::new(x)));
            }
        }
        // 3: everything exact
        match self.s.oneshot(&self.c, &q) {
            Res::Unsat => return None,
            Res::Sat(sol) => {
                let x = self.from_sol(&sol);
                let x = strip(self, &x);
                if self.holds(&x, &all) {
                    return Some(Some(Rc::new(x)));
                }
            }
            Res::Unknown => {}
        }
        // 4: guess
        let mut s = self.seed ^ 0x5bd1_e995;
        let mut next = || {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            s
        };
        let n = self.c.vars.len();
        for _ in 0..4000 {
            let mut vals = vec![None; n];
            for i in 0..n {
                if self.c.vars[i].mul.is_none() {
                    vals[i] = Some(match next() % 3 {
                        0 => (next() % 4) as u128,
                        1 => m.vals.get(i).copied().flatten().unwrap_or(0),
                        _ => next() as u128,
                    });
                }
            }
            let x = Model::new(vals);
            if self.holds(&x, &all) {
                return Some(Some(Rc::new(x)));
            }
        }
        Some(None)
    }

    fn from_sol(&self, sol: &std::collections::BTreeMap<u32, u128>) -> Model {
        let mut vals = vec![None; self.c.vars.len()];
        for (k, v) in sol {
            vals[*k as usize] = Some(*v);
        }
        Model::new(vals)
    }

    pub fn tape_of(&self, st: &State, m: &Model) -> ([Vec<u128>; 4], Vec<([u64; 4], u64, u64)>, Vec<(u32, u128)>) {
        let mut tape: [Vec<u128>; 4] = Default::default();
        for k in 0..4 {
            for i in 0..st.draws[k] as usize {
                tape[k].push(m.eval(&self.c, self.tapes[k][i]));
            }
        }
        let mut prg = Vec::new();
        for (s, i, t) in &self.prg {
            let mut k = [0u64; 4];
            for j in 0..4 {
                k[j] = m.eval(&self.c, s[j]) as u64;
            }
            prg.push((k, *i, m.eval(&self.c, *t) as u64));
        }
        let obs = st.obs.iter().map(|(i, t)| (*i, m.eval(&self.c, *t))).collect();
        (tape, prg, obs)
    }

    pub fn report(&mut self, st: &State, kind: &str, msg: &str, extra: &[T], model: Option<Rc<Model>>) -> X<()> {
        let m = match model {
            Some(m) => m,
            None => return Ok(()),
        };
        let loc = self.loc();
        let dup = self.violations.iter().filter(|v| v.kind == kind && v.msg == msg && v.loc == loc && v.exact).count();
        if dup >= 1 {
            return Ok(());
        }
        let x = match self.realize(st, extra, &m) {
            None => return Ok(()),
            Some(None) => {
                self.inconclusive.push(format!("{} {} at {}: counterexample of the abstraction not realised", kind, msg, loc));
                return Ok(());
            }
            Some(Some(x)) => x,
        };
        let (tape, prg, obs) = self.tape_of(st, &x);
        let stack = self.full_stack();
        self.violations.push(Violation {
            kind: kind.into(),
            msg: msg.into(),
            loc,
            stack,
            tape,
            prg,
            obs,
            exact: true,
        });
        if self.violations.len() >= self.max_viol {
            return Err(Stop::Fatal("enough violations".into()));
        }
        Ok(())
    }

    /// a path that used up the step budget: keep its inputs for a native run
    pub fn record_hang(&mut self, st: &State) {
        if let Some(Some(m)) = self.solve(st, &[], true) {
            let loc = self.loc();
            let stack = self.full_stack();
            if let Some(Some(x)) = self.realize(st, &[], &m) {
                let (tape, prg, obs) = self.tape_of(st, &x);
                self.violations.push(Violation {
                    kind: "hang".into(),
                    msg: "step budget exhausted".into(),
                    loc,
                    stack,
                    tape,
                    prg,
                    obs,
                    exact: true,
                });
            }
        }
    }

    /// the end of the harness on one path
    pub fn finish_path(&mut self, st: &State) {
        self.nfinal += 1;
        if self.finals.len() >= self.max_final {
            return;
        }
        let abs = !self.c.mulvars.is_empty();
        if abs {
            // inputs to compare with a native run are optional; they are costly here
            if self.nfinal > 2 {
                return;
            }
        }
        let hard = self.s.hard_ms;
        if abs {
            self.s.hard_ms = 3000;
        }
        let m = self.solve(st, &[], true);
        let x = match m {
            Some(Some(m)) => self.realize(st, &[], &m),
            _ => Some(None),
        };
        self.s.hard_ms = hard;
        {
            if let Some(Some(x)) = x {
                let (tape, prg, obs) = self.tape_of(st, &x);
                self.finals.push(FinalState { tape, prg, obs });
            }
        }
        // a second, less regular input of the same path
        if self.finals.len() < self.max_final {
            let conds = pc_conds(&st.pc);
            let mut s = self.seed.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ (self.nfinal << 17) ^ 0x9e37_79b9;
            let mut next = || {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                s
            };
            let n = self.c.vars.len();
            for k in 0..8 {
                let vals: Vec<Option<u128>> = (0..n)
                    .map(|i| {
                        if self.c.vars[i].mul.is_some() {
                            None
                        } else if k % 2 == 0 {
                            Some(next() as u128)
                        } else {
                            Some((next() % 3) as u128)
                        }
                    })
                    .collect();
                let x = Model::new(vals);
                if self.holds(&x, &conds) {
                    let (tape, prg, obs) = self.tape_of(st, &x);
                    self.finals.push(FinalState { tape, prg, obs });
                    break;
                }
            }
        }
    }

    pub fn show(&self, t: T, d: u32) -> String {
        if let Some(k) = self.c.as_const(t) {
            return format!("{:#x}", k);
        }
        let op = self.c.op(t);
        if let Op::Var(i) = op {
            return self.c.vars[*i as usize].name.clone();
        }
        if d == 0 {
            return format!("t{}", t);
        }
        let n = format!("{:?}", op);
        let n = n.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("?").to_string();
        let ch: Vec<String> = children(op).into_iter().take(6).map(|x| self.show(x, d - 1)).collect();
        format!("{}({})", n, ch.join(","))
    }
}

impl Engine {
    /// the first places where two terms differ (debugging aid)
    pub fn term_diff(&self, a: T, b: T, d: u32, left: &mut u32) {
        if a == b || *left == 0 || d > 4000 {
            return;
        }
        let (x, y) = (children(self.c.op(a)), children(self.c.op(b)));
        let ds: Vec<usize> = if x.len() == y.len() { (0..x.len()).filter(|i| x[*i] != y[*i]).collect() } else { vec![] };
        if std::mem::discriminant(self.c.op(a)) == std::mem::discriminant(self.c.op(b)) && ds.len() == 1 {
            self.term_diff(x[ds[0]], y[ds[0]], d + 1, left);
            return;
        }
        let (p, q): (Vec<T>, Vec<T>) = (x.iter().copied().filter(|t| !y.contains(t)).collect(), y.iter().copied().filter(|t| !x.contains(t)).collect());
        if p.len() == 1 && q.len() == 1 {
            self.term_diff(p[0], q[0], d + 1, left);
            return;
        }
        if p.len() == q.len() && !p.is_empty() && p.len() < 40 && d < 200 {
            // the oldest operand first
            let (mut p, mut q) = (p, q);
            p.sort();
            q.sort();
            eprintln!("  {} operands differ at depth {}", p.len(), d);
            self.term_diff(p[0], q[0], d + 1, left);
            return;
        }
        *left -= 1;
        eprintln!("only left {:?}", p.iter().map(|t| self.show(*t, 4)).collect::<Vec<_>>());
        eprintln!("only right {:?}", q.iter().map(|t| self.show(*t, 4)).collect::<Vec<_>>());
        eprintln!("DIFF at depth {}:\n  {}\n  {}", d, self.show(a, 4), self.show(b, 4));
    }
}
