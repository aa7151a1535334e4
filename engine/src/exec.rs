//! The symbolic executor: instructions, branches, merging.
use crate::ext::Ext;
use crate::ir::*;
use crate::mem::*;
use crate::solve::*;
use crate::state::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub struct Engine {
    pub m: Mod,
    pub c: Ctx,
    pub s: Solver,
    pub ginit: HashMap<u32, Rc<Obj>>,
    pub params: Vec<u64>,
    pub tapes: [Vec<T>; 4],
    pub prg: Vec<([T; 4], u64, T)>,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    /// values that were not all explored
    pub partial: Vec<String>,
    pub partial_splits: u32,
    pub wide_splits: HashSet<String>,
    pub covers: BTreeSet<u32>,
    pub finals: Vec<FinalState>,
    pub nfinal: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub last_queries: u64,
    pub deadline: std::time::Instant,
    pub ext: HashMap<u32, Ext>,
    pub dbg_seen: Vec<bool>,
    pub stack: Vec<u32>,
    pub cur_dbg: u32,
    pub n_branch: u64,
    pub n_fork: u64,
    pub n_merge: u64,
    pub n_paths: u64,
    pub n_split: u64,
    pub n_guess: u64,
    pub sums: HashMap<T, bool>,
    pub max_states: u64,
    pub os_bound: Option<u32>,
    pub trace: bool,
    pub max_final: usize,
    pub assert_ids: BTreeMap<u32, u64>,
    pub funcs_run: HashSet<u32>,
    pub hang: bool,
    pub seed: u64,
    pub split_cap: usize,
    pub max_viol: usize,
    pub exists: std::collections::BTreeMap<u32, Option<Violation>>,
    pub max_mb: u64,
    /// pseudo-random assignments tried before the solver is asked to refute an assertion
    pub rnd: Vec<Rc<Model>>,
    pub stub_fmt: bool,
    pub samples: Vec<String>,
}

fn fatal<A>(s: impl Into<String>) -> X<A> {
    Err(Stop::Fatal(s.into()))
}

pub fn sgn(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
pub fn m64(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

impl Engine {
    // ------------------------------------------------------------ values
    pub fn tm(&mut self, v: &V) -> X<T> {
        match v {
            V::C(w, x) => Ok(self.c.cst(*w, *x as u128)),
            V::S(t) => Ok(*t),
            V::A(_) => fatal("aggregate as scalar"),
        }
    }
    pub fn v(&self, t: T) -> V {
        let n = self.c.n(t);
        if n.w <= 64 {
            if let Op::Const(k) = n.op {
                return V::C(n.w, k as u64);
            }
        }
        V::S(t)
    }
    pub fn zero(&mut self, t: &Ty) -> V {
        match t {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let n = t.nfields();
                V::A(Rc::new((0..n).map(|i| self.zero(&t.field(i))).collect()))
            }
            Ty::Void | Ty::Other => V::C(1, 0),
            _ => {
                let w = t.bits();
                if w <= 64 {
                    V::C(w as u8, 0)
                } else {
                    V::S(self.c.cst(w as u8, 0))
                }
            }
        }
    }
    pub fn cval(&mut self, t: &Ty, c: &CV) -> X<V> {
        Ok(match c {
            CV::Int(x) => {
                let w = t.bits();
                if w == 0 {
                    return fatal(format!("int of type {:?}", t));
                }
                if w <= 64 {
                    V::C(w as u8, *x as u64 & m64(w as u8))
                } else {
                    V::S(self.c.cst(w as u8, *x))
                }
            }
            CV::Undef | CV::Zero => self.zero(t),
            CV::Global(g) => V::C(64, addr_of(g + 1)),
            CV::Agg(v) => {
                let mut o = Vec::with_capacity(v.len());
                for (t, c) in v {
                    o.push(self.cval(t, c)?);
                }
                V::A(Rc::new(o))
            }
            CV::Str(b) => V::A(Rc::new(b.iter().map(|x| V::C(8, *x as u64)).collect())),
            CV::Splat(x) => {
                let f = t.field(0);
                let e = self.cval(&f, x)?;
                V::A(Rc::new(vec![e; t.nfields()]))
            }
            CV::Gep(st, b, ix) => {
                let base = self.cval(&Ty::Ptr, b)?;
                let mut vs = Vec::new();
                for (t, c) in ix {
                    vs.push(self.cval(t, c)?);
                }
                self.gep(st, base, &vs)?
            }
            CV::Cast(op, a, x, b) => {
                let v = self.cval(a, x)?;
                self.cast(*op, a, v, b)?
            }
            CV::Bin(op, t, a, b) => {
                let x = self.cval(t, a)?;
                let y = self.cval(t, b)?;
                self.bin(*op, t, x, y)?
            }
            CV::Asm(_) => return fatal("asm value"),
        })
    }
    pub fn opnd(&mut self, fs: &FS, t: &Ty, o: &Opnd) -> X<V> {
        match o {
            Opnd::Reg(r) => Ok(fs.regs[*r as usize].clone()),
            Opnd::C(c) => {
                if let CV::Int(x) = **c {
                    let w = t.bits();
                    if w > 0 && w <= 64 {
                        return Ok(V::C(w as u8, x as u64 & m64(w as u8)));
                    }
                }
                self.cval(t, c)
            }
        }
    }

    // ------------------------------------------------------------ arithmetic
    pub fn bin(&mut self, op: BinOp, t: &Ty, a: V, b: V) -> X<V> {
        if let Ty::Vec(n, e) = t {
            let (a, b) = match (a, b) {
                (V::A(a), V::A(b)) => (a, b),
                _ => return fatal("vector op"),
            };
            let mut o = Vec::new();
            for i in 0..*n as usize {
                o.push(self.bin(op, e, a[i].clone(), b[i].clone())?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        if let (V::C(w, x), V::C(_, y)) = (&a, &b) {
            let (w, x, y) = (*w, *x, *y);
            let m = m64(w);
            let r = match op {
                BinOp::Add => x.wrapping_add(y) & m,
                BinOp::Sub => x.wrapping_sub(y) & m,
                BinOp::Mul => x.wrapping_mul(y) & m,
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                BinOp::Lshr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::Ashr => ((sgn(x, w) >> y.min(w as u64 - 1)) as u64) & m,
                BinOp::Udiv if y != 0 => x / y,
                BinOp::Urem if y != 0 => x % y,
                BinOp::Sdiv if y != 0 => (sgn(x, w).wrapping_div(sgn(y, w)) as u64) & m,
                BinOp::Srem if y != 0 => (sgn(x, w).wrapping_rem(sgn(y, w)) as u64) & m,
                BinOp::Fadd | BinOp::Fsub | BinOp::Fmul | BinOp::Fdiv | BinOp::Frem => {
                    if *t == Ty::F64 {
                        let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                        match op {
                            BinOp::Fadd => p + q,
                            BinOp::Fsub => p - q,
                            BinOp::Fmul => p * q,
                            BinOp::Fdiv => p / q,
                            _ => p % q,
                        }
                        .to_bits()
                    } else {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op {
                            BinOp::Fadd => p + q,
                            BinOp::Fsub => p - q,
                            BinOp::Fmul => p * q,
                            BinOp::Fdiv => p / q,
                            _ => p % q,
                        })
                        .to_bits() as u64
                    }
                }
                _ => return fatal("division by zero in the IR"),
            };
            return Ok(V::C(w, r));
        }
        let (x, y) = (self.tm(&a)?, self.tm(&b)?);
        let c = &mut self.c;
        let r = match op {
            BinOp::Add => c.add(x, y),
            BinOp::Sub => c.sub(x, y),
            BinOp::Mul => c.mul(x, y),
            BinOp::And => c.and(x, y),
            BinOp::Or => c.or(x, y),
            BinOp::Xor => c.xor(x, y),
            BinOp::Shl => c.shl(x, y),
            BinOp::Lshr => c.lshr(x, y),
            BinOp::Ashr => c.ashr(x, y),
            BinOp::Udiv => c.udiv(x, y),
            BinOp::Urem => c.urem(x, y),
            BinOp::Sdiv => c.sdiv(x, y),
            BinOp::Srem => c.srem(x, y),
            _ => {
                let t = if c.is_const(x) { y } else { x };
                return Err(Stop::Split(t));
            }
        };
        Ok(self.v(r))
    }

    pub fn icmp(&mut self, p: Pred, t: &Ty, a: V, b: V) -> X<V> {
        if let Ty::Vec(n, e) = t {
            let (a, b) = match (a, b) {
                (V::A(a), V::A(b)) => (a, b),
                _ => return fatal("vector op"),
            };
            let mut o = Vec::new();
            for i in 0..*n as usize {
                o.push(self.icmp(p, e, a[i].clone(), b[i].clone())?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        if let (V::C(w, x), V::C(_, y)) = (&a, &b) {
            let (w, x, y) = (*w, *x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sgn(x, w) > sgn(y, w),
                Pred::Sge => sgn(x, w) >= sgn(y, w),
                Pred::Slt => sgn(x, w) < sgn(y, w),
                Pred::Sle => sgn(x, w) <= sgn(y, w),
            };
            return Ok(V::C(1, r as u64));
        }
        let (x, y) = (self.tm(&a)?, self.tm(&b)?);
        let c = &mut self.c;
        let r = match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => c.ne(x, y),
            Pred::Ugt => c.ult(y, x),
            Pred::Uge => c.ule(y, x),
            Pred::Ult => c.ult(x, y),
            Pred::Ule => c.ule(x, y),
            Pred::Sgt => c.slt(y, x),
            Pred::Sge => c.sle(y, x),
            Pred::Slt => c.slt(x, y),
            Pred::Sle => c.sle(x, y),
        };
        Ok(self.v(r))
    }

    fn bits_of(&mut self, t: &Ty, v: &V) -> X<T> {
        match (t, v) {
            (Ty::Vec(_, e), V::A(xs)) => {
                let mut acc: Option<T> = None;
                for x in xs.iter() {
                    let b = self.bits_of(e, x)?;
                    acc = Some(match acc {
                        None => b,
                        Some(l) => self.c.concat(b, l),
                    });
                }
                Ok(acc.unwrap())
            }
            _ => self.tm(v),
        }
    }

    pub fn cast(&mut self, op: CastOp, a: &Ty, v: V, b: &Ty) -> X<V> {
        if let (Ty::Vec(n, ea), Ty::Vec(n2, eb)) = (a, b) {
            if n == n2 && op != CastOp::Bitcast {
                let xs = match v {
                    V::A(x) => x,
                    _ => return fatal("vector cast"),
                };
                let mut o = Vec::new();
                for x in xs.iter() {
                    o.push(self.cast(op, ea, x.clone(), eb)?);
                }
                return Ok(V::A(Rc::new(o)));
            }
        }
        if op == CastOp::Bitcast {
            if !matches!(a, Ty::Vec(..)) && !matches!(b, Ty::Vec(..)) {
                return Ok(v);
            }
            let bits = self.bits_of(a, &v)?;
            return match b {
                Ty::Vec(n, e) => {
                    let w = e.bits() as u8;
                    let mut o = Vec::new();
                    for i in 0..*n {
                        let x = self.c.extract(bits, i as u8 * w, w);
                        o.push(self.v(x));
                    }
                    Ok(V::A(Rc::new(o)))
                }
                _ => Ok(self.v(bits)),
            };
        }
        let w = b.bits() as u8;
        if let V::C(aw, x) = v {
            if w <= 64 {
                let r = match op {
                    CastOp::Trunc | CastOp::PtrToInt | CastOp::IntToPtr => x & m64(w),
                    CastOp::Zext => x,
                    CastOp::Sext => (sgn(x, aw) as u64) & m64(w),
                    CastOp::UiToFp => {
                        if *b == Ty::F64 {
                            (x as f64).to_bits()
                        } else {
                            (x as f32).to_bits() as u64
                        }
                    }
                    CastOp::SiToFp => {
                        if *b == Ty::F64 {
                            (sgn(x, aw) as f64).to_bits()
                        } else {
                            (sgn(x, aw) as f32).to_bits() as u64
                        }
                    }
                    CastOp::FpToUi => {
                        let f = if *a == Ty::F64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                        (f as u64) & m64(w)
                    }
                    CastOp::FpToSi => {
                        let f = if *a == Ty::F64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                        (f as i64 as u64) & m64(w)
                    }
                    CastOp::FpExt => (f32::from_bits(x as u32) as f64).to_bits(),
                    CastOp::FpTrunc => (f64::from_bits(x) as f32).to_bits() as u64,
                    CastOp::Bitcast => unreachable!(),
                };
                return Ok(V::C(w, r));
            }
        }
        let t = self.tm(&v)?;
        let r = match op {
            CastOp::Trunc | CastOp::PtrToInt | CastOp::IntToPtr => self.c.resize(t, w),
            CastOp::Zext => self.c.zext(t, w),
            CastOp::Sext => self.c.sext(t, w),
            _ => return Err(Stop::Split(t)),
        };
        Ok(self.v(r))
    }

    pub fn gep(&mut self, st: &Ty, base: V, ix: &[V]) -> X<V> {
        let mut acc = base;
        let mut cur = st.clone();
        for (i, x) in ix.iter().enumerate() {
            let (scale, next) = if i == 0 {
                (cur.size(), cur.clone())
            } else {
                match &cur {
                    Ty::Struct(..) => {
                        let k = match x {
                            V::C(_, k) => *k as usize,
                            _ => return fatal("gep"),
                        };
                        let off = cur.field_off(k);
                        let f = cur.field(k);
                        acc = self.addk(acc, off)?;
                        cur = f;
                        continue;
                    }
                    Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size(), (**t).clone()),
                    _ => return fatal("gep type"),
                }
            };
            match x {
                V::C(w, k) => {
                    let k = sgn(*k, *w) as u64;
                    acc = self.addk(acc, k.wrapping_mul(scale))?;
                }
                V::S(t) => {
                    let t = self.c.sext(*t, 64);
                    let sc = self.c.cst(64, scale as u128);
                    let o = self.c.mul(t, sc);
                    let a = self.tm(&acc)?;
                    let r = self.c.add(a, o);
                    acc = self.v(r);
                }
                _ => return fatal("gep index"),
            }
            cur = next;
        }
        Ok(acc)
    }
    pub fn addk(&mut self, v: V, k: u64) -> X<V> {
        if k == 0 {
            return Ok(v);
        }
        match v {
            V::C(w, x) => Ok(V::C(w, x.wrapping_add(k))),
            V::S(t) => {
                let kk = self.c.cst(64, k as u128);
                let r = self.c.add(t, kk);
                Ok(self.v(r))
            }
            _ => fatal("addk"),
        }
    }

    // ------------------------------------------------------------ facts and solver
    pub fn fact(&self, st: &State, t: T) -> Option<u128> {
        if let Some(v) = pc_fact(&st.pc, t) {
            return Some(v);
        }
        st.facts0.borrow().get(&t).copied()
    }
    pub fn set_fact(&self, st: &State, t: T, v: u128) {
        match &st.pc {
            Some(n) => {
                n.facts.borrow_mut().insert(t, v);
            }
            None => {
                st.facts0.borrow_mut().insert(t, v);
            }
        }
    }
    /// assume a condition (the caller knows or checked that it is feasible)
    pub fn assume(&mut self, st: &mut State, cond: T) {
        let mut todo = vec![cond];
        while let Some(t) = todo.pop() {
            if t == self.c.tt || self.fact(st, t) == Some(1) {
                continue;
            }
            if let Op::And(a, b) = *self.c.op(t) {
                todo.push(b);
                todo.push(a);
                continue;
            }
            if let Some(m) = &st.model {
                if m.eval(&self.c, t) == 0 {
                    st.model = None;
                }
            }
            st.pc = pc_push(&st.pc, t, &self.c);
        }
    }

    /// conjunction of the path condition relevant to `extra`
    fn slice(&mut self, st: &State, extra: &[T], full: bool) -> Vec<T> {
        let conds = pc_conds(&st.pc);
        let mut out: Vec<T> = extra.to_vec();
        if full {
            out.extend(conds);
            return out;
        }
        let mut vs: HashSet<u32> = HashSet::new();
        for &t in extra {
            for v in self.s.vars(&self.c, t).iter() {
                vs.insert(*v);
            }
        }
        let mut left: Vec<(T, Rc<Vec<u32>>)> = Vec::with_capacity(conds.len());
        for t in conds {
            let v = self.s.vars(&self.c, t);
            left.push((t, v));
        }
        loop {
            let n = left.len();
            let mut rest = Vec::with_capacity(n);
            for (t, v) in left {
                if v.iter().any(|x| vs.contains(x)) {
                    for x in v.iter() {
                        vs.insert(*x);
                    }
                    out.push(t);
                } else {
                    rest.push((t, v));
                }
            }
            left = rest;
            if left.len() == n || left.is_empty() {
                break;
            }
        }
        out
    }

    fn model_from(&self, base: Option<&Rc<Model>>, sol: &BTreeMap<u32, u128>) -> Rc<Model> {
        let mut vals = match base {
            Some(m) => m.vals.clone(),
            None => vec![],
        };
        vals.resize(self.c.vars.len(), None);
        for (k, v) in sol {
            vals[*k as usize] = Some(*v);
        }
        Rc::new(Model::new(vals))
    }

    /// When products stand in the solver's way: is there no model even if products are arbitrary words, or a model near the last one?
    fn nearby(&mut self, base: Option<&Rc<Model>>, q: &[T]) -> Option<Option<Rc<Model>>> {
        let base = base?;
        if q.is_empty() {
            return None;
        }
        let mut vs: Vec<u32> = Vec::new();
        for &t in q {
            vs.extend(self.s.vars(&self.c, t).iter());
        }
        vs.sort_unstable();
        vs.dedup();
        if vs.len() > 8 {
            return None;
        }
        if self.s.refuted(&self.c, q) {
            return Some(None);
        }
        let all: Vec<(u32, T)> = vs.iter().map(|i| { let w = self.c.vars[*i as usize].w; (*i, self.c.intern(Op::Var(*i), w)) }).collect();
        let Some(known) = crate::imply::Implied::new(&self.c, q) else { return Some(None) };
        // a model of what has no products, and the bits that matter to it
        let plain: Vec<T> = q.iter().copied().filter(|t| !self.has_product(*t)).collect();
        let mut vals = base.vals.clone();
        vals.resize(self.c.vars.len(), None);
        match self.s.check(&self.c, &plain, false) {
            Res::Unsat => return Some(None),
            Res::Unknown => {}
            Res::Sat(sol) => {
                for (k, v) in sol {
                    vals[k as usize] = Some(v);
                }
            }
        }
        let mut fixed: HashMap<u32, u128> = HashMap::new();
        let mut whole = true;
        for (i, t) in &all {
            let (m, v) = known.var(&self.c, *t);
            let old = vals[*i as usize].unwrap_or(0);
            vals[*i as usize] = Some(old & !m | v & m);
            fixed.insert(*i, m);
            whole &= m == mask(self.c.w(*t));
        }
        let base = Model::new(vals);
        if whole {
            // the only candidate
            return Some(if q.iter().all(|t| base.eval(&self.c, *t) != 0) { Some(Rc::new(base)) } else { None });
        }
        if !plain.is_empty() && plain.iter().all(|t| base.eval(&self.c, *t) != 0) {
            for (i, t) in &all {
                for b in 0..self.c.w(*t) {
                    if fixed[i] >> b & 1 == 0 {
                        let mut vals = base.vals.clone();
                        vals[*i as usize] = Some(vals[*i as usize].unwrap_or(0) ^ 1 << b);
                        let m = Model::new(vals);
                        if plain.iter().any(|t| m.eval(&self.c, *t) == 0) {
                            *fixed.get_mut(i).unwrap() |= 1 << b;
                        }
                    }
                }
            }
        }
        let t0 = Instant::now();
        let mut r = 0x9e37_79b9_7f4a_7c15u64 ^ q.len() as u64;
        let mut next = || {
            r ^= r << 13;
            r ^= r >> 7;
            r ^= r << 17;
            r
        };
        // the nodes that every condition adds to those before it
        let mut plan: Vec<(T, Vec<T>)> = Vec::new();
        let mut seen: HashSet<T> = HashSet::new();
        let mut qs = q.to_vec();
        qs.sort();
        let mut consts = Vec::new();
        for t in qs {
            let mut order = Vec::new();
            let mut st = vec![(t, false)];
            while let Some((x, done)) = st.pop() {
                if done {
                    order.push(x);
                } else if seen.insert(x) {
                    match self.c.op(x) {
                        Op::Var(_) => {}
                        Op::Const(k) => consts.push((x, *k)),
                        op => {
                            st.push((x, true));
                            st.extend(children(op).into_iter().map(|y| (y, false)));
                        }
                    }
                }
            }
            plan.push((t, order));
        }
        let mut val = vec![0u128; self.c.nodes.len()];
        for (x, k) in consts {
            val[x as usize] = k;
        }
        let vars: Vec<(u32, T)> = seen.iter().filter_map(|x| if let Op::Var(i) = self.c.op(*x) { Some((*i, *x)) } else { None }).collect();
        let mut k = 0u64;
        loop {
            k += 1;
            if k % 256 == 0 && t0.elapsed().as_millis() > 500 {
                break;
            }
            let mut new = Vec::with_capacity(vars.len());
            for (i, x) in &vars {
                let w = self.c.vars[*i as usize].w;
                let f = fixed.get(i).copied().unwrap_or(0);
                let old = base.vals.get(*i as usize).copied().flatten().unwrap_or(0);
                let r = (next() as u128) << 64 | next() as u128;
                let v = (old & f | r & !f) & mask(w);
                val[*x as usize] = v;
                new.push((*i, v));
            }
            let ok = plan.iter().all(|(t, order)| {
                for x in order {
                    let v = self.c.eval_op(self.c.op(*x), self.c.w(*x), &mut |y| val[y as usize]);
                    val[*x as usize] = v;
                }
                val[*t as usize] != 0
            });
            if ok {
                let mut vals = base.vals.clone();
                vals.resize(self.c.vars.len(), None);
                for (i, v) in new {
                    vals[i as usize] = Some(v);
                }
                self.n_guess += 1;
                return Some(Some(Rc::new(Model::new(vals))));
            }
        }
        if std::env::var("SYM_NEAR").is_ok() {
            eprintln!("hard: {} tries", k);
            for t in q {
                eprintln!("   {} {}", t, self.show(*t, 6).chars().take(150).collect::<String>());
            }
        }
        None
    }

    /// a bit of a variable, or its negation: the variable, the bit, its value
    fn literal(&self, t: T) -> Option<(u32, u8, bool)> {
        let (t, v) = match self.c.op(t) {
            Op::Not(x) => (*x, false),
            _ => (t, true),
        };
        let (x, b) = match self.c.op(t) {
            Op::Extract(x, b) => (*x, *b),
            _ => (t, 0),
        };
        match self.c.op(x) {
            Op::Var(i) if self.c.w(t) == 1 && self.c.vars[*i as usize].mul.is_none() => Some((*i, b, v)),
            _ => None,
        }
    }

    /// a sum of several small terms below?
    fn has_sum(&mut self, t: T) -> bool {
        let mut st = vec![t];
        let mut seen = HashSet::new();
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if seen.len() > 3000 {
                break;
            }
            let found = match self.sums.get(&x) {
                Some(f) => *f,
                None => {
                    let f = small_terms(&self.c, x).is_some();
                    self.sums.insert(x, f);
                    f
                }
            };
            if found {
                return true;
            }
            st.extend(children(self.c.op(x)));
        }
        false
    }

    fn has_product(&mut self, t: T) -> bool {
        let mut st = vec![t];
        let mut seen = HashSet::new();
        let mut found = false;
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if seen.len() > 3000 {
                break;
            }
            if is_product(&self.c, x) {
                found = true;
                break;
            }
            st.extend(children(self.c.op(x)));
        }
        found
    }

    /// Is `pc && extra` satisfiable?  None = unknown.
    pub fn solve(&mut self, st: &State, extra: &[T], hard: bool) -> Option<Option<Rc<Model>>> {
        if let Some(m) = &st.model {
            if extra.iter().all(|t| m.eval(&self.c, *t) != 0) && self.c.mulvars.is_empty() {
                return Some(Some(m.clone()));
            }
        }
        let base = st.model.clone();
        let mut q = self.slice(st, extra, base.is_none());
        let mut rounds = 0;
        {
            let have: HashSet<T> = q.iter().copied().collect();
            if q.iter().any(|t| matches!(*self.c.op(*t), Op::Not(x) if have.contains(&x))) {
                return Some(None);
            }
        }
        if let [t] = q[..] {
            if let Some((i, b, v)) = self.literal(t) {
                let old = base.as_ref().and_then(|m| m.vals.get(i as usize).copied().flatten()).unwrap_or(0);
                let new = if v { old | 1 << b } else { old & !(1 << b) };
                return Some(Some(self.model_from(base.as_ref(), &[(i, new)].into_iter().collect())));
            }
        }
        if q.iter().any(|t| self.has_sum(*t)) && self.s.refuted(&self.c, &q) {
            return Some(None);
        }
        if self.c.mulvars.is_empty() && q.iter().any(|t| self.has_product(*t)) {
            if let Some(r) = self.nearby(base.as_ref(), &q) {
                return Some(r);
            }
        }
        loop {
            let r = self.s.check(&self.c, &q, hard);
            match r {
                Res::Unsat => return Some(None),
                Res::Unknown => return None,
                Res::Sat(sol) => {
                    let m = self.model_from(base.as_ref(), &sol);
                    if self.c.mulvars.is_empty() {
                        return Some(Some(m));
                    }
                    // congruence and injectivity of abstracted multiplications
                    let ax = self.axioms(&q, &m);
                    rounds += 1;
                    if ax.is_empty() || rounds > 60 {
                        return Some(Some(m));
                    }
                    q.extend(ax);
                    // the axioms may bring in new variables: close the slice again
                    let q2 = self.slice(st, &q.clone(), base.is_none());
                    let mut seen = HashSet::new();
                    q = q2.into_iter().filter(|x| seen.insert(*x)).collect();
                }
            }
        }
    }

    fn axioms(&mut self, q: &[T], m: &Rc<Model>) -> Vec<T> {
        let mut vs: HashSet<u32> = HashSet::new();
        for &t in q {
            for v in self.s.vars(&self.c, t).iter() {
                vs.insert(*v);
            }
        }
        let mut rel: Vec<MulVar> = Vec::new();
        for mv in &self.c.mulvars {
            if let Op::Var(i) = self.c.op(mv.var) {
                if vs.contains(i) {
                    rel.push(mv.clone());
                }
            }
        }
        let mut out = Vec::new();
        for i in 0..rel.len() {
            for j in i + 1..rel.len() {
                if rel[i].coef != rel[j].coef || rel[i].w != rel[j].w {
                    continue;
                }
                let (a, b) = (m.eval(&self.c, rel[i].arg), m.eval(&self.c, rel[j].arg));
                let (x, y) = (m.eval(&self.c, rel[i].var), m.eval(&self.c, rel[j].var));
                let odd = rel[i].coef & 1 == 1;
                if (a == b && x != y) || (odd && a != b && x == y) {
                    let e1 = self.c.eq(rel[i].arg, rel[j].arg);
                    let e2 = self.c.eq(rel[i].var, rel[j].var);
                    let ax = if odd {
                        let d = self.c.xor(e1, e2);
                        self.c.not(d)
                    } else {
                        let n = self.c.not(e1);
                        self.c.or(n, e2)
                    };
                    out.push(ax);
                    if out.len() > 8 {
                        return out;
                    }
                }
            }
        }
        out
    }

    /// Is the condition possible on this path?  (unknown counts as possible)
    pub fn feasible(&mut self, st: &State, cond: T) -> Option<Option<Rc<Model>>> {
        match self.c.as_const(cond) {
            Some(0) => return None,
            Some(_) => return Some(st.model.clone()),
            None => {}
        }
        match self.fact(st, cond) {
            Some(0) => return None,
            Some(_) => return Some(st.model.clone()),
            None => {}
        }
        if let Some(m) = &st.model {
            if m.eval(&self.c, cond) != 0 {
                return Some(Some(m.clone()));
            }
        }
        match self.solve(st, &[cond], false) {
            Some(None) => {
                self.set_fact(st, cond, 0);
                let n = self.c.not(cond);
                self.set_fact(st, n, 1);
                None
            }
            Some(Some(m)) => Some(Some(m)),
            None => Some(None),
        }
    }

    /// The concrete value of a term on this path, if it is determined.
    pub fn conc_t(&mut self, st: &State, t: T) -> X<u128> {
        if let Some(k) = self.c.as_const(t) {
            return Ok(k);
        }
        if let Some(v) = self.fact(st, t) {
            return Ok(v);
        }
        // simplification under the literals of the path
        let s = self.resolve(st, t);
        if let Some(k) = self.c.as_const(s) {
            return Ok(k);
        }
        Err(Stop::Split(t))
    }
    pub fn conc(&mut self, st: &State, v: &V) -> X<u64> {
        match v {
            V::C(_, x) => Ok(*x),
            V::S(t) => Ok(self.conc_t(st, *t)? as u64),
            V::A(_) => fatal("aggregate"),
        }
    }
    /// choose Ite branches by the literals of the path condition
    pub fn resolve(&mut self, st: &State, t: T) -> T {
        match self.c.op(t).clone() {
            Op::Ite(c, a, b) => {
                let k = match self.c.as_const(c) {
                    Some(k) => Some(k),
                    None => self.lit(st, c),
                };
                match k {
                    Some(0) => self.resolve(st, b),
                    Some(_) => self.resolve(st, a),
                    None => t,
                }
            }
            Op::Concat(segs) => {
                let mut acc: Option<T> = None;
                for &s in segs.iter() {
                    let x = match self.c.w(s) {
                        1 => match self.lit(st, s) {
                            Some(v) => self.c.cst(1, v),
                            None => s,
                        },
                        _ => self.resolve(st, s),
                    };
                    acc = Some(match acc {
                        None => x,
                        Some(a) => self.c.concat(a, x),
                    });
                }
                acc.unwrap()
            }
            Op::Extract(x, lo) => {
                let w = self.c.w(t);
                let y = self.resolve(st, x);
                if y != x {
                    self.c.extract(y, lo, w)
                } else {
                    t
                }
            }
            Op::Poly(k, mons) if mons.len() <= 4 => {
                let w = self.c.w(t);
                let mut any = false;
                let mut acc = self.c.cst(w, k);
                for m in mons.iter() {
                    let mut p = self.c.cst(w, m.coef);
                    for &f in m.f.iter() {
                        let r = self.resolve(st, f);
                        any |= r != f;
                        p = self.c.mul(p, r);
                    }
                    acc = self.c.add(acc, p);
                }
                if any {
                    acc
                } else {
                    t
                }
            }
            _ => t,
        }
    }
    pub fn lit(&mut self, st: &State, c: T) -> Option<u128> {
        if let Some(v) = self.fact(st, c) {
            return Some(v);
        }
        if let Op::Not(x) = *self.c.op(c) {
            return self.fact(st, x).map(|v| v ^ 1);
        }
        None
    }

    // ------------------------------------------------------------ calls and blocks
    /// Run a function; the result is the set of returned states.
    pub fn call_func(&mut self, st: State, g: u32, args: Vec<V>) -> X<Vec<(State, V)>> {
        let f = self.m.func(g).map_err(Stop::Fatal)?;
        if f.dbg != 0 {
            self.see(f.dbg);
        }
        self.funcs_run.insert(g);
        let mut regs = vec![V::C(1, 0); f.nregs];
        for ((_, r), a) in f.params.iter().zip(args) {
            regs[*r as usize] = a;
        }
        if self.stack.len() > 400 {
            return fatal("call depth");
        }
        self.stack.push(g);
        self.stack.push(self.cur_dbg);
        let fs = FS { st, regs, blk: 0, ip: 0, allocas: vec![] };
        let mut rets: Vec<(State, V)> = Vec::new();
        let r = self.run(&f, vec![fs], None, &mut rets);
        self.cur_dbg = self.stack.pop().unwrap();
        self.stack.pop();
        r?;
        let n = rets.len();
        if n > 1 {
            rets = self.merge_rets(rets);
        }
        Ok(rets)
    }

    pub fn see(&mut self, d: u32) {
        let i = d as usize;
        if self.dbg_seen.len() <= i {
            self.dbg_seen.resize(i + 1, false);
        }
        self.dbg_seen[i] = true;
    }

    /// enter a block through an edge: evaluate the phis
    fn enter(&mut self, f: &Func, fs: &mut FS, from: u32, to: u32) -> X<()> {
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, t, inc) in &b.phis {
                let (v, _) = match inc.iter().find(|x| x.1 == from) {
                    Some(x) => x,
                    None => return fatal("phi"),
                };
                vals.push((*d, self.opnd(fs, t, v)?));
            }
            for (d, v) in vals {
                fs.regs[d as usize] = v;
            }
        }
        fs.blk = to;
        fs.ip = 0;
        Ok(())
    }

    pub fn run(&mut self, f: &FRc, init: Vec<FS>, stop: Option<u32>, rets: &mut Vec<(State, V)>) -> X<Vec<FS>> {
        let mut work = init;
        let mut out: Vec<FS> = Vec::new();
        'next: while let Some(mut fs) = work.pop() {
            loop {
                if fs.ip == 0 && stop == Some(fs.blk) {
                    out.push(fs);
                    continue 'next;
                }
                let b = &f.blocks[fs.blk as usize];
                let inst = &b.insts[fs.ip as usize];
                self.steps += 1;
                if self.steps & 0xfff == 0 || self.s.st.queries != self.last_queries {
                    self.last_queries = self.s.st.queries;
                    if self.steps > self.max_steps {
                        self.hang = true;
                        self.record_hang(&fs.st);
                        return fatal(format!("step budget exhausted at {}", self.loc()));
                    }
                    if std::time::Instant::now() > self.deadline {
                        return fatal(format!("time budget exhausted at {}", self.loc()));
                    }
                    if self.max_mb > 0 && resident_mb() > self.max_mb {
                        return fatal(format!("memory budget exhausted at {}", self.loc()));
                    }
                }
                if inst.dbg != 0 {
                    self.cur_dbg = inst.dbg;
                    let i = inst.dbg as usize;
                    if i >= self.dbg_seen.len() || !self.dbg_seen[i] {
                        self.see(inst.dbg);
                    }
                }
                let r = self.step(f, &mut fs, inst);
                match r {
                    Ok(Flow::Next) => fs.ip += 1,
                    Ok(Flow::Goto(t)) => {
                        let from = fs.blk;
                        self.enter(f, &mut fs, from, t)?;
                    }
                    Ok(Flow::Ret(v)) => {
                        for a in &fs.allocas {
                            fs.st.mem.set(*a, None);
                        }
                        rets.push((fs.st, v));
                        continue 'next;
                    }
                    Ok(Flow::Calls(rs, dst, next)) => {
                        // several or zero continuations
                        let from = fs.blk;
                        for (st, v) in rs {
                            let mut n = FS {
                                st,
                                regs: fs.regs.clone(),
                                blk: fs.blk,
                                ip: fs.ip,
                                allocas: fs.allocas.clone(),
                            };
                            if let Some(d) = dst {
                                n.regs[d as usize] = v;
                            }
                            match next {
                                Some(b) => self.enter(f, &mut n, from, b)?,
                                None => n.ip += 1,
                            }
                            work.push(n);
                        }
                        continue 'next;
                    }
                    Ok(Flow::Branch(ts)) => {
                        self.branch(f, fs, ts, &mut work, rets)?;
                        continue 'next;
                    }
                    Err(Stop::Split(t)) => {
                        let st = fs.st.clone();
                        let vals = self.split(&st, t)?;
                        for (st, v) in vals.into_iter().rev() {
                            let mut n = FS {
                                st,
                                regs: fs.regs.clone(),
                                blk: fs.blk,
                                ip: fs.ip,
                                allocas: fs.allocas.clone(),
                            };
                            let w = self.c.w(t);
                            if w <= 64 {
                                for r in n.regs.iter_mut() {
                                    if let V::S(x) = r {
                                        if *x == t {
                                            *r = V::C(w, v as u64);
                                        }
                                    }
                                }
                            }
                            work.push(n);
                        }
                        continue 'next;
                    }
                    Err(Stop::End) => {
                        self.n_paths += 1;
                        continue 'next;
                    }
                    Err(e) => return Err(e),
                }
            }
        }
        Ok(out)
    }

    /// One state per feasible value of the term.
    pub fn split(&mut self, st: &State, t: T) -> X<Vec<(State, u128)>> {
        let w = self.c.w(t);
        let mut out: Vec<(State, u128)> = Vec::new();
        let mut ex: Vec<T> = Vec::new();
        let mut vals = Vec::new();
        self.n_split += 1;
        let mut cut = false;
        loop {
            let m = match self.solve(st, &ex, true) {
                Some(None) => break,
                Some(Some(m)) => m,
                None if vals.len() < 2 => {
                    return fatal(format!("solver gave up while enumerating a value at {}", self.loc()))
                }
                None => {
                    cut = true;
                    self.some_values(st, t, &mut vals);
                    break;
                }
            };
            let v = m.eval(&self.c, t);
            vals.push((v, m));
            let at = self.loc();
            if vals.len() > if self.wide_splits.contains(&at) { 3 } else { self.split_cap } {
                self.wide_splits.insert(at);
                cut = true;
                self.some_values(st, t, &mut vals);
                break;
            }
            let k = self.c.cst(w, v);
            let n = self.c.ne(t, k);
            ex.push(n);
        }
        if vals.len() == 1 && !cut {
            self.set_fact(st, t, vals[0].0);
            let mut s = st.clone();
            if s.model.is_none() {
                s.model = Some(vals[0].1.clone());
            }
            return Ok(vec![(s, vals[0].0)]);
        }
        vals.sort_by_key(|x| x.0);
        for (v, m) in vals {
            let k = self.c.cst(w, v);
            let e = self.c.eq(t, k);
            let mut s = st.clone();
            s.model = Some(m);
            self.assume(&mut s, e);
            self.set_fact(&s, t, v);
            self.n_fork += 1;
            out.push((s, v));
        }
        Ok(out)
    }

    /// Too many values to go through: a few of them, spread out, and a note that the rest is open.
    fn some_values(&mut self, st: &State, t: T, vals: &mut Vec<(u128, Rc<Model>)>) {
        let w = self.c.w(t);
        let msg = format!("only some of many values explored at {}", self.loc());
        if !self.partial.contains(&msg) {
            self.partial.push(msg);
        }
        vals.truncate(2);
        if self.partial_splits > 40 {
            vals.truncate(1);
            return;
        }
        self.partial_splits += 1;
        // high values, odd values
        for (lo, bits) in [(w - 1, 1u128), (w.saturating_sub(2), 1), (0, 1)] {
            let mut q = Vec::new();
            let b = self.c.extract(t, lo, 1);
            let k = self.c.cst(1, bits);
            q.push(self.c.eq(b, k));
            if w > 8 {
                let b = self.c.extract(t, 0, 3);
                let k = self.c.cst(3, 5);
                q.push(self.c.eq(b, k));
            }
            for (v, _) in vals.iter() {
                let k = self.c.cst(w, *v);
                q.push(self.c.ne(t, k));
            }
            if let Some(Some(m)) = self.solve(st, &q, true) {
                let v = m.eval(&self.c, t);
                vals.push((v, m));
            }
        }
    }

    fn branch(
        &mut self,
        f: &FRc,
        fs: FS,
        ts: Vec<(T, u32)>,
        work: &mut Vec<FS>,
        rets: &mut Vec<(State, V)>,
    ) -> X<()> {
        self.n_branch += 1;
        let from = fs.blk;
        let light = f.light[from as usize];
        let j = f.ipdom[from as usize];
        let mut feas: Vec<(T, u32, Option<Rc<Model>>)> = Vec::new();
        let n = ts.len();
        for (i, (c, b)) in ts.iter().enumerate() {
            if light {
                match self.lit(&fs.st, *c) {
                    Some(0) => continue,
                    _ => {
                        let m = match &fs.st.model {
                            Some(m) if m.eval(&self.c, *c) != 0 => Some(m.clone()),
                            _ => None,
                        };
                        feas.push((*c, *b, m));
                        continue;
                    }
                }
            }
            if i + 1 == n && feas.is_empty() {
                // the only one left
                feas.push((*c, *b, fs.st.model.clone()));
                continue;
            }
            if let Some(m) = self.feasible(&fs.st, *c) {
                feas.push((*c, *b, m));
            }
        }
        if feas.len() == 1 {
            let (c, b, _) = feas[0];
            self.set_fact(&fs.st, c, 1);
            let mut fs = fs;
            self.enter(f, &mut fs, from, b)?;
            work.push(fs);
            return Ok(());
        }
        self.n_fork += feas.len() as u64 - 1;
        let dbg = self.cur_dbg;
        let mut joined: Vec<FS> = Vec::new();
        let mut later: Vec<FS> = Vec::new();
        // paths that do not return first: they only report
        feas.sort_by_key(|x| !f.dead[x.1 as usize]);
        let k = feas.len();
        let mut fs = Some(fs);
        for (i, (c, b, m)) in feas.into_iter().enumerate() {
            let mut n = if i + 1 == k { fs.take().unwrap() } else { fs.as_ref().unwrap().clone() };
            n.st.model = m;
            self.assume(&mut n.st, c);
            self.cur_dbg = dbg;
            self.enter(f, &mut n, from, b)?;
            if f.dead[b as usize] {
                let r = self.run(f, vec![n], None, rets)?;
                debug_assert!(r.is_empty());
            } else if let Some(j) = j {
                let r = self.run(f, vec![n], Some(j), rets)?;
                joined.extend(r);
            } else {
                later.push(n);
            }
        }
        if joined.len() > 1 {
            joined = self.merge_fs(f, joined, j.unwrap());
        }
        work.extend(joined);
        work.extend(later);
        Ok(())
    }

    // ------------------------------------------------------------ merging
    fn merge_fs(&mut self, f: &FRc, v: Vec<FS>, j: u32) -> Vec<FS> {
        let mut out: Vec<FS> = Vec::new();
        for x in v {
            let mut cur = x;
            let mut k = 0;
            while k < out.len() {
                let live = &f.live[j as usize];
                if let Some(m) = self.try_merge(&out[k], &cur, live) {
                    out.remove(k);
                    cur = m;
                    k = 0;
                } else {
                    k += 1;
                }
            }
            out.push(cur);
        }
        out
    }
    fn merge_rets(&mut self, v: Vec<(State, V)>) -> Vec<(State, V)> {
        let mut out: Vec<FS> = Vec::new();
        for (st, x) in v {
            let mut cur = FS { st, regs: vec![x], blk: 0, ip: 0, allocas: vec![] };
            let mut k = 0;
            while k < out.len() {
                if let Some(m) = self.try_merge(&out[k], &cur, &[0]) {
                    out.remove(k);
                    cur = m;
                    k = 0;
                } else {
                    k += 1;
                }
            }
            out.push(cur);
        }
        out.into_iter().map(|mut x| (x.st, x.regs.pop().unwrap())).collect()
    }

    fn is_ptr(&self, a: &State, v: u64) -> bool {
        let id = (v >> 32) as u32;
        if id == 0 {
            return false;
        }
        let lo = v & 0xffff_ffff;
        (id as usize <= self.m.globals.len() || a.mem.get(id).is_some()) && (0x7f00_0000..0x9000_0000).contains(&lo)
    }

    fn mergeable_v(&self, a: &State, b: &State, x: &V, y: &V, mem: bool) -> bool {
        match (x, y) {
            (V::C(w, p), V::C(_, q)) => {
                if p == q {
                    return true;
                }
                if *w < 64 || a.policy & 7 >= 2 {
                    return *w < 64 || !(self.is_ptr(a, *p) || self.is_ptr(b, *q)) || a.policy & 7 >= 3;
                }
                !mem && !self.is_ptr(a, *p) && !self.is_ptr(b, *q)
            }
            (V::A(p), V::A(q)) => p.iter().zip(q.iter()).all(|(m, n)| self.mergeable_v(a, b, m, n, mem)),
            (V::C(64, p), V::S(_)) => a.policy & 7 >= 3 || !self.is_ptr(a, *p),
            (V::S(_), V::C(64, p)) => a.policy & 7 >= 3 || !self.is_ptr(b, *p),
            _ => true,
        }
    }
    fn ite_v(&mut self, c: T, x: &V, y: &V) -> V {
        match (x, y) {
            (V::C(w, p), V::C(w2, q)) if p == q && w == w2 => x.clone(),
            (V::A(p), V::A(q)) if p.len() == q.len() => {
                V::A(Rc::new(p.iter().zip(q.iter()).map(|(m, n)| self.ite_v(c, m, n)).collect()))
            }
            (V::A(_), _) | (_, V::A(_)) => x.clone(),
            _ => {
                let (p, q) = match (self.tm(x), self.tm(y)) {
                    (Ok(p), Ok(q)) => (p, q),
                    _ => return x.clone(),
                };
                if self.c.w(p) != self.c.w(q) {
                    // a register that is defined on one side only
                    return x.clone();
                }
                let t = self.c.ite(c, p, q);
                self.v(t)
            }
        }
    }

    fn try_merge(&mut self, a: &FS, b: &FS, live: &[u32]) -> Option<FS> {
        if a.st.policy & 7 == 0 || a.st.policy != b.st.policy {
            return None;
        }
        if a.st.draws != b.st.draws
            || a.st.allow_panic != b.st.allow_panic
            || a.allocas.len() != b.allocas.len()
            || !(Rc::ptr_eq(&a.st.env, &b.st.env) || a.st.env == b.st.env)
            || !(Rc::ptr_eq(&a.st.files, &b.st.files) || a.st.files == b.st.files)
            || !(Rc::ptr_eq(&a.st.fds, &b.st.fds) || a.st.fds == b.st.fds)
        {
            return None;
        }
        if !Rc::ptr_eq(&a.st.obs, &b.st.obs) {
            if a.st.obs.len() != b.st.obs.len() || a.st.obs.iter().zip(b.st.obs.iter()).any(|(x, y)| x.0 != y.0) {
                return None;
            }
        }
        for &r in live {
            if !self.mergeable_v(&a.st, &b.st, &a.regs[r as usize], &b.regs[r as usize], false) {
                return None;
            }
        }
        // memory
        let ids = a.st.mem.diff(&b.st.mem);
        let mut plan: Vec<(u32, Vec<(usize, usize)>)> = Vec::new();
        for &id in &ids {
            let x = self.peek_obj(&a.st, id);
            let y = self.peek_obj(&b.st, id);
            let (x, y) = match (x, y) {
                (Some(x), Some(y)) => (x, y),
                _ => continue,
            };
            if x.cells.len() != y.cells.len() {
                // two different objects that share an id: give up on this pair
                return None;
            }
            let n = x.cells.len();
            let mut groups = Vec::new();
            let mut i = 0;
            while i < n {
                if x.cells[i] == y.cells[i] || x.cells[i].t == UNDEF || y.cells[i].t == UNDEF {
                    i += 1;
                    continue;
                }
                // the widest aligned group that is whole on both sides
                let mut g = 1;
                let mut st = i;
                for s in [16usize, 8, 4, 2] {
                    let s0 = i / s * s;
                    if s0 + s > n {
                        continue;
                    }
                    let (xs, ys) = (&x.cells[s0..s0 + s], &y.cells[s0..s0 + s]);
                    if xs[0].t == CONC && ys[0].t == CONC {
                        // neighbouring bytes that were written one by one are not a word
                        let z = xs.iter().chain(ys.iter()).map(|c| c.z as usize).max().unwrap_or(0);
                        if z != 0 && z < s.min(8) {
                            continue;
                        }
                    }
                    if self.whole(xs) && self.whole(ys) {
                        g = s;
                        st = s0;
                        break;
                    }
                }
                if g >= 8 {
                    for k in (0..g).step_by(8) {
                        let p = self.peek_c8(&x.cells[st + k..st + k + 8]);
                        let q = self.peek_c8(&y.cells[st + k..st + k + 8]);
                        let pv = p.map(|v| V::C(64, v)).unwrap_or(V::S(0));
                        let qv = q.map(|v| V::C(64, v)).unwrap_or(V::S(0));
                        if !self.mergeable_v(&a.st, &b.st, &pv, &qv, true) {
                            return None;
                        }
                    }
                }
                groups.push((st, g));
                i = st + g;
            }
            plan.push((id, groups));
        }
        // conditions
        let (mut pa, mut pb) = (a.st.pc.clone(), b.st.pc.clone());
        let (mut ea, mut eb): (Vec<T>, Vec<T>) = (vec![], vec![]);
        while pc_depth(&pa) > pc_depth(&pb) {
            let n = pa.unwrap();
            ea.push(n.cond);
            pa = n.parent.clone();
        }
        while pc_depth(&pb) > pc_depth(&pa) {
            let n = pb.unwrap();
            eb.push(n.cond);
            pb = n.parent.clone();
        }
        loop {
            match (&pa, &pb) {
                (None, None) => break,
                (Some(x), Some(y)) if Rc::ptr_eq(x, y) => break,
                (Some(x), Some(y)) => {
                    ea.push(x.cond);
                    eb.push(y.cond);
                    let (nx, ny) = (x.parent.clone(), y.parent.clone());
                    pa = nx;
                    pb = ny;
                }
                _ => unreachable!(),
            }
        }
        ea.reverse();
        eb.reverse();
        // drop a common prefix of equal conditions
        let mut common = vec![];
        while !ea.is_empty() && !eb.is_empty() && ea[0] == eb[0] {
            common.push(ea.remove(0));
            eb.remove(0);
        }
        let conj = |e: &mut Engine, v: &[T]| {
            let mut acc = e.c.tt;
            for &t in v {
                acc = e.c.and(acc, t);
            }
            acc
        };
        // a literal that tells the two sides apart
        let mut sel = None;
        if !ea.is_empty() && !eb.is_empty() {
            let n = self.c.not(ea[0]);
            if n == eb[0] {
                sel = Some(ea[0]);
            }
        }
        let joint = if let Some(s) = sel {
            let ra = conj(self, &ea[1..]);
            let rb = conj(self, &eb[1..]);
            self.c.ite(s, ra, rb)
        } else {
            let x = conj(self, &ea);
            let y = conj(self, &eb);
            self.c.or(x, y)
        };
        let cond = match sel {
            Some(s) => s,
            None => conj(self, &ea),
        };
        self.n_merge += 1;
        let mut st = a.st.clone();
        st.pc = pa;
        st.model = None;
        for t in common {
            st.pc = pc_push(&st.pc, t, &self.c);
        }
        if joint != self.c.tt {
            // split conjunctions
            let mut todo = vec![joint];
            while let Some(t) = todo.pop() {
                if let Op::And(x, y) = *self.c.op(t) {
                    todo.push(y);
                    todo.push(x);
                } else if t != self.c.tt {
                    st.pc = pc_push(&st.pc, t, &self.c);
                }
            }
        }
        st.model = if a.st.model.is_some() { a.st.model.clone() } else { b.st.model.clone() };
        // memory
        st.mem.next = a.st.mem.next.max(b.st.mem.next);
        for &id in &ids {
            let x = a.st.mem.get(id).cloned();
            let y = b.st.mem.get(id).cloned();
            match (x, y) {
                (None, y @ Some(_)) => {
                    // freed or never made on one side, or a global written on one side
                    if (id as u64) < HEAP as u64 {
                        continue;
                    }
                    st.mem.set(id, y);
                }
                (Some(_), None) => {}
                _ => {}
            }
        }
        for (id, groups) in plan {
            let x = self.peek_obj(&a.st, id).unwrap();
            let y = self.peek_obj(&b.st, id).unwrap();
            let mut cells = x.cells.clone();
            for i in 0..cells.len() {
                if cells[i].t == UNDEF {
                    cells[i] = y.cells[i];
                }
            }
            for (o, g) in groups {
                let p = self.word(&x.cells[o..o + g]);
                let q = self.word(&y.cells[o..o + g]);
                let t = self.c.ite(cond, p, q);
                self.put(&mut cells[o..o + g], t);
            }
            let ro = x.ro;
            st.mem.set(id, Some(Rc::new(Obj { cells, ro })));
        }
        // registers
        let mut regs = a.regs.clone();
        for &r in live {
            let (x, y) = (a.regs[r as usize].clone(), b.regs[r as usize].clone());
            regs[r as usize] = self.ite_v(cond, &x, &y);
        }
        if !Rc::ptr_eq(&a.st.obs, &b.st.obs) {
            let mut o = Vec::new();
            for (x, y) in a.st.obs.iter().zip(b.st.obs.iter()) {
                o.push((x.0, self.c.ite(cond, x.1, y.1)));
            }
            st.obs = Rc::new(o);
        }
        let mut al = a.allocas.clone();
        for x in &b.allocas {
            if !al.contains(x) {
                al.push(*x);
            }
        }
        Some(FS { st, regs, blk: a.blk, ip: a.ip, allocas: al })
    }

    pub fn peek_obj(&mut self, st: &State, id: u32) -> Option<Rc<Obj>> {
        if let Some(o) = st.mem.get(id) {
            return Some(o.clone());
        }
        if id < HEAP {
            return self.global_obj(id).ok();
        }
        None
    }
    fn whole(&self, c: &[Cell]) -> bool {
        if c[0].t == CONC {
            return c.iter().all(|x| x.t == CONC);
        }
        if c[0].t == UNDEF {
            return false;
        }
        c[0].k == 0
            && self.c.w(c[0].t) as usize == 8 * c.len()
            && c.iter().enumerate().all(|(i, x)| x.t == c[0].t && x.k as usize == i)
    }
    fn peek_c8(&self, c: &[Cell]) -> Option<u64> {
        let mut v = 0u64;
        for (i, x) in c.iter().enumerate() {
            if x.t != CONC {
                return None;
            }
            v |= (x.k as u64) << (8 * i);
        }
        Some(v)
    }
    /// cells as one term
    pub fn word(&mut self, c: &[Cell]) -> T {
        let mut acc: Option<T> = None;
        let mut i = 0;
        while i < c.len() {
            let t = if c[i].t == CONC || c[i].t == UNDEF {
                let mut v = 0u128;
                let mut k = 0;
                while i + k < c.len() && (c[i + k].t == CONC || c[i + k].t == UNDEF) && k < 16 {
                    if c[i + k].t == CONC {
                        v |= (c[i + k].k as u128) << (8 * k);
                    }
                    k += 1;
                }
                i += k;
                self.c.cst(8 * k as u8, v)
            } else {
                let t = c[i].t;
                let k0 = c[i].k;
                let mut k = 1;
                while i + k < c.len() && c[i + k].t == t && c[i + k].k as usize == k0 as usize + k {
                    k += 1;
                }
                i += k;
                self.c.extract(t, 8 * k0, 8 * k as u8)
            };
            acc = Some(match acc {
                None => t,
                Some(l) => self.c.concat(t, l),
            });
        }
        acc.unwrap()
    }
    pub fn put(&mut self, cells: &mut [Cell], t: T) {
        if let Some(k) = self.c.as_const(t) {
            for (i, c) in cells.iter_mut().enumerate() {
                *c = Cell::c((k >> (8 * i)) as u8);
            }
        } else {
            for (i, c) in cells.iter_mut().enumerate() {
                *c = Cell::s(t, i as u8);
            }
        }
    }

    // ------------------------------------------------------------ instructions
    fn step(&mut self, f: &FRc, fs: &mut FS, ins: &Inst) -> X<Flow> {
        let v = match &ins.i {
            I::Bin(op, t, a, b) => {
                let x = self.opnd(fs, t, a)?;
                let y = self.opnd(fs, t, b)?;
                self.bin(*op, t, x, y)?
            }
            I::Icmp(p, t, a, b) => {
                let x = self.opnd(fs, t, a)?;
                let y = self.opnd(fs, t, b)?;
                self.icmp(*p, t, x, y)?
            }
            I::Fcmp(p, t, a, b) => {
                let x = self.opnd(fs, t, a)?;
                let y = self.opnd(fs, t, b)?;
                let (x, y) = (self.conc(&fs.st, &x)?, self.conc(&fs.st, &y)?);
                let (x, y) = if *t == Ty::F64 {
                    (f64::from_bits(x), f64::from_bits(y))
                } else {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => !un && x == y,
                    "one" => !un && x != y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "une" => un || x != y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "true" => true,
                    _ => false,
                };
                V::C(1, r as u64)
            }
            I::Fneg(t, a) => {
                let x = self.opnd(fs, t, a)?;
                let x = self.conc(&fs.st, &x)?;
                if *t == Ty::F64 {
                    V::C(64, x ^ (1 << 63))
                } else {
                    V::C(32, x ^ (1 << 31))
                }
            }
            I::Select(ct, c, t, a, b) => {
                let cv = self.opnd(fs, ct, c)?;
                let x = self.opnd(fs, t, a)?;
                let y = self.opnd(fs, t, b)?;
                match cv {
                    V::C(_, k) => {
                        if k != 0 {
                            x
                        } else {
                            y
                        }
                    }
                    V::S(k) => match self.lit(&fs.st, k) {
                        Some(0) => y,
                        Some(_) => x,
                        None => self.ite_v(k, &x, &y),
                    },
                    V::A(ks) => {
                        let (x, y) = match (x, y) {
                            (V::A(x), V::A(y)) => (x, y),
                            _ => return fatal("select"),
                        };
                        let mut o = Vec::new();
                        for i in 0..ks.len() {
                            let k = self.tm(&ks[i])?;
                            o.push(self.ite_v(k, &x[i], &y[i]));
                        }
                        V::A(Rc::new(o))
                    }
                }
            }
            I::Cast(op, a, x, b) => {
                let v = self.opnd(fs, a, x)?;
                self.cast(*op, a, v, b)?
            }
            I::Gep(t, b, ix) => {
                let base = self.opnd(fs, &Ty::Ptr, b)?;
                let mut vs = Vec::with_capacity(ix.len());
                for (t, x) in ix {
                    vs.push(self.opnd(fs, t, x)?);
                }
                self.gep(t, base, &vs)?
            }
            I::Load(t, p) => {
                let p = self.opnd(fs, &Ty::Ptr, p)?;
                self.load(&mut fs.st, t, &p)?
            }
            I::Store(t, x, p) => {
                let p = self.opnd(fs, &Ty::Ptr, p)?;
                let v = self.opnd(fs, t, x)?;
                self.store(&mut fs.st, t, &p, &v)?;
                return Ok(Flow::Next);
            }
            I::Alloca(t, n) => {
                let k = match n {
                    None => 1,
                    Some((t, o)) => {
                        let x = self.opnd(fs, t, o)?;
                        self.conc(&fs.st, &x)?
                    }
                };
                let id = fs.st.mem.alloc(t.size() * k, false);
                fs.allocas.push(id);
                V::C(64, addr_of(id))
            }
            I::Freeze(t, a) => self.opnd(fs, t, a)?,
            I::ExtractValue(t, a, ix) => {
                let mut v = self.opnd(fs, t, a)?;
                for &i in ix {
                    v = match v {
                        V::A(x) => x[i as usize].clone(),
                        _ => return fatal("extractvalue"),
                    };
                }
                v
            }
            I::InsertValue(t, a, t2, x, ix) => {
                let v = self.opnd(fs, t, a)?;
                let y = self.opnd(fs, t2, x)?;
                fn ins(v: V, ix: &[u32], y: V) -> V {
                    if ix.is_empty() {
                        return y;
                    }
                    match v {
                        V::A(x) => {
                            let mut x = (*x).clone();
                            let i = ix[0] as usize;
                            x[i] = ins(x[i].clone(), &ix[1..], y);
                            V::A(Rc::new(x))
                        }
                        o => o,
                    }
                }
                ins(v, ix, y)
            }
            I::ExtractElem(t, a, i) => {
                let v = self.opnd(fs, t, a)?;
                let i = self.opnd(fs, &Ty::Int(64), i)?;
                let i = self.conc(&fs.st, &i)?;
                match v {
                    V::A(x) if (i as usize) < x.len() => x[i as usize].clone(),
                    _ => return fatal("extractelement"),
                }
            }
            I::InsertElem(t, a, x, i) => {
                let v = self.opnd(fs, t, a)?;
                let e = t.field(0);
                let y = self.opnd(fs, &e, x)?;
                let i = self.opnd(fs, &Ty::Int(64), i)?;
                let i = self.conc(&fs.st, &i)?;
                match v {
                    V::A(x) => {
                        let mut x = (*x).clone();
                        x[i as usize] = y;
                        V::A(Rc::new(x))
                    }
                    _ => return fatal("insertelement"),
                }
            }
            I::Shuffle(t, a, b, mt, m) => {
                let x = self.opnd(fs, t, a)?;
                let y = self.opnd(fs, t, b)?;
                let mv = self.cval(mt, m)?;
                match (x, y, mv) {
                    (V::A(x), V::A(y), V::A(m)) => {
                        let mut o = Vec::new();
                        for k in m.iter() {
                            let k = match k {
                                V::C(_, k) => *k as usize,
                                _ => return fatal("shuffle"),
                            };
                            o.push(if k < x.len() { x[k].clone() } else { y[k - x.len()].clone() });
                        }
                        V::A(Rc::new(o))
                    }
                    _ => return fatal("shuffle"),
                }
            }
            I::AtomicRmw(op, t, p, x) => {
                let p = self.opnd(fs, &Ty::Ptr, p)?;
                let x = self.opnd(fs, t, x)?;
                let old = self.load(&mut fs.st, t, &p)?;
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.bin(BinOp::Add, t, old.clone(), x)?,
                    "sub" => self.bin(BinOp::Sub, t, old.clone(), x)?,
                    "and" => self.bin(BinOp::And, t, old.clone(), x)?,
                    "or" => self.bin(BinOp::Or, t, old.clone(), x)?,
                    "xor" => self.bin(BinOp::Xor, t, old.clone(), x)?,
                    _ => return fatal(format!("atomicrmw {}", op)),
                };
                self.store(&mut fs.st, t, &p, &new)?;
                old
            }
            I::CmpXchg(t, p, a, b) => {
                let p = self.opnd(fs, &Ty::Ptr, p)?;
                let x = self.opnd(fs, t, a)?;
                let y = self.opnd(fs, t, b)?;
                let old = self.load(&mut fs.st, t, &p)?;
                let e = self.icmp(Pred::Eq, t, old.clone(), x)?;
                let k = match &e {
                    V::C(_, k) => *k,
                    V::S(t) => return Err(Stop::Split(*t)),
                    _ => return fatal("cmpxchg"),
                };
                if k != 0 {
                    self.store(&mut fs.st, t, &p, &y)?;
                }
                V::A(Rc::new(vec![old, V::C(1, k)]))
            }
            I::Fence => return Ok(Flow::Next),
            I::LandingPad | I::Resume => return fatal("unwinding"),
            I::Br(t) => return Ok(Flow::Goto(*t)),
            I::CondBr(c, a, b) => {
                let cv = self.opnd(fs, &Ty::Int(1), c)?;
                match cv {
                    V::C(_, k) => return Ok(Flow::Goto(if k != 0 { *a } else { *b })),
                    V::S(t) => {
                        if a == b {
                            return Ok(Flow::Goto(*a));
                        }
                        if let Some(k) = self.lit(&fs.st, t) {
                            return Ok(Flow::Goto(if k != 0 { *a } else { *b }));
                        }
                        // a branch to a block that is unreachable is an assumption of the compiler
                        for (x, y) in [(*a, *b), (*b, *a)] {
                            if f.blocks[x as usize].insts.len() == 1
                                && matches!(f.blocks[x as usize].insts[0].i, I::Unreachable)
                            {
                                return Ok(Flow::Goto(y));
                            }
                        }
                        let n = self.c.not(t);
                        return Ok(Flow::Branch(vec![(t, *a), (n, *b)]));
                    }
                    _ => return fatal("br"),
                }
            }
            I::Switch(t, x, d, cs) => {
                let v = self.opnd(fs, t, x)?;
                match v {
                    V::C(_, k) => {
                        for (c, b) in cs {
                            if *c as u64 & m64(t.bits() as u8) == k {
                                return Ok(Flow::Goto(*b));
                            }
                        }
                        return Ok(Flow::Goto(*d));
                    }
                    V::S(s) => {
                        if let Some(k) = self.fact(&fs.st, s) {
                            for (c, b) in cs {
                                if *c & mask(t.bits() as u8) == k {
                                    return Ok(Flow::Goto(*b));
                                }
                            }
                            return Ok(Flow::Goto(*d));
                        }
                        let mut ts: Vec<(T, u32)> = Vec::new();
                        let mut none = self.c.tt;
                        for (c, b) in cs {
                            let k = self.c.cst(t.bits() as u8, *c);
                            let e = self.c.eq(s, k);
                            let n = self.c.not(e);
                            none = self.c.and(none, n);
                            if e == self.c.ff {
                                continue;
                            }
                            if let Some(x) = ts.iter_mut().find(|x| x.1 == *b) {
                                x.0 = self.c.or(x.0, e);
                            } else {
                                ts.push((e, *b));
                            }
                        }
                        let db = &f.blocks[*d as usize];
                        let unr = db.insts.len() == 1 && matches!(db.insts[0].i, I::Unreachable);
                        if !unr && none != self.c.ff {
                            if let Some(x) = ts.iter_mut().find(|x| x.1 == *d) {
                                x.0 = self.c.or(x.0, none);
                            } else {
                                ts.push((none, *d));
                            }
                        }
                        if ts.len() == 1 {
                            return Ok(Flow::Goto(ts[0].1));
                        }
                        return Ok(Flow::Branch(ts));
                    }
                    _ => return fatal("switch"),
                }
            }
            I::Ret(v) => {
                let r = match v {
                    None => V::C(1, 0),
                    Some((t, o)) => self.opnd(fs, t, o)?,
                };
                return Ok(Flow::Ret(r));
            }
            I::Unreachable => return fatal(format!("unreachable reached at {}", self.loc())),
            I::Call(rt, c, args, nr) => return self.do_call(fs, ins.dst, rt, c, args, *nr, None),
            I::Invoke(rt, c, args, nr, next) => return self.do_call(fs, ins.dst, rt, c, args, *nr, Some(*next)),
        };
        if let Some(d) = ins.dst {
            fs.regs[d as usize] = v;
        }
        Ok(Flow::Next)
    }

    fn do_call(
        &mut self,
        fs: &mut FS,
        dst: Option<u32>,
        rt: &Ty,
        c: &Callee,
        args: &[(Ty, Opnd)],
        _nr: bool,
        next: Option<u32>,
    ) -> X<Flow> {
        let g = match c {
            Callee::Fn(g) => *g,
            Callee::Asm(_) => {
                let v = self.zero(rt);
                return Ok(self.finish(fs, dst, v, next));
            }
            Callee::Ind(o) => {
                let v = self.opnd(fs, &Ty::Ptr, o)?;
                let a = self.conc(&fs.st, &v)?;
                let id = (a >> 32) as u32;
                if id == 0 || id as usize > self.m.globals.len() || !self.m.globals[id as usize - 1].is_fn {
                    return fatal(format!("indirect call to {:x} at {}", a, self.loc()));
                }
                id - 1
            }
        };
        // the arguments of the process are set by the function that the loader calls
        let g = if self.m.globals[g as usize].is_decl && self.m.globals[g as usize].name == "sym_args" {
            let f = |x: &crate::ir::Global| x.is_fn && !x.is_decl && x.name.contains("ARGV_INIT_ARRAY12init_wrapper");
            match self.m.globals.iter().position(f) {
                Some(p) => p as u32,
                None => g,
            }
        } else {
            g
        };
        let ext = self.ext_of(g);
        let mut vs = Vec::with_capacity(args.len());
        for (t, o) in args {
            if *t == Ty::Other {
                vs.push(V::C(1, 0));
            } else {
                vs.push(self.opnd(fs, t, o)?);
            }
        }
        if let Ext::Fmt(k) = ext {
            // the text of a symbolic number or string is not modelled: nothing is written
            let n = match (k, &vs[..]) {
                (0, [_, V::C(_, n), ..]) => Some(*n as usize),
                (0, _) => None,
                (k, _) => Some(k as usize),
            };
            let sy = match n {
                Some(n) => self.any_sym(&mut fs.st, &vs[0], n)?,
                None => true,
            };
            if sy {
                let v = self.zero(rt);
                return Ok(self.finish(fs, dst, v, next));
            }
        } else if ext != Ext::None {
            let tys: Vec<Ty> = args.iter().map(|x| x.0.clone()).collect();
            let v = self.external(fs, ext, g, rt, &tys, vs)?;
            return Ok(self.finish(fs, dst, v, next));
        }
        if self.m.globals[g as usize].is_decl {
            return fatal(format!("external function {} at {}", self.m.globals[g as usize].name, self.loc()));
        }
        // the state moves into the call
        let st = std::mem::replace(&mut fs.st, State::empty());
        let rs = self.call_func(st, g, vs)?;
        if rs.len() == 1 {
            let (st, v) = rs.into_iter().next().unwrap();
            fs.st = st;
            return Ok(self.finish(fs, dst, v, next));
        }
        Ok(Flow::Calls(rs, dst, next))
    }
    fn finish(&mut self, fs: &mut FS, dst: Option<u32>, v: V, next: Option<u32>) -> Flow {
        if let Some(d) = dst {
            fs.regs[d as usize] = v;
        }
        match next {
            Some(b) => Flow::Goto(b),
            None => Flow::Next,
        }
    }
}

impl State {
    pub fn empty() -> State {
        State {
            mem: Mem::default(),
            pc: None,
            model: None,
            draws: [0; 4],
            obs: Rc::new(vec![]),
            allow_panic: false,
            policy: 1,
            env: Default::default(),
            files: Default::default(),
            fds: Default::default(),
            facts0: Default::default(),
        }
    }
}

fn resident_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        / 256
}
