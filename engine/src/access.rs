//! Loads and stores, pointers that are symbolic.
use crate::exec::*;
use crate::ir::*;
use crate::mem::*;
use crate::state::*;
use crate::term::*;
use std::rc::Rc;

/// where a pointer may point: under `cond`, to `obj` at a constant or symbolic offset
#[derive(Clone, Debug)]
pub struct Case {
    pub cond: T,
    pub obj: u32,
    pub off: u64,
    pub sym: Option<T>,
}

impl Engine {
    pub fn global_obj(&mut self, id: u32) -> X<Rc<Obj>> {
        if let Some(o) = self.ginit.get(&id) {
            return Ok(o.clone());
        }
        if id == 0 || id as usize > self.m.globals.len() {
            return Err(Stop::Fatal(format!("no object {} at {}", id, self.loc())));
        }
        let g = id - 1;
        let o = if self.m.globals[g as usize].is_fn {
            Obj { cells: vec![Cell::c(0); 16], ro: true }
        } else {
            let (t, c) = self.m.global_init(g).map_err(Stop::Fatal)?;
            let n = t.size().max(1) as usize;
            let mut o = Obj { cells: vec![Cell::c(0); n], ro: self.m.globals[g as usize].constant };
            if let Some(c) = c {
                let v = self.cval(&t, &c)?;
                self.fill(&mut o.cells, 0, &t, &v)?;
            }
            o
        };
        let o = Rc::new(o);
        self.ginit.insert(id, o.clone());
        Ok(o)
    }

    fn fill(&mut self, cells: &mut [Cell], off: u64, t: &Ty, v: &V) -> X<()> {
        match v {
            V::A(xs) => {
                for (i, x) in xs.iter().enumerate() {
                    let o = off + t.field_off(i);
                    let ft = t.field(i);
                    self.fill(cells, o, &ft, x)?;
                }
            }
            _ => {
                let n = (t.bits() as usize + 7) / 8;
                let tm = self.tm(v)?;
                let tm = self.c.resize(tm, 8 * n as u8);
                self.put(&mut cells[off as usize..off as usize + n], tm);
            }
        }
        Ok(())
    }

    pub fn obj(&mut self, st: &State, id: u32) -> X<Rc<Obj>> {
        if let Some(o) = st.mem.get(id) {
            return Ok(o.clone());
        }
        if id < HEAP {
            return self.global_obj(id);
        }
        Err(Stop::Fatal(format!("access to a freed or missing object {:x} at {}", id, self.loc())))
    }
    pub fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> X<&'a mut Obj> {
        if st.mem.get(id).is_none() {
            if id < HEAP {
                let o = self.global_obj(id)?;
                st.mem.set(id, Some(o));
            } else {
                return Err(Stop::Fatal(format!("write to a freed or missing object {:x} at {}", id, self.loc())));
            }
        }
        Ok(st.mem.get_mut(id).unwrap())
    }

    pub fn read_n(&mut self, st: &State, id: u32, off: u64, n: usize) -> X<V> {
        let o = match st.mem.get(id) {
            Some(o) => o.clone(),
            None => self.obj(st, id)?,
        };
        if off as usize + n > o.cells.len() || off as usize + n < n {
            return Err(Stop::Fatal(format!("read out of bounds: {}+{} of {} at {}", off, n, o.cells.len(), self.loc())));
        }
        let c = &o.cells[off as usize..off as usize + n];
        if n <= 8 {
            let mut v = 0u64;
            let mut ok = true;
            for (i, x) in c.iter().enumerate() {
                if x.t == CONC {
                    v |= (x.k as u64) << (8 * i);
                } else if x.t != UNDEF {
                    ok = false;
                    break;
                }
            }
            if ok {
                return Ok(V::C(8 * n as u8, v));
            }
            let c0 = c[0];
            if c0.k == 0
                && c0.t < UNDEF
                && self.c.w(c0.t) as usize == 8 * n
                && c.iter().enumerate().all(|(i, x)| x.t == c0.t && x.k as usize == i)
            {
                return Ok(V::S(c0.t));
            }
        }
        let t = self.word(c);
        Ok(self.v(t))
    }
    pub fn write_n(&mut self, st: &mut State, id: u32, off: u64, n: usize, v: &V) -> X<()> {
        let loc = self.cur_dbg;
        let mut buf = [Cell::undef(); 16];
        match v {
            V::C(_, x) if n <= 8 => {
                for i in 0..n {
                    buf[i] = Cell::cz((x >> (8 * i)) as u8, n as u8);
                }
            }
            _ => {
                let t = self.tm(v)?;
                self.put(&mut buf[..n], t);
            }
        }
        let o = self.obj_mut(st, id)?;
        let len = o.cells.len();
        if off as usize + n > len || off as usize + n < n {
            self.cur_dbg = loc;
            return Err(Stop::Fatal(format!("write out of bounds: {}+{} of {} at {}", off, n, len, self.loc())));
        }
        o.cells[off as usize..off as usize + n].copy_from_slice(&buf[..n]);
        Ok(())
    }

    /// Cases of a pointer for an access of `n` bytes.
    pub fn cases(&mut self, st: &State, p: T, out: &mut Vec<Case>, cond: T) -> X<()> {
        if cond == self.c.ff {
            return Ok(());
        }
        if let Some(k) = self.c.as_const(p) {
            let k = k as u64;
            out.push(Case { cond, obj: (k >> 32) as u32, off: (k & 0xffff_ffff).wrapping_sub(BASE), sym: None });
            return Ok(());
        }
        if let Some(k) = self.fact(st, p) {
            let k = k as u64;
            out.push(Case { cond, obj: (k >> 32) as u32, off: (k & 0xffff_ffff).wrapping_sub(BASE), sym: None });
            return Ok(());
        }
        if let Op::Ite(c, a, b) = *self.c.op(p) {
            match self.lit(st, c) {
                Some(0) => return self.cases(st, b, out, cond),
                Some(_) => return self.cases(st, a, out, cond),
                None => {}
            }
            let ca = self.c.and(cond, c);
            let n = self.c.not(c);
            let cb = self.c.and(cond, n);
            self.cases(st, a, out, ca)?;
            return self.cases(st, b, out, cb);
        }
        // one object with a symbolic offset
        let n = self.c.n(p);
        let id = if n.lo >> 32 == n.hi >> 32 && n.lo >> 32 != 0 {
            Some((n.lo >> 32) as u32)
        } else if (n.kz | n.ko) >> 32 & 0xffff_ffff == 0xffff_ffff && n.ko >> 32 != 0 {
            Some((n.ko >> 32) as u32)
        } else if let Op::Poly(k, mons) = n.op.clone() {
            let id = ((k as u64) >> 32) as u32;
            // a monomial that is itself a choice of pointers
            let mut hit = None;
            for (i, m) in mons.iter().enumerate() {
                if m.coef == 1 && m.f.len() == 1 {
                    if let Op::Ite(c, a, b) = *self.c.op(m.f[0]) {
                        if self.ptr_like(a) || self.ptr_like(b) {
                            hit = Some((i, c, a, b));
                            break;
                        }
                    }
                }
            }
            if let Some((i, c, a, b)) = hit {
                let f = mons[i].f[0];
                let rest = self.c.sub(p, f);
                let pa = self.c.add(rest, a);
                let pb = self.c.add(rest, b);
                match self.lit(st, c) {
                    Some(0) => return self.cases(st, pb, out, cond),
                    Some(_) => return self.cases(st, pa, out, cond),
                    None => {}
                }
                let ca = self.c.and(cond, c);
                let n = self.c.not(c);
                let cb = self.c.and(cond, n);
                self.cases(st, pa, out, ca)?;
                return self.cases(st, pb, out, cb);
            }
            let lo = k as u64 & 0xffff_ffff;
            if (id >= HEAP && st.mem.get(id).is_some() || id > 0 && (id as usize) <= self.m.globals.len())
                && (0x7000_0000..0x9000_0000).contains(&lo)
            {
                Some(id)
            } else {
                None
            }
        } else {
            None
        };
        match id {
            Some(id) => {
                let b = self.c.cst(64, addr_of(id) as u128);
                let mut off = self.c.sub(p, b);
                if st.policy & 8 != 0 {
                    off = self.pin(st, off)?;
                }
                if let Some(k) = self.c.as_const(off) {
                    out.push(Case { cond, obj: id, off: k as u64, sym: None });
                } else {
                    out.push(Case { cond, obj: id, off: 0, sym: Some(off) });
                }
                Ok(())
            }
            None => Err(Stop::Split(p)),
        }
    }

    /// one path per value of a symbolic offset (policy 8)
    fn pin(&mut self, st: &State, off: T) -> X<T> {
        let w = self.c.w(off);
        if self.c.is_const(off) {
            return Ok(off);
        }
        if let Some(k) = self.fact(st, off) {
            return Ok(self.c.cst(w, k));
        }
        match self.c.op(off).clone() {
            Op::Poly(c, mons) => {
                let mut r = self.c.cst(w, c);
                for m in mons.iter() {
                    let mut v = self.c.cst(w, m.coef);
                    for f in m.f.iter() {
                        let x = self.pin(st, *f)?;
                        v = self.c.mul(v, x);
                    }
                    r = self.c.add(r, v);
                }
                Ok(r)
            }
            Op::Concat(segs) => {
                let mut r = self.pin(st, segs[0])?;
                for s in segs[1..].iter() {
                    let y = self.pin(st, *s)?;
                    r = self.c.concat(r, y);
                }
                Ok(r)
            }
            _ => Err(Stop::Split(off)),
        }
    }

    fn ptr_like(&self, t: T) -> bool {
        let n = self.c.n(t);
        let id = (n.lo >> 32) as u32;
        (n.lo >> 32 == n.hi >> 32 && id != 0) || matches!(n.op, Op::Ite(..)) && n.lo >> 32 != 0
    }

    /// possible offsets of a symbolic offset within an object, checked to be complete
    fn offsets(&mut self, st: &mut State, cond: T, off: T, size: usize, n: usize) -> X<Vec<u64>> {
        if n > size {
            return Err(Stop::Fatal(format!("symbolic access of {} bytes to an object of {} at {}", n, size, self.loc())));
        }
        let max = (size - n) as u128;
        let nd = self.c.n(off).clone();
        let key = {
            let k = self.c.cst(64, max);
            self.c.ule(off, k)
        };
        if nd.hi > max && self.lit(st, key) != Some(1) {
            let mut ex = vec![];
            let nk = self.c.not(key);
            ex.push(nk);
            if cond != self.c.tt {
                ex.push(cond);
            }
            match self.solve(st, &ex, true) {
                Some(None) => {
                    if cond == self.c.tt {
                        self.set_fact(st, key, 1);
                    }
                }
                Some(Some(m)) => {
                    self.report(st, "memory", "access out of bounds", &ex, Some(m))?;
                    return Err(Stop::Split(off));
                }
                None => return Err(Stop::Fatal(format!("solver gave up on a bounds check at {}", self.loc()))),
            }
        }
        let lo = nd.lo.min(max + 1);
        let hi = nd.hi.min(max);
        let tz = (!nd.kz).trailing_zeros().min(40);
        let step = 1u128 << tz;
        let mut v = Vec::new();
        let mut k = (lo + step - 1) / step * step;
        while k <= hi {
            if k & nd.kz == 0 && k & nd.ko == nd.ko {
                v.push(k as u64);
            }
            k += step;
            if v.len() > 20000 {
                return Err(Stop::Split(off));
            }
        }
        if v.is_empty() {
            return Err(Stop::End);
        }
        Ok(v)
    }

    fn mux(&mut self, off: T, cands: &[(u64, T)], bit: i32) -> T {
        if cands.iter().all(|x| x.1 == cands[0].1) {
            return cands[0].1;
        }
        let mut b = bit;
        loop {
            let s = cands.partition_point(|x| x.0 >> b & 1 == 0);
            // candidates are sorted and agree above bit b
            if s == 0 || s == cands.len() {
                b -= 1;
                continue;
            }
            let lo = self.mux(off, &cands[..s], b - 1);
            let hi = self.mux(off, &cands[s..], b - 1);
            let c = self.c.extract(off, b as u8, 1);
            return self.c.ite(c, hi, lo);
        }
    }

    fn read_case(&mut self, st: &mut State, c: &Case, n: usize) -> X<T> {
        match c.sym {
            None => {
                let v = self.read_n(st, c.obj, c.off, n)?;
                self.tm(&v)
            }
            Some(off) => {
                let size = self.obj(st, c.obj)?.cells.len();
                let cs = self.offsets(st, c.cond, off, size, n)?;
                let mut cands = Vec::with_capacity(cs.len());
                for k in cs {
                    let v = self.read_n(st, c.obj, k, n)?;
                    let t = self.tm(&v)?;
                    cands.push((k, t));
                }
                if cands.iter().all(|x| self.c.is_const(x.1)) && n <= 8 {
                    let map: std::collections::HashMap<u64, u64> =
                        cands.iter().map(|x| (x.0, self.c.as_const(x.1).unwrap() as u64)).collect();
                    let first = self.c.as_const(cands[0].1).unwrap() as u64;
                    if let Some(t) =
                        self.c.lut_load(off, &mut |_, k| Some(map.get(&(k as u64)).copied().unwrap_or(first)), 8 * n as u8)
                    {
                        return Ok(t);
                    }
                }
                Ok(self.mux(off, &cands, 40))
            }
        }
    }

    pub fn read_bytes_v(&mut self, st: &mut State, p: &V, n: usize) -> X<V> {
        match p {
            V::C(_, k) => {
                let id = (k >> 32) as u32;
                if id == 0 {
                    return Err(Stop::Fatal(format!("read through a null pointer {:x} at {}", k, self.loc())));
                }
                self.read_n(st, id, (k & 0xffff_ffff).wrapping_sub(BASE), n)
            }
            V::S(t) => {
                let mut cs = Vec::new();
                let tt = self.c.tt;
                self.cases(st, *t, &mut cs, tt)?;
                // drop impossible cases
                if cs.len() > 1 {
                    let mut keep = Vec::new();
                    for c in cs {
                        if c.obj != 0 && self.feasible(st, c.cond).is_some() {
                            keep.push(c);
                        }
                    }
                    cs = keep;
                }
                if cs.is_empty() {
                    return Err(Stop::End);
                }
                let mut acc: Option<T> = None;
                for c in cs.iter().rev() {
                    let x = self.read_case(st, c, n)?;
                    acc = Some(match acc {
                        None => x,
                        Some(y) => self.c.ite(c.cond, x, y),
                    });
                }
                let t = acc.unwrap();
                Ok(self.v(t))
            }
            _ => Err(Stop::Fatal("pointer".into())),
        }
    }

    pub fn load(&mut self, st: &mut State, t: &Ty, p: &V) -> X<V> {
        match t {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let mut o = Vec::new();
                for i in 0..t.nfields() {
                    let q = self.addk(p.clone(), t.field_off(i))?;
                    o.push(self.load(st, &t.field(i), &q)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => {
                let bits = t.bits();
                let n = (bits as usize + 7) / 8;
                let v = self.read_bytes_v(st, p, n)?;
                if bits as usize == 8 * n {
                    return Ok(v);
                }
                match v {
                    V::C(_, x) => Ok(V::C(bits as u8, x & m64(bits as u8))),
                    V::S(t) => {
                        let r = self.c.extract(t, 0, bits as u8);
                        Ok(self.v(r))
                    }
                    _ => unreachable!(),
                }
            }
        }
    }

    pub fn write_bytes_v(&mut self, st: &mut State, p: &V, n: usize, v: &V) -> X<()> {
        match p {
            V::C(_, k) => {
                let id = (k >> 32) as u32;
                if id == 0 {
                    return Err(Stop::Fatal(format!("write through a null pointer {:x} at {}", k, self.loc())));
                }
                self.write_n(st, id, (k & 0xffff_ffff).wrapping_sub(BASE), n, v)
            }
            V::S(t) => {
                let mut cs = Vec::new();
                let tt = self.c.tt;
                self.cases(st, *t, &mut cs, tt)?;
                let single = cs.len() == 1;
                let nv = self.tm(v)?;
                // decide everything that may need a split before writing
                let mut plan: Vec<(T, u32, u64)> = Vec::new();
                for c in &cs {
                    if !single && (c.obj == 0 || self.feasible(st, c.cond).is_none()) {
                        continue;
                    }
                    match c.sym {
                        None => plan.push((c.cond, c.obj, c.off)),
                        Some(off) => {
                            let size = self.obj(st, c.obj)?.cells.len();
                            let ks = self.offsets(st, c.cond, off, size, n)?;
                            for k in ks {
                                let kk = self.c.cst(64, k as u128);
                                let e = self.c.eq(off, kk);
                                let e = self.c.and(e, c.cond);
                                if e != self.c.ff {
                                    plan.push((e, c.obj, k));
                                }
                            }
                        }
                    }
                }
                let mut news = Vec::with_capacity(plan.len());
                for (e, o, k) in &plan {
                    let old = self.read_n(st, *o, *k, n)?;
                    let old = self.tm(&old)?;
                    let x = if self.lit(st, *e) == Some(1) { nv } else { self.c.ite(*e, nv, old) };
                    news.push((*o, *k, x, old));
                }
                // overlapping offsets: go through bytes
                for (o, k, x, old) in news {
                    if x == old {
                        continue;
                    }
                    let v = self.v(x);
                    self.write_n(st, o, k, n, &v)?;
                }
                Ok(())
            }
            _ => Err(Stop::Fatal("pointer".into())),
        }
    }

    pub fn store(&mut self, st: &mut State, t: &Ty, p: &V, v: &V) -> X<()> {
        match (t, v) {
            (Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..), V::A(xs)) => {
                for (i, x) in xs.iter().enumerate() {
                    let q = self.addk(p.clone(), t.field_off(i))?;
                    self.store(st, &t.field(i), &q, x)?;
                }
                Ok(())
            }
            _ => {
                let bits = t.bits();
                let n = (bits as usize + 7) / 8;
                if bits as usize == 8 * n {
                    return self.write_bytes_v(st, p, n, v);
                }
                let w = match v {
                    V::C(_, x) => V::C(8 * n as u8, *x),
                    _ => {
                        let x = self.tm(v)?;
                        let x = self.c.zext(x, 8 * n as u8);
                        self.v(x)
                    }
                };
                self.write_bytes_v(st, p, n, &w)
            }
        }
    }

    /// copy cells; the pointers and the length are concrete or Err(Split)
    pub fn copy(&mut self, st: &mut State, d: &V, s: &V, n: usize) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        match (self.conc(st, d), self.conc(st, s)) {
            (Ok(d), Ok(s)) => {
                let (si, so) = ((s >> 32) as u32, ((s & 0xffff_ffff).wrapping_sub(BASE)) as usize);
                let (di, d0) = ((d >> 32) as u32, ((d & 0xffff_ffff).wrapping_sub(BASE)) as usize);
                let o = self.obj(st, si)?;
                if so.wrapping_add(n) > o.cells.len() || so.wrapping_add(n) < n {
                    return Err(Stop::Fatal(format!("copy out of bounds (source {}+{} of {}) at {}", so, n, o.cells.len(), self.loc())));
                }
                let t: Vec<Cell> = o.cells[so..so + n].to_vec();
                let o = self.obj_mut(st, di)?;
                if d0.wrapping_add(n) > o.cells.len() || d0.wrapping_add(n) < n {
                    let l = o.cells.len();
                    return Err(Stop::Fatal(format!("copy out of bounds (target {}+{} of {}) at {}", d0, n, l, self.loc())));
                }
                o.cells[d0..d0 + n].copy_from_slice(&t);
                Ok(())
            }
            _ => {
                if n > 1024 {
                    self.conc(st, d)?;
                    self.conc(st, s)?;
                }
                // through words
                let mut parts = Vec::new();
                let mut k = 0;
                while k < n {
                    let w = if n - k >= 8 {
                        8
                    } else if n - k >= 4 {
                        4
                    } else {
                        1
                    };
                    let q = self.addk(s.clone(), k as u64)?;
                    let v = self.read_bytes_v(st, &q, w)?;
                    parts.push((k, w, v));
                    k += w;
                }
                // a split may only happen before the first write: try on a copy
                let mut st2 = st.clone();
                for (k, w, v) in parts {
                    let q = self.addk(d.clone(), k as u64)?;
                    self.write_bytes_v(&mut st2, &q, w, &v)?;
                }
                *st = st2;
                Ok(())
            }
        }
    }
}
