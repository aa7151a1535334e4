//! Bits of terms that follow from a conjunction, by propagation up and down the terms.  Products by odd constants are
//! bijections of their lowest bits, so what is known of a hash goes back to what is hashed.
use crate::solve::children_of;
use crate::term::*;
use std::collections::HashMap;

pub struct Implied {
    known: HashMap<T, (u128, u128)>,
    changed: bool,
}

/// the inverse of an odd number modulo 2^128
pub fn inverse(a: u128) -> u128 {
    let mut x = 1u128;
    for _ in 0..7 {
        x = x.wrapping_mul(2u128.wrapping_sub(a.wrapping_mul(x)));
    }
    x
}

impl Implied {
    fn get(&self, c: &Ctx, t: T) -> (u128, u128) {
        match c.as_const(t) {
            Some(k) => (mask(c.w(t)), k),
            None => {
                let (m, v) = self.known.get(&t).copied().unwrap_or((0, 0));
                let n = c.n(t);
                let add = (n.kz | n.ko) & !m & mask(n.w);
                (m | add, v | n.ko & add)
            }
        }
    }
    fn set(&mut self, c: &Ctx, t: T, m: u128, v: u128) -> bool {
        let m = m & mask(c.w(t));
        let (m0, v0) = self.get(c, t);
        if (v ^ v0) & m & m0 != 0 {
            return false;
        }
        if m & !m0 != 0 {
            self.known.insert(t, (m | m0, (v & m) | v0));
            self.changed = true;
        }
        true
    }

    /// None: the conjunction has no model
    pub fn new(c: &Ctx, q: &[T]) -> Option<Implied> {
        let mut s = Implied { known: HashMap::new(), changed: true };
        let mut cone: Vec<T> = Vec::new();
        let mut seen: std::collections::HashSet<T> = Default::default();
        let mut st = q.to_vec();
        while let Some(t) = st.pop() {
            if seen.insert(t) {
                cone.push(t);
                st.extend(children_of(c, t));
            }
        }
        cone.sort();
        for t in q {
            if !s.set(c, *t, 1, 1) {
                return None;
            }
        }
        let mut rounds = 0;
        while s.changed && rounds < 60 {
            s.changed = false;
            rounds += 1;
            for &t in cone.iter().rev() {
                if !s.down(c, t) {
                    return None;
                }
            }
            for &t in &cone {
                if !s.up(c, t) {
                    return None;
                }
            }
        }
        Some(s)
    }

    pub fn var(&self, c: &Ctx, t: T) -> (u128, u128) {
        self.get(c, t)
    }

    fn down(&mut self, c: &Ctx, t: T) -> bool {
        let (m, v) = self.get(c, t);
        if m == 0 {
            return true;
        }
        match c.op(t).clone() {
            Op::Concat(l) => {
                let mut lo = 0;
                for s in l.iter().rev() {
                    if !self.set(c, *s, m >> lo, v >> lo) {
                        return false;
                    }
                    lo += c.w(*s);
                }
                true
            }
            Op::Extract(x, lo) => self.set(c, x, (m & mask(c.w(t))) << lo, v << lo),
            Op::Not(x) => self.set(c, x, m, !v),
            Op::Xor(a, b) => {
                let ((ma, va), (mb, vb)) = (self.get(c, a), self.get(c, b));
                self.set(c, b, m & ma, v ^ va) && self.set(c, a, m & mb, v ^ vb)
            }
            Op::And(a, b) => {
                let ((ma, va), (mb, vb)) = (self.get(c, a), self.get(c, b));
                let one = m & v;
                self.set(c, a, one | m & !v & mb & vb, one) && self.set(c, b, one | m & !v & ma & va, one)
            }
            Op::Or(a, b) => {
                let ((ma, va), (mb, vb)) = (self.get(c, a), self.get(c, b));
                let zero = m & !v;
                self.set(c, a, zero | m & v & mb & !vb, !zero) && self.set(c, b, zero | m & v & ma & !va, !zero)
            }
            Op::Eq(a, b) => {
                let ((ma, va), (mb, vb)) = (self.get(c, a), self.get(c, b));
                if v & 1 == 1 {
                    self.set(c, b, ma, va) && self.set(c, a, mb, vb)
                } else if c.w(a) == 1 {
                    self.set(c, b, ma, !va) && self.set(c, a, mb, !vb)
                } else {
                    true
                }
            }
            Op::Poly(k, l) if l.len() == 1 && l[0].f.len() == 1 && l[0].coef & 1 == 1 => {
                let n = (!m).trailing_zeros() as u8;
                let low = if n == 0 { 0 } else { mask(n.min(c.w(t))) };
                self.set(c, l[0].f[0], low, v.wrapping_sub(k).wrapping_mul(inverse(l[0].coef)))
            }
            Op::Poly(k, l) if l.iter().all(|x| x.f.len() == 1) => {
                // all but one term known
                let full = mask(c.w(t));
                let n = (!m).trailing_zeros() as u8;
                if n == 0 {
                    return true;
                }
                let unknown: Vec<usize> = (0..l.len()).filter(|i| self.get(c, l[*i].f[0]).0 & full != full).collect();
                if unknown.len() != 1 || l[unknown[0]].coef & 1 == 0 {
                    return true;
                }
                let mut r = v.wrapping_sub(k);
                for (i, x) in l.iter().enumerate() {
                    if i != unknown[0] {
                        r = r.wrapping_sub(x.coef.wrapping_mul(self.get(c, x.f[0]).1));
                    }
                }
                let x = &l[unknown[0]];
                self.set(c, x.f[0], mask(n.min(c.w(t))), r.wrapping_mul(inverse(x.coef)))
            }
            _ => true,
        }
    }

    fn up(&mut self, c: &Ctx, t: T) -> bool {
        let w = c.w(t);
        let (m, v) = match c.op(t).clone() {
            Op::Const(_) | Op::Var(_) => return true,
            Op::Concat(l) => {
                let (mut m, mut v, mut lo) = (0, 0, 0);
                for s in l.iter().rev() {
                    let (a, b) = self.get(c, *s);
                    m |= a << lo;
                    v |= b << lo;
                    lo += c.w(*s);
                }
                (m, v)
            }
            Op::Extract(x, lo) => {
                let (m, v) = self.get(c, x);
                (m >> lo, v >> lo)
            }
            Op::Not(x) => {
                let (m, v) = self.get(c, x);
                (m, !v)
            }
            Op::Xor(a, b) => {
                let ((ma, va), (mb, vb)) = (self.get(c, a), self.get(c, b));
                (ma & mb, va ^ vb)
            }
            Op::And(a, b) => {
                let ((ma, va), (mb, vb)) = (self.get(c, a), self.get(c, b));
                (ma & mb | ma & !va | mb & !vb, va & vb)
            }
            Op::Or(a, b) => {
                let ((ma, va), (mb, vb)) = (self.get(c, a), self.get(c, b));
                (ma & mb | ma & va | mb & vb, va & ma | vb & mb)
            }
            Op::Eq(a, b) => {
                let ((ma, va), (mb, vb)) = (self.get(c, a), self.get(c, b));
                let f = mask(c.w(a));
                if (va ^ vb) & ma & mb != 0 {
                    (1, 0)
                } else if ma & mb & f == f {
                    (1, 1)
                } else {
                    (0, 0)
                }
            }
            Op::Poly(k, l) => {
                // as many lowest bits as are known of every factor
                let mut n = w;
                let mut s = k;
                for x in l.iter() {
                    let mut p = x.coef;
                    for f in x.f.iter() {
                        let (m, v) = self.get(c, *f);
                        n = n.min((!m).trailing_zeros() as u8);
                        p = p.wrapping_mul(v);
                    }
                    s = s.wrapping_add(p);
                }
                (if n == 0 { 0 } else { mask(n) }, s)
            }
            op => {
                let ch = children_of(c, t);
                if ch.iter().any(|x| {
                    let f = mask(c.w(*x));
                    self.get(c, *x).0 & f != f
                }) {
                    return true;
                }
                let r = c.eval_op(&op, w, &mut |x| self.get(c, x).1);
                (mask(w), r)
            }
        };
        let m = m & mask(w);
        self.set(c, t, m, v & m)
    }
}
