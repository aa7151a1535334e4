//! Hash-consed bit-vector terms with a canonicalising constructor for every operation.
//! Width 1 terms are Booleans.  Widths go up to 128 bits.
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Mon {
    pub coef: u128,
    pub f: Rc<[T]>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Const(u128),
    Var(u32),
    Poly(u128, Rc<[Mon]>),
    /// most significant segment first
    Concat(Rc<[T]>),
    Extract(T, u8),
    Not(T),
    And(T, T),
    Or(T, T),
    Xor(T, T),
    Ite(T, T, T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Udiv(T, T),
    Urem(T, T),
    Sdiv(T, T),
    Srem(T, T),
    Shl(T, T),
    Lshr(T, T),
    Ashr(T, T),
    Sext(T),
    /// table indexed by the bits of a Concat/Var/Extract term of at most 8 bits
    Lut(T, Rc<[u64]>),
}

#[derive(Clone)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    /// is a tree of Ite over constants (or a constant)
    pub ctree: bool,
    /// number of leaves of the constant tree (saturating)
    pub leaves: u16,
    pub kz: u128,
    pub ko: u128,
    pub lo: u128,
    pub hi: u128,
    /// depth in additions and multiplications
    pub ad: u16,
}

pub struct VarInfo {
    pub name: String,
    pub w: u8,
    /// index of the abstracted multiplication this variable stands for
    pub mul: Option<u32>,
}

/// A multiplication abstracted to a fresh variable: `var = coef * arg` (mod 2^w)
#[derive(Clone)]
pub struct MulVar {
    pub var: T,
    pub coef: u128,
    pub arg: T,
    pub w: u8,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    table: Vec<u32>,
    hashes: Vec<u64>,
    pub vars: Vec<VarInfo>,
    pub tt: T,
    pub ff: T,
    supp: HashMap<T, Option<Rc<[(u32, u8)]>>>,
    push_depth: u32,
    ex_memo: HashMap<(T, u8, u8), T>,
    bw_memo: HashMap<(Vec<T>, u8), T>,
    pub abs_mul: bool,
    pub mulvars: Vec<MulVar>,
    mulvar_ix: HashMap<(u128, T, u8), T>,
    pub rewrites: u64,
    residues: HashMap<(T, T), Rc<Residue>>,
    rem_forms: HashMap<(T, Residue), T>,
}

/// a sum of multiples of terms and a constant, modulo some term
pub type Residue = (Vec<(T, i128)>, i128);


pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

fn hash_op(op: &Op, w: u8) -> u64 {
    use std::hash::{Hash, Hasher};
    struct Fx(u64);
    impl Hasher for Fx {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for c in b.chunks(8) {
                let mut x = 0u64;
                for (i, y) in c.iter().enumerate() {
                    x |= (*y as u64) << (8 * i);
                }
                self.write_u64(x);
            }
        }
        fn write_u8(&mut self, i: u8) {
            self.write_u64(i as u64)
        }
        fn write_u32(&mut self, i: u32) {
            self.write_u64(i as u64)
        }
        fn write_usize(&mut self, i: usize) {
            self.write_u64(i as u64)
        }
        fn write_u64(&mut self, i: u64) {
            self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
        }
        fn write_u128(&mut self, i: u128) {
            self.write_u64(i as u64);
            self.write_u64((i >> 64) as u64);
        }
    }
    let mut h = Fx(w as u64);
    op.hash(&mut h);
    let x = h.0;
    (x ^ (x >> 29)).wrapping_mul(0xbf58476d1ce4e5b9) ^ (x >> 32)
}

/// A coefficient that makes the product worth abstracting (hash-like multipliers).
pub fn heavy(c: u128, w: u8) -> bool {
    if w < 32 {
        return false;
    }
    let c = c & mask(w);
    let n = (c.wrapping_neg()) & mask(w);
    c.count_ones().min(n.count_ones()) > 8
}

fn to_signed(c: u128, w: u8) -> i128 {
    if w == 128 {
        return c as i128;
    }
    if c >> (w - 1) & 1 == 1 {
        (c as i128) - (1i128 << w)
    } else {
        c as i128
    }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: Vec::new(),
            table: vec![u32::MAX; 1 << 16],
            hashes: Vec::new(),
            vars: Vec::new(),
            tt: 0,
            ff: 0,
            supp: HashMap::new(),
            push_depth: 0,
            ex_memo: HashMap::new(),
            bw_memo: HashMap::new(),
            abs_mul: false,
            mulvars: Vec::new(),
            mulvar_ix: HashMap::new(),
            rewrites: 0,
            residues: HashMap::new(),
            rem_forms: HashMap::new(),
        };
        c.ff = c.cst(1, 0);
        c.tt = c.cst(1, 1);
        c
    }

    pub fn w(&self, t: T) -> u8 {
        self.nodes[t as usize].w
    }
    pub fn n(&self, t: T) -> &Node {
        &self.nodes[t as usize]
    }
    pub fn op(&self, t: T) -> &Op {
        &self.nodes[t as usize].op
    }
    pub fn as_const(&self, t: T) -> Option<u128> {
        match self.nodes[t as usize].op {
            Op::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn is_const(&self, t: T) -> bool {
        matches!(self.nodes[t as usize].op, Op::Const(_))
    }

    fn grow(&mut self) {
        let n = self.table.len() * 2;
        let mut tab = vec![u32::MAX; n];
        for (i, h) in self.hashes.iter().enumerate() {
            let mut p = (*h as usize) & (n - 1);
            while tab[p] != u32::MAX {
                p = (p + 1) & (n - 1);
            }
            tab[p] = i as u32;
        }
        self.table = tab;
    }

    pub fn intern(&mut self, op: Op, w: u8) -> T {
        let h = hash_op(&op, w);
        let m = self.table.len() - 1;
        let mut p = (h as usize) & m;
        loop {
            let e = self.table[p];
            if e == u32::MAX {
                break;
            }
            if self.hashes[e as usize] == h {
                let n = &self.nodes[e as usize];
                if n.w == w && n.op == op {
                    return e;
                }
            }
            p = (p + 1) & m;
        }
        let id = self.nodes.len() as u32;
        let node = self.analyse(op, w);
        // a term whose value is determined by the analysis is that constant
        if !matches!(node.op, Op::Const(_)) {
            if node.lo == node.hi {
                return self.cst(w, node.lo);
            }
            if (node.kz | node.ko) & mask(w) == mask(w) {
                let v = node.ko & mask(w);
                return self.cst(w, v);
            }
        }
        self.table[p] = id;
        self.hashes.push(h);
        self.nodes.push(node);
        if self.nodes.len() * 2 > self.table.len() {
            self.grow();
        }
        id
    }

    fn analyse(&self, op: Op, w: u8) -> Node {
        let m = mask(w);
        let (mut kz, mut ko, mut lo, mut hi) = (!m, 0u128, 0u128, m);
        let mut ctree = false;
        let mut leaves = 0u16;
        match &op {
            Op::Const(c) => {
                kz = !*c;
                ko = *c;
                lo = *c;
                hi = *c;
                ctree = true;
                leaves = 1;
            }
            Op::Var(_) => {}
            Op::Poly(c, mons) => {
                // trailing zeros
                let mut tz = if *c == 0 { 128 } else { c.trailing_zeros() };
                let mut slo: i128 = 0;
                let mut shi: i128 = 0;
                let mut ok = w <= 64;
                if ok {
                    let s = to_signed(*c, w);
                    slo = s;
                    shi = s;
                }
                for mn in mons.iter() {
                    let mut z = mn.coef.trailing_zeros();
                    let mut plo: Option<u128> = Some(1);
                    let mut phi: Option<u128> = Some(1);
                    for &f in mn.f.iter() {
                        let n = self.n(f);
                        z += (!n.kz).trailing_zeros().min(128);
                        plo = plo.and_then(|x| x.checked_mul(n.lo));
                        phi = phi.and_then(|x| x.checked_mul(n.hi));
                    }
                    tz = tz.min(z);
                    if ok {
                        match (plo, phi) {
                            (Some(a), Some(b)) if b < (1u128 << 100) => {
                                let s = to_signed(mn.coef, w);
                                let x = s.checked_mul(a as i128);
                                let y = s.checked_mul(b as i128);
                                match (x, y) {
                                    (Some(x), Some(y)) => {
                                        let (x, y) = (x.min(y), x.max(y));
                                        match (slo.checked_add(x), shi.checked_add(y)) {
                                            (Some(p), Some(q)) => {
                                                slo = p;
                                                shi = q;
                                            }
                                            _ => ok = false,
                                        }
                                    }
                                    _ => ok = false,
                                }
                            }
                            _ => ok = false,
                        }
                    }
                }
                if ok {
                    let md = 1i128 << w;
                    // shift into range when the whole interval lies in one period
                    let k = slo.div_euclid(md);
                    if shi.div_euclid(md) == k {
                        lo = (slo - k * md) as u128;
                        hi = (shi - k * md) as u128;
                    }
                }
                if tz > 0 {
                    kz |= mask(tz.min(w as u32) as u8);
                }
            }
            Op::Concat(segs) => {
                kz = 0;
                let mut allc = true;
                for &s in segs.iter() {
                    let n = self.n(s);
                    kz = (kz << n.w) | (n.kz & mask(n.w));
                    ko = (ko << n.w) | n.ko;
                    allc &= matches!(n.op, Op::Const(_));
                }
                kz |= !m;
                // interval from the leading segments
                let mut l = 0u128;
                let mut h = 0u128;
                for &s in segs.iter() {
                    let n = self.n(s);
                    l = (l << n.w) | n.lo;
                    h = (h << n.w) | n.hi;
                }
                lo = l;
                hi = h;
                let _ = allc;
            }
            Op::Extract(t, l) => {
                let n = self.n(*t);
                kz = (n.kz >> l) | !m;
                ko = (n.ko >> l) & m;
                if *l == 0 {
                    if n.hi <= m {
                        lo = n.lo;
                        hi = n.hi;
                    }
                } else if n.hi >> l <= m {
                    lo = n.lo >> l;
                    hi = n.hi >> l;
                }
            }
            Op::Not(a) => {
                let n = self.n(*a);
                kz = n.ko | !m;
                ko = n.kz & m;
                lo = m - n.hi;
                hi = m - n.lo;
            }
            Op::And(a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                kz = x.kz | y.kz;
                ko = x.ko & y.ko;
                hi = x.hi.min(y.hi);
            }
            Op::Or(a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                kz = x.kz & y.kz;
                ko = x.ko | y.ko;
                lo = x.lo.max(y.lo);
            }
            Op::Xor(a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                kz = (x.kz & y.kz) | (x.ko & y.ko) | !m;
                ko = (x.kz & y.ko) | (x.ko & y.kz);
                ko &= m;
            }
            Op::Ite(_, a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                kz = x.kz & y.kz;
                ko = x.ko & y.ko;
                lo = x.lo.min(y.lo);
                hi = x.hi.max(y.hi);
                ctree = x.ctree && y.ctree;
                leaves = x.leaves.saturating_add(y.leaves);
            }
            Op::Eq(..) | Op::Ult(..) | Op::Slt(..) => {}
            Op::Udiv(a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                if y.lo > 0 {
                    lo = x.lo / y.hi;
                    hi = x.hi / y.lo;
                }
            }
            Op::Urem(a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                if y.lo > 0 {
                    hi = x.hi.min(y.hi - 1);
                }
            }
            Op::Sdiv(..) | Op::Srem(..) => {}
            Op::Shl(a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                let tz = (!x.kz).trailing_zeros() as u128 + y.lo;
                if tz > 0 {
                    kz |= mask(tz.min(w as u128) as u8);
                }
                if y.hi < 128 && x.hi.leading_zeros() as u128 > y.hi && x.hi << y.hi <= m {
                    lo = x.lo << y.lo;
                    hi = x.hi << y.hi;
                }
            }
            Op::Lshr(a, b) => {
                let (x, y) = (self.n(*a), self.n(*b));
                hi = if y.lo < 128 { x.hi >> y.lo } else { 0 };
                lo = if y.hi < w as u128 { x.lo >> y.hi } else { 0 };
            }
            Op::Ashr(..) => {}
            Op::Sext(a) => {
                let n = self.n(*a);
                let sb = 1u128 << (n.w - 1);
                if n.kz & sb != 0 {
                    kz = n.kz;
                    ko = n.ko;
                    lo = n.lo;
                    hi = n.hi;
                } else {
                    kz = n.kz & (sb - 1) | !m;
                    ko = n.ko & (sb - 1);
                    if n.ko & sb != 0 {
                        ko |= m & !(sb - 1);
                    }
                }
            }
            Op::Lut(_, tab) => {
                kz = m;
                ko = m;
                lo = u128::MAX;
                hi = 0;
                for &v in tab.iter() {
                    let v = v as u128;
                    kz &= !v;
                    ko &= v;
                    lo = lo.min(v);
                    hi = hi.max(v);
                }
                kz |= !m;
            }
        }
        // combine
        kz |= !m;
        ko &= m;
        if hi < m {
            let lz = hi.leading_zeros();
            if lz > 0 {
                kz |= if lz >= 128 { u128::MAX } else { !((1u128 << (128 - lz)) - 1) };
            }
        }
        let mh = !kz & m;
        if hi > mh {
            hi = mh;
        }
        if lo < ko {
            lo = ko;
        }
        let mut ad = 0u16;
        for x in children(&op) {
            ad = ad.max(self.n(x).ad);
        }
        if w > 1 && matches!(op, Op::Poly(..)) {
            ad = ad.saturating_add(1);
        }
        Node { op, w, ctree, leaves, kz, ko, lo, hi, ad }
    }

    // ---------------------------------------------------------------- leaves
    pub fn cst(&mut self, w: u8, v: u128) -> T {
        debug_assert!(w >= 1);
        self.intern(Op::Const(v & mask(w)), w)
    }
    pub fn bool(&self, b: bool) -> T {
        if b {
            self.tt
        } else {
            self.ff
        }
    }
    pub fn var(&mut self, w: u8, name: String) -> T {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name, w, mul: None });
        self.intern(Op::Var(id), w)
    }

    // ---------------------------------------------------------------- Lut
    fn support(&mut self, t: T) -> Option<Rc<[(u32, u8)]>> {
        if let Some(r) = self.supp.get(&t) {
            return r.clone();
        }
        let op = self.op(t).clone();
        let mut out: Vec<(u32, u8)> = Vec::new();
        let mut ok = true;
        match &op {
            Op::Const(_) => {}
            Op::Var(v) => {
                if self.w(t) <= 8 {
                    for b in 0..self.w(t) {
                        out.push((*v, b));
                    }
                } else {
                    ok = false;
                }
            }
            Op::Extract(x, lo) => {
                if let Op::Var(v) = self.op(*x) {
                    if self.w(t) <= 8 {
                        for b in 0..self.w(t) {
                            out.push((*v, lo + b));
                        }
                    } else {
                        ok = false;
                    }
                } else {
                    match self.support(*x) {
                        Some(s) => out.extend(s.iter()),
                        None => ok = false,
                    }
                }
            }
            _ => {
                for c in children(&op) {
                    match self.support(c) {
                        Some(s) => out.extend(s.iter()),
                        None => {
                            ok = false;
                            break;
                        }
                    }
                    out.sort();
                    out.dedup();
                    if out.len() > 8 {
                        ok = false;
                        break;
                    }
                }
            }
        }
        let r: Option<Rc<[(u32, u8)]>> = if ok {
            out.sort();
            out.dedup();
            if out.len() > 8 {
                None
            } else {
                Some(out.into())
            }
        } else {
            None
        };
        self.supp.insert(t, r.clone());
        r
    }

    fn has_lut(&self, t: T) -> bool {
        matches!(self.op(t), Op::Lut(..))
    }

    /// Index term for a list of variable bits (bit 0 of the index = first of the list)
    fn index_of(&mut self, bits: &[(u32, u8)]) -> T {
        let mut acc: Option<T> = None;
        for &(v, b) in bits.iter() {
            let w = self.vars[v as usize].w;
            let vt = self.intern(Op::Var(v), w);
            let e = self.extract(vt, b, 1);
            acc = Some(match acc {
                None => e,
                Some(a) => self.concat(e, a),
            });
        }
        acc.unwrap()
    }

    /// Canonical term of `f` over the support bits.
    fn mk_lut(&mut self, bits: &[(u32, u8)], w: u8, tab: Vec<u64>) -> T {
        debug_assert!(w <= 64);
        if tab.iter().all(|x| *x == tab[0]) {
            return self.cst(w, tab[0] as u128);
        }
        // drop bits that do not matter
        for i in 0..bits.len() {
            let b = 1usize << i;
            if (0..tab.len()).all(|j| tab[j] == tab[j ^ b]) {
                let nb: Vec<_> =
                    bits.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, x)| *x).collect();
                let nt: Vec<u64> = (0..tab.len() / 2)
                    .map(|j| {
                        let low = j & (b - 1);
                        let high = (j >> i) << (i + 1);
                        tab[high | low]
                    })
                    .collect();
                return self.mk_lut(&nb, w, nt);
            }
        }
        // a table that only permutes / copies index bits is a concatenation of them
        let mut segs: Vec<T> = Vec::new(); // msb first
        let mut simple = true;
        for ob in (0..w).rev() {
            let col = |j: usize| tab[j] >> ob & 1;
            let c0 = col(0);
            if (0..tab.len()).all(|j| col(j) == c0) {
                let c = self.bool(c0 == 1);
                segs.push(c);
                continue;
            }
            let mut found = false;
            for i in 0..bits.len() {
                if (0..tab.len()).all(|j| col(j) == (j >> i & 1) as u64) {
                    let (v, b) = bits[i];
                    let vw = self.vars[v as usize].w;
                    let vt = self.intern(Op::Var(v), vw);
                    let e = self.extract(vt, b, 1);
                    segs.push(e);
                    found = true;
                    break;
                }
            }
            if !found {
                simple = false;
                break;
            }
        }
        if simple {
            let mut acc = segs[0];
            for &s in &segs[1..] {
                acc = self.concat(acc, s);
            }
            return acc;
        }
        if w == 1 && bits.len() == 1 {
            // negation of one bit
            let i = self.index_of(bits);
            return self.intern(Op::Not(i), 1);
        }
        let idx = self.index_of(bits);
        self.intern(Op::Lut(idx, tab.into()), w)
    }

    fn eval_small(
        &self,
        t: T,
        env: &HashMap<u32, u128>,
        memo: &mut HashMap<T, u128>,
    ) -> u128 {
        if let Some(v) = memo.get(&t) {
            return *v;
        }
        let n = self.n(t);
        let w = n.w;
        let op = n.op.clone();
        let v = match &op {
            Op::Const(c) => *c,
            Op::Var(v) => *env.get(v).unwrap_or(&0),
            _ => self.eval_op(&op, w, &mut |x| self.eval_small(x, env, memo)),
        };
        memo.insert(t, v);
        v
    }

    /// If `t` depends on at most 8 variable bits, its canonical table form.
    pub fn to_lut(&mut self, t: T) -> T {
        if self.w(t) > 64 || self.is_const(t) {
            return t;
        }
        let s = match self.support(t) {
            Some(s) if !s.is_empty() => s,
            _ => return t,
        };
        let mut tab = Vec::with_capacity(1 << s.len());
        for j in 0..1usize << s.len() {
            let mut env: HashMap<u32, u128> = HashMap::new();
            for (i, (v, b)) in s.iter().enumerate() {
                if j >> i & 1 == 1 {
                    *env.entry(*v).or_insert(0) |= 1u128 << b;
                }
            }
            let mut memo = HashMap::new();
            tab.push(self.eval_small(t, &env, &mut memo) as u64);
        }
        self.rewrites += 1;
        let w = self.w(t);
        self.mk_lut(&s.clone(), w, tab)
    }

    /// Called on a freshly interned node: if one of its operands is a table, fold it.
    fn fold_lut(&mut self, t: T) -> T {
        if self.w(t) > 64 {
            return t;
        }
        let op = self.op(t).clone();
        if matches!(op, Op::Lut(..) | Op::Const(_) | Op::Var(_)) {
            return t;
        }
        let mut any = false;
        for c in children(&op) {
            if self.has_lut(c) {
                any = true;
            }
        }
        if !any {
            if matches!(op, Op::And(..) | Op::Or(..) | Op::Xor(..)) && self.w(t) > 8 {
                return self.bitwise(t);
            }
            return t;
        }
        self.to_lut(t)
    }

    /// one representative for each bitwise function of up to three operands
    fn bitwise(&mut self, t: T) -> T {
        let mut leaves: Vec<T> = Vec::new();
        let mut ops = 0;
        fn walk(c: &Ctx, t: T, leaves: &mut Vec<T>, ops: &mut u32) -> bool {
            *ops += 1;
            if *ops > 16 {
                return false;
            }
            match *c.op(t) {
                Op::And(a, b) | Op::Or(a, b) | Op::Xor(a, b) => {
                    walk(c, a, leaves, ops) && walk(c, b, leaves, ops)
                }
                Op::Not(a) => walk(c, a, leaves, ops),
                _ => {
                    if !leaves.contains(&t) {
                        leaves.push(t);
                    }
                    leaves.len() <= 3
                }
            }
        }
        if !walk(self, t, &mut leaves, &mut ops) || ops < 4 || leaves.len() < 2 {
            return t;
        }
        leaves.sort();
        fn table(c: &Ctx, t: T, l: &[T]) -> u8 {
            match *c.op(t) {
                Op::And(a, b) => table(c, a, l) & table(c, b, l),
                Op::Or(a, b) => table(c, a, l) | table(c, b, l),
                Op::Xor(a, b) => table(c, a, l) ^ table(c, b, l),
                Op::Not(a) => !table(c, a, l),
                _ => [0xaa, 0xcc, 0xf0][l.iter().position(|x| *x == t).unwrap()],
            }
        }
        let tt = table(self, t, &leaves);
        *self.bw_memo.entry((leaves, tt)).or_insert(t)
    }

    pub fn lut_load(&mut self, off: T, get: &mut dyn FnMut(&mut Ctx, u128) -> Option<u64>, w: u8) -> Option<T> {
        if w > 64 {
            return None;
        }
        let s = self.support(off)?;
        if s.is_empty() {
            return None;
        }
        let mut tab = Vec::new();
        for j in 0..1usize << s.len() {
            let mut env: HashMap<u32, u128> = HashMap::new();
            for (i, (v, b)) in s.iter().enumerate() {
                if j >> i & 1 == 1 {
                    *env.entry(*v).or_insert(0) |= 1u128 << b;
                }
            }
            let mut memo = HashMap::new();
            let o = self.eval_small(off, &env, &mut memo);
            tab.push(get(self, o)?);
        }
        Some(self.mk_lut(&s.clone(), w, tab))
    }

    // ---------------------------------------------------------------- polynomials
    fn poly_of(&mut self, t: T) -> (u128, Vec<Mon>) {
        let w = self.w(t);
        match self.op(t).clone() {
            Op::Const(c) => (c, vec![]),
            Op::Poly(c, m) => (c, m.to_vec()),
            Op::Not(x) if w > 1 => {
                let (c, m) = self.poly_of(x);
                let m = m
                    .into_iter()
                    .map(|x| Mon { coef: x.coef.wrapping_neg() & mask(w), f: x.f })
                    .collect();
                (c.wrapping_neg().wrapping_sub(1) & mask(w), m)
            }
            Op::Concat(segs) => {
                let last = *segs.last().unwrap();
                if self.as_const(last) == Some(0) {
                    let k = self.w(last);
                    let coef = 1u128 << k;
                    let f = if segs.len() == 2 {
                        let s = segs[0];
                        match *self.op(s) {
                            Op::Extract(x, 0) if self.w(x) == w => x,
                            _ => self.zext(s, w),
                        }
                    } else {
                        let mut acc = segs[0];
                        for &s in &segs[1..segs.len() - 1] {
                            acc = self.concat(acc, s);
                        }
                        self.zext(acc, w)
                    };
                    let (c, m) = if f == t { (0, vec![Mon { coef: 1, f: vec![t].into() }]) } else { self.poly_of(f) };
                    let m = m
                        .into_iter()
                        .map(|x| Mon { coef: x.coef.wrapping_mul(coef) & mask(w), f: x.f })
                        .filter(|x| x.coef != 0)
                        .collect();
                    (c.wrapping_mul(coef) & mask(w), m)
                } else {
                    (0, vec![Mon { coef: 1, f: vec![t].into() }])
                }
            }
            _ => (0, vec![Mon { coef: 1, f: vec![t].into() }]),
        }
    }

    fn mk_poly(&mut self, w: u8, c: u128, mut mons: Vec<Mon>) -> T {
        let m = mask(w);
        mons.sort_by(|a, b| a.f.cmp(&b.f));
        let mut out: Vec<Mon> = Vec::with_capacity(mons.len());
        for x in mons {
            if let Some(l) = out.last_mut() {
                if l.f == x.f {
                    l.coef = l.coef.wrapping_add(x.coef) & m;
                    continue;
                }
            }
            out.push(x);
        }
        out.retain(|x| x.coef & m != 0);
        let c = c & m;
        if out.is_empty() {
            return self.cst(w, c);
        }
        if self.abs_mul {
            let mut changed = false;
            for i in 0..out.len() {
                if heavy(out[i].coef, w) {
                    // abstract coef * f
                    let arg = if out[i].f.len() == 1 {
                        out[i].f[0]
                    } else {
                        self.intern(Op::Poly(0, vec![Mon { coef: 1, f: out[i].f.clone() }].into()), w)
                    };
                    let coef = out[i].coef;
                    let v = self.mulvar(coef, arg, w);
                    out[i] = Mon { coef: 1, f: vec![v].into() };
                    changed = true;
                }
            }
            if changed {
                return self.mk_poly(w, c, out);
            }
        }
        if c == 0 && out.len() == 1 && out[0].f.len() == 1 {
            let f = out[0].f[0];
            let k = out[0].coef;
            if k == 1 {
                return f;
            }
            if k.is_power_of_two() {
                let s = k.trailing_zeros() as u8;
                let hi = self.extract(f, 0, w - s);
                let z = self.cst(s, 0);
                return self.concat(hi, z);
            }
        }
        let t = self.intern(Op::Poly(c, out.into()), w);
        self.fold_lut(t)
    }

    fn mulvar(&mut self, coef: u128, arg: T, w: u8) -> T {
        if let Some(v) = self.mulvar_ix.get(&(coef, arg, w)) {
            return *v;
        }
        let n = self.mulvars.len();
        let v = self.var(w, format!("mul{}", n));
        let vi = self.vars.len() - 1;
        self.vars[vi].mul = Some(n as u32);
        self.mulvars.push(MulVar { var: v, coef, arg, w });
        self.mulvar_ix.insert((coef, arg, w), v);
        v
    }

    /// bits of the term behave like independent fields rather than like a number
    fn bitlike(&self, t: T) -> bool {
        matches!(self.op(t), Op::Concat(..) | Op::Lut(..))
    }

    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(w, x.wrapping_add(y));
        }
        if self.as_const(a) == Some(0) {
            return b;
        }
        if self.as_const(b) == Some(0) {
            return a;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(r) = self.push_ite2(a, b, &mut |c, x, y| c.add(x, y)) {
            return r;
        }
        if !self.is_const(a)
            && !self.is_const(b)
            && (self.bitlike(a) || self.bitlike(b))
            && !matches!(self.op(a), Op::Poly(..))
            && !matches!(self.op(b), Op::Poly(..))
            && (!self.n(a).kz & !self.n(b).kz & mask(w)) == 0
        {
            return self.or(a, b);
        }
        let (c1, mut m1) = self.poly_of(a);
        let (c2, m2) = self.poly_of(b);
        m1.extend(m2);
        self.mk_poly(w, c1.wrapping_add(c2), m1)
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        let z = self.cst(w, mask(w));
        self.mul(a, z)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.cst(w, 0);
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(w, x.wrapping_sub(y));
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(r) = self.push_ite2(a, b, &mut |c, x, y| c.sub(x, y)) {
            return r;
        }
        let (c1, mut m1) = self.poly_of(a);
        let (c2, m2) = self.poly_of(b);
        for x in m2 {
            m1.push(Mon { coef: x.coef.wrapping_neg() & mask(w), f: x.f });
        }
        self.mk_poly(w, c1.wrapping_sub(c2), m1)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(w, x.wrapping_mul(y));
        }
        if w == 1 {
            return self.and(a, b);
        }
        for (x, y) in [(a, b), (b, a)] {
            match self.as_const(x) {
                Some(0) => return x,
                Some(1) => return y,
                _ => {}
            }
        }
        if let Some(r) = self.push_ite2(a, b, &mut |c, x, y| c.mul(x, y)) {
            return r;
        }
        let (c1, m1) = self.poly_of(a);
        let (c2, m2) = self.poly_of(b);
        let n1 = m1.len() + (c1 != 0) as usize;
        let n2 = m2.len() + (c2 != 0) as usize;
        if n1 > 1 && n2 > 1 && n1 * n2 > 4096 {
            // opaque product
            let (x, y) = (a.min(b), a.max(b));
            let t = self.intern(Op::Poly(0, vec![Mon { coef: 1, f: vec![x, y].into() }].into()), w);
            return t;
        }
        let mut out = Vec::with_capacity(n1 * n2);
        let m = mask(w);
        for x in &m1 {
            for y in &m2 {
                let mut f: Vec<T> = x.f.iter().chain(y.f.iter()).copied().collect();
                f.sort();
                out.push(Mon { coef: x.coef.wrapping_mul(y.coef) & m, f: f.into() });
            }
            if c2 != 0 {
                out.push(Mon { coef: x.coef.wrapping_mul(c2) & m, f: x.f.clone() });
            }
        }
        if c1 != 0 {
            for y in &m2 {
                out.push(Mon { coef: y.coef.wrapping_mul(c1) & m, f: y.f.clone() });
            }
        }
        self.mk_poly(w, c1.wrapping_mul(c2), out)
    }

    /// Distribute a binary operation over trees of constants.
    fn push_ite2(
        &mut self,
        a: T,
        b: T,
        f: &mut dyn FnMut(&mut Ctx, T, T) -> T,
    ) -> Option<T> {
        let (na, nb) = (self.n(a), self.n(b));
        if !(na.ctree && nb.ctree) {
            return None;
        }
        let la = na.leaves as u32;
        let lb = nb.leaves as u32;
        if la == 1 && lb == 1 {
            return None;
        }
        if la.saturating_mul(lb) > 300 || self.push_depth > 40 {
            return None;
        }
        // same condition on both sides
        if la > 1 && lb > 1 {
            if let (Op::Ite(c1, x1, y1), Op::Ite(c2, x2, y2)) =
                (self.op(a).clone(), self.op(b).clone())
            {
                if c1 == c2 {
                    self.push_depth += 1;
                    let x = f(self, x1, x2);
                    let y = f(self, y1, y2);
                    self.push_depth -= 1;
                    return Some(self.ite(c1, x, y));
                }
                if la * lb > 16 {
                    return None;
                }
            }
        }
        if la > 1 {
            if let Op::Ite(c, x, y) = self.op(a).clone() {
                self.push_depth += 1;
                let x = f(self, x, b);
                let y = f(self, y, b);
                self.push_depth -= 1;
                return Some(self.ite(c, x, y));
            }
        }
        if let Op::Ite(c, x, y) = self.op(b).clone() {
            self.push_depth += 1;
            let x = f(self, a, x);
            let y = f(self, a, y);
            self.push_depth -= 1;
            return Some(self.ite(c, x, y));
        }
        None
    }

    // ---------------------------------------------------------------- structure
    pub fn extract(&mut self, t: T, lo: u8, w: u8) -> T {
        if matches!(self.op(t), Op::Const(_) | Op::Var(_)) || self.w(t) == w {
            return self.extract_(t, lo, w);
        }
        let k = (t, lo, w);
        if let Some(r) = self.ex_memo.get(&k) {
            return *r;
        }
        let r = self.extract_(t, lo, w);
        self.ex_memo.insert(k, r);
        r
    }
    fn extract_(&mut self, t: T, lo: u8, w: u8) -> T {
        let tw = self.w(t);
        debug_assert!(lo as u32 + w as u32 <= tw as u32);
        if lo == 0 && w == tw {
            return t;
        }
        let n = self.n(t);
        let m = mask(w);
        if ((n.kz | n.ko) >> lo) & m == m {
            let v = (n.ko >> lo) & m;
            return self.cst(w, v);
        }
        match n.op.clone() {
            Op::Const(c) => self.cst(w, c >> lo),
            Op::Extract(x, l) => self.extract(x, l + lo, w),
            Op::Concat(segs) => {
                // walk from the least significant segment
                let mut pos = 0u32;
                let mut acc: Option<T> = None;
                let (a, b) = (lo as u32, lo as u32 + w as u32);
                for &s in segs.iter().rev() {
                    let sw = self.w(s) as u32;
                    let (s0, s1) = (pos, pos + sw);
                    let x = a.max(s0);
                    let y = b.min(s1);
                    if x < y {
                        let piece = self.extract(s, (x - s0) as u8, (y - x) as u8);
                        acc = Some(match acc {
                            None => piece,
                            Some(l) => self.concat(piece, l),
                        });
                    }
                    pos = s1;
                }
                acc.unwrap()
            }
            Op::Poly(c, mons)
                if lo == 0
                    && n.ad <= 6
                    && mons.len() <= 64
                    && mons.iter().all(|x| !heavy(x.coef, tw) && !self.any_mulvar(&x.f)) =>
            {
                let mut out = Vec::new();
                let mut acc = self.cst(w, c);
                for x in mons.iter() {
                    let mut p = self.cst(w, x.coef);
                    for &f in x.f.iter() {
                        let e = self.extract(f, 0, w);
                        p = self.mul(p, e);
                    }
                    out.push(p);
                }
                for p in out {
                    acc = self.add(acc, p);
                }
                acc
            }
            Op::Not(x) => {
                let e = self.extract(x, lo, w);
                self.not(e)
            }
            Op::And(a, b) if n.ad <= 6 => {
                let (x, y) = (self.extract(a, lo, w), self.extract(b, lo, w));
                self.and(x, y)
            }
            Op::Or(a, b) if n.ad <= 6 => {
                let (x, y) = (self.extract(a, lo, w), self.extract(b, lo, w));
                self.or(x, y)
            }
            Op::Xor(a, b) if n.ad <= 6 => {
                let (x, y) = (self.extract(a, lo, w), self.extract(b, lo, w));
                self.xor(x, y)
            }
            Op::Ite(c, a, b) => {
                if self.push_depth < 60 {
                    self.push_depth += 1;
                    let x = self.extract(a, lo, w);
                    let y = self.extract(b, lo, w);
                    self.push_depth -= 1;
                    let simple = |s: &Self, t: T| {
                        s.n(t).ctree
                            || matches!(s.op(t), Op::Var(_) | Op::Concat(_))
                            || matches!(s.op(t), Op::Extract(u, _) if matches!(s.op(*u), Op::Var(_)))
                    };
                    if x == y || (simple(self, x) && simple(self, y)) || w == 1 {
                        return self.ite(c, x, y);
                    }
                }
                self.intern(Op::Extract(t, lo), w)
            }
            Op::Sext(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                self.intern(Op::Extract(t, lo), w)
            }
            Op::Lut(_, _) => {
                let r = self.intern(Op::Extract(t, lo), w);
                self.fold_lut(r)
            }
            Op::Lshr(x, s) if self.is_const(s) => {
                let k = self.as_const(s).unwrap() as u8;
                if lo + k + w <= tw {
                    return self.extract(x, lo + k, w);
                }
                self.intern(Op::Extract(t, lo), w)
            }
            _ => self.intern(Op::Extract(t, lo), w),
        }
    }

    fn any_mulvar(&self, f: &[T]) -> bool {
        if !self.abs_mul {
            return false;
        }
        f.iter().any(|t| match self.op(*t) {
            Op::Var(v) => self.vars[*v as usize].name.starts_with("mul"),
            _ => false,
        })
    }

    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(a), Some(b)) = (self.as_const(hi), self.as_const(lo)) {
            return self.cst(w, (a << wl) | b);
        }
        if self.as_const(hi) == Some(0) {
            if let Op::Extract(x, 0) = *self.op(lo) {
                if self.w(x) == w && matches!(self.op(x), Op::Urem(..)) && self.n(x).hi <= mask(wl) {
                    return x;
                }
            }
        }
        // trees of constants stay trees of constants
        if let (Op::Ite(c1, a1, b1), Op::Ite(c2, a2, b2)) = (self.op(hi).clone(), self.op(lo).clone()) {
            if c1 == c2 && wh > 1 && wl > 1 {
                let x = self.concat(a1, a2);
                let y = self.concat(b1, b2);
                return self.ite(c1, x, y);
            }
        }
        if wl > 1 && self.is_const(hi) && self.n(lo).ctree {
            if let Op::Ite(c, a, b) = self.op(lo).clone() {
                let x = self.concat(hi, a);
                let y = self.concat(hi, b);
                return self.ite(c, x, y);
            }
        }
        if wh > 1 && self.is_const(lo) && self.n(hi).ctree {
            if let Op::Ite(c, a, b) = self.op(hi).clone() {
                let x = self.concat(a, lo);
                let y = self.concat(b, lo);
                return self.ite(c, x, y);
            }
        }
        let mut segs: Vec<T> = Vec::new();
        let push = |s: &mut Self, segs: &mut Vec<T>, x: T| {
            if let Some(&l) = segs.last() {
                if let (Some(a), Some(b)) = (s.as_const(l), s.as_const(x)) {
                    let xw = s.w(x);
                    let nw = s.w(l) + xw;
                    let m = s.cst(nw, (a << xw) | b);
                    *segs.last_mut().unwrap() = m;
                    return;
                }
                if let (Op::Extract(p, a), Op::Extract(q, b)) = (s.op(l).clone(), s.op(x).clone()) {
                    if p == q && a == b + s.w(x) {
                        let nw = s.w(l) + s.w(x);
                        let m = s.extract_raw(p, b, nw);
                        *segs.last_mut().unwrap() = m;
                        return;
                    }
                }
            }
            segs.push(x);
        };
        for t in [hi, lo] {
            if let Op::Concat(s) = self.op(t).clone() {
                for &x in s.iter() {
                    push(self, &mut segs, x);
                }
            } else {
                push(self, &mut segs, t);
            }
        }
        if segs.len() == 1 {
            return segs[0];
        }
        let t = self.intern(Op::Concat(segs.into()), w);
        self.fold_lut(t)
    }

    fn extract_raw(&mut self, t: T, lo: u8, w: u8) -> T {
        if lo == 0 && w == self.w(t) {
            return t;
        }
        self.intern(Op::Extract(t, lo), w)
    }

    pub fn zext(&mut self, t: T, w: u8) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        let z = self.cst(w - tw, 0);
        self.concat(z, t)
    }
    pub fn sext(&mut self, t: T, w: u8) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        if let Some(c) = self.as_const(t) {
            return self.cst(w, to_signed(c, tw) as u128);
        }
        if self.n(t).kz >> (tw - 1) & 1 == 1 {
            return self.zext(t, w);
        }
        if tw == 1 {
            let a = self.cst(w, mask(w));
            let b = self.cst(w, 0);
            return self.ite(t, a, b);
        }
        if self.n(t).ctree {
            if let Op::Ite(c, a, b) = self.op(t).clone() {
                let x = self.sext(a, w);
                let y = self.sext(b, w);
                return self.ite(c, x, y);
            }
        }
        let r = self.intern(Op::Sext(t), w);
        self.fold_lut(r)
    }
    pub fn trunc(&mut self, t: T, w: u8) -> T {
        self.extract(t, 0, w)
    }
    /// zero-extend or truncate
    pub fn resize(&mut self, t: T, w: u8) -> T {
        let tw = self.w(t);
        if tw < w {
            self.zext(t, w)
        } else {
            self.trunc(t, w)
        }
    }

    // ---------------------------------------------------------------- bitwise
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        match self.op(a).clone() {
            Op::Const(c) => self.cst(w, !c),
            Op::Not(x) => x,
            Op::Concat(segs) => {
                let mut acc = self.not(segs[0]);
                for &s in &segs[1..] {
                    let x = self.not(s);
                    acc = self.concat(acc, x);
                }
                acc
            }
            Op::Ite(c, x, y) if self.n(a).ctree || (w == 1 && (self.is_const(x) || self.is_const(y))) => {
                let x = self.not(x);
                let y = self.not(y);
                self.ite(c, x, y)
            }
            _ => {
                let t = self.intern(Op::Not(a), w);
                self.fold_lut(t)
            }
        }
    }

    /// Split a bitwise operation into runs by what is known of the operands' bits.
    fn bit_runs(&mut self, a: T, b: T, kind: u8) -> Option<T> {
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        let m = mask(w);
        let known = (na.kz | na.ko | nb.kz | nb.ko) & m;
        if known == 0 {
            return None;
        }
        // class per bit: 0 both unknown, 1 a=0, 2 a=1, 3 b=0, 4 b=1
        let class = |i: u8| -> u8 {
            let b1 = 1u128 << i;
            if na.kz & b1 != 0 {
                1
            } else if na.ko & b1 != 0 {
                2
            } else if nb.kz & b1 != 0 {
                3
            } else if nb.ko & b1 != 0 {
                4
            } else {
                0
            }
        };
        let mut runs: Vec<(u8, u8, u8)> = Vec::new(); // (class, lo, len)
        let mut unknown = 0;
        for i in 0..w {
            let c = class(i);
            if let Some(l) = runs.last_mut() {
                if l.0 == c {
                    l.2 += 1;
                    continue;
                }
            }
            if c == 0 {
                unknown += 1;
            }
            runs.push((c, i, 1));
        }
        if runs.len() > 12 && unknown > 4 {
            return None;
        }
        if runs.len() > 40 || kind == 2 && runs.len() > 5 && (self.is_const(a) || self.is_const(b)) {
            return None;
        }
        // a constant added to words nothing is known of: do not tear the words apart at odd places
        if kind == 2 && (self.is_const(a) && (nb.kz | nb.ko) & m == 0 || self.is_const(b) && (na.kz | na.ko) & m == 0) {
            if runs.iter().any(|r| r.1 % 8 != 0) {
                return None;
            }
        }
        let mut acc: Option<T> = None;
        for (c, lo, len) in runs {
            let piece = match (kind, c) {
                (0, 1) | (0, 3) => self.cst(len, 0),
                (0, 2) => self.extract(b, lo, len),
                (0, 4) => self.extract(a, lo, len),
                (1, 1) => self.extract(b, lo, len),
                (1, 3) => self.extract(a, lo, len),
                (1, 2) | (1, 4) => self.cst(len, mask(len)),
                (2, 1) => self.extract(b, lo, len),
                (2, 3) => self.extract(a, lo, len),
                (2, 2) => {
                    let x = self.extract(b, lo, len);
                    self.not(x)
                }
                (2, 4) => {
                    let x = self.extract(a, lo, len);
                    self.not(x)
                }
                (k, _) => {
                    let x = self.extract(a, lo, len);
                    let y = self.extract(b, lo, len);
                    match k {
                        0 => self.and(x, y),
                        1 => self.or(x, y),
                        _ => self.xor(x, y),
                    }
                }
            };
            acc = Some(match acc {
                None => piece,
                Some(l) => self.concat(piece, l),
            });
        }
        acc
    }

    /// Align two concatenations and apply the operation segment by segment.
    fn seg_split(&mut self, a: T, b: T, kind: u8) -> Option<T> {
        let mut cuts: Vec<u8> = Vec::new();
        let w = self.w(a);
        let mut any = false;
        for t in [a, b] {
            if let Op::Concat(segs) = self.op(t).clone() {
                any = true;
                let mut p = 0u8;
                for &s in segs.iter().rev() {
                    p += self.w(s);
                    cuts.push(p);
                }
            }
        }
        if !any {
            return None;
        }
        cuts.push(w);
        cuts.sort();
        cuts.dedup();
        if cuts.len() < 2 || cuts.len() > 12 {
            return None;
        }
        let mut lo = 0u8;
        let mut acc: Option<T> = None;
        for c in cuts {
            let x = self.extract(a, lo, c - lo);
            let y = self.extract(b, lo, c - lo);
            let piece = match kind {
                0 => self.and(x, y),
                1 => self.or(x, y),
                _ => self.xor(x, y),
            };
            acc = Some(match acc {
                None => piece,
                Some(l) => self.concat(piece, l),
            });
            lo = c;
        }
        acc
    }

    fn conj_list(&self, t: T, or: bool, out: &mut Vec<T>, lim: usize) {
        let mut st = vec![t];
        while let Some(x) = st.pop() {
            if out.len() >= lim {
                out.push(x);
                continue;
            }
            match self.op(x) {
                Op::And(a, b) if !or && self.w(x) == 1 => {
                    st.push(*b);
                    st.push(*a);
                }
                Op::Or(a, b) if or && self.w(x) == 1 => {
                    st.push(*b);
                    st.push(*a);
                }
                _ => out.push(x),
            }
        }
    }

    fn is_neg(&self, a: T, b: T) -> bool {
        matches!(self.op(a), Op::Not(x) if *x == b) || matches!(self.op(b), Op::Not(x) if *x == a)
    }

    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(w, x & y);
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(c) = self.as_const(x) {
                if c == 0 {
                    return x;
                }
                if c == mask(w) {
                    return y;
                }
            }
        }
        if self.is_neg(a, b) {
            return self.cst(w, 0);
        }
        if w == 1 {
            let (mut la, mut lb) = (vec![], vec![]);
            self.conj_list(a, false, &mut la, 24);
            self.conj_list(b, false, &mut lb, 24);
            for &x in &la {
                for &y in &lb {
                    if self.is_neg(x, y) {
                        return self.ff;
                    }
                }
            }
            // subsumption
            if la.iter().all(|x| lb.contains(x)) {
                return b;
            }
            if lb.iter().all(|x| la.contains(x)) {
                return a;
            }
            // a & (¬a | b) = a & b ; a & (a | b) = a
            for (x, lx, y) in [(a, &la, b), (b, &lb, a)] {
                if let Op::Or(p, q) = *self.op(y) {
                    for (p, q) in [(p, q), (q, p)] {
                        if lx.iter().any(|&l| l == p) {
                            return x;
                        }
                        if lx.iter().any(|&l| self.is_neg(l, p)) {
                            return self.and(x, q);
                        }
                    }
                }
            }
        } else {
            if let Some(r) = self.push_ite2(a, b, &mut |c, x, y| c.and(x, y)) {
                return r;
            }
            if let Some(r) = self.bit_runs(a, b, 0) {
                return r;
            }
            if let Some(r) = self.seg_split(a, b, 0) {
                return r;
            }
        }
        let (x, y) = (a.min(b), a.max(b));
        let t = self.intern(Op::And(x, y), w);
        self.fold_lut(t)
    }

    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(w, x | y);
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(c) = self.as_const(x) {
                if c == 0 {
                    return y;
                }
                if c == mask(w) {
                    return x;
                }
            }
        }
        if self.is_neg(a, b) {
            return self.cst(w, mask(w));
        }
        if w == 1 {
            let (mut la, mut lb) = (vec![], vec![]);
            self.conj_list(a, true, &mut la, 24);
            self.conj_list(b, true, &mut lb, 24);
            for &x in &la {
                for &y in &lb {
                    if self.is_neg(x, y) {
                        return self.tt;
                    }
                }
            }
            if la.iter().all(|x| lb.contains(x)) {
                return b;
            }
            if lb.iter().all(|x| la.contains(x)) {
                return a;
            }
            // a | (¬a & b) = a | b ; a | (a & b) = a
            let mut ca = vec![];
            let mut cb = vec![];
            self.conj_list(a, false, &mut ca, 24);
            self.conj_list(b, false, &mut cb, 24);
            if ca.iter().all(|x| cb.contains(x)) {
                return a;
            }
            if cb.iter().all(|x| ca.contains(x)) {
                return b;
            }
            // (p & r) | (¬p & r) = r, also with several shared conjuncts
            if ca.len() <= 24 && cb.len() <= 24 {
                let oa: Vec<T> = ca.iter().copied().filter(|x| !cb.contains(x)).collect();
                let ob: Vec<T> = cb.iter().copied().filter(|x| !ca.contains(x)).collect();
                let sh: Vec<T> = ca.iter().copied().filter(|x| cb.contains(x)).collect();
                if !sh.is_empty() || oa.len() == 1 || ob.len() == 1 {
                    if oa.len() == 1 && ob.len() == 1 && self.is_neg(oa[0], ob[0]) {
                        let mut r = self.tt;
                        for s in sh {
                            r = self.and(r, s);
                        }
                        return r;
                    }
                    // p | (¬p & q..) = p | q..
                    if oa.len() == 1 {
                        if let Some(k) = ob.iter().position(|x| self.is_neg(*x, oa[0])) {
                            if ob.len() > 1 {
                                let mut q = self.tt;
                                for (i, x) in ob.iter().enumerate() {
                                    if i != k {
                                        q = self.and(q, *x);
                                    }
                                }
                                let mut r = self.or(oa[0], q);
                                for s in sh {
                                    r = self.and(r, s);
                                }
                                return r;
                            }
                        }
                    }
                    if ob.len() == 1 {
                        if let Some(k) = oa.iter().position(|x| self.is_neg(*x, ob[0])) {
                            if oa.len() > 1 {
                                let mut q = self.tt;
                                for (i, x) in oa.iter().enumerate() {
                                    if i != k {
                                        q = self.and(q, *x);
                                    }
                                }
                                let mut r = self.or(ob[0], q);
                                for s in sh {
                                    r = self.and(r, s);
                                }
                                return r;
                            }
                        }
                    }
                }
            }
        } else {
            if let Some(r) = self.push_ite2(a, b, &mut |c, x, y| c.or(x, y)) {
                return r;
            }
            if let Some(r) = self.bit_runs(a, b, 1) {
                return r;
            }
            if let Some(r) = self.seg_split(a, b, 1) {
                return r;
            }
        }
        let (x, y) = (a.min(b), a.max(b));
        let t = self.intern(Op::Or(x, y), w);
        self.fold_lut(t)
    }

    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.cst(w, 0);
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(w, x ^ y);
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(c) = self.as_const(x) {
                if c == 0 {
                    return y;
                }
                if c == mask(w) {
                    return self.not(y);
                }
            }
        }
        if self.is_neg(a, b) {
            return self.cst(w, mask(w));
        }
        if let Some(r) = self.push_ite2(a, b, &mut |c, x, y| c.xor(x, y)) {
            return r;
        }
        if w > 1 {
            if let Some(r) = self.bit_runs(a, b, 2) {
                return r;
            }
            if let Some(r) = self.seg_split(a, b, 2) {
                return r;
            }
        }
        // flatten, cancel pairs, pull out negations
        let mut l = Vec::new();
        let mut neg = false;
        let mut k = 0u128;
        let mut st = vec![a, b];
        while let Some(x) = st.pop() {
            match *self.op(x) {
                Op::Xor(p, q) => {
                    st.push(p);
                    st.push(q);
                }
                Op::Not(p) => {
                    neg = !neg;
                    st.push(p);
                }
                _ => match self.as_const(x) {
                    Some(c) => k ^= c,
                    None => l.push(x),
                },
            }
        }
        if k != 0 {
            if k == mask(w) {
                neg = !neg;
            } else {
                let k = self.cst(w, k);
                l.push(k);
            }
        }
        l.sort();
        let mut out: Vec<T> = Vec::new();
        for x in l {
            if out.last() == Some(&x) {
                out.pop();
            } else {
                out.push(x);
            }
        }
        let mut acc: Option<T> = None;
        for x in out {
            acc = Some(match acc {
                None => x,
                Some(y) => {
                    let (p, q) = (x.min(y), x.max(y));
                    let t = self.intern(Op::Xor(p, q), w);
                    self.fold_lut(t)
                }
            });
        }
        let r = match acc {
            None => self.cst(w, 0),
            Some(x) => x,
        };
        if neg {
            self.not(r)
        } else {
            r
        }
    }

    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k >= w as u128 {
                return self.cst(w, 0);
            }
            if k == 0 {
                return a;
            }
            let k = k as u8;
            if matches!(self.op(a), Op::Poly(..)) {
                let c = self.cst(w, 1u128 << k);
                return self.mul(a, c);
            }
            let hi = self.extract(a, 0, w - k);
            let z = self.cst(k, 0);
            return self.concat(hi, z);
        }
        if let Some(r) = self.push_ite2(a, b, &mut |c, x, y| c.shl(x, y)) {
            return r;
        }
        if let Some(r) = self.shift_tree(a, b, &mut |c, x, y| c.shl(x, y)) {
            return r;
        }
        let t = self.intern(Op::Shl(a, b), w);
        self.fold_lut(t)
    }
    /// a symbolic shift amount that is a tree of constants
    fn shift_tree(&mut self, a: T, b: T, f: &mut dyn FnMut(&mut Ctx, T, T) -> T) -> Option<T> {
        let nb = self.n(b);
        if nb.ctree && nb.leaves > 1 && nb.leaves <= 16 {
            if let Op::Ite(c, x, y) = self.op(b).clone() {
                let p = f(self, a, x);
                let q = f(self, a, y);
                return Some(self.ite(c, p, q));
            }
        }
        None
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k >= w as u128 {
                return self.cst(w, 0);
            }
            if k == 0 {
                return a;
            }
            let k = k as u8;
            let lo = self.extract(a, k, w - k);
            let z = self.cst(k, 0);
            return self.concat(z, lo);
        }
        if let Some(r) = self.push_ite2(a, b, &mut |c, x, y| c.lshr(x, y)) {
            return r;
        }
        if let Some(r) = self.shift_tree(a, b, &mut |c, x, y| c.lshr(x, y)) {
            return r;
        }
        let t = self.intern(Op::Lshr(a, b), w);
        self.fold_lut(t)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if self.n(a).kz >> (w - 1) & 1 == 1 {
            return self.lshr(a, b);
        }
        if let Some(k) = self.as_const(b) {
            let k = k.min(w as u128 - 1) as u8;
            if k == 0 {
                return a;
            }
            let hi = self.extract(a, k, w - k);
            return self.sext(hi, w);
        }
        if let Some(r) = self.shift_tree(a, b, &mut |c, x, y| c.ashr(x, y)) {
            return r;
        }
        let t = self.intern(Op::Ashr(a, b), w);
        self.fold_lut(t)
    }

    // ---------------------------------------------------------------- division
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(w, if y == 0 { mask(w) } else { x / y });
        }
        if let Some(y) = self.as_const(b) {
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.cst(w, y.trailing_zeros() as u128);
                return self.lshr(a, k);
            }
            if y != 0 && self.n(a).hi < y {
                return self.cst(w, 0);
            }
        }
        if let Some(r) = self.push_ite2(a, b, &mut |c, x, y| c.udiv(x, y)) {
            return r;
        }
        let t = self.intern(Op::Udiv(a, b), w);
        self.fold_lut(t)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(w, if y == 0 { x } else { x % y });
        }
        if let Some(y) = self.as_const(b) {
            if y == 1 {
                return self.cst(w, 0);
            }
            if y.is_power_of_two() {
                let k = y.trailing_zeros() as u8;
                let lo = self.extract(a, 0, k);
                return self.zext(lo, w);
            }
            if y != 0 && self.n(a).hi < y {
                return a;
            }
        }
        if let Some(r) = self.push_ite2(a, b, &mut |c, x, y| c.urem(x, y)) {
            return r;
        }
        if self.n(b).lo > 0 && self.n(a).hi < self.n(b).lo {
            return a;
        }
        let t = self.intern(Op::Urem(a, b), w);
        let r = self.fold_lut(t);
        if r != t || self.n(b).lo == 0 || w > 64 {
            return r;
        }
        // equal sums modulo b have equal remainders
        let form = self.residue(a, b);
        if form.0.is_empty() && form.1 >= 0 && self.is_const(b) {
            return self.cst(w, form.1 as u128);
        }
        if form.1 == 0 && form.0.len() == 1 && form.0[0].1 == 1 {
            let x = form.0[0].0;
            if x != a {
                return self.urem(x, b);
            }
        }
        *self.rem_forms.entry((b, (*form).clone())).or_insert(t)
    }

    /// a sum of multiples of terms
    fn linear(&self, t: T) -> Option<(i128, Vec<(T, i128)>)> {
        let w = self.w(t);
        if w > 64 {
            return None;
        }
        if let Some(k) = self.as_const(t) {
            return Some((k as i128, vec![]));
        }
        match self.op(t) {
            Op::Poly(k, ms) => {
                let half = 1u128 << (w - 1);
                let signed = |x: u128| if x >= half { x as i128 - (1i128 << w) } else { x as i128 };
                let mut l = Vec::new();
                for m in ms.iter() {
                    let c = signed(m.coef);
                    if m.f.len() != 1 || c.abs() > 1 << 40 {
                        return None;
                    }
                    l.push((m.f[0], c));
                }
                Some((signed(*k), l))
            }
            _ => Some((0, vec![(t, 1)])),
        }
    }
    /// bounds of a sum over the integers
    fn int_range(&self, l: &(i128, Vec<(T, i128)>)) -> Option<(i128, i128)> {
        let mut m: std::collections::BTreeMap<T, i128> = Default::default();
        for (t, k) in &l.1 {
            *m.entry(*t).or_insert(0) += k;
        }
        let range = |m: &std::collections::BTreeMap<T, i128>, mut lo: i128, mut hi: i128| {
            for (t, k) in m {
                let (a, b) = (self.n(*t).lo as i128, self.n(*t).hi as i128);
                lo += if *k > 0 { k * a } else { k * b };
                hi += if *k > 0 { k * b } else { k * a };
            }
            (lo, hi)
        };
        let r = range(&m, l.0, l.0);
        // a remainder that is subtracted, with a modulus that is added: at least 1
        let rems: Vec<(T, T)> = m
            .iter()
            .filter(|x| *x.1 == -1)
            .filter_map(|x| match self.op(*x.0) {
                Op::Urem(_, q) if self.n(*q).lo > 0 && !self.is_const(*q) => Some((*x.0, *q)),
                _ => None,
            })
            .collect();
        if rems.is_empty() {
            return Some(r);
        }
        let (mut lo, mut hi) = (l.0, l.0);
        for (x, q) in rems {
            let (k, v) = self.linear(q)?;
            m.remove(&x);
            for (t, c) in v {
                *m.entry(t).or_insert(0) -= c;
            }
            lo += 1 - k;
            hi += self.n(q).hi as i128 - k;
        }
        let s = range(&m, lo, hi);
        Some((r.0.max(s.0), r.1.min(s.1)))
    }

    /// `t`, as an integer, is congruent to the sum modulo `p` (which is not 0)
    fn residue(&mut self, t: T, p: T) -> Rc<Residue> {
        if let Some(r) = self.residues.get(&(t, p)) {
            return r.clone();
        }
        let r = match self.residue_sum(t, p) {
            Some(r) => r,
            None => self.residue_norm(vec![(t, 1)], 0, p).unwrap_or((vec![(t, 1)], 0)),
        };
        let r = Rc::new(r);
        self.residues.insert((t, p), r.clone());
        r
    }
    fn residue_norm(&mut self, l: Vec<(T, i128)>, c: i128, p: T) -> Option<Residue> {
        let mut m: std::collections::BTreeMap<T, i128> = Default::default();
        let mut c = c;
        // the modulus is 0: either a term of its own, or 1 * x + k
        let sub = match self.op(p) {
            Op::Poly(k, ms) if ms.len() == 1 && ms[0].coef == 1 && ms[0].f.len() == 1 && *k < 1 << 64 => Some((ms[0].f[0], -(*k as i128))),
            Op::Const(_) => None,
            _ => Some((p, 0)),
        };
        for (t, k) in l {
            match sub {
                Some((x, v)) if x == t => c = c.checked_add(k.checked_mul(v)?)?,
                _ => {
                    let e = m.entry(t).or_insert(0);
                    *e = e.checked_add(k)?;
                }
            }
        }
        if let Some(n) = self.as_const(p) {
            let n = n as i128;
            c = c.rem_euclid(n);
            for v in m.values_mut() {
                *v = v.rem_euclid(n);
            }
        }
        Some((m.into_iter().filter(|x| x.1 != 0).collect(), c))
    }
    fn residue_sum(&mut self, t: T, p: T) -> Option<Residue> {
        if let Op::Urem(y, q) = *self.op(t) {
            return if q == p { Some((*self.residue(y, p)).clone()) } else { None };
        }
        let w = self.w(t);
        if let Some(k) = self.as_const(t) {
            return if w <= 64 { self.residue_norm(vec![], k as i128, p) } else { None };
        }
        if w > 64 || !matches!(self.op(t), Op::Poly(..)) {
            return None;
        }
        let sum = self.linear(t)?;
        match self.int_range(&sum) {
            Some((lo, hi)) if lo >= 0 && hi < 1i128 << w => {}
            _ => return None,
        }
        let mut c = sum.0;
        let mut l = Vec::new();
        for (t, co) in sum.1 {
            let r = self.residue(t, p);
            c = c.checked_add(co.checked_mul(r.1)?)?;
            for (x, v) in &r.0 {
                l.push((*x, co.checked_mul(*v)?));
            }
        }
        self.residue_norm(l, c, p)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if self.n(a).kz >> (w - 1) & 1 == 1 && self.n(b).kz >> (w - 1) & 1 == 1 {
            return self.udiv(a, b);
        }
        let t = Op::Sdiv(a, b);
        if self.is_const(a) && self.is_const(b) {
            let v = self.eval_const(&t, w);
            return self.cst(w, v);
        }
        let t = self.intern(t, w);
        self.fold_lut(t)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if self.n(a).kz >> (w - 1) & 1 == 1 && self.n(b).kz >> (w - 1) & 1 == 1 {
            return self.urem(a, b);
        }
        let t = Op::Srem(a, b);
        if self.is_const(a) && self.is_const(b) {
            let v = self.eval_const(&t, w);
            return self.cst(w, v);
        }
        let t = self.intern(t, w);
        self.fold_lut(t)
    }
    fn eval_const(&self, op: &Op, w: u8) -> u128 {
        self.eval_op(op, w, &mut |x| self.as_const(x).unwrap())
    }

    // ---------------------------------------------------------------- comparisons
    pub fn eq(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.tt;
        }
        if self.is_const(a) && self.is_const(b) {
            return self.ff;
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        {
            let (na, nb) = (self.n(a), self.n(b));
            if (na.kz & nb.ko) | (na.ko & nb.kz) != 0 || na.hi < nb.lo || nb.hi < na.lo {
                return self.ff;
            }
        }
        if let Some(r) = self.push_ite2(a, b, &mut |c, x, y| c.eq(x, y)) {
            return r;
        }
        // Ite against a constant where one arm decides
        for (x, y) in [(a, b), (b, a)] {
            if self.is_const(y) {
                if let Op::Ite(c, p, q) = self.op(x).clone() {
                    if self.is_const(p) || self.is_const(q) {
                        let e1 = self.eq(p, y);
                        let e2 = self.eq(q, y);
                        return self.ite(c, e1, e2);
                    }
                }
            }
        }
        // segment-wise
        let ca = matches!(self.op(a), Op::Concat(_));
        let cb = matches!(self.op(b), Op::Concat(_));
        if (ca && (cb || self.is_const(b))) || (cb && self.is_const(a)) {
            let mut cuts: Vec<u8> = Vec::new();
            for t in [a, b] {
                if let Op::Concat(segs) = self.op(t).clone() {
                    let mut p = 0u8;
                    for &s in segs.iter().rev() {
                        p += self.w(s);
                        cuts.push(p);
                    }
                }
            }
            cuts.sort();
            cuts.dedup();
            if cuts.len() <= 80 {
                let mut lo = 0u8;
                let mut acc = self.tt;
                let mut parts = vec![];
                for c in cuts {
                    let x = self.extract(a, lo, c - lo);
                    let y = self.extract(b, lo, c - lo);
                    let e = self.eq(x, y);
                    if e == self.ff {
                        return e;
                    }
                    parts.push(e);
                    lo = c;
                }
                for e in parts {
                    acc = self.and(acc, e);
                }
                return acc;
            }
        }
        if matches!(self.op(a), Op::Poly(..)) || matches!(self.op(b), Op::Poly(..)) {
            let d = self.sub(a, b);
            if self.is_const(d) {
                return self.bool(self.as_const(d) == Some(0));
            }
            let n = self.n(d);
            if n.lo > 0 || n.ko != 0 {
                return self.ff;
            }
            // x + c == 0 -> x == -c, for a smaller term
            if let Op::Poly(c, m) = self.op(d).clone() {
                if m.len() == 1 && m[0].f.len() == 1 {
                    let k = m[0].coef;
                    if k & 1 == 1 {
                        // invert an odd coefficient
                        let mut inv: u128 = 1;
                        for _ in 0..7 {
                            inv = inv.wrapping_mul(2u128.wrapping_sub(k.wrapping_mul(inv)));
                        }
                        let v = self.cst(w, c.wrapping_neg().wrapping_mul(inv));
                        let f = m[0].f[0];
                        if (f, v) != (a, b) && (v, f) != (a, b) {
                            return self.eq(f, v);
                        }
                    }
                } else if m.len() == 2 && c == 0 && m[0].f.len() == 1 && m[1].f.len() == 1 {
                    let (p, q) = (m[0].coef, m[1].coef);
                    if p.wrapping_add(q) & mask(w) == 0 && (p == 1 || q == 1) {
                        let (x, y) = (m[0].f[0], m[1].f[0]);
                        if !(a == x && b == y) && !(a == y && b == x) {
                            return self.eq(x, y);
                        }
                    }
                }
            }
        }
        // zero-extended operands: compare the low parts
        let lz = (self.n(a).hi | self.n(b).hi).leading_zeros().saturating_sub(128 - w as u32) as u8;
        if lz > 0 && lz < w && (ca || cb || self.is_const(a) || self.is_const(b)) && !matches!(self.op(a), Op::Poly(..)) && !matches!(self.op(b), Op::Poly(..)) {
            let x = self.extract(a, 0, w - lz);
            let y = self.extract(b, 0, w - lz);
            if self.w(x) < w {
                return self.eq(x, y);
            }
        }
        let (x, y) = (a.min(b), a.max(b));
        let t = self.intern(Op::Eq(x, y), 1);
        self.fold_lut(t)
    }
    pub fn ne(&mut self, a: T, b: T) -> T {
        let e = self.eq(a, b);
        self.not(e)
    }

    pub fn ult(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.ff;
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.hi < nb.lo {
            return self.tt;
        }
        if na.lo >= nb.hi {
            return self.ff;
        }
        if matches!(na.op, Op::Urem(_, p) if p == b) && nb.lo > 0 {
            return self.tt;
        }
        if matches!(nb.op, Op::Urem(_, p) if p == a) && na.lo > 0 {
            return self.ff;
        }
        if w <= 64 && (matches!(na.op, Op::Poly(..)) || matches!(nb.op, Op::Poly(..))) {
            // as integers, when nothing wraps
            if let (Some(x), Some(y)) = (self.linear(a), self.linear(b)) {
                let top = 1i128 << w;
                let fits = |s: &Self, l: &(i128, Vec<(T, i128)>)| matches!(s.int_range(l), Some((lo, hi)) if lo >= 0 && hi < top);
                if fits(self, &x) && fits(self, &y) {
                    let mut d = x;
                    d.0 -= y.0;
                    d.1.extend(y.1.into_iter().map(|(t, k)| (t, -k)));
                    if let Some((lo, hi)) = self.int_range(&d) {
                        if hi < 0 {
                            return self.tt;
                        }
                        if lo >= 0 {
                            return self.ff;
                        }
                    }
                }
            }
        }
        let (ah, bh) = (na.hi, nb.hi);
        if w == 1 {
            let x = self.not(a);
            return self.and(x, b);
        }
        if let Some(r) = self.push_ite2(a, b, &mut |c, x, y| c.ult(x, y)) {
            return r;
        }
        if self.as_const(b) == Some(1) {
            let z = self.cst(w, 0);
            return self.eq(a, z);
        }
        if self.as_const(a) == Some(0) {
            let z = self.cst(w, 0);
            return self.ne(b, z);
        }
        if let Some(c) = self.as_const(b) {
            // a < 2^k : the high bits are zero
            if c.is_power_of_two() && matches!(self.op(a), Op::Concat(_) | Op::Var(_) | Op::Extract(..)) {
                let k = c.trailing_zeros() as u8;
                if k < w {
                    let h = self.extract(a, k, w - k);
                    let z = self.cst(w - k, 0);
                    return self.eq(h, z);
                }
            }
        }
        if let Some(c) = self.as_const(a) {
            // 2^k-1 < b : some high bit is set
            if (c + 1).is_power_of_two() && matches!(self.op(b), Op::Concat(_) | Op::Var(_) | Op::Extract(..)) {
                let k = (c + 1).trailing_zeros() as u8;
                if k < w {
                    let h = self.extract(b, k, w - k);
                    let z = self.cst(w - k, 0);
                    return self.ne(h, z);
                }
            }
        }
        // drop known-zero high bits
        let lz = (ah | bh).leading_zeros().saturating_sub(128 - w as u32) as u8;
        if lz > 0 && lz < w {
            let structural = |s: &Self, t: T| matches!(s.op(t), Op::Concat(_) | Op::Const(_));
            if structural(self, a) && structural(self, b) {
                let x = self.extract(a, 0, w - lz);
                let y = self.extract(b, 0, w - lz);
                return self.ult(x, y);
            }
        }
        let t = self.intern(Op::Ult(a, b), 1);
        self.fold_lut(t)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.ff;
        }
        let s = 1u128 << (w - 1);
        let (na, nb) = (self.n(a), self.n(b));
        let (az, ao) = (na.kz & s != 0, na.ko & s != 0);
        let (bz, bo) = (nb.kz & s != 0, nb.ko & s != 0);
        if (az && bz) || (ao && bo) {
            return self.ult(a, b);
        }
        if az && bo {
            return self.ff;
        }
        if ao && bz {
            return self.tt;
        }
        // sign tests
        if self.as_const(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.as_const(a) == Some(mask(w)) {
            let x = self.extract(b, w - 1, 1);
            return self.not(x);
        }
        if let Some(r) = self.push_ite2(a, b, &mut |c, x, y| c.slt(x, y)) {
            return r;
        }
        let t = self.intern(Op::Slt(a, b), 1);
        self.fold_lut(t)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        let x = self.slt(b, a);
        self.not(x)
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        match self.as_const(c) {
            Some(0) => return b,
            Some(_) => return a,
            None => {}
        }
        if let Op::Not(x) = *self.op(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            if a == self.tt {
                return self.or(c, b);
            }
            if a == self.ff {
                let n = self.not(c);
                return self.and(n, b);
            }
            if b == self.ff {
                return self.and(c, a);
            }
            if b == self.tt {
                let n = self.not(c);
                return self.or(n, a);
            }
            if self.is_neg(a, b) {
                let e = self.xor(c, a);
                return self.not(e);
            }
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
        }
        let mut a = a;
        let mut b = b;
        if let Op::Ite(c2, x, y) = *self.op(a) {
            if c2 == c {
                a = x;
            } else if self.is_neg(c, c2) {
                a = y;
            }
        }
        if let Op::Ite(c2, x, y) = *self.op(b) {
            if c2 == c {
                b = y;
            } else if self.is_neg(c, c2) {
                b = x;
            }
            // ite(c, a, ite(c2, a, y)) = ite(c|c2, a, y)
        }
        if a == b {
            return a;
        }
        if let Op::Ite(c2, x, y) = *self.op(b) {
            if x == a {
                let d = self.or(c, c2);
                return self.ite(d, a, y);
            }
            if y == a {
                let n = self.not(c2);
                let d = self.or(c, n);
                return self.ite(d, a, x);
            }
        }
        if let Op::Ite(c2, x, y) = *self.op(a) {
            if y == b {
                let d = self.and(c, c2);
                return self.ite(d, x, b);
            }
            if x == b {
                let n = self.not(c2);
                let d = self.and(c, n);
                return self.ite(d, y, b);
            }
        }
        // ite(c, 2^k, 0) is the bit c
        if w > 1 {
            if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
                if y == 0 && x.is_power_of_two() {
                    return self.bit_at(c, x.trailing_zeros() as u8, w);
                }
                if x == 0 && y.is_power_of_two() {
                    let n = self.not(c);
                    return self.bit_at(n, y.trailing_zeros() as u8, w);
                }
            }
            // concatenations: merge segment-wise when most segments agree
            if matches!(self.op(a), Op::Concat(_)) || matches!(self.op(b), Op::Concat(_)) {
                if let Some(r) = self.ite_segs(c, a, b) {
                    return r;
                }
            }
        }
        let t = self.intern(Op::Ite(c, a, b), w);
        self.fold_lut(t)
    }

    fn bit_at(&mut self, c: T, k: u8, w: u8) -> T {
        let mut t = c;
        if k > 0 {
            let z = self.cst(k, 0);
            t = self.concat(t, z);
        }
        self.zext(t, w)
    }

    fn ite_segs(&mut self, c: T, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        let mut cuts: Vec<u8> = vec![w];
        for t in [a, b] {
            if let Op::Concat(segs) = self.op(t).clone() {
                let mut p = 0u8;
                for &s in segs.iter().rev() {
                    p += self.w(s);
                    cuts.push(p);
                }
            }
        }
        cuts.sort();
        cuts.dedup();
        if cuts.len() > 40 {
            return None;
        }
        let mut lo = 0u8;
        let mut pieces: Vec<(T, T)> = Vec::new();
        let mut equal = 0;
        for &k in &cuts {
            let x = self.extract(a, lo, k - lo);
            let y = self.extract(b, lo, k - lo);
            if x == y {
                equal += 1;
            }
            pieces.push((x, y));
            lo = k;
        }
        if equal == 0 {
            return None;
        }
        let mut acc: Option<T> = None;
        for (x, y) in pieces {
            let p = self.ite(c, x, y);
            acc = Some(match acc {
                None => p,
                Some(l) => self.concat(p, l),
            });
        }
        acc
    }

    // ---------------------------------------------------------------- evaluation
    pub fn eval_op(&self, op: &Op, w: u8, f: &mut dyn FnMut(T) -> u128) -> u128 {
        let m = mask(w);
        match op {
            Op::Const(c) => *c,
            Op::Var(_) => unreachable!(),
            Op::Poly(c, mons) => {
                let mut s = *c;
                for x in mons.iter() {
                    let mut p = x.coef;
                    for &y in x.f.iter() {
                        p = p.wrapping_mul(f(y));
                    }
                    s = s.wrapping_add(p);
                }
                s & m
            }
            Op::Concat(segs) => {
                let mut r = 0u128;
                for &s in segs.iter() {
                    let v = f(s);
                    r = if self.w(s) >= 128 { v } else { (r << self.w(s)) | v };
                }
                r
            }
            Op::Extract(t, lo) => (f(*t) >> lo) & m,
            Op::Not(a) => !f(*a) & m,
            Op::And(a, b) => f(*a) & f(*b),
            Op::Or(a, b) => f(*a) | f(*b),
            Op::Xor(a, b) => f(*a) ^ f(*b),
            Op::Ite(c, a, b) => {
                if f(*c) != 0 {
                    f(*a)
                } else {
                    f(*b)
                }
            }
            Op::Eq(a, b) => (f(*a) == f(*b)) as u128,
            Op::Ult(a, b) => (f(*a) < f(*b)) as u128,
            Op::Slt(a, b) => {
                let aw = self.w(*a);
                (to_signed(f(*a), aw) < to_signed(f(*b), aw)) as u128
            }
            Op::Udiv(a, b) => {
                let (x, y) = (f(*a), f(*b));
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::Urem(a, b) => {
                let (x, y) = (f(*a), f(*b));
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::Sdiv(a, b) => {
                let (x, y) = (to_signed(f(*a), w), to_signed(f(*b), w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    (x.wrapping_div(y) as u128) & m
                }
            }
            Op::Srem(a, b) => {
                let (x, y) = (to_signed(f(*a), w), to_signed(f(*b), w));
                if y == 0 {
                    (x as u128) & m
                } else {
                    (x.wrapping_rem(y) as u128) & m
                }
            }
            Op::Shl(a, b) => {
                let k = f(*b);
                if k >= w as u128 {
                    0
                } else {
                    (f(*a) << k) & m
                }
            }
            Op::Lshr(a, b) => {
                let k = f(*b);
                if k >= w as u128 {
                    0
                } else {
                    f(*a) >> k
                }
            }
            Op::Ashr(a, b) => {
                let k = f(*b).min(w as u128 - 1);
                ((to_signed(f(*a), w) >> k) as u128) & m
            }
            Op::Sext(a) => (to_signed(f(*a), self.w(*a)) as u128) & m,
            Op::Lut(i, tab) => tab[f(*i) as usize] as u128,
        }
    }
}

pub fn children(op: &Op) -> Vec<T> {
    match op {
        Op::Const(_) | Op::Var(_) => vec![],
        Op::Poly(_, m) => m.iter().flat_map(|x| x.f.iter().copied()).collect(),
        Op::Concat(s) => s.to_vec(),
        Op::Extract(a, _) | Op::Not(a) | Op::Sext(a) | Op::Lut(a, _) => vec![*a],
        Op::Ite(a, b, c) => vec![*a, *b, *c],
        Op::And(a, b)
        | Op::Or(a, b)
        | Op::Xor(a, b)
        | Op::Eq(a, b)
        | Op::Ult(a, b)
        | Op::Slt(a, b)
        | Op::Udiv(a, b)
        | Op::Urem(a, b)
        | Op::Sdiv(a, b)
        | Op::Srem(a, b)
        | Op::Shl(a, b)
        | Op::Lshr(a, b)
        | Op::Ashr(a, b) => vec![*a, *b],
    }
}

/// A concrete assignment of the variables, with a memo table for term values.
pub struct Model {
    /// an abstracted product without a value is computed from its argument
    pub vals: Vec<Option<u128>>,
    memo: std::cell::RefCell<HashMap<T, u128>>,
}
impl Model {
    pub fn new(vals: Vec<Option<u128>>) -> Self {
        Model { vals, memo: Default::default() }
    }
    pub fn size(&self) -> usize {
        self.memo.borrow().len()
    }
    /// the same assignment extended to more variables (values computed so far stay valid)
    pub fn with(self, vals: Vec<Option<u128>>) -> Self {
        let memo = if self.size() > 4_000_000 { Default::default() } else { self.memo };
        Model { vals, memo }
    }
    pub fn eval(&self, c: &Ctx, t: T) -> u128 {
        if let Some(k) = c.as_const(t) {
            return k;
        }
        if let Some(v) = self.memo.borrow().get(&t) {
            return *v;
        }
        let n = c.n(t);
        let v = match &n.op {
            Op::Var(i) => match self.vals.get(*i as usize).copied().flatten() {
                Some(v) => v & mask(n.w),
                None => match c.vars[*i as usize].mul {
                    Some(k) => {
                        let (coef, arg) = (c.mulvars[k as usize].coef, c.mulvars[k as usize].arg);
                        self.eval(c, arg).wrapping_mul(coef) & mask(n.w)
                    }
                    None => 0,
                },
            },
            op => c.eval_op(op, n.w, &mut |x| self.eval(c, x)),
        };
        self.memo.borrow_mut().insert(t, v);
        v
    }
}
