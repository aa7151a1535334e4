//! Intrinsics, C library functions and the `sym_*` interface of the harnesses.
use crate::exec::*;
use crate::ir::*;
use crate::mem::*;
use crate::state::*;
use crate::term::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    None,
    Nop,
    /// never returns
    Panic,
    Exit,
    Abort,
    I(&'static str),
    Sym(&'static str),
    C(&'static str),
    Keys,
    /// formatting of a number of so many bytes (0: of a string)
    Fmt(u8),
    /// `format!`: the text is not modelled, the string is empty
    Format,
}

const INTR: &[&str] = &[
    "memcpy", "memmove", "memset", "umin", "umax", "smin", "smax", "fshl", "fshr", "usub.sat", "uadd.sat",
    "ssub.sat", "sadd.sat", "ctlz", "cttz", "ctpop", "bswap", "bitreverse", "abs", "uadd.with.overflow",
    "usub.with.overflow", "umul.with.overflow", "sadd.with.overflow", "ssub.with.overflow",
    "smul.with.overflow", "ucmp", "scmp", "fptoui.sat", "fptosi.sat", "floor", "ceil", "sqrt", "trunc", "rint",
    "roundeven", "round", "fabs", "log10", "log2", "log", "exp2", "exp", "pow", "fma", "copysign", "maxnum",
    "minnum", "powi", "is.constant", "load.relative", "threadlocal.address", "expect", "vector.reduce.add", "vector.reduce.or",
    "vector.reduce.and", "vector.reduce.xor", "vector.reduce.umax", "vector.reduce.umin", "vector.reduce.mul", "ptrmask", "objectsize",
    "x86.xgetbv", "fmuladd", "allow.runtime.check",
];
const SYM: &[&str] = &[
    "sym_u8", "sym_u16", "sym_u32", "sym_u64", "sym_bool", "sym_bytes", "sym_os_u32", "sym_os_bytes", "sym_prg_u32",
    "sym_assume", "sym_assert", "sym_cover", "sym_observe", "sym_param", "sym_allow_panic", "sym_concrete",
    "sym_policy", "sym_is_native", "sym_pick", "sym_exists",
];
const LIBC: &[&str] = &[
    "malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "bcmp", "memcmp", "memchr", "memrchr", "strlen", "getenv",
    "setenv", "unsetenv", "open64", "open", "read", "write", "writev", "close", "fstat64", "fstat", "stat64", "statx", "lseek64",
    "lseek", "syscall", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "__errno_location", "gettid", "sysconf",
    "pthread_self", "__cxa_thread_atexit_impl", "fcntl64", "fcntl", "getcwd", "unlink", "memcpy", "memmove", "memset",
    "log", "exp", "pow", "ceil", "floor", "fmin", "fmax", "log2", "round", "sqrt", "pthread_key_create", "pthread_setspecific", "pthread_getspecific",
    "fsync", "ftruncate64", "mmap64", "munmap", "sigaltstack", "getpid", "sched_yield", "pthread_atfork",
];

impl Engine {
    pub fn ext_of(&mut self, g: u32) -> Ext {
        if let Some(e) = self.ext.get(&g) {
            return *e;
        }
        let gl = &self.m.globals[g as usize];
        let name = gl.name.clone();
        let e = if let Some(n) = name.strip_prefix("llvm.") {
            const NOPS: &[&str] = &[
                "lifetime", "assume", "experimental.noalias", "dbg", "donothing", "prefetch", "x86.avx.vzeroupper",
                "x86.sse2.pause", "stackrestore", "stacksave", "invariant", "va_", "fake.use",
            ];
            if NOPS.iter().any(|x| n.starts_with(x)) {
                Ext::Nop
            } else if n.starts_with("trap") || n.starts_with("ubsantrap") {
                Ext::Abort
            } else {
                let mut best = "";
                for k in INTR {
                    if n.starts_with(k) && (n.len() == k.len() || n.as_bytes()[k.len()] == b'.') && k.len() > best.len() {
                        best = k;
                    }
                }
                if best.is_empty() {
                    Ext::None
                } else {
                    Ext::I(best)
                }
            }
        } else if let Some(k) = SYM.iter().find(|x| **x == name) {
            Ext::Sym(k)
        } else if name.contains("hashmap_random_keys") {
            Ext::Keys
        } else if gl.is_decl && matches!(name.as_str(), "exit" | "_exit" | "exit_group") || name.contains("7process4exit") {
            Ext::Exit
        } else if gl.is_decl && name == "abort" {
            Ext::Abort
        } else if self.stub_fmt && !gl.is_decl && name.contains("5alloc3fmt6format12format_inner") {
            Ext::Format
        } else if let (false, Some(k)) = (gl.is_decl, fmt_kind(&name)) {
            Ext::Fmt(k)
        } else if gl.noreturn || name.contains("rust_begin_unwind") {
            Ext::Panic
        } else if let Some(k) = LIBC.iter().find(|x| **x == name) {
            if gl.is_decl || matches!(*k, "memcpy" | "memmove" | "memset" | "bcmp" | "memcmp" | "strlen") {
                Ext::C(k)
            } else {
                Ext::None
            }
        } else {
            Ext::None
        };
        self.ext.insert(g, e);
        e
    }

    fn lanes(&mut self, vs: &[V], f: &mut dyn FnMut(&mut Engine, &[V]) -> X<V>) -> X<V> {
        if let V::A(a) = &vs[0] {
            let n = a.len();
            let mut out = Vec::with_capacity(n);
            for i in 0..n {
                let row: Vec<V> = vs
                    .iter()
                    .map(|v| match v {
                        V::A(b) => b[i].clone(),
                        o => o.clone(),
                    })
                    .collect();
                out.push(f(self, &row)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        f(self, vs)
    }

    fn el(t: &Ty) -> Ty {
        match t {
            Ty::Vec(_, e) => (**e).clone(),
            t => t.clone(),
        }
    }

    fn pair(&self, a: V, b: V) -> V {
        V::A(Rc::new(vec![a, b]))
    }

    fn with_overflow(&mut self, k: &str, w: u8, a: &V, b: &V) -> X<V> {
        if let (V::C(_, x), V::C(_, y)) = (a, b) {
            if w <= 64 {
                let (r, o) = if k.starts_with('u') {
                    let (x, y) = (*x as u128, *y as u128);
                    let r = match &k[1..4] {
                        "add" => x + y,
                        "sub" => x.wrapping_sub(y),
                        _ => x * y,
                    };
                    (r, r > m64(w) as u128)
                } else {
                    let (x, y) = (sgn(*x, w) as i128, sgn(*y, w) as i128);
                    let r = match &k[1..4] {
                        "add" => x + y,
                        "sub" => x - y,
                        _ => x * y,
                    };
                    let o = r < -(1i128 << (w - 1)) || r >= (1i128 << (w - 1));
                    (r as u128, o)
                };
                return Ok(self.pair(V::C(w, r as u64 & m64(w)), V::C(1, o as u64)));
            }
        }
        let (x, y) = (self.tm(a)?, self.tm(b)?);
        let c = &mut self.c;
        let (r, o) = match k {
            "uadd" => {
                let r = c.add(x, y);
                let o = c.ult(r, x);
                (r, o)
            }
            "usub" => {
                let r = c.sub(x, y);
                let o = c.ult(x, y);
                (r, o)
            }
            "umul" => {
                let r = c.mul(x, y);
                // by ranges, by a constant bound, or with the wide product
                let (hx, hy) = (c.n(x).hi, c.n(y).hi);
                let m = mask(w);
                let o = if hx == 0 || hy == 0 || hx <= m / hy {
                    c.ff
                } else if let Some(k) = c.as_const(y) {
                    let lim = c.cst(w, m / k);
                    c.ult(lim, x)
                } else if let Some(k) = c.as_const(x) {
                    let lim = c.cst(w, m / k);
                    c.ult(lim, y)
                } else if 2 * w as u32 <= 128 {
                    let (xx, yy) = (c.zext(x, 2 * w), c.zext(y, 2 * w));
                    let p = c.mul(xx, yy);
                    let h = c.extract(p, w, w);
                    let z = c.cst(w, 0);
                    c.ne(h, z)
                } else {
                    return Err(Stop::Fatal("umul.with.overflow width".into()));
                };
                (r, o)
            }
            _ => {
                if w as u32 * 2 > 128 {
                    return Err(Stop::Fatal("signed overflow width".into()));
                }
                let w2 = if k == "smul" { 2 * w } else { w + 1 };
                let (xx, yy) = (c.sext(x, w2), c.sext(y, w2));
                let p = match k {
                    "sadd" => c.add(xx, yy),
                    "ssub" => c.sub(xx, yy),
                    _ => c.mul(xx, yy),
                };
                let r = c.extract(p, 0, w);
                let s = c.sext(r, w2);
                let o = c.ne(s, p);
                (r, o)
            }
        };
        let (a, b) = (self.v(r), self.v(o));
        Ok(self.pair(a, b))
    }

    fn scalar(&mut self, st: &State, k: &str, t: &Ty, v: &[V]) -> X<V> {
        let w = t.bits() as u8;
        let allc = v.iter().all(|x| matches!(x, V::C(..))) && w <= 64;
        let cv = |i: usize| match &v[i] {
            V::C(_, x) => *x,
            _ => 0,
        };
        if allc {
            let m = m64(w);
            let r = match k {
                "umin" => cv(0).min(cv(1)),
                "umax" => cv(0).max(cv(1)),
                "smin" => sgn(cv(0), w).min(sgn(cv(1), w)) as u64,
                "smax" => sgn(cv(0), w).max(sgn(cv(1), w)) as u64,
                "fshl" | "fshr" => {
                    let s = (cv(2) % w as u64) as u32;
                    let x = ((cv(0) as u128) << w) | cv(1) as u128;
                    if k == "fshl" {
                        ((x << s) >> w) as u64
                    } else {
                        (x >> s) as u64
                    }
                }
                "usub.sat" => cv(0).saturating_sub(cv(1)),
                "uadd.sat" => {
                    let r = cv(0) as u128 + cv(1) as u128;
                    r.min(m as u128) as u64
                }
                "ssub.sat" | "sadd.sat" => {
                    let (a, b) = (sgn(cv(0), w) as i128, sgn(cv(1), w) as i128);
                    let r = if k == "ssub.sat" { a - b } else { a + b };
                    r.max(-(1i128 << (w - 1))).min((1i128 << (w - 1)) - 1) as u64
                }
                "ctlz" => (cv(0).leading_zeros() - (64 - w as u32)) as u64,
                "cttz" => (cv(0).trailing_zeros() as u64).min(w as u64),
                "ctpop" => cv(0).count_ones() as u64,
                "bswap" => cv(0).swap_bytes() >> (64 - w),
                "bitreverse" => cv(0).reverse_bits() >> (64 - w),
                "abs" => sgn(cv(0), w).wrapping_abs() as u64,
                "ptrmask" => cv(0) & cv(1),
                _ => return Err(Stop::Fatal(format!("intrinsic {}", k))),
            };
            return Ok(V::C(w, r & m));
        }
        let mut a = Vec::new();
        for (i, x) in v.iter().enumerate() {
            if i > 0 && matches!(k, "ctlz" | "cttz" | "abs") {
                break;
            }
            a.push(self.tm(x)?);
        }
        let c = &mut self.c;
        let r = match k {
            "umin" => {
                let b = c.ult(a[1], a[0]);
                c.ite(b, a[1], a[0])
            }
            "umax" => {
                let b = c.ult(a[0], a[1]);
                c.ite(b, a[1], a[0])
            }
            "smin" => {
                let b = c.slt(a[1], a[0]);
                c.ite(b, a[1], a[0])
            }
            "smax" => {
                let b = c.slt(a[0], a[1]);
                c.ite(b, a[1], a[0])
            }
            "fshl" | "fshr" => {
                let l = k == "fshl";
                if let Some(s) = c.as_const(a[2]) {
                    let s = (s % w as u128) as u8;
                    if s == 0 {
                        a[if l { 0 } else { 1 }]
                    } else {
                        let s = if l { s } else { w - s };
                        let lo = c.extract(a[0], 0, w - s);
                        let hi = c.extract(a[1], w - s, s);
                        c.concat(lo, hi)
                    }
                } else {
                    let wc = c.cst(w, w as u128);
                    let s = c.urem(a[2], wc);
                    let one = c.cst(w, 1);
                    let wm = c.cst(w, w as u128 - 1);
                    let inv = c.sub(wm, s);
                    if l {
                        let h = c.shl(a[0], s);
                        let x = c.lshr(a[1], one);
                        let x = c.lshr(x, inv);
                        c.or(h, x)
                    } else {
                        let x = c.lshr(a[1], s);
                        let h = c.shl(a[0], one);
                        let h = c.shl(h, inv);
                        c.or(h, x)
                    }
                }
            }
            "usub.sat" => {
                let b = c.ult(a[0], a[1]);
                let d = c.sub(a[0], a[1]);
                let z = c.cst(w, 0);
                c.ite(b, z, d)
            }
            "uadd.sat" => {
                let d = c.add(a[0], a[1]);
                let b = c.ult(d, a[0]);
                let z = c.cst(w, mask(w));
                c.ite(b, z, d)
            }
            "ctlz" | "cttz" => {
                let mut r = c.cst(w, w as u128);
                for i in 0..w {
                    // the last assignment wins: the highest (lowest) set bit
                    let p = if k == "ctlz" { i } else { w - 1 - i };
                    let b = c.extract(a[0], p, 1);
                    let n = c.cst(w, if k == "ctlz" { (w - 1 - p) as u128 } else { p as u128 });
                    r = c.ite(b, n, r);
                }
                r
            }
            "ctpop" => {
                let mut r = c.cst(w, 0);
                for i in 0..w {
                    let b = c.extract(a[0], i, 1);
                    let b = c.zext(b, w);
                    r = c.add(r, b);
                }
                r
            }
            "bswap" => {
                let mut r = c.extract(a[0], 0, 8);
                for i in 1..w / 8 {
                    let b = c.extract(a[0], 8 * i, 8);
                    r = c.concat(r, b);
                }
                r
            }
            "bitreverse" => {
                let mut r = c.extract(a[0], 0, 1);
                for i in 1..w {
                    let b = c.extract(a[0], i, 1);
                    r = c.concat(r, b);
                }
                r
            }
            "abs" => {
                let z = c.cst(w, 0);
                let b = c.slt(a[0], z);
                let n = c.neg(a[0]);
                c.ite(b, n, a[0])
            }
            "ptrmask" => c.and(a[0], a[1]),
            _ => return Err(Stop::Fatal(format!("symbolic intrinsic {} at {}", k, self.loc()))),
        };
        let _ = st;
        Ok(self.v(r))
    }

    fn fl(&mut self, st: &State, t: &Ty, v: &V) -> X<f64> {
        let x = self.conc(st, v)?;
        Ok(if *t == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) })
    }
    fn unfl(&self, t: &Ty, x: f64) -> V {
        if *t == Ty::F32 {
            V::C(32, (x as f32).to_bits() as u64)
        } else {
            V::C(64, x.to_bits())
        }
    }
    fn float(&mut self, st: &State, k: &str, t: &Ty, v: &[V]) -> X<V> {
        let x = self.fl(st, t, &v[0])?;
        let r = match k {
            "floor" => x.floor(),
            "ceil" => x.ceil(),
            "sqrt" => x.sqrt(),
            "trunc" => x.trunc(),
            "rint" | "roundeven" => x.round_ties_even(),
            "round" => x.round(),
            "fabs" => x.abs(),
            "log10" => x.log10(),
            "log2" => x.log2(),
            "log" => x.ln(),
            "exp" => x.exp(),
            "exp2" => x.exp2(),
            "pow" => x.powf(self.fl(st, t, &v[1])?),
            "powi" => x.powi(self.conc(st, &v[1])? as i32),
            "fma" | "fmuladd" => x.mul_add(self.fl(st, t, &v[1])?, self.fl(st, t, &v[2])?),
            "copysign" => x.copysign(self.fl(st, t, &v[1])?),
            "maxnum" | "fmax" => x.max(self.fl(st, t, &v[1])?),
            "minnum" | "fmin" => x.min(self.fl(st, t, &v[1])?),
            _ => return Err(Stop::Fatal(format!("float function {}", k))),
        };
        Ok(self.unfl(t, r))
    }

    fn intrinsic(&mut self, fs: &mut FS, k: &'static str, rt: &Ty, tys: &[Ty], args: &[V]) -> X<V> {
        match k {
            "memcpy" | "memmove" => {
                let n = self.conc(&fs.st, &args[2])? as usize;
                self.copy(&mut fs.st, &args[0], &args[1], n)?;
                Ok(V::C(1, 0))
            }
            "memset" => {
                let n = self.conc(&fs.st, &args[2])? as usize;
                if n == 0 {
                    return Ok(V::C(1, 0));
                }
                let d = self.conc(&fs.st, &args[0])?;
                let cell = match &args[1] {
                    V::C(_, b) => Cell::cz(*b as u8, 1),
                    V::S(t) => Cell::s(*t, 0),
                    _ => return Err(Stop::Fatal("memset".into())),
                };
                let (di, d0) = ((d >> 32) as u32, ((d & 0xffff_ffff).wrapping_sub(BASE)) as usize);
                let o = self.obj_mut(&mut fs.st, di)?;
                if d0.wrapping_add(n) > o.cells.len() || d0.wrapping_add(n) < n {
                    return Err(Stop::Fatal(format!("memset out of bounds at {}", self.loc())));
                }
                for c in &mut o.cells[d0..d0 + n] {
                    *c = cell;
                }
                Ok(V::C(1, 0))
            }
            "expect" | "threadlocal.address" => Ok(args[0].clone()),
            "is.constant" | "allow.runtime.check" => Ok(V::C(1, 0)),
            "x86.xgetbv" => Ok(V::C(64, 0)),
            "objectsize" => Ok(V::C(rt.bits() as u8, m64(rt.bits() as u8))),
            "load.relative" => {
                let p = self.conc(&fs.st, &args[0])?;
                let o = self.conc(&fs.st, &args[1])?;
                let v = self.load(&mut fs.st, &Ty::Int(32), &V::C(64, p.wrapping_add(o)))?;
                let d = self.conc(&fs.st, &v)?;
                Ok(V::C(64, p.wrapping_add(d as u32 as i32 as i64 as u64)))
            }
            "ucmp" | "scmp" => {
                let et = Engine::el(&tys[0]);
                let rw = Engine::el(rt).bits() as u8;
                self.lanes(args, &mut |e, v| {
                    let lt = e.icmp(if k == "ucmp" { Pred::Ult } else { Pred::Slt }, &et, v[0].clone(), v[1].clone())?;
                    let gt = e.icmp(if k == "ucmp" { Pred::Ult } else { Pred::Slt }, &et, v[1].clone(), v[0].clone())?;
                    let (l, g) = (e.tm(&lt)?, e.tm(&gt)?);
                    let m1 = e.c.cst(rw, mask(rw));
                    let p1 = e.c.cst(rw, 1);
                    let z = e.c.cst(rw, 0);
                    let x = e.c.ite(g, p1, z);
                    let r = e.c.ite(l, m1, x);
                    Ok(e.v(r))
                })
            }
            "fptoui.sat" | "fptosi.sat" => {
                let x = self.fl(&fs.st, &tys[0], &args[0])?;
                let w = rt.bits() as u8;
                let r = if k == "fptoui.sat" {
                    if w >= 64 {
                        x as u64
                    } else {
                        (x as u64).min(m64(w))
                    }
                } else {
                    let lim = 1i128 << (w - 1);
                    ((x as i128).max(-lim).min(lim - 1)) as u64
                };
                Ok(V::C(w, r & m64(w)))
            }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow"
            | "ssub.with.overflow" | "smul.with.overflow" => {
                let w = tys[0].bits() as u8;
                self.with_overflow(&k[..4], w, &args[0], &args[1])
            }
            "vector.reduce.add" | "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.xor"
            | "vector.reduce.umax" | "vector.reduce.umin" | "vector.reduce.mul" => {
                let et = Engine::el(&tys[0]);
                let a = match &args[0] {
                    V::A(a) => a.clone(),
                    _ => return Err(Stop::Fatal("reduce".into())),
                };
                let mut r = a[0].clone();
                for x in a.iter().skip(1) {
                    r = match &k[14..] {
                        ".add" | "add" => self.bin(BinOp::Add, &et, r, x.clone())?,
                        ".or" | "or" => self.bin(BinOp::Or, &et, r, x.clone())?,
                        ".and" | "and" => self.bin(BinOp::And, &et, r, x.clone())?,
                        ".xor" | "xor" => self.bin(BinOp::Xor, &et, r, x.clone())?,
                        ".mul" | "mul" => self.bin(BinOp::Mul, &et, r, x.clone())?,
                        ".umax" | "umax" => self.scalar(&fs.st, "umax", &et, &[r, x.clone()])?,
                        _ => self.scalar(&fs.st, "umin", &et, &[r, x.clone()])?,
                    };
                }
                Ok(r)
            }
            "floor" | "ceil" | "sqrt" | "trunc" | "rint" | "roundeven" | "round" | "fabs" | "log10" | "log2" | "log"
            | "exp" | "exp2" | "pow" | "powi" | "fma" | "fmuladd" | "copysign" | "maxnum" | "minnum" => {
                let et = Engine::el(&tys[0]);
                let st = fs.st.clone();
                self.lanes(args, &mut |e, v| e.float(&st, k, &et, v))
            }
            _ => {
                let et = Engine::el(&tys[0]);
                if matches!(tys[0], Ty::Vec(..)) {
                    let st = fs.st.clone();
                    self.lanes(args, &mut |e, v| e.scalar(&st, k, &et, v))
                } else {
                    self.scalar(&fs.st, k, &et, args)
                }
            }
        }
    }

    fn cstr(&mut self, st: &mut State, p: &V) -> X<Vec<u8>> {
        let mut v = Vec::new();
        loop {
            let q = self.addk(p.clone(), v.len() as u64)?;
            let b = self.read_bytes_v(st, &q, 1)?;
            let b = self.conc(st, &b)? as u8;
            if b == 0 {
                return Ok(v);
            }
            v.push(b);
            if v.len() > 4096 {
                return Err(Stop::Fatal("string".into()));
            }
        }
    }
    fn errno(&mut self, st: &mut State) -> u32 {
        let k: Vec<u8> = b"\0errno".to_vec();
        if let Some(x) = st.env.get(&k) {
            return *x;
        }
        let id = st.mem.alloc(4, true);
        Rc::make_mut(&mut st.env).insert(k, id);
        id
    }
    fn fail(&mut self, st: &mut State, e: u32, w: u8) -> X<V> {
        let id = self.errno(st);
        self.write_n(st, id, 0, 4, &V::C(32, e as u64))?;
        Ok(V::C(w, m64(w)))
    }
    fn alloc(&mut self, st: &mut State, n: u64, zero: bool) -> X<V> {
        if n > 1 << 28 {
            return Err(Stop::Fatal(format!("allocation of {} bytes at {}", n, self.loc())));
        }
        let id = st.mem.alloc(n, zero);
        Ok(V::C(64, addr_of(id)))
    }

    /// bytes of a range as terms
    fn byte_terms(&mut self, st: &mut State, p: &V, n: usize) -> X<Vec<T>> {
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let q = self.addk(p.clone(), i as u64)?;
            let b = self.read_bytes_v(st, &q, 1)?;
            v.push(self.tm(&b)?);
        }
        Ok(v)
    }

    fn libc(&mut self, fs: &mut FS, k: &'static str, rt: &Ty, args: &[V]) -> X<V> {
        let rw = rt.bits().max(1) as u8;
        macro_rules! c {
            ($i:expr) => {
                self.conc(&fs.st, &args[$i])?
            };
        }
        Ok(match k {
            "malloc" => {
                let n = c!(0);
                self.alloc(&mut fs.st, n, false)?
            }
            "aligned_alloc" => {
                let n = c!(1);
                self.alloc(&mut fs.st, n, false)?
            }
            "calloc" => {
                let n = c!(0).wrapping_mul(c!(1));
                self.alloc(&mut fs.st, n, true)?
            }
            "realloc" => {
                let (p, n) = (c!(0), c!(1));
                let r = self.alloc(&mut fs.st, n, false)?;
                if p != 0 {
                    let id = (p >> 32) as u32;
                    let old = self.obj(&fs.st, id)?.cells.len();
                    let m = old.min(n as usize);
                    self.copy(&mut fs.st, &r, &V::C(64, p), m)?;
                    fs.st.mem.set(id, None);
                }
                r
            }
            "free" => {
                let p = c!(0);
                if p != 0 {
                    fs.st.mem.set((p >> 32) as u32, None);
                }
                V::C(1, 0)
            }
            "posix_memalign" => {
                let n = c!(2);
                let r = self.alloc(&mut fs.st, n, false)?;
                self.store(&mut fs.st, &Ty::Ptr, &args[0], &r)?;
                V::C(32, 0)
            }
            "memcpy" | "memmove" => {
                let n = c!(2) as usize;
                self.copy(&mut fs.st, &args[0], &args[1], n)?;
                args[0].clone()
            }
            "memset" => {
                let b = self.cast(CastOp::Trunc, &Ty::Int(32), args[1].clone(), &Ty::Int(8))?;
                self.intrinsic(fs, "memset", rt, &[], &[args[0].clone(), b, args[2].clone()])?;
                args[0].clone()
            }
            "bcmp" | "memcmp" => {
                let n = c!(2) as usize;
                let a = self.byte_terms(&mut fs.st, &args[0], n)?;
                let b = self.byte_terms(&mut fs.st, &args[1], n)?;
                if k == "bcmp" {
                    // word-wise equality
                    let mut e = self.c.tt;
                    let mut i = 0;
                    while i < n {
                        let l = (n - i).min(8);
                        let (mut x, mut y) = (a[i], b[i]);
                        for j in 1..l {
                            x = self.c.concat(a[i + j], x);
                            y = self.c.concat(b[i + j], y);
                        }
                        let q = self.c.eq(x, y);
                        e = self.c.and(e, q);
                        i += l;
                    }
                    let ne = self.c.not(e);
                    let r = self.c.zext(ne, 32);
                    self.v(r)
                } else {
                    let z = self.c.cst(32, 0);
                    let mut r = z;
                    for i in (0..n).rev() {
                        let e = self.c.eq(a[i], b[i]);
                        let l = self.c.ult(a[i], b[i]);
                        let m = self.c.cst(32, 0xffff_ffff);
                        let p = self.c.cst(32, 1);
                        let d = self.c.ite(l, m, p);
                        r = self.c.ite(e, r, d);
                    }
                    self.v(r)
                }
            }
            "memchr" | "memrchr" => {
                let n = c!(2) as usize;
                let a = self.byte_terms(&mut fs.st, &args[0], n)?;
                let ch = self.tm(&args[1])?;
                let ch = self.c.trunc(ch, 8);
                let mut r = self.c.cst(64, 0);
                for j in 0..n {
                    let i = if k == "memchr" { n - 1 - j } else { j };
                    let e = self.c.eq(a[i], ch);
                    let p = self.addk(args[0].clone(), i as u64)?;
                    let p = self.tm(&p)?;
                    r = self.c.ite(e, p, r);
                }
                self.v(r)
            }
            "strlen" => {
                let mut n = 0u64;
                loop {
                    let q = self.addk(args[0].clone(), n)?;
                    let b = self.read_bytes_v(&mut fs.st, &q, 1)?;
                    let b = self.tm(&b)?;
                    let z = self.c.cst(8, 0);
                    let e = self.c.eq(b, z);
                    if self.conc_t(&fs.st, e)? != 0 {
                        break;
                    }
                    n += 1;
                    if n > 1 << 16 {
                        return Err(Stop::Fatal("string".into()));
                    }
                }
                V::C(64, n)
            }
            "getenv" => {
                let n = self.cstr(&mut fs.st, &args[0])?;
                match fs.st.env.get(&n) {
                    Some(id) => V::C(64, addr_of(*id)),
                    None => V::C(64, 0),
                }
            }
            "setenv" => {
                let n = self.cstr(&mut fs.st, &args[0])?;
                // the value may hold symbolic bytes; its terminator must be concrete
                let p = c!(1);
                let id = (p >> 32) as u32;
                let o = self.obj(&fs.st, id)?;
                let off = ((p & 0xffff_ffff) - BASE) as usize;
                let cells = o.cells[off..].to_vec();
                let new = fs.st.mem.alloc(cells.len() as u64, true);
                if let Some(o) = fs.st.mem.get_mut(new) {
                    o.cells = cells;
                }
                Rc::make_mut(&mut fs.st.env).insert(n, new);
                V::C(32, 0)
            }
            "unsetenv" => {
                let n = self.cstr(&mut fs.st, &args[0])?;
                Rc::make_mut(&mut fs.st.env).remove(&n);
                V::C(32, 0)
            }
            "open64" | "open" => {
                let p = self.cstr(&mut fs.st, &args[0])?;
                let fl = c!(1);
                let ex = fs.st.files.contains_key(&p);
                // a path that ends in '/' or is empty cannot be opened
                // directories are never made: only files directly in the scratch directory can be
                let deep = p.starts_with(b"/scratch/") && p[9..].contains(&b'/');
                if p.is_empty() || p.ends_with(b"/") || deep || (!ex && fl & 0o100 == 0) {
                    return self.fail(&mut fs.st, 2, rw);
                }
                if !ex || fl & 0o1000 != 0 {
                    Rc::make_mut(&mut fs.st.files).insert(p.clone(), Rc::new(vec![]));
                }
                let fd = 3 + fs.st.fds.keys().last().map(|x| x - 2).unwrap_or(0);
                Rc::make_mut(&mut fs.st.fds).insert(fd, (p, 0));
                V::C(32, fd as u64)
            }
            "close" => {
                let fd = c!(0) as u32;
                Rc::make_mut(&mut fs.st.fds).remove(&fd);
                V::C(32, 0)
            }
            "read" => {
                let (fd, n) = (c!(0) as u32, c!(2));
                let (p, pos) = match fs.st.fds.get(&fd) {
                    Some(x) => x.clone(),
                    None => return self.fail(&mut fs.st, 9, rw),
                };
                let data = fs.st.files.get(&p).cloned().unwrap_or_default();
                let m = n.min((data.len() as u64).saturating_sub(pos)) as usize;
                let d = c!(1);
                let (di, d0) = ((d >> 32) as u32, ((d & 0xffff_ffff).wrapping_sub(BASE)) as usize);
                if m > 0 {
                    let o = self.obj_mut(&mut fs.st, di)?;
                    o.cells[d0..d0 + m].copy_from_slice(&data[pos as usize..pos as usize + m]);
                }
                Rc::make_mut(&mut fs.st.fds).insert(fd, (p, pos + m as u64));
                V::C(rw, m as u64)
            }
            "write" => {
                let (fd, n) = (c!(0) as u32, c!(2));
                if fd == 1 || fd == 2 {
                    return Ok(V::C(rw, n));
                }
                let (p, pos) = match fs.st.fds.get(&fd) {
                    Some(x) => x.clone(),
                    None => return self.fail(&mut fs.st, 9, rw),
                };
                let s = c!(1);
                let (si, s0) = ((s >> 32) as u32, ((s & 0xffff_ffff).wrapping_sub(BASE)) as usize);
                let cells = self.obj(&fs.st, si)?.cells[s0..s0 + n as usize].to_vec();
                let files = Rc::make_mut(&mut fs.st.files);
                let f = Rc::make_mut(files.entry(p.clone()).or_default());
                let end = pos as usize + n as usize;
                if f.len() < end {
                    f.resize(end, Cell::c(0));
                }
                f[pos as usize..end].copy_from_slice(&cells);
                Rc::make_mut(&mut fs.st.fds).insert(fd, (p, end as u64));
                V::C(rw, n)
            }
            "writev" => return Err(Stop::Fatal("writev".into())),
            "lseek64" | "lseek" => {
                let (fd, off, wh) = (c!(0) as u32, c!(1), c!(2));
                let (p, pos) = match fs.st.fds.get(&fd) {
                    Some(x) => x.clone(),
                    None => return self.fail(&mut fs.st, 9, rw),
                };
                let len = fs.st.files.get(&p).map(|x| x.len()).unwrap_or(0) as u64;
                let np = match wh {
                    0 => off,
                    1 => pos.wrapping_add(off),
                    _ => len.wrapping_add(off),
                };
                Rc::make_mut(&mut fs.st.fds).insert(fd, (p, np));
                V::C(64, np)
            }
            // fall back to fstat
            "statx" => return self.fail(&mut fs.st, 38, rw),
            "stat64" => return self.fail(&mut fs.st, 2, rw),
            "fstat64" | "fstat" => {
                let fd = c!(0) as u32;
                let len = match fs.st.fds.get(&fd) {
                    Some((p, _)) => fs.st.files.get(p).map(|x| x.len()).unwrap_or(0) as u64,
                    None => return self.fail(&mut fs.st, 9, rw),
                };
                for i in 0..18 {
                    let v = match i {
                        3 => 0o100644, // st_mode is at 24
                        6 => len,      // st_size is at 48
                        _ => 0,
                    };
                    let q = self.addk(args[1].clone(), 8 * i)?;
                    self.store(&mut fs.st, &Ty::Int(64), &q, &V::C(64, v))?;
                }
                V::C(32, 0)
            }
            "__errno_location" => {
                let id = self.errno(&mut fs.st);
                V::C(64, addr_of(id))
            }
            "syscall" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_trylock" | "fcntl64" | "fcntl"
            | "fsync" | "__cxa_thread_atexit_impl" | "sigaltstack" | "munmap" | "unlink" | "pthread_key_create"
            | "pthread_setspecific" | "sched_yield" | "pthread_atfork" => V::C(rw, 0),
            "gettid" | "pthread_self" | "getpid" | "sysconf" => V::C(rw, 4096),
            "log" | "exp" | "pow" | "ceil" | "floor" | "fmin" | "fmax" | "log2" | "round" | "sqrt" => {
                let st = fs.st.clone();
                self.float(&st, k, rt, args)?
            }
            _ => return Err(Stop::Fatal(format!("library function {} at {}", k, self.loc()))),
        })
    }

    // ------------------------------------------------------------ harness interface
    fn draw(&mut self, st: &mut State, k: usize) -> T {
        let i = st.draws[k] as usize;
        st.draws[k] += 1;
        let w = [8u8, 16, 32, 64][k];
        while self.tapes[k].len() <= i {
            let n = self.tapes[k].len();
            let v = self.c.var(w, format!("u{}_{}", w, n));
            self.tapes[k].push(v);
        }
        self.tapes[k][i]
    }

    fn truth(&mut self, v: &V) -> X<T> {
        let t = self.tm(v)?;
        if self.c.w(t) == 1 {
            return Ok(t);
        }
        let z = self.c.cst(self.c.w(t), 0);
        Ok(self.c.ne(t, z))
    }

    fn sym(&mut self, fs: &mut FS, k: &'static str, rt: &Ty, args: &[V]) -> X<V> {
        let rw = rt.bits().max(1) as u8;
        Ok(match k {
            "sym_is_native" => V::C(rw, 0),
            "sym_u8" => V::S(self.draw(&mut fs.st, 0)),
            "sym_u16" => V::S(self.draw(&mut fs.st, 1)),
            "sym_u32" => V::S(self.draw(&mut fs.st, 2)),
            "sym_u64" => V::S(self.draw(&mut fs.st, 3)),
            "sym_bool" => {
                let t = self.draw(&mut fs.st, 0);
                let b = self.c.extract(t, 0, 1);
                let b = self.c.resize(b, rw);
                V::S(b)
            }
            "sym_bytes" | "sym_os_bytes" => {
                let p = self.conc(&fs.st, &args[0])?;
                let n = self.conc(&fs.st, &args[1])?;
                for i in 0..n {
                    let t = self.draw(&mut fs.st, 0);
                    self.write_bytes_v(&mut fs.st, &V::C(64, p + i), 1, &V::S(t))?;
                }
                V::C(1, 0)
            }
            "sym_os_u32" => {
                let t = self.draw(&mut fs.st, 2);
                if let Some(b) = self.os_bound {
                    let b = self.c.cst(32, b as u128);
                    let a = self.c.ult(t, b);
                    self.assume(&mut fs.st, a);
                }
                V::S(t)
            }
            "sym_prg_u32" => {
                let idx = self.conc(&fs.st, &args[1])?;
                let mut seed = [0; 4];
                for i in 0..4 {
                    let q = self.addk(args[0].clone(), 8 * i as u64)?;
                    let v = self.read_bytes_v(&mut fs.st, &q, 8)?;
                    seed[i] = self.tm(&v)?;
                }
                if let Some(e) = self.prg.iter().find(|e| e.0 == seed && e.1 == idx) {
                    return Ok(V::S(e.2));
                }
                let n = self.prg.len();
                let fresh = self.c.var(32, format!("prg{}", n));
                let mut r = fresh;
                let old: Vec<_> = self.prg.iter().filter(|e| e.1 == idx).cloned().collect();
                for e in old.iter().rev() {
                    let mut c = self.c.tt;
                    for i in 0..4 {
                        let q = self.c.eq(e.0[i], seed[i]);
                        c = self.c.and(c, q);
                    }
                    r = self.c.ite(c, e.2, r);
                }
                self.prg.push((seed, idx, r));
                V::S(r)
            }
            "sym_assume" => {
                let t = self.truth(&args[0])?;
                match self.c.as_const(t) {
                    Some(0) => return Err(Stop::End),
                    Some(_) => {}
                    None => {
                        if self.feasible(&fs.st, t).is_none() {
                            return Err(Stop::End);
                        }
                        self.assume(&mut fs.st, t);
                    }
                }
                V::C(1, 0)
            }
            "sym_assert" => {
                if std::env::var("SYM_SHOW").is_ok() {
                    if let V::S(t) = args[0] {
                        eprintln!("assert {}", self.show(t, 14));
                    }
                }
                let t = self.truth(&args[0])?;
                let id = self.conc(&fs.st, &args[1])? as u32;
                *self.assert_ids.entry(id).or_insert(0) += 1;
                self.check_assert(&mut fs.st, t, id)?;
                V::C(1, 0)
            }
            "sym_exists" => {
                let t = self.truth(&args[0])?;
                let id = self.conc(&fs.st, &args[1])? as u32;
                self.check_exists(&mut fs.st, t, id)?;
                V::C(1, 0)
            }
            "sym_cover" => {
                let id = self.conc(&fs.st, &args[0])? as u32;
                if !self.covers.contains(&id) {
                    let st = fs.st.clone();
                    if let Some(Some(m)) = self.solve(&st, &[], true) {
                        fs.st.model = Some(m);
                        self.covers.insert(id);
                    }
                }
                V::C(1, 0)
            }
            "sym_observe" => {
                let t = self.tm(&args[0])?;
                let id = self.conc(&fs.st, &args[1])? as u32;
                Rc::make_mut(&mut fs.st.obs).push((id, t));
                V::C(1, 0)
            }
            "sym_param" => {
                let i = self.conc(&fs.st, &args[0])? as usize;
                V::C(rw, self.params.get(i).copied().unwrap_or(0) & m64(rw))
            }
            "sym_allow_panic" => {
                fs.st.allow_panic = self.conc(&fs.st, &args[0])? != 0;
                V::C(1, 0)
            }
            "sym_concrete" => {
                let x = self.conc(&fs.st, &args[0])?;
                V::C(rw, x)
            }
            // a seeded concrete value that may differ between runs (not symbolic)
            "sym_pick" => {
                let i = self.conc(&fs.st, &args[0])?;
                let mut x = self.seed.wrapping_add(i.wrapping_mul(0x9e37_79b9_7f4a_7c15)).wrapping_add(0x1234_5678_9abc_def1);
                x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                V::C(64, x ^ (x >> 31))
            }
            "sym_policy" => {
                fs.st.policy = self.conc(&fs.st, &args[0])? as u8;
                V::C(1, 0)
            }
            _ => return Err(Stop::Fatal(k.to_string())),
        })
    }

    /// is some byte of the range symbolic?
    pub fn any_sym(&mut self, st: &mut State, p: &V, n: usize) -> X<bool> {
        let p = match p {
            V::C(_, k) => *k,
            _ => return Ok(true),
        };
        let (id, off) = ((p >> 32) as u32, ((p & 0xffff_ffff).wrapping_sub(BASE)) as usize);
        let o = self.obj(st, id)?;
        let (a, b) = (off.min(o.cells.len()), (off.saturating_add(n)).min(o.cells.len()));
        Ok(o.cells[a..b].iter().any(|c| c.t != CONC && c.t != UNDEF && !self.c.is_const(c.t)))
    }

    pub fn external(&mut self, fs: &mut FS, ext: Ext, g: u32, rt: &Ty, tys: &[Ty], args: Vec<V>) -> X<V> {
        match ext {
            Ext::Nop => Ok(V::C(1, 0)),
            Ext::I(k) => self.intrinsic(fs, k, rt, tys, &args),
            Ext::C(k) => self.libc(fs, k, rt, &args),
            Ext::Sym(k) => self.sym(fs, k, rt, &args),
            Ext::Keys => Ok(self.pair(V::C(64, 0x0706_0504_0302_0100), V::C(64, 0x0f0e_0d0c_0b0a_0908))),
            Ext::Exit => Err(Stop::End),
            Ext::Panic | Ext::Abort => {
                if !fs.st.allow_panic {
                    let n = short(&self.m.globals[g as usize].name);
                    let st = fs.st.clone();
                    match self.solve(&st, &[], true) {
                        Some(None) => {}
                        Some(Some(m)) => {
                            let k = if ext == Ext::Panic { "panic" } else { "abort" };
                            self.report(&st, k, &n, &[], Some(m))?;
                        }
                        None => self.inconclusive.push(format!("panic {} at {}", n, self.loc())),
                    }
                }
                Err(Stop::End)
            }
            Ext::Format => {
                for (i, v) in [0u64, 1, 0].iter().enumerate() {
                    let q = self.addk(args[0].clone(), 8 * i as u64)?;
                    self.store(&mut fs.st, &Ty::Int(64), &q, &V::C(64, *v))?;
                }
                Ok(V::C(1, 0))
            }
            Ext::None | Ext::Fmt(_) => Err(Stop::Fatal("ext".into())),
        }
    }
}

/// size of the value that a formatting function of the standard library prints
fn fmt_kind(n: &str) -> Option<u8> {
    if !n.ends_with("3fmt") {
        return None;
    }
    let i = n.find("4core3fmt")? + 9;
    let r = &n[i..];
    let r = r.strip_prefix("3num").map(|r| r.strip_prefix("3imp").unwrap_or(r)).unwrap_or(r);
    let c = r.chars().next()?;
    if !r[1..].starts_with("Nt") {
        return None;
    }
    Some(match c {
        'h' | 'a' | 'b' => 1,
        't' | 's' => 2,
        'm' | 'l' | 'c' => 4,
        'y' | 'x' | 'i' | 'j' => 8,
        'o' | 'n' => 16,
        'e' => 0,
        _ => return None,
    })
}

/// last path segments of a mangled name
pub fn short(n: &str) -> String {
    let mut out: Vec<String> = Vec::new();
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[s..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if l >= 3 && j + l <= b.len() && n[j..j + l].bytes().all(|c| c == b'_' || c.is_ascii_alphanumeric()) {
                out.push(n[j..j + l].to_string());
                i = j + l;
            }
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        return n.to_string();
    }
    out.join("::")
}
