//! Lazy parser of a textual LLVM module (the subset that rustc emits).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<[Ty]>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two()
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for f in fs.iter() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Vec(n, t) => {
                let bits = *n as u64 * t.bits() as u64;
                ((bits + 7) / 8).next_power_of_two()
            }
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(_) => self.size().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, p) => {
                if *p {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size(),
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * (t.bits() as u64 / 8),
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum CV {
    Int(u128),
    Undef,
    Zero,
    Global(u32),
    Agg(Vec<(Ty, CV)>),
    Str(Vec<u8>),
    Splat(Box<CV>),
    Gep(Ty, Box<CV>, Vec<(Ty, CV)>),
    Cast(CastOp, Ty, Box<CV>, Ty),
    Bin(BinOp, Ty, Box<CV>, Box<CV>),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    C(Rc<CV>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    Udiv,
    Sdiv,
    Urem,
    Srem,
    Shl,
    Lshr,
    Ashr,
    And,
    Or,
    Xor,
    Fadd,
    Fsub,
    Fmul,
    Fdiv,
    Frem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    Zext,
    Sext,
    Bitcast,
    PtrToInt,
    IntToPtr,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opnd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, Ty, Opnd, Opnd),
    Icmp(Pred, Ty, Opnd, Opnd),
    Fcmp(String, Ty, Opnd, Opnd),
    Fneg(Ty, Opnd),
    Select(Ty, Opnd, Ty, Opnd, Opnd),
    Cast(CastOp, Ty, Opnd, Ty),
    Gep(Ty, Opnd, Vec<(Ty, Opnd)>),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Alloca(Ty, Option<(Ty, Opnd)>),
    Call(Ty, Callee, Vec<(Ty, Opnd)>, bool),
    ExtractValue(Ty, Opnd, Vec<u32>),
    InsertValue(Ty, Opnd, Ty, Opnd, Vec<u32>),
    ExtractElem(Ty, Opnd, Opnd),
    InsertElem(Ty, Opnd, Opnd, Opnd),
    Shuffle(Ty, Opnd, Opnd, Ty, Rc<CV>),
    Freeze(Ty, Opnd),
    AtomicRmw(String, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Fence,
    LandingPad,
    // terminators
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    Resume,
    /// invoke: the call, normal destination (the unwind edge is ignored: panic = abort)
    Invoke(Ty, Callee, Vec<(Ty, Opnd)>, bool, u32),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub i: I,
    pub dbg: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Ty, Vec<(Opnd, u32)>)>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: String,
    pub gid: u32,
    pub ret: Ty,
    pub params: Vec<(Ty, u32)>,
    pub blocks: Vec<Block>,
    pub nregs: usize,
    /// immediate post-dominator of each block over the returning part of the graph
    pub ipdom: Vec<Option<u32>>,
    /// block cannot reach a return
    pub dead: Vec<bool>,
    /// the region between the block and its post-dominator has no call and no cycle
    pub light: Vec<bool>,
    /// registers live at entry of a block
    pub live: Vec<Vec<u32>>,
    pub dbg: u32,
}

pub struct Global {
    pub name: String,
    pub is_fn: bool,
    pub is_decl: bool,
    pub constant: bool,
    pub noreturn: bool,
    pub pos: (usize, usize),
    pub attr: u32,
}


pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
    pub end: usize,
    m: &'a ModIx,
}

/// The part of the module that parsing needs.
pub struct ModIx {
    pub gix: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
    pub noreturn_attr: Vec<bool>,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    pub fn new(s: &'a [u8], i: usize, end: usize, m: &'a ModIx) -> Self {
        P { s, i, end, m }
    }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(60);
        let b = (self.i + 80).min(self.s.len());
        format!("{} <HERE> {}", String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]))
    }
    fn err<X>(&self, w: &str) -> R<X> {
        Err(format!("parse: {} at {}", w, self.ctx()))
    }
    /// skip blanks (not newlines)
    pub fn ws(&mut self) {
        while self.i < self.end && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    pub fn wsnl(&mut self) {
        loop {
            while self.i < self.end && self.s[self.i].is_ascii_whitespace() {
                self.i += 1;
            }
            if self.i < self.end && self.s[self.i] == b';' {
                self.line();
                continue;
            }
            break;
        }
    }
    pub fn line(&mut self) {
        while self.i < self.end && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.end {
            self.s[self.i]
        } else {
            0
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            self.err(&format!("expected {}", c as char))
        }
    }
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.end && is_id(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    pub fn peek_word(&mut self) -> &'a str {
        let k = self.i;
        let w = self.word();
        self.i = k;
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        let k = self.i;
        if self.word() == w {
            true
        } else {
            self.i = k;
            false
        }
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.end {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.end && is_id(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn num(&mut self) -> R<i128> {
        self.ws();
        let w = self.word();
        w.parse::<i128>().or_else(|_| w.parse::<u128>().map(|x| x as i128)).map_err(|_| format!("number {} at {}", w, self.ctx()))
    }
    pub fn ty(&mut self) -> R<Ty> {
        self.ws();
        let c = self.peek();
        let t = match c {
            b'[' => {
                self.i += 1;
                let n = self.num()? as u64;
                if !self.eat_word("x") {
                    return self.err("x");
                }
                let t = self.ty()?;
                self.expect(b']')?;
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => {
                self.i += 1;
                let fs = self.tys(b'}')?;
                Ty::Struct(fs.into(), false)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let fs = self.tys(b'}')?;
                    self.expect(b'>')?;
                    Ty::Struct(fs.into(), true)
                } else {
                    let n = self.num()? as u32;
                    if !self.eat_word("x") {
                        return self.err("x");
                    }
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                match self.m.types.get(&n) {
                    Some(t) => t.clone(),
                    None => Ty::Other,
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.peek_word() == "addrspace" {
                            self.word();
                            self.ws();
                            self.balanced();
                        }
                        Ty::Ptr
                    }
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "label" | "metadata" | "token" | "opaque" | "half" | "x86_fp80" => Ty::Other,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => return self.err(&format!("type {}", w)),
                }
            }
        };
        // function type
        let k = self.i;
        self.ws();
        if self.i < self.end && self.s[self.i] == b'(' {
            // only a function type when followed by @ or % after the parens
            let k2 = self.i;
            self.balanced();
            self.ws();
            if self.i < self.end && (self.s[self.i] == b'@' || self.s[self.i] == b'%') {
                return Ok(t);
            }
            self.i = k2;
        }
        self.i = k;
        Ok(t)
    }
    fn tys(&mut self, close: u8) -> R<Vec<Ty>> {
        let mut v = Vec::new();
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(b',') {
                continue;
            }
            self.expect(close)?;
            return Ok(v);
        }
    }
    /// skip parameter attributes
    fn attrs(&mut self) {
        loop {
            self.ws();
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.peek() == b'=' {
                    self.i += 1;
                }
                continue;
            }
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            if !c.is_ascii_lowercase() {
                return;
            }
            let k = self.i;
            let w = self.word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr"
                | "ptrtoint" | "inttoptr" | "trunc" | "sub" | "add" | "xor" | "splat" | "asm" | "c" | "bitcast"
                | "shl" | "mul" => {
                    self.i = k;
                    return;
                }
                w if w.starts_with("f0x") => {
                    self.i = k;
                    return;
                }
                "align" => {
                    if self.peek() == b'(' {
                        self.balanced();
                    } else {
                        self.word();
                    }
                }
                _ => {
                    if self.i < self.end && self.s[self.i] == b'(' {
                        self.balanced();
                    }
                }
            }
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        // at the opening quote
        self.i += 1;
        let mut v = Vec::new();
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' {
                v.push(b'\\');
                self.i += 2;
            } else if self.s[self.i] == b'\\' {
                let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                v.push(h(self.s[self.i + 1]) * 16 + h(self.s[self.i + 2]));
                self.i += 3;
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    fn cvals(&mut self, close: u8) -> R<Vec<(Ty, CV)>> {
        let mut v = Vec::new();
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            let c = self.cval(&t)?;
            v.push((t, c));
            if self.eat(b',') {
                continue;
            }
            self.expect(close)?;
            return Ok(v);
        }
    }
    pub fn cval(&mut self, ty: &Ty) -> R<CV> {
        self.ws();
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name();
                match self.m.gix.get(&n) {
                    Some(g) => Ok(CV::Global(*g)),
                    None => self.err(&format!("unknown global {}", n)),
                }
            }
            b'[' => {
                self.i += 1;
                Ok(CV::Agg(self.cvals(b']')?))
            }
            b'{' => {
                self.i += 1;
                Ok(CV::Agg(self.cvals(b'}')?))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let r = CV::Agg(self.cvals(b'}')?);
                    self.expect(b'>')?;
                    Ok(r)
                } else {
                    Ok(CV::Agg(self.cvals(b'>')?))
                }
            }
            b'-' | b'+' | b'0'..=b'9' => {
                // integer or float
                let st = self.i;
                while self.i < self.end && (is_id(self.s[self.i]) || self.s[self.i] == b'+') {
                    self.i += 1;
                }
                let w = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                match ty {
                    Ty::F64 | Ty::F32 => {
                        let bits = if let Some(h) = w.strip_prefix("0x") {
                            let b = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            if *ty == Ty::F32 {
                                (f64::from_bits(b) as f32).to_bits() as u64
                            } else {
                                b
                            }
                        } else {
                            let f: f64 = w.replace("qnan", "nan").parse().map_err(|_| "float".to_string())?;
                            if *ty == Ty::F32 {
                                (f as f32).to_bits() as u64
                            } else {
                                f.to_bits()
                            }
                        };
                        Ok(CV::Int(bits as u128))
                    }
                    _ => {
                        let v = w.parse::<i128>().map(|x| x as u128).or_else(|_| w.parse::<u128>());
                        match v {
                            Ok(v) => Ok(CV::Int(v & crate::term::mask(ty.bits().clamp(1, 128) as u8))),
                            Err(_) => self.err(&format!("int {}", w)),
                        }
                    }
                }
            }
            b'f' if self.s[self.i..self.end].starts_with(b"f0x") => {
                let st = self.i + 3;
                while self.i < self.end && is_id(self.s[self.i]) {
                    self.i += 1;
                }
                let w = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                let b = u64::from_str_radix(w, 16).map_err(|e| e.to_string())?;
                Ok(CV::Int(b as u128))
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Ok(CV::Int(1)),
                    "false" => Ok(CV::Int(0)),
                    "null" | "zeroinitializer" | "none" => Ok(CV::Zero),
                    "undef" | "poison" => Ok(CV::Undef),
                    "c" if self.s[self.i] == b'"' => Ok(CV::Str(self.cstr())),
                    "splat" => {
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        let v = self.cval(&t)?;
                        self.expect(b')')?;
                        Ok(CV::Splat(Box::new(v)))
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        // "inrange(...)" may be a parenthesised flag
                        self.expect(b'(')?;
                        let k = self.i;
                        let t = match self.ty() {
                            Ok(t) => t,
                            Err(_) => {
                                self.i = k - 1;
                                self.balanced();
                                while self.peek() != b'(' {
                                    self.word();
                                }
                                self.expect(b'(')?;
                                self.ty()?
                            }
                        };
                        self.expect(b',')?;
                        let mut vs = self.cvals(b')')?;
                        let base = vs.remove(0).1;
                        Ok(CV::Gep(t, Box::new(base), vs))
                    }
                    "ptrtoint" | "inttoptr" | "trunc" | "bitcast" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        let v = self.cval(&t)?;
                        if !self.eat_word("to") {
                            return self.err("to");
                        }
                        let t2 = self.ty()?;
                        self.expect(b')')?;
                        let op = match w {
                            "ptrtoint" => CastOp::PtrToInt,
                            "inttoptr" => CastOp::IntToPtr,
                            "trunc" => CastOp::Trunc,
                            _ => CastOp::Bitcast,
                        };
                        Ok(CV::Cast(op, t, Box::new(v), t2))
                    }
                    "sub" | "add" | "xor" | "shl" | "mul" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.expect(b'(')?;
                        let mut vs = self.cvals(b')')?;
                        let b = vs.pop().unwrap();
                        let a = vs.pop().unwrap();
                        Ok(CV::Bin(binop(w).unwrap(), a.0, Box::new(a.1), Box::new(b.1)))
                    }
                    "asm" => {
                        while self.peek() != b'"' {
                            self.word();
                        }
                        let s = self.cstr();
                        self.expect(b',')?;
                        self.ws();
                        self.cstr();
                        Ok(CV::Asm(String::from_utf8_lossy(&s).into_owned()))
                    }
                    _ => self.err(&format!("constant {}", w)),
                }
            }
        }
    }
}

pub fn binop(w: &str) -> Option<BinOp> {
    Some(match w {
        "add" => BinOp::Add,
        "sub" => BinOp::Sub,
        "mul" => BinOp::Mul,
        "udiv" => BinOp::Udiv,
        "sdiv" => BinOp::Sdiv,
        "urem" => BinOp::Urem,
        "srem" => BinOp::Srem,
        "shl" => BinOp::Shl,
        "lshr" => BinOp::Lshr,
        "ashr" => BinOp::Ashr,
        "and" => BinOp::And,
        "or" => BinOp::Or,
        "xor" => BinOp::Xor,
        "fadd" => BinOp::Fadd,
        "fsub" => BinOp::Fsub,
        "fmul" => BinOp::Fmul,
        "fdiv" => BinOp::Fdiv,
        "frem" => BinOp::Frem,
        _ => return None,
    })
}
fn castop(w: &str) -> Option<CastOp> {
    Some(match w {
        "trunc" => CastOp::Trunc,
        "zext" => CastOp::Zext,
        "sext" => CastOp::Sext,
        "bitcast" => CastOp::Bitcast,
        "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
        "inttoptr" => CastOp::IntToPtr,
        "fptoui" => CastOp::FpToUi,
        "fptosi" => CastOp::FpToSi,
        "uitofp" => CastOp::UiToFp,
        "sitofp" => CastOp::SiToFp,
        "fpext" => CastOp::FpExt,
        "fptrunc" => CastOp::FpTrunc,
        _ => return None,
    })
}

/// Parser of one function body.
struct FP<'a> {
    p: P<'a>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    blocks: Vec<Block>,
}

impl<'a> FP<'a> {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, n: String) -> u32 {
        if let Some(b) = self.labels.get(&n) {
            return *b;
        }
        let k = self.blocks.len() as u32;
        self.labels.insert(n.clone(), k);
        self.blocks.push(Block { name: n, ..Default::default() });
        k
    }
    fn val(&mut self, t: &Ty) -> R<Opnd> {
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            return Ok(Opnd::Reg(self.reg(n)));
        }
        let c = self.p.cval(t)?;
        Ok(Opnd::C(Rc::new(c)))
    }
    fn tyval(&mut self) -> R<(Ty, Opnd)> {
        let t = self.p.ty()?;
        self.p.attrs();
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn lab(&mut self) -> R<u32> {
        if !self.p.eat_word("label") {
            return self.p.err("label");
        }
        self.p.expect(b'%')?;
        let n = self.p.name();
        Ok(self.label(n))
    }
    fn comma(&mut self) -> R<()> {
        self.p.expect(b',')
    }
    fn args(&mut self) -> R<Vec<(Ty, Opnd)>> {
        self.p.expect(b'(')?;
        let mut v = Vec::new();
        if self.p.eat(b')') {
            return Ok(v);
        }
        loop {
            let t = self.p.ty()?;
            if t == Ty::Other {
                // metadata argument: skip it
                let mut d = 0;
                while self.p.i < self.p.end {
                    let c = self.p.s[self.p.i];
                    if d == 0 && (c == b',' || c == b')') {
                        break;
                    }
                    if c == b'(' {
                        d += 1;
                    }
                    if c == b')' {
                        d -= 1;
                    }
                    self.p.i += 1;
                }
                v.push((t, Opnd::C(Rc::new(CV::Undef))));
            } else {
                self.p.attrs();
                let x = self.val(&t)?;
                v.push((t, x));
            }
            if self.p.eat(b',') {
                continue;
            }
            self.p.expect(b')')?;
            return Ok(v);
        }
    }
    fn call(&mut self) -> R<(Ty, Callee, Vec<(Ty, Opnd)>, bool)> {
        // [fastcc] [attrs] ty callee(args) [attrs]
        loop {
            let k = self.p.i;
            let w = self.p.word();
            match w {
                "fastcc" | "ccc" | "coldcc" | "zeroext" | "signext" | "noundef" | "noalias" | "nonnull" | "nnan"
                | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "inreg" | "preserve_mostcc"
                | "unnamed_addr" => {}
                "dereferenceable" | "dereferenceable_or_null" | "range" => {
                    self.p.ws();
                    self.p.balanced();
                }
                "align" => {
                    self.p.word();
                }
                "" => {
                    // a type that begins with punctuation
                    self.p.i = k;
                    break;
                }
                _ => {
                    self.p.i = k;
                    break;
                }
            }
        }
        let t = self.p.ty()?;
        self.p.ws();
        let callee = match self.p.peek() {
            b'%' => {
                self.p.i += 1;
                let n = self.p.name();
                Callee::Ind(Opnd::Reg(self.reg(n)))
            }
            b'@' => {
                let c = self.p.cval(&Ty::Ptr)?;
                match c {
                    CV::Global(g) => Callee::Fn(g),
                    _ => unreachable!(),
                }
            }
            _ => match self.p.cval(&Ty::Ptr)? {
                CV::Asm(s) => Callee::Asm(s),
                c => Callee::Ind(Opnd::C(Rc::new(c))),
            },
        };
        let a = self.args()?;
        // function attributes
        let mut noret = false;
        loop {
            match self.p.peek() {
                b'#' => {
                    self.p.i += 1;
                    let n = self.p.word().parse::<usize>().unwrap_or(0);
                    if self.p.m.noreturn_attr.get(n).copied().unwrap_or(false) {
                        noret = true;
                    }
                }
                b'[' => {
                    // operand bundle
                    while self.p.s[self.p.i] != b']' {
                        self.p.i += 1;
                    }
                    self.p.i += 1;
                }
                _ => break,
            }
        }
        Ok((t, callee, a, noret))
    }
    fn idxs(&mut self) -> R<Vec<u32>> {
        let mut v = Vec::new();
        while self.p.peek() == b',' {
            let k = self.p.i;
            self.p.i += 1;
            if self.p.peek() == b'!' {
                self.p.i = k;
                break;
            }
            v.push(self.p.num()? as u32);
        }
        Ok(v)
    }
    fn flags(&mut self) {
        loop {
            let k = self.p.i;
            match self.p.word() {
                "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "nneg" | "volatile" | "atomic"
                | "samesign" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "weak" => {}
                "inrange" => self.p.balanced(),
                _ => {
                    self.p.i = k;
                    return;
                }
            }
        }
    }
    fn inst(&mut self) -> R<Option<(Option<u32>, I)>> {
        let mut dst = None;
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            dst = Some(self.reg(n));
            self.p.expect(b'=')?;
        }
        let mut op = self.p.word();
        if op == "tail" || op == "musttail" || op == "notail" {
            op = self.p.word();
        }
        let i = if let Some(b) = binop(op) {
            self.flags();
            let (t, a) = self.tyval()?;
            self.comma()?;
            let c = self.val(&t)?;
            I::Bin(b, t, a, c)
        } else if let Some(c) = castop(op) {
            self.flags();
            let (t, a) = self.tyval()?;
            if !self.p.eat_word("to") {
                return self.p.err("to");
            }
            let t2 = self.p.ty()?;
            I::Cast(c, t, a, t2)
        } else {
            match op {
                "icmp" => {
                    self.flags();
                    let w = self.p.word();
                    let pr = match w {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => return self.p.err("icmp"),
                    };
                    let (t, a) = self.tyval()?;
                    self.comma()?;
                    let b = self.val(&t)?;
                    I::Icmp(pr, t, a, b)
                }
                "fcmp" => {
                    self.flags();
                    let w = self.p.word().to_string();
                    let (t, a) = self.tyval()?;
                    self.comma()?;
                    let b = self.val(&t)?;
                    I::Fcmp(w, t, a, b)
                }
                "fneg" => {
                    self.flags();
                    let (t, a) = self.tyval()?;
                    I::Fneg(t, a)
                }
                "select" => {
                    self.flags();
                    let (ct, c) = self.tyval()?;
                    self.comma()?;
                    let (t, a) = self.tyval()?;
                    self.comma()?;
                    let (_, b) = self.tyval()?;
                    I::Select(ct, c, t, a, b)
                }
                "getelementptr" => {
                    self.flags();
                    let t = self.p.ty()?;
                    self.comma()?;
                    let (_, b) = self.tyval()?;
                    let mut ix = Vec::new();
                    while self.p.peek() == b',' {
                        let k = self.p.i;
                        self.p.i += 1;
                        if self.p.peek() == b'!' {
                            self.p.i = k;
                            break;
                        }
                        ix.push(self.tyval()?);
                    }
                    I::Gep(t, b, ix)
                }
                "load" => {
                    self.flags();
                    let t = self.p.ty()?;
                    self.comma()?;
                    let (_, p) = self.tyval()?;
                    I::Load(t, p)
                }
                "store" => {
                    self.flags();
                    let (t, v) = self.tyval()?;
                    self.comma()?;
                    let (_, p) = self.tyval()?;
                    I::Store(t, v, p)
                }
                "alloca" => {
                    let t = self.p.ty()?;
                    let mut n = None;
                    if self.p.peek() == b',' {
                        let k = self.p.i;
                        self.p.i += 1;
                        let w = self.p.peek_word();
                        if w.starts_with('i') && w[1..].parse::<u32>().is_ok() {
                            n = Some(self.tyval()?);
                        } else {
                            self.p.i = k;
                        }
                    }
                    I::Alloca(t, n)
                }
                "call" => {
                    let (t, c, a, nr) = self.call()?;
                    I::Call(t, c, a, nr)
                }
                "invoke" => {
                    let (t, c, a, nr) = self.call()?;
                    self.p.wsnl();
                    if !self.p.eat_word("to") {
                        return self.p.err("invoke to");
                    }
                    let n = self.lab()?;
                    self.p.wsnl();
                    if !self.p.eat_word("unwind") {
                        return self.p.err("unwind");
                    }
                    self.lab()?;
                    I::Invoke(t, c, a, nr, n)
                }
                "extractvalue" => {
                    let (t, v) = self.tyval()?;
                    let ix = self.idxs()?;
                    I::ExtractValue(t, v, ix)
                }
                "insertvalue" => {
                    let (t, v) = self.tyval()?;
                    self.comma()?;
                    let (t2, x) = self.tyval()?;
                    let ix = self.idxs()?;
                    I::InsertValue(t, v, t2, x, ix)
                }
                "extractelement" => {
                    let (t, v) = self.tyval()?;
                    self.comma()?;
                    let (_, ix) = self.tyval()?;
                    I::ExtractElem(t, v, ix)
                }
                "insertelement" => {
                    let (t, v) = self.tyval()?;
                    self.comma()?;
                    let (_, x) = self.tyval()?;
                    self.comma()?;
                    let (_, ix) = self.tyval()?;
                    I::InsertElem(t, v, x, ix)
                }
                "shufflevector" => {
                    let (t, a) = self.tyval()?;
                    self.comma()?;
                    let (_, b) = self.tyval()?;
                    self.comma()?;
                    let mt = self.p.ty()?;
                    let m = self.p.cval(&mt)?;
                    I::Shuffle(t, a, b, mt, Rc::new(m))
                }
                "freeze" => {
                    let (t, a) = self.tyval()?;
                    I::Freeze(t, a)
                }
                "atomicrmw" => {
                    self.flags();
                    let w = self.p.word().to_string();
                    let (_, p) = self.tyval()?;
                    self.comma()?;
                    let (t, v) = self.tyval()?;
                    I::AtomicRmw(w, t, p, v)
                }
                "cmpxchg" => {
                    self.flags();
                    let (_, p) = self.tyval()?;
                    self.comma()?;
                    let (t, a) = self.tyval()?;
                    self.comma()?;
                    let (_, b) = self.tyval()?;
                    I::CmpXchg(t, p, a, b)
                }
                "fence" => I::Fence,
                "landingpad" => {
                    // skip the clauses, which are on the following lines
                    self.p.line();
                    loop {
                        let k = self.p.i;
                        self.p.wsnl();
                        let w = self.p.peek_word();
                        if w == "cleanup" || w == "catch" || w == "filter" {
                            self.p.line();
                        } else {
                            self.p.i = k;
                            break;
                        }
                    }
                    I::LandingPad
                }
                "resume" => I::Resume,
                "unreachable" => I::Unreachable,
                "ret" => {
                    let t = self.p.ty()?;
                    if t == Ty::Void {
                        I::Ret(None)
                    } else {
                        let v = self.val(&t)?;
                        I::Ret(Some((t, v)))
                    }
                }
                "br" => {
                    if self.p.peek_word() == "label" {
                        I::Br(self.lab()?)
                    } else {
                        let (_, c) = self.tyval()?;
                        self.comma()?;
                        let a = self.lab()?;
                        self.comma()?;
                        let b = self.lab()?;
                        I::CondBr(c, a, b)
                    }
                }
                "switch" => {
                    let (t, v) = self.tyval()?;
                    self.comma()?;
                    let d = self.lab()?;
                    self.p.expect(b'[')?;
                    let mut cs = Vec::new();
                    loop {
                        self.p.wsnl();
                        if self.p.eat(b']') {
                            break;
                        }
                        let ct = self.p.ty()?;
                        let c = match self.p.cval(&ct)? {
                            CV::Int(c) => c,
                            CV::Zero => 0,
                            _ => return self.p.err("switch"),
                        };
                        self.comma()?;
                        let l = self.lab()?;
                        cs.push((c, l));
                    }
                    I::Switch(t, v, d, cs)
                }
                _ => return self.p.err(&format!("opcode {}", op)),
            }
        };
        Ok(Some((dst, i)))
    }
}

fn find(h: &[u8], n: &[u8], from: usize, to: usize) -> Option<usize> {
    if n.is_empty() || to < n.len() {
        return None;
    }
    let mut i = from;
    while i + n.len() <= to {
        if h[i] == n[0] && &h[i..i + n.len()] == n {
            return Some(i);
        }
        i += 1;
    }
    None
}

pub fn dbg_of(s: &[u8], from: usize, to: usize) -> u32 {
    match find(s, b"!dbg !", from, to) {
        Some(p) => {
            let mut k = p + 6;
            let mut v = 0u32;
            while k < to && s[k].is_ascii_digit() {
                v = v * 10 + (s[k] - b'0') as u32;
                k += 1;
            }
            v
        }
        None => 0,
    }
}

pub struct Mod {
    pub text: Vec<u8>,
    pub globals: Vec<Global>,
    pub ix: ModIx,
    pub md: HashMap<u32, (usize, usize)>,
    funcs: HashMap<u32, Rc<Func>>,
}

impl Mod {
    pub fn load(path: &str) -> R<Mod> {
        let text = std::fs::read(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut globals: Vec<Global> = Vec::new();
        let mut gix: HashMap<String, u32> = HashMap::new();
        let mut md = HashMap::new();
        let mut noret: Vec<bool> = Vec::new();
        let mut tdefs: Vec<(String, usize, usize)> = Vec::new();
        let empty = ModIx { gix: HashMap::new(), types: HashMap::new(), noreturn_attr: vec![] };
        let mut i = 0;
        let n = text.len();
        // skip function bodies quickly: they end with a line "}"
        while i < n {
            let mut e = i;
            while e < n && text[e] != b'\n' {
                e += 1;
            }
            let l = &text[i..e];
            if l.starts_with(b"@") || l.starts_with(b"define ") || l.starts_with(b"declare ") {
                let is_fn = l[0] == b'd';
                let at = match find(&text, b"@", i, e) {
                    Some(a) => a,
                    None => {
                        i = e + 1;
                        continue;
                    }
                };
                let mut p = P::new(&text, at + 1, e, &empty);
                let name = p.name();
                let pos0 = if is_fn { i } else { p.i };
                let mut end = e;
                let is_def = l.starts_with(b"define ");
                if is_def {
                    let mut q = e;
                    loop {
                        // next line "}"
                        if text[q] == b'\n' && q + 1 < n && text[q + 1] == b'}' {
                            break;
                        }
                        q += 1;
                    }
                    end = q + 1;
                    e = q + 2;
                }
                let (is_decl, constant) = if is_fn {
                    (!is_def, true)
                } else {
                    let s = String::from_utf8_lossy(&l[..l.len().min(400)]).into_owned();
                    let s2 = s.splitn(2, " = ").nth(1).unwrap_or("").to_string();
                    let head: Vec<&str> = s2.split(' ').take(8).collect();
                    (
                        head.contains(&"external") || head.contains(&"extern_weak"),
                        head.iter().any(|x| *x == "constant"),
                    )
                };
                let mut attr = u32::MAX;
                if is_fn {
                    // attribute group: last " #N" of the line
                    let le = i + l.len();
                    let mut k = le;
                    while k > i + 1 {
                        k -= 1;
                        if text[k] == b'#' && text[k - 1] == b' ' {
                            let mut v = 0;
                            let mut q = k + 1;
                            while q < le && text[q].is_ascii_digit() {
                                v = v * 10 + (text[q] - b'0') as u32;
                                q += 1;
                            }
                            attr = v;
                            break;
                        }
                    }
                }
                let id = globals.len() as u32;
                gix.insert(name.clone(), id);
                globals.push(Global { name, is_fn, is_decl, constant, noreturn: false, pos: (pos0, end), attr });
            } else if l.starts_with(b"!") && l.len() > 1 && l[1].is_ascii_digit() {
                let mut k = 1;
                let mut v = 0u32;
                while l[k].is_ascii_digit() {
                    v = v * 10 + (l[k] - b'0') as u32;
                    k += 1;
                }
                md.insert(v, (i + k, e));
            } else if l.starts_with(b"attributes #") {
                let mut k = 12;
                let mut v = 0usize;
                while l[k].is_ascii_digit() {
                    v = v * 10 + (l[k] - b'0') as usize;
                    k += 1;
                }
                if noret.len() <= v {
                    noret.resize(v + 1, false);
                }
                noret[v] = find(l, b" noreturn ", 0, l.len()).is_some();
            } else if l.starts_with(b"%") {
                let mut p = P::new(&text, i + 1, e, &empty);
                let name = p.name();
                p.ws();
                tdefs.push((name, p.i, e));
            }
            i = e + 1;
        }
        for g in globals.iter_mut() {
            if g.is_fn && g.attr != u32::MAX {
                g.noreturn = noret.get(g.attr as usize).copied().unwrap_or(false);
            }
        }
        let mut ix = ModIx { gix, types: HashMap::new(), noreturn_attr: noret };
        for _ in 0..3 {
            let mut new = HashMap::new();
            for (name, a, b) in &tdefs {
                let mut p = P::new(&text, *a, *b, &ix);
                p.expect(b'=')?;
                p.word();
                if let Ok(t) = p.ty() {
                    new.insert(name.clone(), t);
                }
            }
            ix.types = new;
        }
        Ok(Mod { text, globals, ix, md, funcs: HashMap::new() })
    }

    /// type and initialiser of a global variable
    pub fn global_init(&self, g: u32) -> R<(Ty, Option<CV>)> {
        let gl = &self.globals[g as usize];
        let mut p = P::new(&self.text, gl.pos.0, gl.pos.1, &self.ix);
        p.expect(b'=')?;
        loop {
            let w = p.word();
            if w == "global" || w == "constant" {
                break;
            }
            if w == "thread_local" || w == "addrspace" {
                if p.peek() == b'(' {
                    p.balanced();
                }
                continue;
            }
            if w.is_empty() {
                return p.err("global");
            }
        }
        let t = p.ty()?;
        if gl.is_decl {
            return Ok((t, None));
        }
        let c = p.cval(&t)?;
        Ok((t, Some(c)))
    }

    pub fn func(&mut self, g: u32) -> R<Rc<Func>> {
        if let Some(f) = self.funcs.get(&g) {
            return Ok(f.clone());
        }
        let f = Rc::new(self.parse_func(g)?);
        self.funcs.insert(g, f.clone());
        Ok(f)
    }

    fn parse_func(&self, g: u32) -> R<Func> {
        let gl = &self.globals[g as usize];
        let (a, b) = gl.pos;
        let mut le = a;
        while self.text[le] != b'\n' {
            le += 1;
        }
        let dbg = dbg_of(&self.text, a, le);
        let mut fp = FP {
            p: P::new(&self.text, a, b, &self.ix),
            regs: HashMap::new(),
            labels: HashMap::new(),
            blocks: Vec::new(),
        };
        // header: find '@name(' then parameters; the return type precedes the name
        let at = find(&self.text, b"@", a, le).ok_or("define")?;
        // return type: walk words until a type parses
        fp.p.i = a + 7;
        let mut ret = Ty::Void;
        loop {
            let k = fp.p.i;
            fp.p.ws();
            if fp.p.i >= at {
                break;
            }
            let w = fp.p.peek_word();
            let is_kw = !w.is_empty()
                && !(w == "void"
                    || w == "ptr"
                    || w == "double"
                    || w == "float"
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())));
            if is_kw {
                fp.p.word();
                if fp.p.peek() == b'(' {
                    fp.p.balanced();
                }
                if w == "align" {
                    fp.p.word();
                }
                continue;
            }
            fp.p.i = k;
            // careful: a type followed by " @name(" must not be taken for a function type
            ret = fp.p.ty()?;
            break;
        }
        fp.p.i = at + 1;
        fp.p.name();
        fp.p.expect(b'(')?;
        let mut params = Vec::new();
        let mut unnamed = 0;
        if !fp.p.eat(b')') {
            loop {
                if fp.p.peek() == b'.' {
                    // varargs
                    while fp.p.peek() != b')' {
                        fp.p.i += 1;
                    }
                    fp.p.i += 1;
                    break;
                }
                let t = fp.p.ty()?;
                fp.p.attrs();
                let r = if fp.p.peek() == b'%' {
                    fp.p.i += 1;
                    let n = fp.p.name();
                    if n == format!("{}", unnamed) {
                        unnamed += 1;
                    }
                    fp.reg(n)
                } else {
                    let n = format!("{}", unnamed);
                    unnamed += 1;
                    fp.reg(n)
                };
                params.push((t, r));
                if fp.p.eat(b',') {
                    continue;
                }
                fp.p.expect(b')')?;
                break;
            }
        }
        fp.p.i = le + 1;
        let mut cur: Option<u32> = None;
        loop {
            fp.p.wsnl();
            if fp.p.i >= b || fp.p.s[fp.p.i] == b'}' {
                break;
            }
            // label?
            let ls = fp.p.i;
            let mut lend = ls;
            while lend < b && self.text[lend] != b'\n' {
                lend += 1;
            }
            let c = self.text[ls];
            if c == b'#' {
                fp.p.i = lend;
                continue;
            }
            let at_line_start = ls == 0 || self.text[ls - 1] == b'\n';
            if at_line_start {
                let n = fp.p.name();
                if fp.p.i < b && fp.p.s[fp.p.i] == b':' {
                    let l = fp.label(n);
                    cur = Some(l);
                    fp.p.i = lend;
                    continue;
                }
                return fp.p.err("label");
            }
            if cur.is_none() {
                let l = fp.label(format!("{}", unnamed));
                cur = Some(l);
            }
            let bk = cur.unwrap() as usize;
            // phi
            let k = fp.p.i;
            if fp.p.s[k] == b'%' {
                fp.p.i += 1;
                let n = fp.p.name();
                fp.p.expect(b'=')?;
                if fp.p.eat_word("phi") {
                    fp.flags();
                    let t = fp.p.ty()?;
                    let d = fp.reg(n);
                    let mut inc = Vec::new();
                    loop {
                        fp.p.expect(b'[')?;
                        let v = fp.val(&t)?;
                        fp.comma()?;
                        fp.p.expect(b'%')?;
                        let ln = fp.p.name();
                        let l = fp.label(ln);
                        inc.push((v, l));
                        fp.p.expect(b']')?;
                        if fp.p.peek() == b',' {
                            let k = fp.p.i;
                            fp.p.i += 1;
                            if fp.p.peek() == b'[' {
                                continue;
                            }
                            fp.p.i = k;
                        }
                        break;
                    }
                    fp.blocks[bk].phis.push((d, t, inc));
                    fp.p.line();
                    continue;
                }
                fp.p.i = k;
            }
            let r = fp.inst()?;
            if let Some((dst, i)) = r {
                let mut le2 = fp.p.i;
                while le2 < b && self.text[le2] != b'\n' {
                    le2 += 1;
                }
                let mut dbg = dbg_of(&self.text, fp.p.i, le2);
                if matches!(i, I::LandingPad) {
                    dbg = 0;
                }
                fp.p.i = le2;
                fp.blocks[bk].insts.push(Inst { dst, i, dbg });
            }
        }
        // entry block must be the first one that was defined: labels are created on
        // reference, so reorder is not needed as long as the entry is created first
        let mut f = Func {
            name: gl.name.clone(),
            gid: g,
            ret,
            params,
            nregs: fp.regs.len(),
            blocks: fp.blocks,
            ipdom: vec![],
            dead: vec![],
            light: vec![],
            live: vec![],
            dbg,
        };
        analyse(&mut f);
        Ok(f)
    }
}

pub fn succs(b: &Block) -> Vec<u32> {
    match &b.insts.last().map(|x| &x.i) {
        Some(I::Br(a)) => vec![*a],
        Some(I::CondBr(_, a, b)) => vec![*a, *b],
        Some(I::Switch(_, _, d, cs)) => {
            let mut v = vec![*d];
            v.extend(cs.iter().map(|x| x.1));
            v.sort();
            v.dedup();
            v
        }
        Some(I::Invoke(_, _, _, _, n)) => vec![*n],
        _ => vec![],
    }
}

pub fn uses(i: &I, f: &mut dyn FnMut(u32)) {
    let mut o = |x: &Opnd| {
        if let Opnd::Reg(r) = x {
            f(*r)
        }
    };
    match i {
        I::Bin(_, _, a, b) | I::Icmp(_, _, a, b) | I::Fcmp(_, _, a, b) => {
            o(a);
            o(b)
        }
        I::Fneg(_, a) | I::Cast(_, _, a, _) | I::Load(_, a) | I::Freeze(_, a) | I::ExtractValue(_, a, _) => o(a),
        I::Select(_, c, _, a, b) => {
            o(c);
            o(a);
            o(b)
        }
        I::Gep(_, b, ix) => {
            o(b);
            for x in ix {
                o(&x.1)
            }
        }
        I::Store(_, a, b) => {
            o(a);
            o(b)
        }
        I::Alloca(_, n) => {
            if let Some(n) = n {
                o(&n.1)
            }
        }
        I::Call(_, c, a, _) | I::Invoke(_, c, a, _, _) => {
            if let Callee::Ind(x) = c {
                o(x)
            }
            for x in a {
                o(&x.1)
            }
        }
        I::InsertValue(_, a, _, b, _) | I::ExtractElem(_, a, b) => {
            o(a);
            o(b)
        }
        I::InsertElem(_, a, b, c) => {
            o(a);
            o(b);
            o(c)
        }
        I::Shuffle(_, a, b, _, _) => {
            o(a);
            o(b)
        }
        I::AtomicRmw(_, _, a, b) => {
            o(a);
            o(b)
        }
        I::CmpXchg(_, a, b, c) => {
            o(a);
            o(b);
            o(c)
        }
        I::CondBr(c, _, _) => o(c),
        I::Switch(_, c, _, _) => o(c),
        I::Ret(Some((_, v))) => o(v),
        _ => {}
    }
}

fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    let succ: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    // blocks that reach a return
    let mut pred: Vec<Vec<u32>> = vec![vec![]; n];
    for (i, s) in succ.iter().enumerate() {
        for &x in s {
            pred[x as usize].push(i as u32);
        }
    }
    let mut alive = vec![false; n];
    let mut st: Vec<usize> = Vec::new();
    for (i, b) in f.blocks.iter().enumerate() {
        if let Some(I::Ret(_)) = b.insts.last().map(|x| &x.i) {
            alive[i] = true;
            st.push(i);
        }
    }
    while let Some(x) = st.pop() {
        for &p in &pred[x] {
            // a block that ends in a no-return call does not return
            if !alive[p as usize] {
                alive[p as usize] = true;
                st.push(p as usize);
            }
        }
    }
    f.dead = alive.iter().map(|x| !x).collect();
    // post-dominators by iterative sets over reverse order (virtual exit = n)
    // Cooper-Harvey-Kennedy on the reversed graph
    let exit = n;
    let mut order: Vec<usize> = Vec::new(); // postorder of the reversed graph
    let mut seen = vec![false; n + 1];
    let rsucc = |x: usize| -> Vec<usize> {
        // successors in the reversed graph
        if x == exit {
            (0..n).filter(|&i| matches!(f.blocks[i].insts.last().map(|x| &x.i), Some(I::Ret(_)))).collect()
        } else {
            pred[x].iter().map(|&p| p as usize).collect()
        }
    };
    let mut stack: Vec<(usize, Vec<usize>, usize)> = vec![(exit, rsucc(exit), 0)];
    seen[exit] = true;
    while let Some((x, ss, k)) = stack.last_mut() {
        if *k < ss.len() {
            let y = ss[*k];
            *k += 1;
            if !seen[y] {
                seen[y] = true;
                let s = rsucc(y);
                stack.push((y, s, 0));
            }
        } else {
            order.push(*x);
            stack.pop();
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, &x) in order.iter().enumerate() {
        num[x] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    let mut changed = true;
    while changed {
        changed = false;
        for &x in order.iter().rev() {
            if x == exit {
                continue;
            }
            // predecessors in the reversed graph = successors in the graph
            let mut ps: Vec<usize> =
                succ[x].iter().map(|&s| s as usize).filter(|&s| alive[s]).collect();
            if matches!(f.blocks[x].insts.last().map(|x| &x.i), Some(I::Ret(_))) {
                ps.push(exit);
            }
            let mut new = usize::MAX;
            for p in ps {
                if idom[p] == usize::MAX {
                    continue;
                }
                if new == usize::MAX {
                    new = p;
                } else {
                    let (mut a, mut b) = (p, new);
                    while a != b {
                        while num[a] < num[b] {
                            a = idom[a];
                        }
                        while num[b] < num[a] {
                            b = idom[b];
                        }
                    }
                    new = a;
                }
            }
            if new != usize::MAX && idom[x] != new {
                idom[x] = new;
                changed = true;
            }
        }
    }
    f.ipdom = (0..n)
        .map(|i| if idom[i] == usize::MAX || idom[i] == exit { None } else { Some(idom[i] as u32) })
        .collect();
    // light regions
    f.light = (0..n)
        .map(|i| {
            let j = match f.ipdom[i] {
                Some(j) => j as usize,
                None => return false,
            };
            // walk
            let mut state = vec![0u8; n];
            fn dfs(
                x: usize,
                j: usize,
                f: &Func,
                succ: &[Vec<u32>],
                state: &mut [u8],
                cnt: &mut usize,
            ) -> bool {
                if x == j {
                    return true;
                }
                if state[x] == 1 {
                    return false;
                }
                if state[x] == 2 {
                    return true;
                }
                if f.dead[x] {
                    return false;
                }
                state[x] = 1;
                *cnt += 1;
                if *cnt > 12 {
                    return false;
                }
                for ins in &f.blocks[x].insts {
                    if matches!(
                        ins.i,
                        I::Call(..) | I::Invoke(..) | I::Bin(BinOp::Udiv, ..) | I::Bin(BinOp::Urem, ..) | I::AtomicRmw(..)
                            | I::CmpXchg(..) | I::Load(..) | I::Store(..) | I::Ret(..)
                    ) {
                        return false;
                    }
                }
                for &s in &succ[x] {
                    if !dfs(s as usize, j, f, succ, state, cnt) {
                        return false;
                    }
                }
                state[x] = 2;
                true
            }
            let mut cnt = 0;
            state[i] = 1;
            succ[i].iter().all(|&s| dfs(s as usize, j, f, &succ, &mut state, &mut cnt))
        })
        .collect();
    // liveness
    let words = (f.nregs + 63) / 64;
    let mut live: Vec<Vec<u64>> = vec![vec![0; words]; n];
    let mut usev: Vec<Vec<u64>> = vec![vec![0; words]; n];
    let mut def: Vec<Vec<u64>> = vec![vec![0; words]; n];
    let mut phiuse: Vec<Vec<u64>> = vec![vec![0; words]; n]; // used by phis of successors, by block
    for (bi, b) in f.blocks.iter().enumerate() {
        for (d, _, inc) in &b.phis {
            def[bi][*d as usize / 64] |= 1 << (d % 64);
            for (v, l) in inc {
                if let Opnd::Reg(r) = v {
                    phiuse[*l as usize][*r as usize / 64] |= 1 << (r % 64);
                }
            }
        }
        for ins in &b.insts {
            let (u, d) = (&mut usev[bi], &def[bi]);
            uses(&ins.i, &mut |r| {
                if d[r as usize / 64] >> (r % 64) & 1 == 0 {
                    u[r as usize / 64] |= 1 << (r % 64);
                }
            });
            if let Some(d) = ins.dst {
                def[bi][d as usize / 64] |= 1 << (d % 64);
            }
        }
    }
    let mut changed = true;
    while changed {
        changed = false;
        for bi in (0..n).rev() {
            let mut out = phiuse[bi].clone();
            for &s in &succ[bi] {
                for w in 0..words {
                    out[w] |= live[s as usize][w];
                }
            }
            for w in 0..words {
                let x = usev[bi][w] | (out[w] & !def[bi][w]);
                if x != live[bi][w] {
                    live[bi][w] = x;
                    changed = true;
                }
            }
        }
    }
    // the live set excludes the block's own phi results; a merge happens before the phis,
    // which are evaluated per state, so the results of the phis count as live too
    f.live = (0..n)
        .map(|bi| {
            let mut v = Vec::new();
            for r in 0..f.nregs {
                if live[bi][r / 64] >> (r % 64) & 1 == 1 {
                    v.push(r as u32);
                }
            }
            for (d, _, _) in &f.blocks[bi].phis {
                v.push(*d);
            }
            v
        })
        .collect();
}
