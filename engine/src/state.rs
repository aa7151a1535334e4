//! Values, path conditions and machine states.
use crate::ir::Func;
use crate::mem::*;
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u8, u64),
    S(T),
    A(Rc<Vec<V>>),
}

pub struct PcNode {
    pub parent: Pc,
    pub cond: T,
    pub depth: u32,
    pub facts: RefCell<HashMap<T, u128>>,
}
pub type Pc = Option<Rc<PcNode>>;

impl Drop for PcNode {
    fn drop(&mut self) {
        // iterative, the chains can be long
        let mut p = self.parent.take();
        while let Some(x) = p {
            match Rc::try_unwrap(x) {
                Ok(mut n) => p = n.parent.take(),
                Err(_) => break,
            }
        }
    }
}

pub fn pc_depth(p: &Pc) -> u32 {
    p.as_ref().map(|x| x.depth).unwrap_or(0)
}
pub fn pc_push(p: &Pc, cond: T, c: &Ctx) -> Pc {
    let mut f = HashMap::new();
    f.insert(cond, 1);
    match *c.op(cond) {
        Op::Not(x) => {
            f.insert(x, 0);
        }
        Op::Eq(a, b) => {
            if let Some(k) = c.as_const(a) {
                f.insert(b, k);
            } else if let Some(k) = c.as_const(b) {
                f.insert(a, k);
            }
        }
        _ => {}
    }
    Some(Rc::new(PcNode { parent: p.clone(), cond, depth: pc_depth(p) + 1, facts: RefCell::new(f) }))
}
pub fn pc_conds(p: &Pc) -> Vec<T> {
    let mut v = Vec::new();
    let mut x = p.as_ref();
    while let Some(n) = x {
        v.push(n.cond);
        x = n.parent.as_ref();
    }
    v.reverse();
    v
}
pub fn pc_fact(p: &Pc, t: T) -> Option<u128> {
    let mut x = p.as_ref();
    while let Some(n) = x {
        if let Some(v) = n.facts.borrow().get(&t) {
            return Some(*v);
        }
        x = n.parent.as_ref();
    }
    None
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub pc: Pc,
    pub model: Option<Rc<Model>>,
    /// number of draws of 8, 16, 32 and 64 bits
    pub draws: [u32; 4],
    pub obs: Rc<Vec<(u32, T)>>,
    pub allow_panic: bool,
    pub policy: u8,
    pub env: Rc<BTreeMap<Vec<u8>, u32>>,
    pub files: Rc<BTreeMap<Vec<u8>, Rc<Vec<Cell>>>>,
    /// fd -> (path, position)
    pub fds: Rc<BTreeMap<u32, (Vec<u8>, u64)>>,
    pub facts0: Rc<RefCell<HashMap<T, u128>>>,
}

#[derive(Clone)]
pub struct FS {
    pub st: State,
    pub regs: Vec<V>,
    pub blk: u32,
    pub ip: u32,
    pub allocas: Vec<u32>,
}

pub enum Stop {
    /// needs the concrete value of a term
    Split(T),
    /// the path ends (panic reported, assumption false, exit)
    End,
    /// the engine cannot go on
    Fatal(String),
}
pub type X<A> = Result<A, Stop>;

pub enum Flow {
    Next,
    Goto(u32),
    Ret(V),
    Branch(Vec<(T, u32)>),
    Calls(Vec<(State, V)>, Option<u32>, Option<u32>),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub stack: Vec<String>,
    pub tape: [Vec<u128>; 4],
    pub prg: Vec<([u64; 4], u64, u64)>,
    pub obs: Vec<(u32, u128)>,
    pub exact: bool,
}

pub struct FinalState {
    pub tape: [Vec<u128>; 4],
    pub prg: Vec<([u64; 4], u64, u64)>,
    pub obs: Vec<(u32, u128)>,
}

pub type FRc = Rc<Func>;
