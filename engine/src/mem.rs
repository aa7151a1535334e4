//! Object memory with byte cells, copy-on-write.
use crate::term::T;
use std::rc::Rc;

/// A byte: part `k` of term `t`, or a concrete byte, or an uninitialised one.
#[derive(Clone, Copy, Debug)]
pub struct Cell {
    pub t: u32,
    pub k: u8,
    /// size of the store that wrote a concrete byte, 0 unknown
    pub z: u8,
}
impl PartialEq for Cell {
    fn eq(&self, o: &Cell) -> bool {
        self.t == o.t && self.k == o.k
    }
}
impl Eq for Cell {}
pub const CONC: u32 = u32::MAX;
pub const UNDEF: u32 = u32::MAX - 1;
impl Cell {
    pub fn c(b: u8) -> Cell {
        Cell { t: CONC, k: b, z: 0 }
    }
    pub fn cz(b: u8, z: u8) -> Cell {
        Cell { t: CONC, k: b, z }
    }
    pub fn undef() -> Cell {
        Cell { t: UNDEF, k: 0, z: 0 }
    }
    pub fn s(t: T, k: u8) -> Cell {
        Cell { t, k, z: 0 }
    }
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub cells: Vec<Cell>,
    pub ro: bool,
}

type Chunk = Vec<Option<Rc<Obj>>>;
const CH: usize = 64;

#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Option<Rc<Chunk>>>,
    pub next: u32,
}

/// ids below this are globals and functions
pub const HEAP: u32 = 1 << 14;
pub const BASE: u64 = 1 << 31;

pub fn addr_of(id: u32) -> u64 {
    ((id as u64) << 32) | BASE
}

impl Mem {
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let i = id as usize;
        self.chunks.get(i / CH)?.as_ref()?[i % CH].as_ref()
    }
    pub fn set(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let i = id as usize;
        if self.chunks.len() <= i / CH {
            if o.is_none() {
                return;
            }
            self.chunks.resize(i / CH + 1, None);
        }
        let c = self.chunks[i / CH].get_or_insert_with(|| Rc::new(vec![None; CH]));
        Rc::make_mut(c)[i % CH] = o;
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let i = id as usize;
        let c = self.chunks.get_mut(i / CH)?.as_mut()?;
        let o = Rc::make_mut(c)[i % CH].as_mut()?;
        Some(Rc::make_mut(o))
    }
    pub fn alloc(&mut self, size: u64, zero: bool) -> u32 {
        let id = HEAP + self.next;
        self.next += 1;
        let c = if zero { Cell::c(0) } else { Cell::undef() };
        self.set(id, Some(Rc::new(Obj { cells: vec![c; size as usize], ro: false })));
        id
    }
    /// ids of objects that differ (by identity) between two memories
    pub fn diff(&self, o: &Mem) -> Vec<u32> {
        let mut v = Vec::new();
        let n = self.chunks.len().max(o.chunks.len());
        for i in 0..n {
            let a = self.chunks.get(i).and_then(|x| x.as_ref());
            let b = o.chunks.get(i).and_then(|x| x.as_ref());
            match (a, b) {
                (None, None) => {}
                (Some(a), Some(b)) if Rc::ptr_eq(a, b) => {}
                _ => {
                    for k in 0..CH {
                        let x = a.and_then(|c| c[k].as_ref());
                        let y = b.and_then(|c| c[k].as_ref());
                        match (x, y) {
                            (None, None) => {}
                            (Some(x), Some(y)) if Rc::ptr_eq(x, y) => {}
                            _ => v.push((i * CH + k) as u32),
                        }
                    }
                }
            }
        }
        v
    }
}
