//! Abstract memory: allocations as sorted cells.
use crate::term::T;
use std::rc::Rc;

/// stack index, or GLOBAL|index
pub type A = u32;
pub const GLOBAL: u32 = 1 << 31;
/// imported compile-time allocation
pub const CONSTA: u32 = 1 << 30;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub a: A,
    pub serial: u32,
    pub off: i64,
    /// symbolic extra element index (0 = none) times stride
    pub sym: T,
    pub stride: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Int(T),
    Ptr(Ptr),
    Fn(u32),
    Vt(u32),
    Ghost(u32),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Cell {
    pub off: u32,
    pub size: u32,
    pub v: Val,
}

#[derive(Clone, Debug)]
pub struct Alloc {
    pub size: u32,
    pub align: u32,
    pub serial: u32,
    pub ro: bool,
    pub cells: Vec<Cell>,
}

#[derive(Clone)]
pub struct Mem {
    pub stack: Vec<Option<Rc<Alloc>>>,
    pub globals: Vec<Option<Rc<Alloc>>>,
    pub serial: u32,
}

/// a value being moved around
#[derive(Clone, Debug)]
pub enum V {
    Zst,
    S(Val),
    P(Val, Val),
    B(Vec<Cell>),
}

impl Mem {
    pub fn new() -> Self {
        Mem { stack: vec![], globals: vec![], serial: 1 }
    }
    pub fn get(&self, a: A) -> Option<&Rc<Alloc>> {
        if a & GLOBAL != 0 {
            self.globals.get((a & !GLOBAL) as usize)?.as_ref()
        } else {
            self.stack.get(a as usize)?.as_ref()
        }
    }
    pub fn get_mut(&mut self, a: A) -> Option<&mut Alloc> {
        let r = if a & GLOBAL != 0 {
            self.globals.get_mut((a & !GLOBAL) as usize)?.as_mut()
        } else {
            self.stack.get_mut(a as usize)?.as_mut()
        };
        r.map(Rc::make_mut)
    }
    pub fn new_global(&mut self, size: u32, align: u32, ro: bool) -> Ptr {
        self.serial += 1;
        let a = self.globals.len() as u32 | GLOBAL;
        self.globals.push(Some(Rc::new(Alloc { size, align, serial: self.serial, ro, cells: vec![] })));
        Ptr { a, serial: self.serial, off: 0, sym: 0, stride: 0 }
    }
}

impl Alloc {
    /// index of first cell whose end is > off
    pub fn first(&self, off: u32) -> usize {
        if let Some(l) = self.cells.last() {
            if l.off + l.size <= off {
                return self.cells.len();
            }
        }
        self.cells.partition_point(|c| c.off + c.size <= off)
    }
    /// exact cell
    pub fn exact(&self, off: u32, size: u32) -> Option<Val> {
        let i = self.first(off);
        let c = self.cells.get(i)?;
        if c.off == off && c.size == size {
            Some(c.v)
        } else {
            None
        }
    }
}
