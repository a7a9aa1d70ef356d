//! Abstract interpreter over lowered MIR.
use crate::lower::*;
use crate::mem::*;
use crate::term::*;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar as IScalar};
use rustc_middle::mir::{self, BinOp, UnOp};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum EvKind {
    Panic,
    Overflow,
    Bounds,
    DivZero,
    Memory,
    Unreachable,
    TaintBranch,
    TaintDiv,
    TaintAddr,
    TaintCmp,
    Static,
    Effect,
    ForeignRng,
    Contract,
    Unsupported,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub kind: EvKind,
    pub func: String,
    pub site: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub root: String,
}

#[derive(Debug)]
pub enum Stop {
    Diverge,
    Fork(Vec<(Vec<(T, bool)>, u32)>),
}
pub type R<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Frame<'tcx> {
    pub body: Rc<LBody<'tcx>>,
    pub base: u32,
    pub bb: u32,
    pub si: u32,
    pub ret: Option<(Pl, TyI<'tcx>)>,
    pub ret_bb: u32,
    pub hook: u32,
}

#[derive(Clone, Copy, Debug)]
pub struct Pl {
    pub p: Ptr,
    pub int: Option<T>,
    pub meta: Option<Val>,
}

#[derive(Clone)]
pub struct Draw {
    pub rng: u32,
    pub bytes: Vec<T>,
}

#[derive(Clone)]
pub struct Machine<'tcx> {
    pub frames: Vec<Frame<'tcx>>,
    pub mem: Mem,
    pub facts: Vec<(T, bool)>,
    pub draws: Vec<Draw>,
    /// (alloc, serial, off, size) written by volatile stores, in order
    pub vstores: Vec<(A, u32, i64, u32)>,
    /// byte values overwritten with zero by volatile stores
    pub wiped: Vec<T>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ghost {
    Hash { alg: String, data: Rc<Vec<T>> },
    Xof { app: T, pos: u32 },
    /// an opaque value (curve key, point, wrapped generic value ...)
    Opaque(T),
}

#[derive(Clone, Debug)]
pub enum Action {
    Body,
    Intrinsic(String),
    Model(crate::models::Model),
    Noop,
    Never(String),
    Virtual(usize),
    Foreign(String),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub calls: u64,
    pub branches: u64,
    pub splits: u64,
    pub asserts: u64,
    pub derefs: u64,
    pub divs: u64,
    pub intr: u64,
}

pub struct Engine<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub lo: Lower<'tcx>,
    pub st: Store,
    pub m: Machine<'tcx>,
    pub bodies: HashMap<Instance<'tcx>, Rc<LBody<'tcx>>>,
    pub actions: HashMap<Instance<'tcx>, Action>,
    pub consts: Vec<Rc<Alloc>>,
    pub const_map: HashMap<AllocId, Ptr>,
    pub fns: Vec<Instance<'tcx>>,
    pub vts: Vec<(Ty<'tcx>, Ty<'tcx>)>,
    pub ghosts: Vec<Ghost>,
    pub gmap: HashMap<Ghost, u32>,
    pub events: Vec<Event>,
    pub evkeys: HashSet<(EvKind, String, String)>,
    pub stats: Stats,
    pub funcs: HashMap<String, u64>,
    pub root: String,
    pub ovf_of: HashMap<T, T>,
    pub split_depth: usize,
    pub explore: bool,
    pub cfg: crate::models::Cfg,
    pub addr_syms: HashMap<(A, u32), T>,
    pub hookres: Vec<(u32, V)>,
    pub fork_hook: bool,
    pub step_limit: u64,
    /// provenance: statement spans of workspace functions
    pub locs: Vec<(Span, Rc<str>)>,
    pub reads_of_ro: BTreeMap<String, u64>,
    pub drop_log: Vec<String>,
    pub asserted: HashSet<(String, u32)>,
    pub xof_log: Vec<(T, u32, u32)>,
    /// return type whose outermost producing call in the workspace is observed and replaced
    pub hook_ret: Option<Ty<'tcx>>,
    pub hooks: Vec<crate::models::EncHook>,
    pub contract_insts: Vec<(&'static str, Instance<'tcx>)>,
}

impl<'tcx> Engine<'tcx> {
    pub fn ptr_size(&self) -> u32 {
        self.st.pw as u32 / 8
    }
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        let mut st = Store::new();
        st.be = tcx.data_layout.endian == rustc_abi::Endian::Big;
        st.pw = tcx.data_layout.pointer_size().bits() as u16;
        Engine {
            tcx,
            lo: Lower { tcx },
            st,
            m: Machine { frames: vec![], mem: Mem::new(), facts: vec![], draws: vec![], vstores: vec![], wiped: vec![] },
            bodies: HashMap::new(),
            actions: HashMap::new(),
            consts: vec![],
            const_map: HashMap::new(),
            fns: vec![],
            vts: vec![],
            ghosts: vec![],
            gmap: HashMap::new(),
            events: vec![],
            evkeys: HashSet::new(),
            stats: Stats::default(),
            funcs: HashMap::new(),
            root: String::new(),
            ovf_of: HashMap::new(),
            split_depth: 0,
            explore: false,
            cfg: Default::default(),
            addr_syms: HashMap::new(),
            hookres: vec![],
            fork_hook: false,
            step_limit: 2_000_000_000,
            locs: vec![(rustc_span::DUMMY_SP, "".into())],
            reads_of_ro: BTreeMap::new(),
            drop_log: vec![],
            asserted: HashSet::new(),
            xof_log: vec![],
            hook_ret: None,
            hooks: vec![],
            contract_insts: vec![],
        }
    }
    pub fn ghost(&mut self, g: Ghost) -> u32 {
        if let Some(&i) = self.gmap.get(&g) {
            return i;
        }
        let i = self.ghosts.len() as u32;
        self.ghosts.push(g.clone());
        self.gmap.insert(g, i);
        i
    }
    fn cur_span(&self) -> Span {
        match self.m.frames.last() {
            Some(f) => {
                let b = &f.body.blocks[f.bb as usize];
                b.st.get(f.si as usize).map(|s| s.1).unwrap_or(b.span)
            }
            None => rustc_span::DUMMY_SP,
        }
    }
    pub fn span_str(&self, sp: Span) -> String {
        let s = self.tcx.sess.source_map().span_to_diagnostic_string(sp);
        // file:line:col: line:col -> file:line
        let s = s.split(": ").next().unwrap_or(&s).to_string();
        let parts: Vec<&str> = s.rsplitn(3, ':').collect();
        if parts.len() == 3 {
            format!("{}:{}", parts[2], parts[1])
        } else {
            s
        }
    }
    pub fn here(&self) -> String {
        let f = self.m.frames.last().map(|f| f.body.name.clone()).unwrap_or_default();
        format!("{} in {f}", self.span_str(self.cur_span()))
    }
    pub fn empty_machine(&self) -> Machine<'tcx> {
        Machine { frames: vec![], mem: Mem::new(), facts: vec![], draws: vec![], vstores: vec![], wiped: vec![] }
    }
    pub fn loc_str(&self, t: T) -> String {
        let l = self.st.d[t as usize].loc as usize;
        match self.locs.get(l) {
            Some((sp, n)) if l != 0 => format!("{n} ({})", self.span_str(*sp)),
            _ => "-".into(),
        }
    }
    pub fn is_repo_fn(&self, i: Instance<'tcx>) -> bool {
        let k = self.tcx.crate_name(i.def_id().krate);
        matches!(k.as_str(), "ml_kem" | "x_wing" | "dhkem")
    }
    pub fn ev(&mut self, kind: EvKind, msg: impl Into<String>) {
        let msg = msg.into();
        // attribute to the innermost workspace frame
        let mut func = String::new();
        let mut site = String::new();
        for f in self.m.frames.iter().rev() {
            if self.is_repo_fn(f.body.inst) || func.is_empty() {
                func = f.body.name.clone();
                let b = &f.body.blocks[f.bb as usize];
                let sp = b.st.get(f.si as usize).map(|s| s.1).unwrap_or(b.span);
                site = self.span_str(sp);
                if self.is_repo_fn(f.body.inst) {
                    break;
                }
            }
        }
        let key = (kind, site.clone(), msg.clone());
        if !self.evkeys.insert(key) {
            return;
        }
        let stack = self
            .m
            .frames
            .iter()
            .rev()
            .take(12)
            .map(|f| {
                let b = &f.body.blocks[f.bb as usize];
                let sp = b.st.get(f.si as usize).map(|s| s.1).unwrap_or(b.span);
                format!("{} ({})", f.body.name, self.span_str(sp))
            })
            .collect();
        self.events.push(Event { kind, func, site, msg, stack, root: self.root.clone() });
    }
    pub fn fail<X>(&mut self, kind: EvKind, msg: impl Into<String>) -> R<X> {
        self.ev(kind, msg);
        Err(Stop::Diverge)
    }
    pub fn unsup<X>(&mut self, msg: impl Into<String>) -> R<X> {
        self.fail(EvKind::Unsupported, msg)
    }

    // ------------------------------------------------------------ memory
    pub fn alloc(&self, p: &Ptr) -> Option<&Rc<Alloc>> {
        let a = if p.a & GLOBAL == 0 && p.a & CONSTA != 0 {
            self.consts.get((p.a & !CONSTA) as usize)?
        } else {
            self.m.mem.get(p.a)?
        };
        if a.serial == p.serial {
            Some(a)
        } else {
            None
        }
    }
    fn check(&mut self, p: &Ptr, size: u32, align: u32, write: bool) -> R<()> {
        let (asize, aalign, ro) = match self.alloc(p) {
            Some(a) => (a.size, a.align, a.ro),
            None => return self.fail(EvKind::Memory, "access through a dangling pointer"),
        };
        if write && ro {
            return self.fail(EvKind::Memory, "write to a read-only object");
        }
        let (slo, shi) = if p.sym != 0 { self.st.range(p.sym) } else { (0, 0) };
        let lo = p.off + (slo as i64).saturating_mul(p.stride as i64);
        let hi = p.off.saturating_add((shi.min(1 << 40) as i64).saturating_mul(p.stride as i64));
        if lo < 0 || hi + size as i64 > asize as i64 {
            return self.fail(
                EvKind::Memory,
                format!("access of {size} bytes at offset {lo}..{hi} of an object of {asize} bytes"),
            );
        }
        if align > 1 && (aalign < align || p.off % align as i64 != 0 || p.stride % align != 0) {
            self.ev(EvKind::Memory, format!("misaligned access (needs {align}, object aligned to {aalign}, offset {})", p.off));
        }
        Ok(())
    }
    pub fn local_ptr(&mut self, l: u32) -> Ptr {
        let f = self.m.frames.last().unwrap();
        let idx = f.base + l;
        let slot = &self.m.mem.stack[idx as usize];
        let serial = match slot {
            Some(a) => a.serial,
            None => {
                let ti = f.body.locals[l as usize];
                self.m.mem.serial += 1;
                let serial = self.m.mem.serial;
                self.m.mem.stack[idx as usize] =
                    Some(Rc::new(Alloc { size: ti.size, align: ti.align, serial, ro: false, cells: vec![] }));
                serial
            }
        };
        Ptr { a: idx, serial, off: 0, sym: 0, stride: 0 }
    }
    fn slice_val(&mut self, v: Val, size: u32, lo: u32, n: u32) -> R<Val> {
        match v {
            Val::Int(t) => Ok(Val::Int(self.st.mem_slice(t, size, lo, n))),
            _ => self.unsup("partial access to a pointer or an opaque value"),
        }
    }
    /// read a scalar cell
    pub fn read_scalar(&mut self, p: &Ptr, size: u32, align: u32) -> R<Val> {
        self.check(p, size, align, false)?;
        if p.sym != 0 {
            return self.read_sym(p, size);
        }
        let off = p.off as u32;
        let a = self.alloc(p).unwrap();
        if let Some(v) = a.exact(off, size) {
            return Ok(v);
        }
        let a = a.clone();
        self.assemble(&a, off, size)
    }
    fn assemble(&mut self, a: &Alloc, off: u32, size: u32) -> R<Val> {
        let mut i = a.first(off);
        let mut pos = off;
        let mut parts: Vec<T> = vec![];
        while pos < off + size {
            let Some(c) = a.cells.get(i) else {
                return self.fail(EvKind::Memory, "read of uninitialized memory");
            };
            if c.off > pos {
                return self.fail(EvKind::Memory, "read of uninitialized memory");
            }
            let end = (c.off + c.size).min(off + size);
            match c.v {
                Val::Int(t) => {
                    let s = self.st.mem_slice(t, c.size, pos - c.off, end - pos);
                    parts.push(s);
                }
                Val::Ghost(g) if c.off == pos && c.size == size => return Ok(Val::Ghost(g)),
                _ => return self.unsup("partial access to a pointer or an opaque value"),
            }
            pos = end;
            i += 1;
        }
        if size > 16 {
            return self.unsup("wide scalar");
        }
        Ok(Val::Int(self.st.mem_concat(&parts)))
    }
    fn read_sym(&mut self, p: &Ptr, size: u32) -> R<Val> {
        if self.st.taint(p.sym) != 0 {
            self.ev(EvKind::TaintAddr, "memory address depends on secret data");
        }
        let (lo, hi) = self.st.range(p.sym);
        if hi - lo > 4096 {
            return self.unsup("symbolic address with a large range");
        }
        let mut vals = vec![];
        for i in lo..=hi {
            let q = Ptr { off: p.off + (i as i64) * p.stride as i64, sym: 0, ..*p };
            match self.read_scalar(&q, size, 1)? {
                Val::Int(t) => vals.push(t),
                _ => return self.unsup("symbolic read of pointers"),
            }
        }
        let w = (size * 8) as u16;
        if vals.iter().all(|&t| self.st.is_const(t)) {
            let mut tab = vec![0; lo as usize];
            tab.extend(vals.iter().map(|&t| self.st.cval(t).unwrap()));
            let sym = p.sym;
            return Ok(Val::Int(self.st.tab(tab, sym, w)));
        }
        if vals.len() > 300 {
            return self.unsup("symbolic read over a large range");
        }
        let mut acc = *vals.last().unwrap();
        for (k, &v) in vals.iter().enumerate().rev().skip(1) {
            let iw = self.st.w(p.sym);
            let c = self.st.konst(lo + k as u128, iw);
            let e = self.st.eq(p.sym, c);
            acc = self.st.ite(e, v, acc);
        }
        Ok(Val::Int(acc))
    }
    /// remove [off,off+size) from the cells, keeping fragments of integers outside
    fn clear(&mut self, p: &Ptr, size: u32) -> R<usize> {
        let off = p.off as u32;
        let end = off + size;
        let a = self.m.mem.get_mut(p.a).unwrap();
        let i = a.first(off);
        let mut j = i;
        while j < a.cells.len() && a.cells[j].off < end {
            j += 1;
        }
        if i == j {
            return Ok(i);
        }
        let first = a.cells[i];
        let last = a.cells[j - 1];
        let mut repl: Vec<Cell> = vec![];
        let mut at = i;
        if first.off < off || last.off + last.size > end {
            if first.off < off {
                let n = off - first.off;
                let v = self.slice_val(first.v, first.size, 0, n)?;
                repl.push(Cell { off: first.off, size: n, v });
                at += 1;
            }
            if last.off + last.size > end {
                let n = last.off + last.size - end;
                let v = self.slice_val(last.v, last.size, end - last.off, n)?;
                repl.push(Cell { off: end, size: n, v });
            }
        }
        let a = self.m.mem.get_mut(p.a).unwrap();
        a.cells.splice(i..j, repl);
        Ok(at)
    }
    pub fn write_scalar(&mut self, p: &Ptr, size: u32, align: u32, v: Val) -> R<()> {
        self.check(p, size, align, true)?;
        if p.sym != 0 {
            return self.write_sym(p, size, v);
        }
        let off = p.off as u32;
        {
            let a = self.m.mem.get_mut(p.a).unwrap();
            let i = a.first(off);
            match a.cells.get_mut(i) {
                Some(c) if c.off == off && c.size == size => {
                    c.v = v;
                    return Ok(());
                }
                None => {
                    a.cells.push(Cell { off, size, v });
                    return Ok(());
                }
                Some(c) if c.off >= off + size => {
                    a.cells.insert(i, Cell { off, size, v });
                    return Ok(());
                }
                _ => {}
            }
        }
        let i = self.clear(p, size)?;
        let a = self.m.mem.get_mut(p.a).unwrap();
        a.cells.insert(i, Cell { off, size, v });
        Ok(())
    }
    fn write_sym(&mut self, p: &Ptr, size: u32, v: Val) -> R<()> {
        if self.st.taint(p.sym) != 0 {
            self.ev(EvKind::TaintAddr, "memory address depends on secret data");
        }
        let (lo, hi) = self.st.range(p.sym);
        if hi - lo > 300 {
            return self.unsup("symbolic write over a large range");
        }
        let Val::Int(v) = v else { return self.unsup("symbolic write of a pointer") };
        for i in lo..=hi {
            let q = Ptr { off: p.off + (i as i64) * p.stride as i64, sym: 0, ..*p };
            let Val::Int(old) = self.read_scalar(&q, size, 1)? else {
                return self.unsup("symbolic write over pointers");
            };
            let iw = self.st.w(p.sym);
            let c = self.st.konst(i, iw);
            let e = self.st.eq(p.sym, c);
            let x = self.st.ite(e, v, old);
            self.write_scalar(&q, size, 1, Val::Int(x))?;
        }
        Ok(())
    }
    pub fn read_cells(&mut self, p: &Ptr, size: u32, align: u32) -> R<Vec<Cell>> {
        if size == 0 {
            return Ok(vec![]);
        }
        self.check(p, size, align, false)?;
        if p.sym != 0 {
            // read unit by unit (small aggregates only)
            let unit = if align >= 1 && size % align == 0 { align.min(8) } else { 1 };
            let mut out = vec![];
            let mut o = 0;
            while o < size {
                let q = Ptr { off: p.off + o as i64, ..*p };
                let v = self.read_sym(&q, unit)?;
                out.push(Cell { off: o, size: unit, v });
                o += unit;
            }
            return Ok(out);
        }
        let off = p.off as u32;
        let a = self.alloc(p).unwrap().clone();
        let mut i = a.first(off);
        let mut out = Vec::with_capacity(8);
        while i < a.cells.len() && a.cells[i].off < off + size {
            let c = a.cells[i];
            if c.off >= off && c.off + c.size <= off + size {
                out.push(Cell { off: c.off - off, size: c.size, v: c.v });
            } else {
                let s = c.off.max(off);
                let e = (c.off + c.size).min(off + size);
                let v = self.slice_val(c.v, c.size, s - c.off, e - s)?;
                out.push(Cell { off: s - off, size: e - s, v });
            }
            i += 1;
        }
        Ok(out)
    }
    pub fn write_cells(&mut self, p: &Ptr, size: u32, align: u32, cells: &[Cell]) -> R<()> {
        if size == 0 {
            return Ok(());
        }
        self.check(p, size, align, true)?;
        if p.sym != 0 {
            if cells.iter().map(|c| c.size).sum::<u32>() != size {
                return self.unsup("symbolic write of a partially initialized value");
            }
            for c in cells {
                let q = Ptr { off: p.off + c.off as i64, ..*p };
                self.write_sym(&q, c.size, c.v)?;
            }
            return Ok(());
        }
        let i = self.clear(p, size)?;
        let off = p.off as u32;
        let a = self.m.mem.get_mut(p.a).unwrap();
        if i == a.cells.len() {
            a.cells.extend(cells.iter().map(|c| Cell { off: c.off + off, ..*c }));
        } else {
            a.cells.splice(i..i, cells.iter().map(|c| Cell { off: c.off + off, ..*c }));
        }
        Ok(())
    }
    pub fn as_ptr(&mut self, v: Val) -> R<Ptr> {
        match v {
            Val::Ptr(p) => Ok(p),
            Val::Int(_) => self.fail(EvKind::Memory, "dereference of an integer address"),
            _ => self.fail(EvKind::Memory, "dereference of a function pointer or opaque value"),
        }
    }
    pub fn read_val(&mut self, pl: &Pl, ti: TyI<'tcx>) -> R<V> {
        if ti.size == 0 {
            return Ok(V::Zst);
        }
        if pl.int.is_some() {
            return self.fail(EvKind::Memory, "dereference of an integer address");
        }
        let p = pl.p;
        match ti.kind {
            Kind::Int { .. } | Kind::Ptr => Ok(V::S(self.read_scalar(&p, ti.size, ti.align)?)),
            Kind::Fat => {
                let n = self.ptr_size();
                let a = self.read_scalar(&p, n, n)?;
                let b = self.read_scalar(&Ptr { off: p.off + n as i64, ..p }, n, n)?;
                Ok(V::P(a, b))
            }
            Kind::Agg => Ok(V::B(self.read_cells(&p, ti.size, ti.align)?)),
        }
    }
    pub fn write_val(&mut self, pl: &Pl, ti: TyI<'tcx>, v: V) -> R<()> {
        if ti.size == 0 {
            return Ok(());
        }
        if pl.int.is_some() {
            return self.fail(EvKind::Memory, "write through an integer address");
        }
        let p = pl.p;
        match v {
            V::Zst => Ok(()),
            V::S(v) => self.write_scalar(&p, ti.size, ti.align, v),
            V::P(a, b) => {
                let n = self.ptr_size();
                if ti.size == 2 * n {
                    self.write_scalar(&p, n, ti.align.min(n), a)?;
                    self.write_scalar(&Ptr { off: p.off + n as i64, ..p }, n, ti.align.min(n), b)
                } else {
                    self.write_scalar(&p, ti.size, ti.align, a)
                }
            }
            V::B(c) => self.write_cells(&p, ti.size, ti.align, &c),
        }
    }
    /// reinterpret a value as cells
    pub fn to_cells(&self, v: &V, size: u32) -> Vec<Cell> {
        match v {
            V::Zst => vec![],
            V::S(x) => vec![Cell { off: 0, size, v: *x }],
            V::P(a, b) => {
                let n = self.ptr_size();
                vec![Cell { off: 0, size: n, v: *a }, Cell { off: n, size: n, v: *b }]
            }
            V::B(c) => c.clone(),
        }
    }
    /// change representation to match a type (transmutes, scalar newtypes)
    pub fn conform(&mut self, v: V, ti: TyI<'tcx>) -> R<V> {
        if ti.size == 0 {
            return Ok(V::Zst);
        }
        Ok(match (ti.kind, v) {
            (Kind::Int { .. } | Kind::Ptr, V::B(c)) => {
                if c.len() == 1 && c[0].off == 0 && c[0].size == ti.size {
                    V::S(c[0].v)
                } else {
                    let a = Alloc { size: ti.size, align: 1, serial: 0, ro: true, cells: c };
                    V::S(self.assemble(&a, 0, ti.size)?)
                }
            }
            (Kind::Fat, V::B(c)) => {
                let a = Alloc { size: ti.size, align: 1, serial: 0, ro: true, cells: c };
                let n = self.ptr_size();
                let g = |s: &mut Self, o| match a.exact(o, n) {
                    Some(v) => Ok(v),
                    None => s.assemble(&a, o, n),
                };
                V::P(g(self, 0)?, g(self, n)?)
            }
            (Kind::Agg, v @ (V::S(_) | V::P(..))) => V::B(self.to_cells(&v, ti.size)),
            (_, v) => v,
        })
    }

    // ------------------------------------------------------------ places and operands
    pub fn place(&mut self, lp: &LPlace<'tcx>) -> R<Pl> {
        let p = self.local_ptr(lp.local);
        let mut pl = Pl { p, int: None, meta: None };
        for pr in &lp.projs {
            match pr {
                Proj::Off(o) => {
                    if pl.int.is_none() {
                        pl.p.off += o
                    } else {
                        // field of a zero-sized object behind a dangling pointer
                    }
                }
                Proj::Deref { fat } => {
                    self.stats.derefs += 1;
                    if pl.int.is_some() {
                        return self.fail(EvKind::Memory, "dereference of an integer address");
                    }
                    let n = self.ptr_size();
                    let v = self.read_scalar(&pl.p.clone(), n, n)?;
                    let meta = if *fat {
                        Some(self.read_scalar(&Ptr { off: pl.p.off + n as i64, ..pl.p }, n, n)?)
                    } else {
                        None
                    };
                    pl = self.pl_of(v, meta)?;
                }
                Proj::Index { local, stride, len } => {
                    let lp = self.local_ptr(*local);
                    let psz = self.ptr_size();
                    let Val::Int(i) = self.read_scalar(&lp, psz, psz)? else {
                        return self.unsup("index");
                    };
                    let n = match len {
                        Some(n) => self.st.usize_k(*n as u128),
                        None => match pl.meta {
                            Some(Val::Int(t)) => t,
                            _ => return self.unsup("index without length"),
                        },
                    };
                    // MIR asserts precede every index; re-check here for unchecked paths
                    let inb = self.st.ult(i, n);
                    if self.decide(inb) == Some(false) {
                        return self.fail(EvKind::Bounds, "index out of bounds");
                    }
                    pl.meta = None;
                    self.add_index(&mut pl, i, *stride)?;
                }
                Proj::ConstIdxEnd { offset, stride } => {
                    let Some(Val::Int(n)) = pl.meta else { return self.unsup("slice length") };
                    let Some(n) = self.st.as_const(n) else { return self.unsup("slice length") };
                    pl.p.off += (n as i64 - *offset as i64) * *stride as i64;
                    pl.meta = None;
                }
                Proj::SubsliceEnd { from, to, stride } => {
                    let Some(Val::Int(n)) = pl.meta else { return self.unsup("slice length") };
                    let Some(n) = self.st.as_const(n) else { return self.unsup("slice length") };
                    pl.p.off += *from as i64 * *stride as i64;
                    pl.meta = Some(Val::Int(self.st.usize_k(n - *from as u128 - *to as u128)));
                }
                Proj::SubsliceArr { from, stride } => pl.p.off += *from as i64 * *stride as i64,
                Proj::Unsupported(s, _) => return self.unsup(*s),
            }
        }
        Ok(pl)
    }
    pub fn pl_of(&mut self, v: Val, meta: Option<Val>) -> R<Pl> {
        match v {
            Val::Ptr(p) => Ok(Pl { p, int: None, meta }),
            Val::Int(t) => Ok(Pl { p: Ptr { a: 0, serial: 0, off: 0, sym: 0, stride: 0 }, int: Some(t), meta }),
            _ => self.unsup("dereference of an opaque value"),
        }
    }
    pub fn pl_val(&self, pl: &Pl) -> Val {
        match pl.int {
            Some(t) => Val::Int(t),
            None => Val::Ptr(pl.p),
        }
    }
    pub fn add_index(&mut self, pl: &mut Pl, i: T, stride: u32) -> R<()> {
        if pl.int.is_some() {
            if stride == 0 {
                return Ok(());
            }
            return self.unsup("index off an integer address");
        }
        if let Some(c) = self.st.as_const(i) {
            pl.p.off += c as i64 * stride as i64;
            return Ok(());
        }
        if stride == 0 {
            return Ok(());
        }
        if pl.p.sym != 0 {
            if pl.p.stride == stride {
                pl.p.sym = self.st.add(pl.p.sym, i);
                return Ok(());
            }
            return self.unsup("two symbolic indices");
        }
        pl.p.sym = i;
        pl.p.stride = stride;
        Ok(())
    }
    pub fn operand(&mut self, o: &LOp<'tcx>) -> R<V> {
        match o {
            LOp::Copy(lp) | LOp::Move(lp) => {
                if lp.projs.is_empty() {
                    if let Kind::Int { .. } | Kind::Ptr = lp.ti.kind {
                        let f = self.m.frames.last().unwrap();
                        if let Some(a) = &self.m.mem.stack[(f.base + lp.local) as usize] {
                            if let Some(v) = a.exact(0, lp.ti.size) {
                                return Ok(V::S(v));
                            }
                        }
                    }
                }
                if lp.ti.size == 0 {
                    return Ok(V::Zst);
                }
                let pl = self.place(lp)?;
                self.read_val(&pl, lp.ti)
            }
            LOp::Const(c, ti) => self.const_val(*c, *ti),
            LOp::FnDef(_) => Ok(V::Zst),
            LOp::Bool(b, _) => Ok(V::S(Val::Int(self.st.boolean(*b)))),
            LOp::Bad(s) => self.unsup(s.clone()),
        }
    }
    pub fn int_op(&mut self, o: &LOp<'tcx>) -> R<T> {
        match self.operand(o)? {
            V::S(Val::Int(t)) => Ok(t),
            V::S(v) => self.addr_of_val(v),
            _ => self.unsup("integer operand expected"),
        }
    }
    pub fn const_val(&mut self, c: mir::ConstValue, ti: TyI<'tcx>) -> R<V> {
        Ok(match c {
            mir::ConstValue::Scalar(IScalar::Int(i)) => {
                let n = i.size().bits() as u16;
                V::S(Val::Int(self.st.konst(i.to_bits(i.size()), n)))
            }
            mir::ConstValue::Scalar(IScalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                V::S(self.import_ptr(prov.alloc_id(), off.bytes() as i64)?)
            }
            mir::ConstValue::ZeroSized => V::Zst,
            mir::ConstValue::Slice { alloc_id, meta } => {
                let p = self.import_ptr(alloc_id, 0)?;
                V::P(p, Val::Int(self.st.usize_k(meta as u128)))
            }
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let v = self.import_ptr(alloc_id, offset.bytes() as i64)?;
                let pl = self.pl_of(v, None)?;
                self.read_val(&pl, ti)?
            }
        })
    }
    pub fn fn_val(&mut self, i: Instance<'tcx>) -> Val {
        let k = match self.fns.iter().position(|x| *x == i) {
            Some(k) => k,
            None => {
                self.fns.push(i);
                self.fns.len() - 1
            }
        };
        Val::Fn(k as u32)
    }
    pub fn import_ptr(&mut self, id: AllocId, off: i64) -> R<Val> {
        if let Some(p) = self.const_map.get(&id) {
            return Ok(Val::Ptr(Ptr { off, ..*p }));
        }
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => Ok(self.fn_val(instance)),
            GlobalAlloc::Memory(al) => {
                let p = self.import_mem(id, al)?;
                Ok(Val::Ptr(Ptr { off, ..p }))
            }
            GlobalAlloc::Static(def) => {
                let name = self.tcx.def_path_str(def);
                let ty = self.tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let frozen = ty.is_freeze(self.tcx, self.lo.env());
                let mutable = self.tcx.is_mutable_static(def);
                if !frozen || mutable || self.tcx.is_thread_local_static(def) {
                    return self.fail(EvKind::Static, format!("access to mutable or interior-mutable static `{name}`"));
                }
                match self.tcx.eval_static_initializer(def) {
                    Ok(al) => {
                        let p = self.import_mem(id, al)?;
                        Ok(Val::Ptr(Ptr { off, ..p }))
                    }
                    Err(_) => self.unsup(format!("static {name}")),
                }
            }
            GlobalAlloc::VTable(ty, preds) => {
                let d = Ty::new_dynamic(self.tcx, preds, self.tcx.lifetimes.re_erased);
                Ok(self.vt_val(ty, d))
            }
            GlobalAlloc::TypeId { .. } => self.unsup("type id"),
        }
    }
    pub fn vt_val(&mut self, ty: Ty<'tcx>, d: Ty<'tcx>) -> Val {
        let k = match self.vts.iter().position(|x| *x == (ty, d)) {
            Some(k) => k,
            None => {
                self.vts.push((ty, d));
                self.vts.len() - 1
            }
        };
        Val::Vt(k as u32)
    }
    fn import_mem(&mut self, id: AllocId, al: rustc_middle::mir::interpret::ConstAllocation<'tcx>) -> R<Ptr> {
        let al = al.inner();
        let size = al.size().bytes() as u32;
        self.m.mem.serial += 1;
        let serial = u32::MAX - self.consts.len() as u32;
        let a = self.consts.len() as u32 | CONSTA;
        let p = Ptr { a, serial, off: 0, sym: 0, stride: 0 };
        self.const_map.insert(id, p);
        self.consts.push(Rc::new(Alloc { size, align: al.align.bytes() as u32, serial, ro: true, cells: vec![] }));
        let mut cells = vec![];
        let bytes = al.inspect_with_uninit_and_ptr_outside_interpreter(0..size as usize).to_vec();
        let prov: BTreeMap<u64, AllocId> =
            al.provenance().ptrs().iter().map(|(o, p)| (o.bytes(), p.alloc_id())).collect();
        let mut o = 0u32;
        while o < size {
            if let Some(id2) = prov.get(&(o as u64)) {
                let n = self.ptr_size();
                let mut x = bytes[o as usize..(o + n) as usize].to_vec();
                if self.st.be {
                    x.reverse();
                }
                let at = x.iter().rev().fold(0u64, |a, &b| a << 8 | b as u64);
                let v = self.import_ptr(*id2, at as i64)?;
                cells.push(Cell { off: o, size: n, v });
                o += n;
                continue;
            }
            let init = al
                .init_mask()
                .is_range_initialized(rustc_middle::mir::interpret::alloc_range(
                    rustc_abi::Size::from_bytes(o as u64),
                    rustc_abi::Size::from_bytes(1),
                ))
                .is_ok();
            if init {
                let t = self.st.konst(bytes[o as usize] as u128, 8);
                cells.push(Cell { off: o, size: 1, v: Val::Int(t) });
            }
            o += 1;
        }
        let idx = (a & !CONSTA) as usize;
        Rc::make_mut(&mut self.consts[idx]).cells = cells;
        Ok(p)
    }
    pub fn addr_of_val(&mut self, v: Val) -> R<T> {
        match v {
            Val::Int(t) => Ok(t),
            Val::Ptr(p) => {
                let base = match self.addr_syms.get(&(p.a, p.serial)) {
                    Some(&t) => t,
                    None => {
                        let t = {
                            let (w, hi) = (self.st.pw, if self.st.pw == 64 { 1 << 40 } else { 1 << 30 });
                            self.st.sym("addr", w, 1 << 12, hi, 0)
                        };
                        self.addr_syms.insert((p.a, p.serial), t);
                        t
                    }
                };
                let o = self.st.usize_k(p.off as u128);
                let mut r = self.st.add(base, o);
                if p.sym != 0 {
                    let s = self.st.usize_k(p.stride as u128);
                    let x = self.st.mul(p.sym, s);
                    r = self.st.add(r, x);
                }
                Ok(r)
            }
            _ => self.unsup("address of an opaque value"),
        }
    }

    // ------------------------------------------------------------ decisions
    pub fn decide(&mut self, c: T) -> Option<bool> {
        if let Some(k) = self.st.as_const(c) {
            return Some(k != 0);
        }
        if self.m.facts.is_empty() {
            return None;
        }
        let nc = self.st.bnot(c);
        for i in (0..self.m.facts.len()).rev() {
            let (f, v) = self.m.facts[i];
            if f == c {
                return Some(v);
            }
            if f == nc {
                return Some(!v);
            }
        }
        let n = self.m.facts.len();
        let mut all: Option<T> = None;
        for i in (n.saturating_sub(6)..n).rev() {
            let (f, v) = self.m.facts[i];
            let f = if v { f } else { self.st.bnot(f) };
            let a = match all {
                None => f,
                Some(a) => self.st.and(a, f),
            };
            all = Some(a);
            for g in [f, a] {
                let x = self.st.and(g, c);
                if self.st.as_const(x) == Some(0) {
                    return Some(false);
                }
                let x = self.st.and(g, nc);
                if self.st.as_const(x) == Some(0) {
                    return Some(true);
                }
            }
        }
        None
    }

    // ------------------------------------------------------------ rvalues
    pub fn binop(&mut self, op: BinOp, a: Val, b: Val, extra: u32) -> R<V> {
        use BinOp::*;
        let signed = extra == 1;
        if op == Offset {
            let stride = extra;
            let Val::Int(i) = b else { return self.unsup("offset") };
            return Ok(V::S(self.ptr_offset(a, i, stride)?));
        }
        if !matches!((a, b), (Val::Int(_), Val::Int(_))) {
            return self.ptr_cmp(op, a, b);
        }
        let (Val::Int(x), Val::Int(mut y)) = (a, b) else { unreachable!() };
        let w = self.st.w(x);
        if matches!(op, Shl | Shr | ShlUnchecked | ShrUnchecked) {
            y = if self.st.w(y) != w { self.st.slice(y, 0, w.min(self.st.w(y))) } else { y };
            y = self.st.zext(y, w);
        }
        let st = &mut self.st;
        let t = match op {
            Add => st.add(x, y),
            Sub => st.sub(x, y),
            Mul => st.mul(x, y),
            AddUnchecked | SubUnchecked | MulUnchecked => {
                let bop = match op {
                    AddUnchecked => AddWithOverflow,
                    SubUnchecked => SubWithOverflow,
                    _ => MulWithOverflow,
                };
                let (v, f) = self.checked(bop, x, y, signed);
                match self.decide(f) {
                    Some(false) => {
                        if self.computed_by(bop, x, y, signed, v) {
                            self.mark_exact(f, v);
                        }
                        v
                    }
                    _ => {
                        self.ev(EvKind::Overflow, format!("unchecked {op:?} may overflow"));
                        v
                    }
                }
            }
            AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                let (v, f) = self.checked(op, x, y, signed);
                if self.computed_by(op, x, y, signed, v) {
                    self.ovf_of.insert(f, v);
                }
                let n = (w / 8) as u32;
                return Ok(V::B(vec![
                    Cell { off: 0, size: n, v: Val::Int(v) },
                    Cell { off: n, size: 1, v: Val::Int(f) },
                ]));
            }
            Div | Rem => {
                self.stats.divs += 1;
                if self.st.taint(x) | self.st.taint(y) != 0 && !(self.st.is_const(x) && self.st.is_const(y)) {
                    self.ev(EvKind::TaintDiv, format!("operand of integer {op:?} depends on secret data"));
                }
                let z = self.st.konst(0, w);
                let e = self.st.eq(y, z);
                if self.decide(e) != Some(false) {
                    self.ev(EvKind::DivZero, "division by a value that may be zero");
                }
                let st = &mut self.st;
                match (op, signed) {
                    (Div, false) => st.udiv(x, y),
                    (Rem, false) => st.urem(x, y),
                    (Div, true) => st.sdivrem(Op::SDiv, x, y),
                    _ => st.sdivrem(Op::SRem, x, y),
                }
            }
            BitXor => st.xor(x, y),
            BitAnd => st.and(x, y),
            BitOr => st.or(x, y),
            Shl | ShlUnchecked => st.shl(x, y),
            Shr | ShrUnchecked => {
                if signed {
                    st.sar(x, y)
                } else {
                    st.shr(x, y)
                }
            }
            Eq => st.eq(x, y),
            Ne => {
                let e = st.eq(x, y);
                st.bnot(e)
            }
            Lt => if signed { st.slt(x, y) } else { st.ult(x, y) },
            Gt => if signed { st.slt(y, x) } else { st.ult(y, x) },
            Le => {
                let e = if signed { st.slt(y, x) } else { st.ult(y, x) };
                st.bnot(e)
            }
            Ge => {
                let e = if signed { st.slt(x, y) } else { st.ult(x, y) };
                st.bnot(e)
            }
            Cmp => {
                let l = if signed { st.slt(x, y) } else { st.ult(x, y) };
                let e = st.eq(x, y);
                let m1 = st.konst(255, 8);
                let z = st.konst(0, 8);
                let o = st.konst(1, 8);
                let r = st.ite(e, z, o);
                st.ite(l, m1, r)
            }
            Offset => unreachable!(),
        };
        Ok(V::S(Val::Int(t)))
    }
    /// `v` is the unsigned operation itself, not some other term it was simplified to
    fn computed_by(&self, op: BinOp, x: T, y: T, signed: bool, v: T) -> bool {
        let o = match op {
            BinOp::AddWithOverflow => Op::Add,
            BinOp::SubWithOverflow => Op::Sub,
            BinOp::MulWithOverflow => Op::Mul,
            _ => return false,
        };
        match *self.st.node(v) {
            Node::Op(p, [a, b, _]) => !signed && p == o && ((a, b) == (x, y) || (o != Op::Sub && (a, b) == (y, x))),
            _ => false,
        }
    }
    pub fn mark_exact(&mut self, flag: T, v: T) {
        let _ = flag;
        if let Node::Op(op, [a, b, _]) = *self.st.node(v) {
            if self.st.as_const(flag) == Some(0) && self.st.exact.insert(v) {
                let (al, ah) = self.st.range(a);
                let (bl, bh) = self.st.range(b);
                let m = mask(self.st.w(v));
                let (lo, hi) = match op {
                    Op::Add => (al.saturating_add(bl), ah.saturating_add(bh).min(m)),
                    Op::Sub => (al.saturating_sub(bh), ah.saturating_sub(bl)),
                    Op::Mul => (al.saturating_mul(bl).min(m), ah.saturating_mul(bh).min(m)),
                    _ => (0, m),
                };
                let d = &mut self.st.d[v as usize];
                d.lo = d.lo.max(lo);
                d.hi = d.hi.min(hi);
            }
        }
    }
    pub fn checked(&mut self, op: BinOp, x: T, y: T, signed: bool) -> (T, T) {
        use BinOp::*;
        let st = &mut self.st;
        match (op, signed) {
            (AddWithOverflow, false) => {
                let v = st.add(x, y);
                let (ah, bh) = (st.hi(x), st.hi(y));
                let f = match ah.checked_add(bh) {
                    Some(h) if h <= mask(st.w(x)) => st.boolean(false),
                    _ => st.ult(v, x),
                };
                (v, f)
            }
            (SubWithOverflow, false) => {
                let v = st.sub(x, y);
                let f = st.ult(x, y);
                (v, f)
            }
            (MulWithOverflow, false) => {
                let v = st.mul(x, y);
                let f = st.ovf(Op::MulOvf, x, y);
                (v, f)
            }
            (AddWithOverflow, true) => (st.add(x, y), st.ovf(Op::SAddOvf, x, y)),
            (SubWithOverflow, true) => (st.sub(x, y), st.ovf(Op::SSubOvf, x, y)),
            _ => (st.mul(x, y), st.ovf(Op::SMulOvf, x, y)),
        }
    }
    pub fn ptr_offset(&mut self, a: Val, i: T, stride: u32) -> R<Val> {
        match a {
            Val::Ptr(mut p) => {
                if let Some(c) = self.st.as_const(i) {
                    let c = match self.st.w(i) {
                        64 => c as u64 as i64,
                        32 if self.st.pw == 32 => c as u32 as i32 as i64,
                        _ => c as i64,
                    };
                    p.off += c * stride as i64;
                } else {
                    let mut pl = Pl { p, int: None, meta: None };
                    self.add_index(&mut pl, i, stride)?;
                    p = pl.p;
                }
                Ok(Val::Ptr(p))
            }
            Val::Int(t) => {
                let s = self.st.usize_k(stride as u128);
                let x = self.st.mul(i, s);
                Ok(Val::Int(self.st.add(t, x)))
            }
            _ => self.unsup("offset of an opaque pointer"),
        }
    }
    fn ptr_cmp(&mut self, op: BinOp, a: Val, b: Val) -> R<V> {
        use BinOp::*;
        let r = match (a, b) {
            (Val::Ptr(p), Val::Ptr(q)) if p.a == q.a && p.serial == q.serial && p.sym == 0 && q.sym == 0 => {
                Some(p.off.cmp(&q.off))
            }
            (Val::Ptr(_), Val::Ptr(_)) => None,
            (Val::Ptr(_), Val::Int(t)) if self.st.cval(t) == Some(0) => Some(std::cmp::Ordering::Greater),
            (Val::Int(t), Val::Ptr(_)) if self.st.cval(t) == Some(0) => Some(std::cmp::Ordering::Less),
            (Val::Fn(_) | Val::Vt(_), Val::Int(t)) if self.st.cval(t) == Some(0) => Some(std::cmp::Ordering::Greater),
            _ => None,
        };
        let o = match r {
            Some(o) => o,
            None => {
                if let (Val::Ptr(p), Val::Ptr(q)) = (a, b) {
                    if (p.a, p.serial) != (q.a, q.serial) && matches!(op, Eq | Ne) {
                        return Ok(V::S(Val::Int(self.st.boolean(op == Ne))));
                    }
                }
                let x = self.addr_of_val(a)?;
                let y = self.addr_of_val(b)?;
                return self.binop(op, Val::Int(x), Val::Int(y), 0);
            }
        };
        let v = match op {
            Eq => o.is_eq(),
            Ne => o.is_ne(),
            Lt => o.is_lt(),
            Le => o.is_le(),
            Gt => o.is_gt(),
            Ge => o.is_ge(),
            _ => {
                let x = self.addr_of_val(a)?;
                let y = self.addr_of_val(b)?;
                return self.binop(op, Val::Int(x), Val::Int(y), 0);
            }
        };
        Ok(V::S(Val::Int(self.st.boolean(v))))
    }
    fn rvalue(&mut self, rv: &LRv<'tcx>, dti: TyI<'tcx>) -> R<V> {
        match rv {
            LRv::Use(o) => {
                let v = self.operand(o)?;
                self.conform(v, dti)
            }
            LRv::Repeat(o, n, ti) => {
                let v = self.operand(o)?;
                let c = self.to_cells(&v, ti.size);
                let mut out = Vec::with_capacity(c.len() * *n as usize);
                for i in 0..*n as u32 {
                    for x in &c {
                        out.push(Cell { off: x.off + i * ti.size, ..*x });
                    }
                }
                Ok(V::B(out))
            }
            LRv::Ref(lp) => {
                let pl = self.place(lp)?;
                let v = self.pl_val(&pl);
                Ok(match pl.meta {
                    Some(m) if lp.unsized_ => V::P(v, m),
                    _ => V::S(v),
                })
            }
            LRv::Cast(k, o) => {
                let v = self.operand(o)?;
                match k {
                    LCast::Same => self.conform(v, dti),
                    LCast::Int { from_signed } => {
                        let V::S(Val::Int(t)) = v else { return self.unsup("int cast") };
                        let w = (dti.size * 8) as u16;
                        Ok(V::S(Val::Int(if *from_signed { self.st.sext(t, w) } else { self.st.slice(t, 0, w) })))
                    }
                    LCast::FatToThin => match v {
                        V::P(a, _) => Ok(V::S(a)),
                        v => Ok(v),
                    },
                    LCast::PtrToInt => match v {
                        V::S(x) | V::P(x, _) => Ok(V::S(Val::Int(self.addr_of_val(x)?))),
                        _ => self.unsup("ptr to int"),
                    },
                    LCast::IntToPtr => Ok(v),
                    LCast::UnsizeArr(n) => {
                        let V::S(p) = v else { return self.unsup("unsize") };
                        Ok(V::P(p, Val::Int(self.st.usize_k(*n as u128))))
                    }
                    LCast::UnsizeDyn { src, dst } => {
                        let V::S(p) = v else { return self.unsup("unsize dyn") };
                        let vt = self.vt_val(*src, *dst);
                        Ok(V::P(p, vt))
                    }
                    LCast::ReifyFn(i) => Ok(V::S(self.fn_val(*i))),
                    LCast::Unsupported(s) => self.unsup(format!("cast {s}")),
                }
            }
            LRv::Bin(op, a, b, extra) => {
                let x = self.operand(a)?;
                let y = self.operand(b)?;
                match (x, y) {
                    (V::S(x), V::S(y)) => self.binop(*op, x, y, *extra),
                    (V::P(x, mx), V::P(y, my)) if matches!(op, BinOp::Eq | BinOp::Ne) => {
                        let V::S(Val::Int(e1)) = self.binop(BinOp::Eq, x, y, 0)? else { unreachable!() };
                        let V::S(Val::Int(e2)) = self.binop(BinOp::Eq, mx, my, 0)? else { unreachable!() };
                        let e = self.st.and(e1, e2);
                        Ok(V::S(Val::Int(if *op == BinOp::Ne { self.st.bnot(e) } else { e })))
                    }
                    (V::P(x, _), V::S(Val::Int(y))) if *op == BinOp::Offset => {
                        Ok(V::S(self.ptr_offset(x, y, *extra)?))
                    }
                    (V::Zst, V::Zst) => Ok(V::S(Val::Int(self.st.boolean(*op == BinOp::Eq)))),
                    _ => self.unsup(format!("binary {op:?}")),
                }
            }
            LRv::Un(op, o) => {
                let v = self.operand(o)?;
                match op {
                    UnOp::Not => {
                        let V::S(Val::Int(t)) = v else { return self.unsup("not") };
                        Ok(V::S(Val::Int(if matches!(dti.ty.kind(), ty::Bool) { self.st.bnot(t) } else { self.st.not(t) })))
                    }
                    UnOp::Neg => {
                        let V::S(Val::Int(t)) = v else { return self.unsup("neg") };
                        Ok(V::S(Val::Int(self.st.neg(t))))
                    }
                    UnOp::PtrMetadata => match v {
                        V::P(_, m) => Ok(V::S(m)),
                        _ => Ok(V::Zst),
                    },
                }
            }
            LRv::Discr(lp, d) => {
                let pl = self.place(lp)?;
                self.discr(&pl, d)
            }
            LRv::Agg(fs, tag) => {
                let mut out: Vec<Cell> = Vec::with_capacity(fs.len() + 1);
                for (off, o) in fs {
                    let size = o.ti().map(|t| t.size).unwrap_or(0);
                    if size == 0 {
                        if let LOp::Bad(s) = o {
                            return self.unsup(s.clone());
                        }
                        continue;
                    }
                    let v = self.operand(o)?;
                    match v {
                        V::S(x) => out.push(Cell { off: *off, size, v: x }),
                        v => {
                            for c in self.to_cells(&v, size) {
                                out.push(Cell { off: c.off + off, ..c });
                            }
                        }
                    }
                }
                if let Some((off, size, x)) = tag {
                    let t = self.st.konst(*x, *size as u16 * 8);
                    out.push(Cell { off: *off, size: *size, v: Val::Int(t) });
                }
                out.sort_by_key(|c| c.off);
                let v = V::B(out);
                self.conform(v, dti)
            }
            LRv::FatPtr(a, b) => {
                let V::S(x) = self.operand(a)? else { return self.unsup("fat ptr") };
                let V::S(y) = self.operand(b)? else { return self.unsup("fat ptr") };
                Ok(V::P(x, y))
            }
            LRv::ThreadLocal => self.fail(EvKind::Static, "thread-local access"),
            LRv::Unsupported(s) => self.unsup(s.clone()),
        }
    }
    pub fn discr(&mut self, pl: &Pl, d: &DiscrR) -> R<V> {
        match d {
            DiscrR::Const(c) => Ok(V::S(Val::Int(self.st.usize_k(*c)))),
            DiscrR::Uninhabited => self.fail(EvKind::Unreachable, "discriminant of an uninhabited value"),
            DiscrR::Direct { off, size, dsize, signed } => {
                let p = Ptr { off: pl.p.off + *off as i64, ..pl.p };
                let v = self.read_scalar(&p, *size, 1)?;
                let t = self.addr_of_val(v)?;
                let w = *dsize as u16 * 8;
                Ok(V::S(Val::Int(if *signed { self.st.sext(t, w) } else { self.st.slice(t, 0, w) })))
            }
            DiscrR::Niche { off, size, dsize, untagged, start, vlo, vhi, ptr } => {
                let p = Ptr { off: pl.p.off + *off as i64, ..pl.p };
                let v = self.read_scalar(&p, *size, 1)?;
                let w = *size as u16 * 8;
                let dw = *dsize as u16 * 8;
                let un = self.st.konst(*untagged, dw);
                let t = match v {
                    Val::Int(t) => t,
                    // a real pointer never equals a niche value (null)
                    _ if *ptr || true => return Ok(V::S(Val::Int(un))),
                    _ => unreachable!(),
                };
                let mut acc = un;
                for v in *vlo..=*vhi {
                    let k = start.wrapping_add(v - vlo) & mask(w);
                    let k = self.st.konst(k, w);
                    let e = self.st.eq(t, k);
                    let d = self.st.konst(v, dw);
                    acc = self.st.ite(e, d, acc);
                }
                Ok(V::S(Val::Int(acc)))
            }
        }
    }

    // ------------------------------------------------------------ execution
    pub fn body(&mut self, i: Instance<'tcx>) -> Rc<LBody<'tcx>> {
        if let Some(b) = self.bodies.get(&i) {
            return b.clone();
        }
        let mut b = self.lo.body(i);
        if self.is_repo_fn(i) {
            let l = Rc::get_mut(&mut b).unwrap();
            let name: Rc<str> = l.name.as_str().into();
            for bl in l.blocks.iter_mut() {
                bl.loc = self.locs.len() as u32;
                for s in &bl.st {
                    self.locs.push((s.1, name.clone()));
                }
                self.locs.push((bl.span, name.clone()));
            }
        }
        self.bodies.insert(i, b.clone());
        b
    }
    pub fn push_frame(&mut self, i: Instance<'tcx>, args: Vec<(V, TyI<'tcx>)>, ret: Option<(Pl, TyI<'tcx>)>, ret_bb: u32) -> R<()> {
        let body = self.body(i);
        *self.funcs.entry(body.name.clone()).or_insert(0) += 1;
        self.stats.calls += 1;
        if self.m.frames.len() > 400 {
            return self.unsup("call depth");
        }
        let base = self.m.mem.stack.len() as u32;
        self.m.mem.stack.resize(base as usize + body.locals.len(), None);
        self.m.frames.push(Frame { body: body.clone(), base, bb: 0, si: 0, ret, ret_bb, hook: 0 });
        // arguments
        let n = args.len();
        if body.argc != n {
            if let Some(sp) = body.spread {
                // re-tuple the trailing arguments
                let ti = body.locals[sp as usize];
                let lay = self.lo.layout(ti.ty);
                let mut cells = vec![];
                for (k, (v, t)) in args[sp as usize - 1..].iter().enumerate() {
                    let off = lay.fields.offset(k).bytes() as u32;
                    for c in self.to_cells(v, t.size) {
                        cells.push(Cell { off: c.off + off, ..c });
                    }
                }
                cells.sort_by_key(|c| c.off);
                for (k, (v, _)) in args.into_iter().take(sp as usize - 1).enumerate() {
                    self.set_local(k as u32 + 1, v)?;
                }
                let v = self.conform(V::B(cells), ti)?;
                return self.set_local(sp, v);
            }
            let nm = body.name.clone();
            self.m.frames.pop();
            self.m.mem.stack.truncate(base as usize);
            return self.unsup(format!("argument count of {nm}: {} expected, {} given", body.argc, n));
        }
        for (k, (v, _)) in args.into_iter().enumerate() {
            self.set_local(k as u32 + 1, v)?;
        }
        Ok(())
    }
    fn set_local(&mut self, l: u32, v: V) -> R<()> {
        let ti = self.m.frames.last().unwrap().body.locals[l as usize];
        if ti.size == 0 {
            return Ok(());
        }
        let v = self.conform(v, ti)?;
        let p = self.local_ptr(l);
        self.write_val(&Pl { p, int: None, meta: None }, ti, v)
    }
    pub fn goto(&mut self, bb: u32) {
        let f = self.m.frames.last_mut().unwrap();
        f.bb = bb;
        f.si = 0;
    }
    pub fn run_until(&mut self, depth: usize, stop: u32) -> R<()> {
        loop {
            let n = self.m.frames.len();
            if n < depth {
                return Ok(());
            }
            if n == depth {
                let f = &self.m.frames[n - 1];
                if f.bb == stop && f.si == 0 {
                    return Ok(());
                }
            }
            self.step()?;
        }
    }
    pub fn step(&mut self) -> R<()> {
        self.stats.steps += 1;
        if self.stats.steps > self.step_limit {
            return self.unsup("step limit reached");
        }
        let f = self.m.frames.last().unwrap();
        let body = f.body.clone();
        let (bb, si) = (f.bb as usize, f.si as usize);
        let block = &body.blocks[bb];
        if block.loc != 0 {
            self.st.cur_loc = block.loc + si as u32;
        }
        if si < block.st.len() {
            match &block.st[si].0 {
                LSt::Assign(lp, rv) => {
                    let v = self.rvalue(rv, lp.ti)?;
                    // fast path
                    if lp.projs.is_empty() {
                        let p = self.local_ptr(lp.local);
                        self.write_val(&Pl { p, int: None, meta: None }, lp.ti, v)?;
                    } else if lp.ti.size != 0 {
                        let pl = self.place(lp)?;
                        self.write_val(&pl, lp.ti, v)?;
                    }
                }
                LSt::SetDiscr(lp, tag) => {
                    if let Some((off, size, x)) = tag {
                        let pl = self.place(lp)?;
                        let t = self.st.konst(*x, *size as u16 * 8);
                        let p = Ptr { off: pl.p.off + *off as i64, ..pl.p };
                        self.write_scalar(&p, *size, 1, Val::Int(t))?;
                    }
                }
                LSt::Live(l) | LSt::Dead(l) => {
                    let base = self.m.frames.last().unwrap().base;
                    self.m.mem.stack[(base + l) as usize] = None;
                }
                LSt::CopyNon { src, dst, n, size, align } => {
                    let s = self.operand(src)?;
                    let d = self.operand(dst)?;
                    let n = self.int_op(n)?;
                    self.mem_copy(s, d, n, *size, *align, true)?;
                }
                LSt::Nop => {}
            }
            self.m.frames.last_mut().unwrap().si += 1;
            return Ok(());
        }
        self.term(&body, bb)
    }
    pub fn mem_copy(&mut self, s: V, d: V, n: T, size: u32, align: u32, nonoverlap: bool) -> R<()> {
        let Some(n) = self.st.as_const(n) else { return self.unsup("copy of unknown length") };
        let bytes = n as u32 * size;
        if bytes == 0 {
            return Ok(());
        }
        let (V::S(s) | V::P(s, _), V::S(d) | V::P(d, _)) = (s, d) else { return self.unsup("copy operands") };
        let s = self.as_ptr(s)?;
        let d = self.as_ptr(d)?;
        if nonoverlap && s.a == d.a && s.serial == d.serial && s.off < d.off + bytes as i64 && d.off < s.off + bytes as i64 {
            self.ev(EvKind::Memory, "overlapping copy_nonoverlapping");
        }
        let c = self.read_cells(&s, bytes, align)?;
        self.write_cells(&d, bytes, align, &c)
    }
    fn term(&mut self, body: &Rc<LBody<'tcx>>, bb: usize) -> R<()> {
        match &body.blocks[bb].tm {
            LTm::Goto(t) => {
                self.goto(*t);
                Ok(())
            }
            LTm::Return => self.do_return(),
            LTm::Unreachable => self.fail(EvKind::Unreachable, "unreachable code reached (undefined behaviour)"),
            LTm::Switch { op, targets, otherwise } => {
                let v = self.operand(op)?;
                let t = match v {
                    V::S(v) => self.addr_of_val(v)?,
                    _ => return self.unsup("switch operand"),
                };
                self.stats.branches += 1;
                self.switch(t, targets, *otherwise)
            }
            LTm::Assert { cond, expected, target, msg, overflow, idx } => {
                let c = self.int_op(cond)?;
                let c0 = c;
                self.stats.asserts += 1;
                let c = if *expected { c } else { self.st.bnot(c) };
                match self.decide(c) {
                    Some(true) => {
                        if *overflow {
                            if let Some(&v) = self.ovf_of.get(&c0) {
                                self.mark_exact(c0, v);
                            }
                        }
                    }
                    Some(false) => {
                        let k = if *overflow { EvKind::Overflow } else if idx.is_some() { EvKind::Bounds } else { EvKind::Panic };
                        return self.fail(k, format!("{msg} on every path here"));
                    }
                    None => {
                        let k = if *overflow { EvKind::Overflow } else if idx.is_some() { EvKind::Bounds } else { EvKind::Panic };
                        let s = self.st.show(c, 4);
                        self.ev(k, format!("{msg} possible; could not prove {s}"));
                        if self.st.taint(c) != 0 {
                            self.ev(EvKind::TaintBranch, format!("check ({msg}) depends on secret data"));
                        }
                        self.m.facts.push((c, true));
                    }
                }
                self.goto(*target);
                Ok(())
            }
            LTm::Drop { place, inst, target } => {
                let act = self.action(*inst);
                if matches!(act, Action::Noop) {
                    self.goto(*target);
                    return Ok(());
                }
                let pl = self.place(place)?;
                let v = self.pl_val(&pl);
                let arg = match pl.meta {
                    Some(m) if place.unsized_ => V::P(v, m),
                    _ => V::S(v),
                };
                let n = self.ptr_size();
                let ti = TyI { size: n, align: n, kind: Kind::Ptr, ty: place.ti.ty };
                self.call(*inst, vec![(arg, ti)], None, *target)
            }
            LTm::Call { callee, args, dest, target, untuple } => {
                let mut av = Vec::with_capacity(args.len() + 1);
                for (k, a) in args.iter().enumerate() {
                    let v = self.operand(a)?;
                    let ti = match a.ti() {
                        Some(t) => t,
                        None => return self.unsup("operand"),
                    };
                    if *untuple && k == args.len() - 1 {
                        // spread the tuple
                        if let ty::Tuple(ts) = ti.ty.kind() {
                            let lay = self.lo.layout(ti.ty);
                            let cells = self.to_cells(&v, ti.size);
                            for (j, t) in ts.iter().enumerate() {
                                let fti = self.lo.tyi(t);
                                let off = lay.fields.offset(j).bytes() as u32;
                                let c: Vec<Cell> = cells
                                    .iter()
                                    .filter(|c| c.off >= off && c.off + c.size <= off + fti.size)
                                    .map(|c| Cell { off: c.off - off, ..*c })
                                    .collect();
                                let v = self.conform(V::B(c), fti)?;
                                av.push((v, fti));
                            }
                            continue;
                        }
                    }
                    av.push((v, ti));
                }
                let ret = if dest.ti.size == 0 { None } else { Some((self.place(dest)?, dest.ti)) };
                let inst = match callee {
                    Callee::Inst(i) => *i,
                    Callee::Ptr(o) => match self.operand(o)? {
                        V::S(Val::Fn(k)) => self.fns[k as usize],
                        _ => return self.unsup("call through an unknown function pointer"),
                    },
                    Callee::Bad(s) => return self.unsup(s.clone()),
                };
                match target {
                    Some(t) => self.call(inst, av, ret, *t),
                    None => {
                        let act = self.action(inst);
                        match act {
                            Action::Intrinsic(n) if n == "unreachable" => {
                                self.fail(EvKind::Unreachable, "unreachable_unchecked reached (undefined behaviour)")
                            }
                            _ => {
                                let n = self.tcx.def_path_str(inst.def_id());
                                self.fail(EvKind::Panic, format!("call to diverging function {n}"))
                            }
                        }
                    }
                }
            }
            LTm::Unsupported(s) => self.unsup(s.clone()),
        }
    }
    fn do_return(&mut self) -> R<()> {
        let (ret, ret_bb, base, hook) = {
            let f = self.m.frames.last().unwrap();
            (f.ret, f.ret_bb, f.base, f.hook)
        };
        if let Some((pl, ti)) = ret {
            let lti = self.m.frames.last().unwrap().body.locals[0];
            let p = self.local_ptr(0);
            let v = self.read_val(&Pl { p, int: None, meta: None }, lti)?;
            let v = self.conform(v, ti)?;
            if hook != 0 {
                self.hookres.push((hook, v.clone()));
            }
            self.m.mem.stack.truncate(base as usize);
            self.m.frames.pop();
            let v = if hook != 0 { self.on_hook(hook, v, ti)? } else { v };
            self.write_val(&pl, ti, v)?;
        } else {
            self.m.mem.stack.truncate(base as usize);
            self.m.frames.pop();
        }
        if let Some(f) = self.m.frames.last_mut() {
            f.bb = ret_bb;
            f.si = 0;
        }
        Ok(())
    }
    pub fn ret_now(&mut self, ret: Option<(Pl, TyI<'tcx>)>, v: V, bb: u32) -> R<()> {
        if let Some((pl, ti)) = ret {
            let v = self.conform(v, ti)?;
            self.write_val(&pl, ti, v)?;
        }
        self.goto(bb);
        Ok(())
    }
    fn switch(&mut self, t: T, targets: &[(u128, u32)], otherwise: u32) -> R<()> {
        if let Some(c) = self.st.as_const(t) {
            let bb = targets.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(otherwise);
            self.goto(bb);
            return Ok(());
        }
        let w = self.st.w(t);
        let (lo, hi) = self.st.range(t);
        let mut alts: Vec<(Vec<(T, bool)>, u32)> = vec![];
        let mut neg = vec![];
        let mut covered = 0u128;
        for &(k, bb) in targets {
            if k < lo || k > hi {
                continue;
            }
            covered += 1;
            let kc = self.st.konst(k, w);
            let e = self.st.eq(t, kc);
            match self.decide(e) {
                Some(true) => {
                    self.goto(bb);
                    return Ok(());
                }
                Some(false) => continue,
                None => {
                    alts.push((vec![(e, true)], bb));
                    neg.push((e, false));
                }
            }
        }
        if covered < hi - lo + 1 && !self.bb_unreachable(otherwise) {
            alts.push((neg, otherwise));
        }
        if alts.is_empty() {
            return self.fail(EvKind::Unreachable, "no feasible switch target");
        }
        if alts.len() == 1 {
            let (f, bb) = alts.pop().unwrap();
            self.m.facts.extend(f);
            self.goto(bb);
            return Ok(());
        }
        if self.st.taint(t) != 0 {
            self.ev(EvKind::TaintBranch, "branch condition depends on secret data");
        }
        if self.explore {
            return Err(Stop::Fork(alts));
        }
        self.split(alts)
    }
    fn bb_unreachable(&self, bb: u32) -> bool {
        let f = self.m.frames.last().unwrap();
        let b = &f.body.blocks[bb as usize];
        b.st.is_empty() && matches!(b.tm, LTm::Unreachable)
    }
    fn split(&mut self, alts: Vec<(Vec<(T, bool)>, u32)>) -> R<()> {
        self.stats.splits += 1;
        let f = self.m.frames.last().unwrap();
        let stop = f.body.ipdom[f.bb as usize];
        let depth = self.m.frames.len();
        if self.split_depth > 600 {
            return self.unsup("too many nested undecided branches");
        }
        let base = self.m.clone();
        let mut outs: Vec<(Vec<(T, bool)>, Machine<'tcx>)> = vec![];
        self.split_depth += 1;
        for (facts, bb) in alts {
            self.m = base.clone();
            // keep serials unique across alternatives
            self.m.facts.extend(facts.iter().copied());
            self.goto(bb);
            match self.run_until(depth, stop) {
                Ok(()) => {
                    let m = std::mem::replace(&mut self.m, base.clone());
                    outs.push((facts, m));
                }
                Err(Stop::Diverge) => {}
                Err(e) => {
                    self.split_depth -= 1;
                    return Err(e);
                }
            }
        }
        self.split_depth -= 1;
        if outs.is_empty() {
            return Err(Stop::Diverge);
        }
        let nb = base.facts.len();
        let (f0, mut acc) = outs.pop().unwrap();
        if outs.is_empty() {
            let _ = f0;
            self.m = acc;
            return Ok(());
        }
        while let Some((fs, m)) = outs.pop() {
            let mut c: Option<T> = None;
            for (t, v) in fs {
                let t = if v { t } else { self.st.bnot(t) };
                c = Some(match c {
                    None => t,
                    Some(x) => self.st.and(x, t),
                });
            }
            acc = self.merge(c.unwrap(), m, acc)?;
        }
        acc.facts.truncate(nb);
        self.m = acc;
        Ok(())
    }
    fn merge(&mut self, c: T, a: Machine<'tcx>, mut b: Machine<'tcx>) -> R<Machine<'tcx>> {
        if a.frames.len() != b.frames.len() {
            self.m = b;
            return self.unsup("merge of different call depths");
        }
        if let (Some(x), Some(y)) = (a.frames.last(), b.frames.last()) {
            if x.bb != y.bb || x.si != y.si {
                self.m = b;
                return self.unsup("merge of different locations");
            }
        }
        if a.draws.len() != b.draws.len() {
            self.m = b;
            return self.unsup("number of random draws depends on an undecided branch");
        }
        let n = a.mem.stack.len().min(b.mem.stack.len());
        for i in 0..n {
            let r = self.merge_slot(c, &a.mem.stack[i], &b.mem.stack[i], false);
            match r {
                Ok(Some(x)) => b.mem.stack[i] = x,
                Ok(None) => {}
                Err(e) => {
                    self.m = b;
                    self.ev(EvKind::Unsupported, e);
                    return Err(Stop::Diverge);
                }
            }
        }
        for i in 0..a.mem.globals.len().min(b.mem.globals.len()) {
            let r = self.merge_slot(c, &a.mem.globals[i], &b.mem.globals[i], true);
            match r {
                Ok(Some(x)) => b.mem.globals[i] = x,
                Ok(None) => {}
                Err(e) => {
                    self.m = b;
                    self.ev(EvKind::Unsupported, e);
                    return Err(Stop::Diverge);
                }
            }
        }
        b.mem.serial = b.mem.serial.max(a.mem.serial);
        // volatile stores count only if on both paths
        let av: HashSet<_> = a.vstores.iter().copied().collect();
        b.vstores.retain(|x| av.contains(x));
        let aw: HashSet<_> = a.wiped.iter().copied().collect();
        b.wiped.retain(|x| aw.contains(x));
        Ok(b)
    }
    fn merge_slot(&mut self, c: T, a: &Option<Rc<Alloc>>, b: &Option<Rc<Alloc>>, _g: bool) -> Result<Option<Option<Rc<Alloc>>>, String> {
        match (a, b) {
            (None, None) => Ok(None),
            (Some(x), None) => Ok(Some(Some(x.clone()))),
            (None, Some(_)) => Ok(None),
            (Some(x), Some(y)) => {
                if Rc::ptr_eq(x, y) {
                    return Ok(None);
                }
                let mut out: Vec<Cell> = vec![];
                let (mut i, mut j) = (0, 0);
                let (xc, yc) = (&x.cells, &y.cells);
                // merge by maximal common segments
                while i < xc.len() || j < yc.len() {
                    if i == xc.len() || (j < yc.len() && yc[j].off + yc[j].size <= xc[i].off) {
                        out.push(yc[j]);
                        j += 1;
                        continue;
                    }
                    if j == yc.len() || xc[i].off + xc[i].size <= yc[j].off {
                        out.push(xc[i]);
                        i += 1;
                        continue;
                    }
                    let (p, q) = (xc[i], yc[j]);
                    if p.off == q.off && p.size == q.size {
                        let v = if p.v == q.v {
                            p.v
                        } else {
                            match (p.v, q.v) {
                                (Val::Int(s), Val::Int(t)) => Val::Int(self.st.ite(c, s, t)),
                                (Val::Ptr(s), Val::Ptr(t)) => match self.merge_ptr(c, s, t) {
                                    Some(p) => Val::Ptr(p),
                                    None => {
                                        let k = self.ghost(Ghost::Opaque(c));
                                        Val::Ghost(k)
                                    }
                                },
                                _ => {
                                    let k = self.ghost(Ghost::Opaque(c));
                                    Val::Ghost(k)
                                }
                            }
                        };
                        out.push(Cell { v, ..p });
                        i += 1;
                        j += 1;
                        continue;
                    }
                    // different layouts: byte-split the overlapping run
                    let start = p.off.min(q.off);
                    let mut end = (p.off + p.size).max(q.off + q.size);
                    let (i0, j0) = (i, j);
                    loop {
                        let mut grew = false;
                        while i < xc.len() && xc[i].off < end {
                            if xc[i].off + xc[i].size > end {
                                end = xc[i].off + xc[i].size;
                                grew = true;
                            }
                            i += 1;
                        }
                        while j < yc.len() && yc[j].off < end {
                            if yc[j].off + yc[j].size > end {
                                end = yc[j].off + yc[j].size;
                                grew = true;
                            }
                            j += 1;
                        }
                        if !grew {
                            break;
                        }
                    }
                    let bytes = |s: &mut Self, cs: &[Cell]| -> Option<BTreeMap<u32, T>> {
                        let mut m = BTreeMap::new();
                        for c in cs {
                            let Val::Int(t) = c.v else { return None };
                            for k in 0..c.size {
                                let b = s.st.mem_byte(t, c.size, k);
                                m.insert(c.off + k, b);
                            }
                        }
                        Some(m)
                    };
                    let (Some(bx), Some(by)) = (bytes(self, &xc[i0..i]), bytes(self, &yc[j0..j])) else {
                        // one-sided pointers next to integers: leave uninitialized
                        continue;
                    };
                    for o in start..end {
                        let v = match (bx.get(&o), by.get(&o)) {
                            (Some(&s), Some(&t)) => self.st.ite(c, s, t),
                            (Some(&s), None) => s,
                            (None, Some(&t)) => t,
                            _ => continue,
                        };
                        out.push(Cell { off: o, size: 1, v: Val::Int(v) });
                    }
                }
                let al = Alloc { cells: out, ..(**y).clone() };
                Ok(Some(Some(Rc::new(al))))
            }
        }
    }
    fn merge_ptr(&mut self, c: T, a: Ptr, b: Ptr) -> Option<Ptr> {
        if a.a == b.a && a.serial == b.serial && a.sym == 0 && b.sym == 0 && a.off >= 0 && b.off >= 0 {
            // symbolic offset in bytes
            let x = self.st.usize_k(a.off as u128);
            let y = self.st.usize_k(b.off as u128);
            let s = self.st.ite(c, x, y);
            return Some(Ptr { off: 0, sym: s, stride: 1, ..a });
        }
        None
    }
}
