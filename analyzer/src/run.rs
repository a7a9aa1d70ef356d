//! Running one entry point of the harness in the abstract machine.
use crate::interp::*;
use crate::lower::*;
use crate::mem::*;
use crate::term::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Instance, Ty};
use std::rc::Rc;

#[derive(Clone)]
pub struct Arg {
    pub name: String,
    pub ptr: Ptr,
    pub size: u32,
    pub init: Vec<T>,
}
pub struct Run {
    pub args: Vec<Arg>,
    pub ret: Option<(Ptr, u32)>,
    pub ok: bool,
    pub stop: Option<Stop>,
    pub new_events: usize,
}
impl Run {
    pub fn arg(&self, n: &str) -> &Arg {
        self.args.iter().find(|a| a.name == n).unwrap_or_else(|| panic!("argument {n}"))
    }
}

/// what an argument is filled with
pub enum Fill {
    /// fresh byte symbols with this taint
    Bytes(u32),
    /// given bytes
    Given(Vec<T>),
    /// one symbol per scalar leaf of the type (u16 leaves are reduced residues)
    Leaves(u32, String),
    /// explicit cells
    Cells(Vec<Cell>),
    Uninit,
}

impl<'tcx> Engine<'tcx> {
    pub fn find_fn(&self, path: &str) -> Option<DefId> {
        let tcx = self.tcx;
        tcx.hir_crate_items(()).definitions().map(|d| d.to_def_id()).find(|&d| {
            matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Fn) && tcx.def_path_str(d) == path
        })
    }
    pub fn harness_fn(&self, path: &str) -> Instance<'tcx> {
        let d = self.find_fn(path).unwrap_or_else(|| panic!("harness function {path}"));
        Instance::mono(self.tcx, d)
    }
    pub fn reset(&mut self, root: &str) {
        self.m = Machine { frames: vec![], mem: Mem::new(), facts: vec![], draws: vec![], vstores: vec![], wiped: vec![] };
        self.const_map.clear();
        self.consts.clear();
        self.root = root.to_string();
        self.hookres.clear();
        self.hooks.clear();
        self.split_depth = 0;
        self.st.cur_loc = 0;
    }
    pub fn global(&mut self, size: u32, align: u32, cells: Vec<Cell>) -> Ptr {
        let p = self.m.mem.new_global(size, align, false);
        self.m.mem.get_mut(p.a).unwrap().cells = cells;
        p
    }
    pub fn set_ro(&mut self, p: &Ptr) {
        self.m.mem.get_mut(p.a).unwrap().ro = true;
    }
    pub fn leaves(&mut self, ty: Ty<'tcx>) -> Vec<(u32, u32, String, Ty<'tcx>)> {
        let mut out = vec![];
        self.leaves_rec(ty, 0, String::new(), &mut out, 0);
        out
    }
    /// scalar leaves of a type without enums or pointers
    fn leaves_rec(&mut self, ty: Ty<'tcx>, off: u32, path: String, out: &mut Vec<(u32, u32, String, Ty<'tcx>)>, depth: usize) {
        let ti = self.lo.tyi(ty);
        if ti.size == 0 {
            return;
        }
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => out.push((off, ti.size, path, ty)),
            ty::Array(e, _) => {
                let es = self.lo.tyi(*e).size;
                if es == 0 {
                    return;
                }
                for k in 0..ti.size / es {
                    self.leaves_rec(*e, off + k * es, format!("{path}[{k}]"), out, depth + 1);
                }
            }
            ty::Tuple(ts) => {
                let lay = self.lo.layout(ty);
                for (i, t) in ts.iter().enumerate() {
                    let o = lay.fields.offset(i).bytes() as u32;
                    self.leaves_rec(t, off + o, format!("{path}.{i}"), out, depth + 1);
                }
            }
            ty::Adt(a, args) if a.is_struct() || a.is_union() => {
                let lay = self.lo.layout(ty);
                let v = a.non_enum_variant();
                for (i, f) in v.fields.iter().enumerate() {
                    let ft = f.ty(self.tcx, args).skip_norm_wip();
                    let ft = self.tcx.normalize_erasing_regions(self.lo.env(), ty::Unnormalized::new_wip(ft));
                    let o = lay.fields.offset(i).bytes() as u32;
                    let p = format!("{path}.{}", f.name);
                    self.leaves_rec(ft, off + o, p, out, depth + 1);
                    if a.is_union() {
                        break;
                    }
                }
            }
            _ => out.push((off, ti.size, path, ty)),
        }
    }
    pub fn leaf_cells(&mut self, ty: Ty<'tcx>, name: &str, taint: u32) -> Vec<Cell> {
        let ls = self.leaves(ty);
        let mut v = vec![];
        for (off, size, path, lt) in ls {
            let hi = match (size, lt.kind()) {
                (_, ty::Bool) => 1,
                (2, _) => crate::form::Q - 1,
                _ => mask(size as u16 * 8),
            };
            let t = self.st.sym(&format!("{name}{path}"), size as u16 * 8, 0, hi, taint);
            v.push(Cell { off, size, v: Val::Int(t) });
        }
        v.sort_by_key(|c| c.off);
        v
    }
    /// prepare arguments and run to completion
    pub fn run_root(&mut self, path: &str, fill: &mut dyn FnMut(&str, &Ty<'tcx>) -> Fill) -> Run {
        let inst = self.harness_fn(path);
        self.reset(path);
        self.run_inst(inst, fill)
    }
    pub fn prepare(&mut self, inst: Instance<'tcx>, fill: &mut dyn FnMut(&str, &Ty<'tcx>) -> Fill) -> Run {
        let tcx = self.tcx;
        let body = self.body(inst);
        let mut args = vec![];
        let mut vals = vec![];
        let names: Vec<String> = tcx
            .fn_arg_idents(inst.def_id())
            .iter()
            .enumerate()
            .map(|(i, n)| n.map(|n| n.to_string()).unwrap_or(format!("arg{i}")))
            .collect();
        for k in 0..body.argc {
            let ti = body.locals[k + 1];
            let name = names.get(k).cloned().unwrap_or(format!("arg{k}"));
            let (obj, mutable, by_ref) = match ti.ty.kind() {
                ty::Ref(_, t, m) => (*t, m.is_mut(), true),
                _ => (ti.ty, true, false),
            };
            let oti = self.lo.tyi(obj);
            let cells = match fill(&name, &obj) {
                Fill::Bytes(taint) => {
                    let b = self.st.byte_syms(&name, oti.size as usize, taint);
                    b.iter().enumerate().map(|(i, &t)| Cell { off: i as u32, size: 1, v: Val::Int(t) }).collect()
                }
                Fill::Given(b) => {
                    assert_eq!(b.len(), oti.size as usize);
                    b.iter().enumerate().map(|(i, &t)| Cell { off: i as u32, size: 1, v: Val::Int(t) }).collect()
                }
                Fill::Leaves(taint, nm) => self.leaf_cells(obj, &nm, taint),
                Fill::Cells(c) => c,
                Fill::Uninit => vec![],
            };
            let init: Vec<T> = cells.iter().filter_map(|c| if let Val::Int(t) = c.v { Some(t) } else { None }).collect();
            if by_ref {
                let p = self.global(oti.size, oti.align, cells);
                if !mutable {
                    self.set_ro(&p);
                }
                args.push(Arg { name, ptr: p, size: oti.size, init });
                vals.push((V::S(Val::Ptr(p)), ti));
            } else {
                let v = self.conform(V::B(cells), ti).unwrap_or(V::Zst);
                let p = Ptr { a: 0, serial: 0, off: 0, sym: 0, stride: 0 };
                args.push(Arg { name, ptr: p, size: oti.size, init });
                vals.push((v, ti));
            }
        }
        let rti = body.locals[0];
        let ret = if rti.size == 0 {
            None
        } else {
            let p = self.global(rti.size, rti.align, vec![]);
            Some((p, rti.size))
        };
        let rpl = ret.map(|(p, _)| (Pl { p, int: None, meta: None }, rti));
        let r = self.push_frame(inst, vals, rpl, 0);
        Run { args, ret, ok: r.is_ok(), stop: r.err(), new_events: self.events.len() }
    }
    pub fn run_inst(&mut self, inst: Instance<'tcx>, fill: &mut dyn FnMut(&str, &Ty<'tcx>) -> Fill) -> Run {
        let ev0 = self.events.len();
        let mut run = self.prepare(inst, fill);
        if run.ok {
            while !self.m.frames.is_empty() {
                if let Err(e) = self.step() {
                    run.ok = false;
                    run.stop = Some(e);
                    break;
                }
            }
        }
        run.new_events = self.events.len() - ev0;
        run
    }
    /// bytes of an object after the run (None where uninitialized or opaque)
    pub fn final_bytes(&mut self, p: &Ptr, size: u32) -> Vec<Option<T>> {
        let cells = match self.alloc(p) {
            Some(a) => a.cells.clone(),
            None => vec![],
        };
        let mut out = vec![None; size as usize];
        for c in cells {
            if let Val::Int(t) = c.v {
                for k in 0..c.size {
                    let o = c.off as i64 + k as i64 - p.off;
                    if o >= 0 && (o as usize) < out.len() {
                        out[o as usize] = Some(self.st.mem_byte(t, c.size, k));
                    }
                }
            }
        }
        out
    }
    pub fn arg_out(&mut self, run: &Run, name: &str) -> Vec<Option<T>> {
        let a = run.arg(name).clone();
        self.final_bytes(&a.ptr, a.size)
    }
    pub fn ret_out(&mut self, run: &Run) -> Vec<Option<T>> {
        match run.ret {
            Some((p, n)) => self.final_bytes(&p, n),
            None => vec![],
        }
    }
    pub fn body_of(&mut self, i: Instance<'tcx>) -> Rc<LBody<'tcx>> {
        self.body(i)
    }
}
