//! Calls: intrinsics, models of primitives outside the repository, and contracts.
use crate::interp::*;
use crate::lower::*;
use crate::mem::*;
use crate::term::*;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::BinOp;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Model {
    HashDefault,
    HashUpdate,
    HashFinalInto,
    HashFinalIntoReset,
    HashXof,
    HashXofReset,
    HashReset,
    HashClone,
    XofRead,
    RngFill,
    RngTryFill,
    RngU32,
    RngU64,
    MontMulClamped,
    MontMulBaseClamped,
    EdMulBaseClamped,
    EdToMont,
    MontEq,
    ScalarRandom,
    PubFromScalar,
    EcDh,
    ScalarZeroize,
    OsRng,
    Ntt,
    NttInv,
    SampleUniform,
    SampleCbd,
    MlKemDecaps,
    Op(OpM),
    EncodePoint,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum OpM {
    Clone,
    Eq,
    PartialCmp,
    Cmp,
    Hash,
    Default,
    Zeroize,
    HWrite,
}

/// what the encrypt hook saw
#[derive(Clone, Default)]
pub struct EncHook {
    pub func: String,
    /// 32-byte arguments of the call
    pub args: Vec<Vec<T>>,
    pub bytes: Vec<T>,
    pub fresh: Vec<T>,
}

#[derive(Clone, Default)]
pub struct Cfg {
    /// replace the component functions by their contracts
    pub contracts: HashSet<Model2>,
    /// C09: the XOF delivers fresh bytes reported to the monitor
    pub xof_fresh: bool,
    /// functions that must not be entered while interpreting
    pub stream: HashMap<u32, Vec<T>>,
}
pub type Model2 = &'static str;

pub const ALL_CONTRACTS: [Model2; 4] = ["ntt", "ntt_inverse", "sample_uniform", "sample_cbd"];

#[derive(Clone, Debug)]
pub struct FnKey {
    pub krate: String,
    pub name: String,
    pub self_adt: String,
    pub self_crate: String,
    pub trait_: String,
}

impl<'tcx> Engine<'tcx> {
    pub fn fn_key(&self, inst: Instance<'tcx>) -> FnKey {
        let tcx = self.tcx;
        let d = inst.def_id();
        let mut k = FnKey {
            krate: tcx.crate_name(d.krate).to_string(),
            name: tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default(),
            self_adt: String::new(),
            self_crate: String::new(),
            trait_: String::new(),
        };
        let mut selfty: Option<Ty<'tcx>> = None;
        if let Some(im) = tcx.impl_of_assoc(d) {
            selfty = Some(tcx.type_of(im).instantiate(tcx, inst.args).skip_norm_wip());
            if let Some(tr) = tcx.trait_impl_of_assoc(d).and_then(|im| tcx.impl_opt_trait_ref(im)) {
                k.trait_ = tcx.item_name(tr.skip_binder().def_id).to_string();
            }
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            k.trait_ = tcx.item_name(tr).to_string();
            selfty = inst.args.types().next();
        }
        if let Some(t) = selfty {
            if let ty::Adt(a, _) = t.kind() {
                k.self_adt = tcx.item_name(a.did()).to_string();
                k.self_crate = tcx.crate_name(a.did().krate).to_string();
            } else {
                k.self_adt = format!("{t:?}");
            }
        }
        k
    }

    fn model_of(&self, inst: Instance<'tcx>) -> Option<Model> {
        let k = self.fn_key(inst);
        use Model::*;
        let on = |c: &str| self.cfg.contracts.contains(c);
        let m = match (k.krate.as_str(), k.self_adt.as_str(), k.trait_.as_str(), k.name.as_str()) {
            ("digest", "CoreWrapper", "Default", "default") => HashDefault,
            ("digest", "CoreWrapper", "Update", "update") => HashUpdate,
            ("digest", "CoreWrapper", "FixedOutput", "finalize_into") => HashFinalInto,
            ("digest", "CoreWrapper", "FixedOutputReset", "finalize_into_reset") => HashFinalIntoReset,
            ("digest", "CoreWrapper", "ExtendableOutput", "finalize_xof") => HashXof,
            ("digest", "CoreWrapper", "ExtendableOutputReset", "finalize_xof_reset") => HashXofReset,
            ("digest", "CoreWrapper", "Reset", "reset") => HashReset,
            ("digest", "CoreWrapper" | "XofReaderCoreWrapper", "Clone", "clone") => HashClone,
            ("digest", "XofReaderCoreWrapper", "XofReader", "read") => XofRead,
            ("kemharness", "ModelRng", "RngCore", "fill_bytes") => RngFill,
            ("kemharness", "ModelRng", "RngCore", "try_fill_bytes") => RngTryFill,
            ("kemharness", "ModelRng", "RngCore", "next_u32") => RngU32,
            ("kemharness", "ModelRng", "RngCore", "next_u64") => RngU64,
            ("curve25519_dalek", "MontgomeryPoint", "", "mul_clamped") => MontMulClamped,
            ("curve25519_dalek", "MontgomeryPoint", "", "mul_base_clamped") => MontMulBaseClamped,
            ("curve25519_dalek", "EdwardsPoint", "", "mul_base_clamped") => EdMulBaseClamped,
            ("curve25519_dalek", "EdwardsPoint", "", "to_montgomery") => EdToMont,
            ("curve25519_dalek", "MontgomeryPoint", "PartialEq", "eq") => MontEq,
            ("elliptic_curve", "NonZeroScalar", _, "random") => ScalarRandom,
            ("elliptic_curve", "NonZeroScalar", "Zeroize", "zeroize") => ScalarZeroize,
            ("elliptic_curve", "PublicKey", "", "from_secret_scalar") => PubFromScalar,
            ("elliptic_curve", "", "", "diffie_hellman") => EcDh,
            ("rand_core", "OsRng", "RngCore", _) => OsRng,
            ("getrandom", ..) => OsRng,
            ("elliptic_curve", "PublicKey", "ToEncodedPoint", "to_encoded_point") => EncodePoint,
            ("kemharness", "Op", "Clone", "clone") => Op(OpM::Clone),
            ("kemharness", "Op", "PartialEq", "eq") => Op(OpM::Eq),
            ("kemharness", "Op", "PartialOrd", "partial_cmp") => Op(OpM::PartialCmp),
            ("kemharness", "Op", "Ord", "cmp") => Op(OpM::Cmp),
            ("kemharness", "Op", "Hash", "hash") => Op(OpM::Hash),
            ("kemharness", "Op", "Default", "default") => Op(OpM::Default),
            ("kemharness", "Op", "Zeroize", "zeroize") => Op(OpM::Zeroize),
            ("kemharness", "OpHasher", "Hasher", "write") => Op(OpM::HWrite),
            ("ml_kem", "DecapsulationKey", "Decapsulate", "decapsulate") if on("mlkem_decaps") => MlKemDecaps,
            ("ml_kem", "Polynomial", "", "ntt") if on("ntt") => Ntt,
            ("ml_kem", "NttPolynomial", "", "ntt_inverse") if on("ntt_inverse") => NttInv,
            ("ml_kem", "NttPolynomial", "", "sample_uniform") if on("sample_uniform") => SampleUniform,
            ("ml_kem", "Polynomial", "", "sample_cbd") if on("sample_cbd") => SampleCbd,
            _ => return None,
        };
        Some(m)
    }

    pub fn action(&mut self, inst: Instance<'tcx>) -> Action {
        if let Some(a) = self.actions.get(&inst) {
            return a.clone();
        }
        let a = self.action_compute(inst);
        self.actions.insert(inst, a.clone());
        a
    }
    fn action_compute(&self, inst: Instance<'tcx>) -> Action {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if let Some(m) = self.model_of(inst) {
                    return Action::Model(m);
                }
                if tcx.is_foreign_item(d) || !tcx.is_mir_available(d) {
                    return Action::Foreign(tcx.def_path_str(d));
                }
                Action::Body
            }
            InstanceKind::Intrinsic(d) => Action::Intrinsic(tcx.item_name(d).to_string()),
            InstanceKind::LlvmIntrinsic(d) => Action::Foreign(tcx.def_path_str(d)),
            InstanceKind::Virtual(_, i) => Action::Virtual(i),
            InstanceKind::Shim(s) => match s {
                ShimKind::DropGlue(_, None) => Action::Noop,
                ShimKind::ThreadLocal(d) => Action::Foreign(format!("thread local {}", tcx.def_path_str(d))),
                _ => Action::Body,
            },
        }
    }

    pub fn call(&mut self, inst: Instance<'tcx>, args: Vec<(V, TyI<'tcx>)>, ret: Option<(Pl, TyI<'tcx>)>, bb: u32) -> R<()> {
        match self.action(inst) {
            Action::Noop => self.ret_now(None, V::Zst, bb),
            Action::Body => {
                let hooked = match self.hook_ret {
                    Some(h) => {
                        self.is_repo_fn(inst)
                            && ret.as_ref().is_some_and(|r| r.1.ty == h)
                            && self.m.frames.iter().all(|f| f.hook == 0)
                    }
                    None => false,
                };
                let mut hargs = vec![];
                if hooked {
                    for (v, ti) in &args {
                        let n = match v {
                            V::S(Val::Ptr(_)) => self.lo.pointee(ti.ty).filter(|t| !self.lo.is_unsized(*t)).map(|t| self.lo.tyi(t).size),
                            V::B(_) => Some(ti.size),
                            V::P(_, Val::Int(n)) => self.st.as_const(*n).map(|n| n as u32),
                            _ => None,
                        };
                        if n == Some(32) {
                            let b = self.arg_bytes(v, *ti)?;
                            hargs.push(b);
                        }
                    }
                }
                self.push_frame(inst, args, ret, bb)?;
                if hooked {
                    let func = self.m.frames.last().unwrap().body.name.clone();
                    self.hooks.push(EncHook { func, args: hargs, ..Default::default() });
                    let n = self.hooks.len() as u32;
                    self.m.frames.last_mut().unwrap().hook = n;
                }
                Ok(())
            }
            Action::Never(s) => self.fail(EvKind::Panic, s),
            Action::Foreign(s) => self.fail(EvKind::Effect, format!("call of foreign or opaque function {s}")),
            Action::Virtual(i) => {
                let mut args = args;
                let (p, vt) = match &args[0].0 {
                    V::P(p, Val::Vt(k)) => (*p, *k),
                    _ => return self.unsup("virtual call receiver"),
                };
                let (ty, dy) = self.vts[vt as usize];
                let ty::Dynamic(preds, _) = dy.kind() else { return self.unsup("virtual call type") };
                let Some(pr) = preds.principal() else { return self.unsup("virtual call principal") };
                let tr = self.tcx.erase_and_anonymize_regions(pr.with_self_ty(self.tcx, ty).skip_binder());
                let entries = self.tcx.vtable_entries(tr);
                let target = match entries.get(i) {
                    Some(ty::VtblEntry::Method(m)) => *m,
                    _ => return self.unsup("vtable slot"),
                };
                args[0].0 = V::S(p);
                let n = self.ptr_size();
                args[0].1 = TyI { size: n, align: n, kind: Kind::Ptr, ty: Ty::new_mut_ptr(self.tcx, ty) };
                self.call(target, args, ret, bb)
            }
            Action::Intrinsic(n) => {
                self.stats.intr += 1;
                self.intrinsic(&n, inst, args, ret, bb)
            }
            Action::Model(m) => self.model(m, inst, args, ret, bb),
        }
    }

    // ------------------------------------------------------------ helpers
    pub fn arg_ptr(&mut self, v: &V) -> R<Ptr> {
        match v {
            V::S(x) | V::P(x, _) => self.as_ptr(*x),
            _ => self.unsup("pointer argument expected"),
        }
    }
    pub fn read_bytes(&mut self, p: &Ptr, n: u32) -> R<Vec<T>> {
        let cells = self.read_cells(p, n, 1)?;
        self.cells_bytes(&cells, n)
    }
    pub fn cells_bytes(&mut self, cells: &[Cell], n: u32) -> R<Vec<T>> {
        let mut out = Vec::with_capacity(n as usize);
        for c in cells {
            if c.off != out.len() as u32 {
                return self.fail(EvKind::Memory, "read of uninitialized memory");
            }
            let Val::Int(t) = c.v else { return self.unsup("bytes of an opaque value") };
            for k in 0..c.size {
                let b = self.st.mem_byte(t, c.size, k);
                out.push(b);
            }
        }
        if out.len() != n as usize {
            return self.fail(EvKind::Memory, "read of uninitialized memory");
        }
        Ok(out)
    }
    pub fn write_bytes(&mut self, p: &Ptr, b: &[T]) -> R<()> {
        let cells: Vec<Cell> =
            b.iter().enumerate().map(|(i, &t)| Cell { off: i as u32, size: 1, v: Val::Int(t) }).collect();
        self.write_cells(p, b.len() as u32, 1, &cells)
    }
    pub fn byte_val(&self, b: &[T]) -> V {
        V::B(b.iter().enumerate().map(|(i, &t)| Cell { off: i as u32, size: 1, v: Val::Int(t) }).collect())
    }
    /// bytes of a by-value or by-reference argument
    fn arg_bytes(&mut self, v: &V, ti: TyI<'tcx>) -> R<Vec<T>> {
        match v {
            V::S(Val::Ptr(p)) => {
                let n = self.pointee_size(ti)?;
                self.read_bytes(&p.clone(), n)
            }
            V::P(Val::Ptr(p), Val::Int(n)) => {
                let p = *p;
                let Some(n) = self.st.as_const(*n) else { return self.unsup("slice of unknown length") };
                if n == 0 {
                    return Ok(vec![]);
                }
                self.read_bytes(&p, n as u32)
            }
            V::P(Val::Int(_), Val::Int(n)) if self.st.cval(*n) == Some(0) => Ok(vec![]),
            V::B(c) => {
                let c = c.clone();
                self.cells_bytes(&c, ti.size)
            }
            _ => self.unsup("byte argument"),
        }
    }
    pub fn pointee_size(&mut self, ti: TyI<'tcx>) -> R<u32> {
        match self.lo.pointee(ti.ty) {
            Some(t) if !self.lo.is_unsized(t) => Ok(self.lo.tyi(t).size),
            _ => self.unsup("pointee size"),
        }
    }
    fn read_ghost(&mut self, p: &Ptr) -> R<(Ghost, u32)> {
        let Some(a) = self.alloc(p) else { return self.fail(EvKind::Memory, "access through a dangling pointer") };
        let off = p.off as u32;
        let i = a.first(off);
        match a.cells.get(i) {
            Some(Cell { off: o, size, v: Val::Ghost(g) }) if *o == off => {
                let s = *size;
                let g = *g as usize;
                Ok((self.ghosts[g].clone(), s))
            }
            _ => self.unsup("modelled object not found at this address"),
        }
    }
    fn write_ghost(&mut self, p: &Ptr, size: u32, g: Ghost) -> R<()> {
        let g = self.ghost(g);
        self.write_cells(p, size, 1, &[Cell { off: 0, size, v: Val::Ghost(g) }])
    }
    pub fn ghost_val(&mut self, size: u32, g: Ghost) -> V {
        let g = self.ghost(g);
        V::B(vec![Cell { off: 0, size, v: Val::Ghost(g) }])
    }
    fn self_ty(&self, inst: Instance<'tcx>) -> Ty<'tcx> {
        match self.tcx.impl_of_assoc(inst.def_id()) {
            Some(im) => self.tcx.type_of(im).instantiate(self.tcx, inst.args).skip_norm_wip(),
            None => inst.args.types().next().expect("self type"),
        }
    }
    fn hash_alg(&self, inst: Instance<'tcx>) -> String {
        // name of the core algorithm
        let t = self.self_ty(inst);
        if let ty::Adt(_, a) = t.kind() {
            if let Some(c) = a.types().next() {
                return alg_name(self.tcx, c);
            }
        }
        format!("{t:?}")
    }
    fn as_ghost(&mut self, v: &V) -> R<Ghost> {
        match v {
            V::S(Val::Ghost(g)) => Ok(self.ghosts[*g as usize].clone()),
            V::B(c) if c.len() == 1 => match c[0].v {
                Val::Ghost(g) => Ok(self.ghosts[g as usize].clone()),
                _ => self.unsup("opaque value expected"),
            },
            V::S(Val::Ptr(p)) => Ok(self.read_ghost(&p.clone())?.0),
            _ => self.unsup("opaque value expected"),
        }
    }
    fn ghost_term(&mut self, g: Ghost) -> R<T> {
        match g {
            Ghost::Opaque(t) => Ok(t),
            _ => self.unsup("key object expected"),
        }
    }
    pub fn hash_out(&mut self, alg: &str, data: &[T], n: u32) -> Vec<T> {
        hash_term(&mut self.st, alg, data, n)
    }
    pub fn draw(&mut self, n: u32) -> Vec<T> {
        let pos: usize = self.m.draws.iter().map(|d| d.bytes.len()).sum();
        let mut out = vec![];
        for i in 0..n as usize {
            let s = self.cfg.stream.entry(0).or_default();
            let _ = s;
            while self.cfg.stream[&0].len() <= pos + i {
                let k = self.cfg.stream[&0].len();
                let t = self.st.sym(&format!("rng[{k}]"), 8, 0, 255, SECRET);
                self.cfg.stream.get_mut(&0).unwrap().push(t);
            }
            out.push(self.cfg.stream[&0][pos + i]);
        }
        self.m.draws.push(Draw { rng: 0, bytes: out.clone() });
        out
    }
    pub fn poly_arg(&mut self, v: &V, ti: TyI<'tcx>) -> R<Vec<T>> {
        let cells = match v {
            V::S(Val::Ptr(p)) => {
                let n = self.pointee_size(ti)?;
                if n != 512 {
                    return self.unsup("polynomial layout");
                }
                self.read_cells(&p.clone(), n, 2)?
            }
            V::B(c) => c.clone(),
            _ => return self.unsup("polynomial argument"),
        };
        let b = self.cells_bytes(&cells, 512)?;
        let mut out = Vec::with_capacity(256);
        for k in 0..256 {
            out.push(self.st.mem_concat(&b[2 * k..2 * k + 2]));
        }
        Ok(out)
    }
    pub fn poly_val(&self, c: &[T]) -> V {
        V::B(c.iter().enumerate().map(|(i, &t)| Cell { off: 2 * i as u32, size: 2, v: Val::Int(t) }).collect())
    }

    fn contract_poly(&mut self, name: &str, inp: Vec<T>, what: &str) -> R<V> {
        let mut c = Vec::with_capacity(256);
        for t in inp {
            if self.st.hi(t) >= crate::form::Q {
                let s = self.st.show(t, 3);
                self.ev(EvKind::Contract, format!("{what} may receive a coefficient that is not reduced: {s}"));
            }
            c.push(self.st.canon(t));
        }
        let o = apply_poly(&mut self.st, name, &c);
        Ok(self.poly_val(&o))
    }

    fn model(&mut self, m: Model, inst: Instance<'tcx>, args: Vec<(V, TyI<'tcx>)>, ret: Option<(Pl, TyI<'tcx>)>, bb: u32) -> R<()> {
        use Model::*;
        let rsize = ret.as_ref().map(|r| r.1.size).unwrap_or(0);
        let nm = format!("{m:?}");
        *self.funcs.entry(format!("model:{nm}")).or_insert(0) += 1;
        let v = match m {
            HashDefault => {
                let alg = self.hash_alg(inst);
                self.ghost_val(rsize, Ghost::Hash { alg, data: Rc::new(vec![]) })
            }
            HashUpdate => {
                let p = self.arg_ptr(&args[0].0)?;
                let b = self.arg_bytes(&args[1].0, args[1].1)?;
                let (g, n) = self.read_ghost(&p)?;
                let Ghost::Hash { alg, data } = g else { return self.unsup("hash state") };
                let mut d = (*data).clone();
                d.extend(b);
                self.write_ghost(&p, n, Ghost::Hash { alg, data: Rc::new(d) })?;
                V::Zst
            }
            HashFinalInto | HashFinalIntoReset => {
                let g = self.as_ghost(&args[0].0)?;
                let Ghost::Hash { alg, data } = g else { return self.unsup("hash state") };
                let n = self.pointee_size(args[1].1)?;
                let out = self.hash_out(&alg, &data, n);
                let p = self.arg_ptr(&args[1].0)?;
                self.write_bytes(&p, &out)?;
                if m == HashFinalIntoReset {
                    let p = self.arg_ptr(&args[0].0)?;
                    let (_, n) = self.read_ghost(&p)?;
                    self.write_ghost(&p, n, Ghost::Hash { alg, data: Rc::new(vec![]) })?;
                }
                V::Zst
            }
            HashXof | HashXofReset => {
                let g = self.as_ghost(&args[0].0)?;
                let Ghost::Hash { alg, data } = g else { return self.unsup("hash state") };
                let app = self.st.app(&alg, &data);
                if m == HashXofReset {
                    let p = self.arg_ptr(&args[0].0)?;
                    let (_, n) = self.read_ghost(&p)?;
                    self.write_ghost(&p, n, Ghost::Hash { alg, data: Rc::new(vec![]) })?;
                }
                self.ghost_val(rsize, Ghost::Xof { app, pos: 0 })
            }
            HashReset => {
                let p = self.arg_ptr(&args[0].0)?;
                let (g, n) = self.read_ghost(&p)?;
                let Ghost::Hash { alg, .. } = g else { return self.unsup("hash state") };
                self.write_ghost(&p, n, Ghost::Hash { alg, data: Rc::new(vec![]) })?;
                V::Zst
            }
            HashClone => {
                let p = self.arg_ptr(&args[0].0)?;
                let (g, n) = self.read_ghost(&p)?;
                self.ghost_val(n, g)
            }
            XofRead => {
                let p = self.arg_ptr(&args[0].0)?;
                let (g, n) = self.read_ghost(&p)?;
                let Ghost::Xof { app, pos } = g else { return self.unsup("xof state") };
                let (q, len) = match &args[1].0 {
                    V::P(q, Val::Int(l)) => (*q, *l),
                    _ => return self.unsup("xof buffer"),
                };
                let Some(len) = self.st.as_const(len) else { return self.unsup("xof read of unknown length") };
                if len > 0 {
                    let q = self.as_ptr(q)?;
                    let out: Vec<T> = (0..len as u32).map(|i| self.xof_byte(app, pos + i)).collect();
                    self.write_bytes(&q, &out)?;
                }
                self.xof_log.push((app, pos, len as u32));
                self.write_ghost(&p, n, Ghost::Xof { app, pos: pos + len as u32 })?;
                V::Zst
            }
            RngFill | RngTryFill => {
                let (q, len) = match &args[1].0 {
                    V::P(q, Val::Int(l)) => (*q, *l),
                    _ => return self.unsup("rng buffer"),
                };
                let Some(len) = self.st.as_const(len) else { return self.unsup("rng draw of unknown length") };
                let out = self.draw(len as u32);
                if len > 0 {
                    let q = self.as_ptr(q)?;
                    self.write_bytes(&q, &out)?;
                }
                if m == RngTryFill {
                    // Ok(())
                    return match ret {
                        Some((pl, ti)) => {
                            let v = self.zero_discr(ti, 0)?;
                            self.ret_now(Some((pl, ti)), v, bb)
                        }
                        None => self.ret_now(None, V::Zst, bb),
                    };
                }
                V::Zst
            }
            RngU32 | RngU64 => {
                let b = self.draw(if m == RngU32 { 4 } else { 8 });
                V::S(Val::Int(self.st.concat(&b)))
            }
            MontMulClamped => {
                let u = self.arg_bytes(&args[0].0, args[0].1)?;
                let k = self.arg_bytes(&args[1].0, args[1].1)?;
                let o = x25519_term(&mut self.st, &k, &u);
                self.byte_val(&o)
            }
            MontMulBaseClamped => {
                let k = self.arg_bytes(&args[0].0, args[0].1)?;
                let o = x25519_base(&mut self.st, &k);
                self.byte_val(&o)
            }
            EdMulBaseClamped => {
                let k = self.arg_bytes(&args[0].0, args[0].1)?;
                let t = self.st.app("EdBase", &k);
                self.ghost_val(rsize, Ghost::Opaque(t))
            }
            EdToMont => {
                let g = self.as_ghost(&args[0].0)?;
                let t = self.ghost_term(g)?;
                let k = match self.st.node(t) {
                    Node::App(_, a) => a.to_vec(),
                    _ => return self.unsup("edwards point"),
                };
                let o = x25519_base(&mut self.st, &k);
                self.byte_val(&o)
            }
            MontEq => {
                let a = self.arg_bytes(&args[0].0, args[0].1)?;
                let b = self.arg_bytes(&args[1].0, args[1].1)?;
                V::S(Val::Int(if a == b {
                    self.st.boolean(true)
                } else {
                    let mut v = a;
                    v.extend(b);
                    let t = self.st.app("PointEq", &v);
                    self.st.elem(t, 0, 8, 1)
                }))
            }
            ScalarRandom => {
                let pos: usize = self.m.draws.iter().map(|d| d.bytes.len()).sum();
                let k = self.st.konst(pos as u128, 32);
                let a = self.st.app("RandomScalar", &[k]);
                let a = self.st.elem_taint(a, 0, 8, 255, SECRET);
                let t = self.st.app("scalar", &[a]);
                self.m.draws.push(Draw { rng: 0, bytes: vec![a] });
                self.ghost_val(rsize, Ghost::Opaque(t))
            }
            PubFromScalar => {
                let g = self.as_ghost(&args[0].0)?;
                let t = self.ghost_term(g)?;
                let t = self.st.app("PublicKey", &[t]);
                self.ghost_val(rsize, Ghost::Opaque(t))
            }
            EcDh => {
                let g = self.as_ghost(&args[0].0)?;
                let s = self.ghost_term(g)?;
                let g = self.as_ghost(&args[1].0)?;
                let p = self.ghost_term(g)?;
                let t = self.st.app("ECDH", &[s, p]);
                self.ghost_val(rsize, Ghost::Opaque(t))
            }
            ScalarZeroize => {
                let p = self.arg_ptr(&args[0].0)?;
                let (_, n) = self.read_ghost(&p)?;
                let t = self.st.app("Zeroized", &[]);
                self.m.vstores.push((p.a, p.serial, p.off, n));
                self.write_ghost(&p, n, Ghost::Opaque(t))?;
                V::Zst
            }
            OsRng => {
                self.ev(EvKind::ForeignRng, "bytes drawn from the operating system's generator");
                let f = self.fn_key(inst);
                if f.name == "fill_bytes" || f.name == "try_fill_bytes" {
                    return self.model(if f.name == "fill_bytes" { RngFill } else { RngTryFill }, inst, args, ret, bb);
                }
                return self.model(if f.name == "next_u32" { RngU32 } else { RngU64 }, inst, args, ret, bb);
            }
            Ntt => {
                self.used_contract("ntt", inst);
                let c = self.poly_arg(&args[0].0, args[0].1)?;
                self.contract_poly("NTT", c, "the forward transform")?
            }
            NttInv => {
                self.used_contract("ntt_inverse", inst);
                let c = self.poly_arg(&args[0].0, args[0].1)?;
                self.contract_poly("NTTinv", c, "the inverse transform")?
            }
            SampleUniform => {
                self.used_contract("sample_uniform", inst);
                let p = self.arg_ptr(&args[0].0)?;
                let (g, n) = self.read_ghost(&p)?;
                let Ghost::Xof { app, pos } = g else { return self.unsup("uniform sampling from a non-XOF") };
                if pos != 0 {
                    let k = self.st.konst(pos as u128, 32);
                    let app2 = self.st.app("advanced", &[app, k]);
                    let o = sample_uniform_term(&mut self.st, app2);
                    self.poly_val(&o)
                } else {
                    if self.st.taint(app) & SECRET != 0 {
                        self.ev(EvKind::TaintBranch, "rejection sampling from a secret seed");
                    }
                    self.write_ghost(&p, n, Ghost::Xof { app, pos: 1 << 20 })?;
                    let o = sample_uniform_term(&mut self.st, app);
                    self.poly_val(&o)
                }
            }
            EncodePoint => {
                let g = self.as_ghost(&args[0].0)?;
                let s = self.ghost_term(g)?;
                let V::S(Val::Int(c)) = args[1].0 else { return self.unsup("flag") };
                let t = self.st.app("EncodePoint", &[s, c]);
                self.ghost_val(rsize, Ghost::Opaque(t))
            }
            Op(o) => return self.op_model(o, args, ret, bb),
            MlKemDecaps => {
                let k = self.arg_bytes(&args[0].0, args[0].1)?;
                let c = self.arg_bytes(&args[1].0, args[1].1)?;
                let o = mlkem_decaps_term(&mut self.st, &k, &c);
                if rsize != 32 {
                    return self.unsup("result layout of decapsulation");
                }
                self.byte_val(&o)
            }
            SampleCbd => {
                self.used_contract("sample_cbd", inst);
                let b = self.arg_bytes(&args[0].0, args[0].1)?;
                if b.len() != 128 && b.len() != 192 {
                    return self.unsup("binomial sampler input length");
                }
                let b: Vec<T> = b.into_iter().map(|t| self.st.canon(t)).collect();
                let o = cbd_term(&mut self.st, &b);
                self.poly_val(&o)
            }
        };
        self.ret_now(ret, v, bb)
    }
    fn op_term(&mut self, v: &V) -> R<T> {
        let g = self.as_ghost(v)?;
        self.ghost_term(g)
    }
    fn op_model(&mut self, o: OpM, args: Vec<(V, TyI<'tcx>)>, ret: Option<(Pl, TyI<'tcx>)>, bb: u32) -> R<()> {
        let rsize = ret.as_ref().map(|r| r.1.size).unwrap_or(0);
        let v = match o {
            OpM::Clone => {
                let t = self.op_term(&args[0].0)?;
                let t = self.st.app("op.clone", &[t]);
                self.ghost_val(rsize, Ghost::Opaque(t))
            }
            OpM::Default => {
                let t = self.st.app("op.default", &[]);
                self.ghost_val(rsize, Ghost::Opaque(t))
            }
            OpM::Eq | OpM::PartialCmp | OpM::Cmp => {
                let a = self.op_term(&args[0].0)?;
                let b = self.op_term(&args[1].0)?;
                let (n, hi, tab): (_, _, &[u128]) = match o {
                    OpM::Eq => ("op.eq", 1, &[0, 1]),
                    OpM::Cmp => ("op.cmp", 2, &[255, 0, 1]),
                    _ => ("op.partial_cmp", 3, &[255, 0, 1, 2]),
                };
                let t = self.st.app(n, &[a, b]);
                let e = self.st.elem(t, 0, 8, hi);
                V::S(Val::Int(if o == OpM::Eq { e } else { self.st.tab(tab.to_vec(), e, 8) }))
            }
            OpM::Hash | OpM::HWrite => {
                let (hp, mut inp) = if o == OpM::Hash {
                    (self.arg_ptr(&args[1].0)?, vec![self.op_term(&args[0].0)?])
                } else {
                    (self.arg_ptr(&args[0].0)?, self.arg_bytes(&args[1].0, args[1].1)?)
                };
                let (g, n) = self.read_ghost(&hp)?;
                let s = self.ghost_term(g)?;
                inp.push(s);
                let t = self.st.app(if o == OpM::Hash { "op.hash" } else { "hasher.write" }, &inp);
                self.write_ghost(&hp, n, Ghost::Opaque(t))?;
                V::Zst
            }
            OpM::Zeroize => {
                let p = self.arg_ptr(&args[0].0)?;
                let (g, n) = self.read_ghost(&p)?;
                let s = self.ghost_term(g)?;
                let t = self.st.app("op.zeroized", &[s]);
                self.write_ghost(&p, n, Ghost::Opaque(t))?;
                V::Zst
            }
        };
        self.ret_now(ret, v, bb)
    }
    /// a volatile store of zeros: remember the place and the bytes it destroys
    fn record_wipe(&mut self, p: &Ptr, n: u32) {
        self.m.vstores.push((p.a, p.serial, p.off, n));
        let old = self.final_bytes(p, n);
        let had: HashSet<T> = old.into_iter().flatten().filter(|t| self.st.cval(*t).is_none()).collect();
        self.m.wiped.extend(had);
    }
    fn used_contract(&mut self, name: &'static str, inst: Instance<'tcx>) {
        if !self.contract_insts.iter().any(|x| x.1 == inst) {
            self.contract_insts.push((name, inst));
        }
    }
    pub fn xof_byte(&mut self, app: T, i: u32) -> T {
        self.st.elem(app, i, 8, 255)
    }
    /// value of an enum type holding variant `v` without payload
    fn zero_discr(&mut self, ti: TyI<'tcx>, v: u32) -> R<V> {
        match self.lo.tag_write(ti.ty, rustc_abi::VariantIdx::from_u32(v)) {
            Some((off, size, x)) => {
                let t = self.st.konst(x, size as u16 * 8);
                Ok(V::B(vec![Cell { off, size, v: Val::Int(t) }]))
            }
            None => self.unsup("untagged variant"),
        }
    }
    pub fn on_hook(&mut self, hook: u32, v: V, ti: TyI<'tcx>) -> R<V> {
        if hook > 0 {
            let cells = self.to_cells(&v, ti.size);
            let bytes = self.cells_bytes(&cells, ti.size)?;
            let fresh = match self.hooks.iter().find(|h| h.bytes == bytes) {
                Some(h) => h.fresh.clone(),
                None => self.st.byte_syms(&format!("reencrypted{hook}_"), bytes.len(), SECRET),
            };
            let v = self.byte_val(&fresh);
            let h = &mut self.hooks[hook as usize - 1];
            h.bytes = bytes;
            h.fresh = fresh;
            return Ok(v);
        }
        Ok(v)
    }

    // ------------------------------------------------------------ intrinsics
    fn intrinsic(&mut self, n: &str, inst: Instance<'tcx>, args: Vec<(V, TyI<'tcx>)>, ret: Option<(Pl, TyI<'tcx>)>, bb: u32) -> R<()> {
        let tcx = self.tcx;
        let targ = inst.args.types().next();
        let int = |s: &mut Self, i: usize| -> R<T> {
            match &args[i].0 {
                V::S(v) => {
                    let v = *v;
                    s.addr_of_val(v)
                }
                _ => s.unsup("intrinsic operand"),
            }
        };
        let int_ty = args.first().map(|a| a.1);
        let signed = int_ty.is_some_and(|t| t.ty.is_signed());
        let us = |s: &mut Self, x: u64| V::S(Val::Int(s.st.usize_k(x as u128)));
        let v = match n {
            "size_of" => {
                let s = self.lo.tyi(targ.unwrap()).size as u64;
                us(self, s)
            }
            "align_of" | "min_align_of" | "pref_align_of" => {
                let s = self.lo.tyi(targ.unwrap()).align as u64;
                us(self, s)
            }
            "size_of_val" | "align_of_val" | "min_align_of_val" => {
                let t = targ.unwrap();
                if !self.lo.is_unsized(t) {
                    let ti = self.lo.tyi(t);
                    us(self, if n == "size_of_val" { ti.size as u64 } else { ti.align as u64 })
                } else if let (ty::Slice(_) | ty::Str, V::P(_, Val::Int(l))) = (t.kind(), &args[0].0) {
                    let l = *l;
                    let et = match t.kind() {
                        ty::Slice(e) => *e,
                        _ => tcx.types.u8,
                    };
                    let ti = self.lo.tyi(et);
                    if n == "size_of_val" {
                        let k = self.st.usize_k(ti.size as u128);
                        V::S(Val::Int(self.st.mul(l, k)))
                    } else {
                        us(self, ti.align as u64)
                    }
                } else {
                    return self.unsup("size_of_val");
                }
            }
            "needs_drop" => {
                let b = targ.unwrap().needs_drop(tcx, self.lo.env());
                V::S(Val::Int(self.st.boolean(b)))
            }
            "type_id_eq" => return self.unsup("type id comparison"),
            "assume" | "forget" | "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid"
            | "prefetch_read_data" | "nontemporal_store" => V::Zst,
            "atomic_singlethreadfence" | "atomic_fence" => V::Zst,
            "likely" | "unlikely" | "black_box" | "transmute" | "transmute_unchecked" | "read_via_copy" | "slice_get_unchecked"
            | "const_eval_select" | "ptr_metadata" | "aggregate_raw_ptr" | "discriminant_value" => {
                return self.intrinsic2(n, inst, args, ret, bb)
            }
            "is_val_statically_known" | "ub_checks" | "contract_checks" | "overflow_checks" => {
                V::S(Val::Int(self.st.boolean(n == "overflow_checks")))
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let a = self.arg_ptr(&args[0].0);
                let b = self.arg_ptr(&args[1].0);
                let s = self.lo.tyi(targ.unwrap()).size as i64;
                match (a, b) {
                    (Ok(a), Ok(b)) if a.a == b.a && a.serial == b.serial => {
                        if a.sym != 0 || b.sym != 0 {
                            if a.sym == b.sym && a.stride == b.stride {
                                us(self, ((a.off - b.off) / s) as u64)
                            } else {
                                let x = int(self, 0)?;
                                let y = int(self, 1)?;
                                let d = self.st.sub(x, y);
                                let k = self.st.usize_k(s as u128);
                                V::S(Val::Int(self.st.udiv(d, k)))
                            }
                        } else {
                            us(self, ((a.off - b.off) / s) as u64)
                        }
                    }
                    (Ok(_), Ok(_)) => return self.fail(EvKind::Memory, "difference of pointers into different objects"),
                    _ => {
                        let x = int(self, 0)?;
                        let y = int(self, 1)?;
                        let d = self.st.sub(x, y);
                        let k = self.st.usize_k(s.max(1) as u128);
                        V::S(Val::Int(self.st.udiv(d, k)))
                    }
                }
            }
            "arith_offset" | "offset" => {
                let s = self.lo.tyi(targ_pointee(targ.unwrap(), n)).size;
                let i = int(self, 1)?;
                match &args[0].0 {
                    V::S(p) => {
                        let p = *p;
                        V::S(self.ptr_offset(p, i, s)?)
                    }
                    _ => return self.unsup("offset"),
                }
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let (a, b) = (int(self, 0)?, int(self, 1)?);
                let op = match n {
                    "add_with_overflow" => BinOp::AddWithOverflow,
                    "sub_with_overflow" => BinOp::SubWithOverflow,
                    _ => BinOp::MulWithOverflow,
                };
                self.binop(op, Val::Int(a), Val::Int(b), signed as u32)?
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
                let (a, b) = (int(self, 0)?, int(self, 1)?);
                V::S(Val::Int(match n {
                    "wrapping_add" => self.st.add(a, b),
                    "wrapping_sub" => self.st.sub(a, b),
                    _ => self.st.mul(a, b),
                }))
            }
            "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_div" | "unchecked_rem" | "unchecked_shl"
            | "unchecked_shr" | "exact_div" => {
                let (a, b) = (int(self, 0)?, int(self, 1)?);
                let op = match n {
                    "unchecked_add" => BinOp::AddUnchecked,
                    "unchecked_sub" => BinOp::SubUnchecked,
                    "unchecked_mul" => BinOp::MulUnchecked,
                    "unchecked_div" | "exact_div" => BinOp::Div,
                    "unchecked_rem" => BinOp::Rem,
                    "unchecked_shl" => BinOp::ShlUnchecked,
                    _ => BinOp::ShrUnchecked,
                };
                self.binop(op, Val::Int(a), Val::Int(b), signed as u32)?
            }
            "saturating_add" | "saturating_sub" => {
                if signed {
                    return self.unsup("signed saturation");
                }
                let (a, b) = (int(self, 0)?, int(self, 1)?);
                let w = self.st.w(a);
                let op = if n == "saturating_add" { BinOp::AddWithOverflow } else { BinOp::SubWithOverflow };
                let (v, f) = self.checked(op, a, b, false);
                let k = if n == "saturating_add" { self.st.konst(mask(w), w) } else { self.st.konst(0, w) };
                V::S(Val::Int(self.st.ite(f, k, v)))
            }
            "disjoint_bitor" => {
                let (a, b) = (int(self, 0)?, int(self, 1)?);
                V::S(Val::Int(self.st.or(a, b)))
            }
            "rotate_left" | "rotate_right" => {
                let (a, k) = (int(self, 0)?, int(self, 1)?);
                let w = self.st.w(a);
                let Some(k) = self.st.as_const(k) else { return self.unsup("rotate by unknown amount") };
                let k = (k % w as u128) as u16;
                let k = if n == "rotate_left" { k } else { (w - k) % w };
                if k == 0 {
                    V::S(Val::Int(a))
                } else {
                    V::S(Val::Int(self.st.bits(&[(a, w - k, k), (a, 0, w - k)], w)))
                }
            }
            "ctpop" | "cttz" | "ctlz" | "cttz_nonzero" | "ctlz_nonzero" => {
                let a = int(self, 0)?;
                let op = match n {
                    "ctpop" => Op::Popcnt,
                    "cttz" | "cttz_nonzero" => Op::Ctz,
                    _ => Op::Clz,
                };
                let w = ret.as_ref().map(|r| r.1.size * 8).unwrap_or(32) as u16;
                V::S(Val::Int(self.st.un(op, a, w)))
            }
            "bswap" => {
                let a = int(self, 0)?;
                let w = self.st.w(a);
                let parts: Vec<(T, u16, u16)> = (0..w / 8).rev().map(|i| (a, i * 8, 8)).collect();
                V::S(Val::Int(self.st.bits(&parts, w)))
            }
            "bitreverse" => {
                let a = int(self, 0)?;
                let w = self.st.w(a);
                let parts: Vec<(T, u16, u16)> = (0..w).rev().map(|i| (a, i, 1)).collect();
                V::S(Val::Int(self.st.bits(&parts, w)))
            }
            "copy" | "copy_nonoverlapping" | "volatile_copy_nonoverlapping_memory" => {
                let ti = self.lo.tyi(targ.unwrap());
                let c = int(self, 2)?;
                let (s, d) = (args[0].0.clone(), args[1].0.clone());
                self.mem_copy(s, d, c, ti.size, ti.align, n != "copy")?;
                V::Zst
            }
            "write_bytes" | "volatile_set_memory" => {
                let ti = self.lo.tyi(targ.unwrap());
                let b = int(self, 1)?;
                let c = int(self, 2)?;
                let Some(c) = self.st.as_const(c) else { return self.unsup("memset of unknown length") };
                let nb = c as u32 * ti.size;
                if nb > 0 {
                    let p = self.arg_ptr(&args[0].0)?;
                    let out = vec![b; nb as usize];
                    if n.starts_with("volatile") && self.st.cval(b) == Some(0) {
                        self.record_wipe(&p, nb);
                    }
                    self.write_bytes(&p, &out)?;
                }
                V::Zst
            }
            "volatile_store" | "unaligned_volatile_store" => {
                let ti = args[1].1;
                if ti.size > 0 {
                    let p = self.arg_ptr(&args[0].0)?;
                    let zero = self
                        .to_cells(&args[1].0, ti.size)
                        .iter()
                        .all(|c| matches!(c.v, Val::Int(t) if self.st.cval(t) == Some(0)));
                    if zero {
                        self.record_wipe(&p, ti.size);
                    }
                    self.write_val(&Pl { p, int: None, meta: None }, ti, args[1].0.clone())?;
                }
                V::Zst
            }
            "write_via_move" => {
                let ti = args[1].1;
                if ti.size > 0 {
                    let p = self.arg_ptr(&args[0].0)?;
                    self.write_val(&Pl { p, int: None, meta: None }, ti, args[1].0.clone())?;
                }
                V::Zst
            }
            "volatile_load" | "unaligned_volatile_load" => {
                let (pl, ti) = match ret {
                    Some(r) => r,
                    None => return self.ret_now(None, V::Zst, bb),
                };
                let p = self.arg_ptr(&args[0].0)?;
                let v = self.read_val(&Pl { p, int: None, meta: None }, ti)?;
                return self.ret_now(Some((pl, ti)), v, bb);
            }
            "compare_bytes" => {
                let c = int(self, 2)?;
                let Some(c) = self.st.as_const(c) else { return self.unsup("memcmp of unknown length") };
                let z = self.st.konst(0, 32);
                if c == 0 {
                    V::S(Val::Int(z))
                } else {
                    let p = self.arg_ptr(&args[0].0)?;
                    let q = self.arg_ptr(&args[1].0)?;
                    let a = self.read_bytes(&p, c as u32)?;
                    let b = self.read_bytes(&q, c as u32)?;
                    let mut e = self.st.boolean(true);
                    let mut taint = 0;
                    for (&x, &y) in a.iter().zip(&b) {
                        taint |= self.st.taint(x) | self.st.taint(y);
                        let f = self.st.eq(x, y);
                        e = self.st.and(e, f);
                    }
                    if taint & SECRET != 0 {
                        self.ev(EvKind::TaintCmp, "early-exit comparison (memcmp) of secret data");
                    }
                    // sign of the first difference is not modelled
                    let d = self.st.app("memcmp", &[e]);
                    let d = self.st.elem_taint(d, 0, 32, mask(32), taint);
                    let one = self.st.konst(1, 32);
                    let d = self.st.or(d, one);
                    V::S(Val::Int(self.st.ite(e, z, d)))
                }
            }
            "raw_eq" => {
                let t = targ.unwrap();
                let s = self.lo.tyi(t).size;
                if s == 0 {
                    V::S(Val::Int(self.st.boolean(true)))
                } else {
                    let p = self.arg_ptr(&args[0].0)?;
                    let q = self.arg_ptr(&args[1].0)?;
                    let a = self.read_bytes(&p, s)?;
                    let b = self.read_bytes(&q, s)?;
                    let mut e = self.st.boolean(true);
                    let mut taint = 0;
                    for (&x, &y) in a.iter().zip(&b) {
                        taint |= self.st.taint(x) | self.st.taint(y);
                        let f = self.st.eq(x, y);
                        e = self.st.and(e, f);
                    }
                    if taint & SECRET != 0 {
                        self.ev(EvKind::TaintCmp, "early-exit comparison (bcmp) of secret data");
                    }
                    V::S(Val::Int(e))
                }
            }
            "abort" => return self.fail(EvKind::Panic, "abort"),
            "unreachable" => return self.fail(EvKind::Unreachable, "unreachable_unchecked reached (undefined behaviour)"),
            "ptr_guaranteed_cmp" => V::S(Val::Int(self.st.konst(2, 8))),
            "three_way_compare" => {
                let (a, b) = (int(self, 0)?, int(self, 1)?);
                self.binop(BinOp::Cmp, Val::Int(a), Val::Int(b), signed as u32)?
            }
            "select_unpredictable" => {
                let c = int(self, 0)?;
                match self.decide(c) {
                    Some(b) => args[if b { 1 } else { 2 }].0.clone(),
                    None => match (&args[1].0, &args[2].0) {
                        (V::S(Val::Int(x)), V::S(Val::Int(y))) => {
                            let (x, y) = (*x, *y);
                            V::S(Val::Int(self.st.ite(c, x, y)))
                        }
                        _ => return self.unsup("select"),
                    },
                }
            }
            "typed_swap_nonoverlapping" => {
                let ti = self.lo.tyi(targ.unwrap());
                if ti.size > 0 {
                    let p = self.arg_ptr(&args[0].0)?;
                    let q = self.arg_ptr(&args[1].0)?;
                    let a = self.read_cells(&p, ti.size, ti.align)?;
                    let b = self.read_cells(&q, ti.size, ti.align)?;
                    self.write_cells(&p, ti.size, ti.align, &b)?;
                    self.write_cells(&q, ti.size, ti.align, &a)?;
                }
                V::Zst
            }
            _ => {
                if n.starts_with("atomic_") {
                    return self.fail(EvKind::Effect, format!("atomic memory operation {n}"));
                }
                // intrinsics with a fallback body
                let d: DefId = inst.def_id();
                if tcx.intrinsic(d).is_some_and(|i| !i.must_be_overridden) {
                    let fb = Instance { def: InstanceKind::Item(d), args: inst.args };
                    return self.push_frame(fb, args, ret, bb);
                }
                return self.unsup(format!("intrinsic {n}"));
            }
        };
        self.ret_now(ret, v, bb)
    }
    fn intrinsic2(&mut self, n: &str, inst: Instance<'tcx>, args: Vec<(V, TyI<'tcx>)>, ret: Option<(Pl, TyI<'tcx>)>, bb: u32) -> R<()> {
        let v = match n {
            "likely" | "unlikely" | "black_box" | "transmute" | "transmute_unchecked" => args[0].0.clone(),
            "read_via_copy" => {
                let Some((pl, ti)) = ret else { return self.ret_now(None, V::Zst, bb) };
                let p = self.arg_ptr(&args[0].0)?;
                let v = self.read_val(&Pl { p, int: None, meta: None }, ti)?;
                return self.ret_now(Some((pl, ti)), v, bb);
            }
            "ptr_metadata" => match &args[0].0 {
                V::P(_, m) => V::S(*m),
                _ => V::Zst,
            },
            "aggregate_raw_ptr" => match (&args[0].0, &args[1].0) {
                (V::S(p), V::S(m)) => V::P(*p, *m),
                (p, _) => p.clone(),
            },
            "discriminant_value" => {
                let t = self.lo.pointee(args[0].1.ty).unwrap();
                let d = self.lo.discr_read(t);
                let p = match &args[0].0 {
                    V::S(v) => self.pl_of(*v, None)?,
                    _ => return self.unsup("discriminant"),
                };
                self.discr(&p, &d)?
            }
            "slice_get_unchecked" => {
                // (ptr/ref to slice, index) -> ptr/ref to element
                let (p, l) = match &args[0].0 {
                    V::P(p, Val::Int(l)) => (*p, *l),
                    _ => return self.unsup("slice_get_unchecked"),
                };
                let V::S(Val::Int(i)) = args[1].0 else { return self.unsup("index") };
                let c = self.st.ult(i, l);
                if self.decide(c) != Some(true) {
                    self.ev(EvKind::Bounds, "unchecked index may be out of bounds");
                }
                let et = match self.lo.pointee(args[0].1.ty).map(|t| t.kind()) {
                    Some(ty::Slice(e)) => *e,
                    _ => return self.unsup("slice_get_unchecked"),
                };
                let s = self.lo.tyi(et).size;
                V::S(self.ptr_offset(p, i, s)?)
            }
            "const_eval_select" => {
                // (tuple, const fn, runtime fn): take the runtime one
                let f = args[2].1.ty;
                let ty::FnDef(d, a) = f.kind() else { return self.unsup("const_eval_select") };
                let Some(i) = self.lo.resolve_fn(*d, a.no_bound_vars().unwrap()) else { return self.unsup("const_eval_select") };
                let ti = args[0].1;
                let ty::Tuple(ts) = ti.ty.kind() else { return self.unsup("const_eval_select") };
                let lay = self.lo.layout(ti.ty);
                let cells = self.to_cells(&args[0].0, ti.size);
                let mut av = vec![];
                for (j, t) in ts.iter().enumerate() {
                    let fti = self.lo.tyi(t);
                    let off = lay.fields.offset(j).bytes() as u32;
                    let c: Vec<Cell> = cells
                        .iter()
                        .filter(|c| c.off >= off && c.off + c.size <= off + fti.size)
                        .map(|c| Cell { off: c.off - off, ..*c })
                        .collect();
                    let v = self.conform(V::B(c), fti)?;
                    av.push((v, fti));
                }
                return self.call(i, av, ret, bb);
            }
            _ => return self.unsup(format!("intrinsic {n}")),
        };
        let _ = inst;
        self.ret_now(ret, v, bb)
    }
}

fn targ_pointee<'tcx>(t: Ty<'tcx>, n: &str) -> Ty<'tcx> {
    // `offset` is generic over the pointer type, `arith_offset` over the pointee
    if n == "offset" {
        match t.kind() {
            ty::RawPtr(p, _) | ty::Ref(_, p, _) => return *p,
            _ => {}
        }
    }
    t
}

/// innermost sponge name: Sha3_512Core -> Sha3_512, CtVariable... unwrapped
pub fn alg_name<'tcx>(tcx: ty::TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(a, args) => {
            let n = tcx.item_name(a.did()).to_string();
            if n.contains("Wrapper") {
                if let Some(t) = args.types().next() {
                    return alg_name(tcx, t);
                }
            }
            n.trim_end_matches("Core").to_string()
        }
        _ => format!("{t:?}"),
    }
}

// ---- shared between the models and the specifications
pub fn hash_term(st: &mut Store, alg: &str, data: &[T], n: u32) -> Vec<T> {
    let app = st.app(alg, data);
    let taint = st.taint(app);
    (0..n)
        .map(|i| {
            // rho, the first half of SHA3-512(d || k), is published
            let t = if alg == "Sha3_512" && data.len() == 33 && i < 32 { taint & !crate::term::SECRET } else { taint };
            st.elem_taint(app, i, 8, 255, t)
        })
        .collect()
}
pub fn xof_term(st: &mut Store, alg: &str, data: &[T], from: u32, n: u32) -> Vec<T> {
    let app = st.app(alg, data);
    (from..from + n).map(|i| st.elem(app, i, 8, 255)).collect()
}
pub fn apply_poly(st: &mut Store, name: &str, c: &[T]) -> Vec<T> {
    let a = st.app(name, c);
    (0..256).map(|i| st.elem(a, i, 16, crate::form::Q - 1)).collect()
}
pub fn sample_uniform_term(st: &mut Store, app: T) -> Vec<T> {
    let a = st.app("SampleNTT", &[app]);
    (0..256).map(|i| st.elem(a, i, 16, crate::form::Q - 1)).collect()
}
pub fn cbd_term(st: &mut Store, b: &[T]) -> Vec<T> {
    let a = st.app("SampleCBD", b);
    (0..256).map(|i| st.elem(a, i, 16, crate::form::Q - 1)).collect()
}
pub fn mlkem_decaps_term(st: &mut Store, obj: &[T], ct: &[T]) -> Vec<T> {
    let mut v: Vec<T> = obj.iter().map(|&t| st.canon(t)).collect();
    v.extend(ct.iter().map(|&t| st.canon(t)).collect::<Vec<_>>());
    let a = st.app("MLKEM.Decaps", &v);
    (0..32).map(|i| st.elem_taint(a, i, 8, 255, SECRET)).collect()
}
pub fn x25519_term(st: &mut Store, k: &[T], u: &[T]) -> Vec<T> {
    let mut v = k.to_vec();
    v.extend(u);
    let a = st.app("X25519", &v);
    (0..32).map(|i| st.elem(a, i, 8, 255)).collect()
}
pub fn x25519_base(st: &mut Store, k: &[T]) -> Vec<T> {
    let mut u = vec![st.konst(9, 8)];
    let z = st.konst(0, 8);
    u.resize(32, z);
    let a = x25519_term(st, k, &u);
    // public keys are public
    a.into_iter()
        .map(|t| match *st.node(t) {
            Node::Elem(a, i) => st.elem_taint(a, i, 8, 255, 0),
            _ => t,
        })
        .collect()
}
