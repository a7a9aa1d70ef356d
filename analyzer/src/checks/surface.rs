//! Checks over items and crates rather than values: the public surface of ML-KEM without its
//! opt-in feature, and the crates a build without default features links.
use super::frame::*;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{CrateNum, DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, visit::Visitor};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

// ------------------------------------------------------------------ C26
pub fn c26(ck: &mut Ck<'_>) {
    let tcx = ck.tcx;
    let mut crates: Vec<CrateNum> = tcx.crates(()).to_vec();
    crates.retain(|&c| !tcx.crate_dep_kind(c).macros_only());
    for &c in &crates {
        let n = tcx.crate_name(c);
        let bad = ["std", "alloc"].contains(&n.as_str());
        ck.obligations += 1;
        ck.sample(format!("links {n}"));
        if !bad {
            ck.discharged += 1;
            continue;
        }
        let mut chain = vec![n.to_string()];
        let mut at = c;
        let mut via = String::new();
        for _ in 0..20 {
            let Some(e) = tcx.extern_crate(at) else { break };
            if via.is_empty() {
                via = tcx.sess.source_map().span_to_diagnostic_string(e.span);
            }
            if e.dependency_of == LOCAL_CRATE {
                break;
            }
            chain.push(tcx.crate_name(e.dependency_of).to_string());
            at = e.dependency_of;
        }
        ck.violation(
            &format!("links {n}:{}", std::env::var("KEMCHECK_VARIANT").unwrap_or_default()),
            format!("a build without default features links `{n}`: {} ({via})", chain.join(" <- ")),
        );
    }
    ck.count("crates linked", crates.len() as u64);
}

// ------------------------------------------------------------------ C18
struct Refs<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<(DefId, ty::GenericArgsRef<'tcx>)>,
}
impl<'tcx> Refs<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) {
        for a in t.walk() {
            if let ty::GenericArgKind::Type(t) = a.kind() {
                match *t.kind() {
                    ty::FnDef(d, args) => self.out.push((d, args.skip_binder())),
                    ty::Closure(d, args) => self.out.push((d, args)),
                    _ => {}
                }
            }
        }
    }
}
impl<'tcx> Visitor<'tcx> for Refs<'tcx> {
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _: mir::Location) {
        self.ty(c.const_.ty());
    }
}
/// every function a function mentions
fn refs<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> Vec<DefId> {
    if !tcx.is_mir_available(d) {
        return vec![];
    }
    let body = tcx.optimized_mir(d);
    let mut r = Refs { tcx, out: vec![] };
    r.visit_body(body);
    for p in tcx.promoted_mir(d) {
        r.visit_body(p);
    }
    for l in body.local_decls.iter() {
        r.ty(l.ty);
    }
    for s in body.source_scopes.iter() {
        if let Some((i, _)) = s.inlined {
            r.out.push((i.def_id(), i.args));
        }
    }
    let env = ty::TypingEnv::post_analysis(tcx, d);
    let mut out = vec![];
    for (f, args) in r.out {
        let Some(t) = tcx.trait_of_assoc(f) else {
            out.push(f);
            continue;
        };
        match Instance::try_resolve(tcx, env, f, args) {
            Ok(Some(i)) if i.def_id() != f => out.push(i.def_id()),
            Ok(Some(_)) => out.push(f),
            _ => {
                // any implementation
                out.push(f);
                for imp in tcx.all_impls(t) {
                    out.extend(tcx.associated_items(imp).in_definition_order().filter(|a| a.trait_item_def_id() == Some(f)).map(|a| a.def_id));
                }
            }
        }
    }
    out
}

struct Surface<'tcx> {
    tcx: TyCtxt<'tcx>,
    krate: CrateNum,
    adts: HashSet<DefId>,
    traits: HashSet<DefId>,
    fns: BTreeMap<String, DefId>,
    mods: HashSet<DefId>,
    grew: bool,
}
impl<'tcx> Surface<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) {
        for a in t.walk() {
            if let ty::GenericArgKind::Type(t) = a.kind() {
                if let ty::Adt(d, _) = t.kind() {
                    self.adt(d.did());
                }
            }
        }
    }
    fn adt(&mut self, d: DefId) {
        if d.krate != self.krate || !self.adts.insert(d) {
            return;
        }
        self.grew = true;
        let tcx = self.tcx;
        for f in tcx.adt_def(d).all_fields() {
            if f.vis.is_public() {
                self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip());
            }
        }
    }
    fn tr(&mut self, d: DefId) {
        if d.krate != self.krate || !self.traits.insert(d) {
            return;
        }
        self.grew = true;
        let tcx = self.tcx;
        for s in tcx.explicit_super_clauses_of(d).skip_binder().iter().map(|x| x.0) {
            if let Some(p) = s.as_trait_clause() {
                self.tr(p.def_id());
            }
        }
        for a in tcx.associated_items(d).in_definition_order() {
            match a.kind {
                ty::AssocKind::Type { .. } => {
                    for b in tcx.item_bounds(a.def_id).skip_binder() {
                        if let Some(p) = b.as_trait_clause() {
                            self.tr(p.def_id());
                        }
                    }
                }
                ty::AssocKind::Fn { .. } => self.func(a.def_id),
                _ => {}
            }
        }
    }
    fn func(&mut self, d: DefId) {
        let n = self.tcx.def_path_str(d);
        let n = if self.fns.contains_key(&n) && self.fns[&n] != d { format!("{n}#{}", d.index.as_u32()) } else { n };
        if self.fns.insert(n, d).is_some() {
            return;
        }
        self.grew = true;
        let sig = self.tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        for t in sig.inputs_and_output {
            self.ty(t);
        }
    }
    fn module(&mut self, m: DefId) {
        if !self.mods.insert(m) {
            return;
        }
        let tcx = self.tcx;
        for c in tcx.module_children(m) {
            if !c.vis.is_public() {
                continue;
            }
            if let Res::Def(k, d) = c.res {
                if d.krate != self.krate {
                    continue;
                }
                match k {
                    DefKind::Mod => self.module(d),
                    DefKind::Struct | DefKind::Enum | DefKind::Union => self.adt(d),
                    DefKind::Trait => self.tr(d),
                    DefKind::Fn => self.func(d),
                    DefKind::TyAlias | DefKind::Const { .. } | DefKind::Static { .. } => {
                        self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())
                    }
                    _ => {}
                }
            }
        }
    }
    fn visible(&self, t: Ty<'tcx>) -> bool {
        t.walk().all(|a| match a.kind() {
            ty::GenericArgKind::Type(t) => match t.kind() {
                ty::Adt(d, _) => d.did().krate != self.krate || self.adts.contains(&d.did()),
                _ => true,
            },
            _ => true,
        })
    }
    fn close(&mut self) {
        let tcx = self.tcx;
        self.module(self.krate.as_def_id());
        loop {
            self.grew = false;
            for d in self.adts.clone() {
                for &i in tcx.inherent_impls(d) {
                    for a in tcx.associated_items(i).in_definition_order() {
                        if !tcx.visibility(a.def_id).is_public() {
                            continue;
                        }
                        match a.kind {
                            ty::AssocKind::Fn { .. } => self.func(a.def_id),
                            _ => self.ty(tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip()),
                        }
                    }
                }
            }
            for &i in tcx.trait_impls_in_crate(self.krate) {
                let tr = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
                let known = tr.def_id.krate != self.krate || self.traits.contains(&tr.def_id);
                if !known || !self.visible(tr.self_ty()) {
                    continue;
                }
                for a in tcx.associated_items(i).in_definition_order() {
                    match a.kind {
                        ty::AssocKind::Fn { .. } => self.func(a.def_id),
                        ty::AssocKind::Type { .. } => self.ty(tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip()),
                        _ => {}
                    }
                }
            }
            if !self.grew {
                break;
            }
        }
    }
}
/// is the argument a generator handed in by the caller
fn is_rng<'tcx>(tcx: TyCtxt<'tcx>, f: DefId, t: Ty<'tcx>) -> bool {
    let t = t.peel_refs();
    match t.kind() {
        ty::Param(_) => tcx.clauses_of(f).instantiate_identity(tcx).clauses.iter().any(|c| {
            (*c).skip_norm_wip().as_trait_clause().is_some_and(|p| {
                p.self_ty().skip_binder() == t && ["CryptoRng", "CryptoRngCore"].contains(&tcx.item_name(p.def_id()).as_str())
            })
        }),
        ty::Dynamic(preds, ..) => preds
            .principal_def_id()
            .is_some_and(|d| ["CryptoRng", "CryptoRngCore"].contains(&tcx.item_name(d).as_str())),
        _ => false,
    }
}
pub fn c18(ck: &mut Ck<'_>) {
    let tcx = ck.tcx;
    let Some(&krate) = tcx.crates(()).iter().find(|&&c| tcx.crate_name(c).as_str() == "ml_kem") else {
        ck.violation("crate", "the ml_kem crate is not part of the build".into());
        return;
    };
    let mut s = Surface {
        tcx,
        krate,
        adts: HashSet::new(),
        traits: HashSet::new(),
        fns: BTreeMap::new(),
        mods: HashSet::new(),
        grew: false,
    };
    s.close();
    // call graph below the surface
    let mut parents: HashMap<DefId, Vec<DefId>> = HashMap::new();
    let mut seen: HashSet<DefId> = HashSet::new();
    let mut todo: VecDeque<DefId> = s.fns.values().copied().collect();
    let mut sinks: HashSet<DefId> = HashSet::new();
    let mut edges = 0u64;
    while let Some(d) = todo.pop_front() {
        if !seen.insert(d) {
            continue;
        }
        ck.funcs.insert(tcx.def_path_str(d));
        if tcx.opt_item_name(d).is_some_and(|n| ["sample_cbd", "PRF"].contains(&n.as_str())) {
            sinks.insert(d);
        }
        for f in refs(tcx, d) {
            if f.krate != krate {
                continue;
            }
            edges += 1;
            parents.entry(f).or_default().push(d);
            todo.push_back(f);
        }
    }
    // what reaches the noise sampler, with one way down
    let mut down: HashMap<DefId, Option<DefId>> = HashMap::new();
    let mut q: VecDeque<DefId> = VecDeque::new();
    for &d in &sinks {
        down.insert(d, None);
        q.push_back(d);
    }
    while let Some(d) = q.pop_front() {
        for &p in parents.get(&d).into_iter().flatten() {
            if !down.contains_key(&p) {
                down.insert(p, Some(d));
                q.push_back(p);
            }
        }
    }
    ck.count("public functions", s.fns.len() as u64);
    ck.count("functions in the call graph", seen.len() as u64);
    ck.count("call edges", edges);
    ck.count("reachable types", s.adts.len() as u64);
    let (mut gen, mut enc) = (0, 0);
    for (n, &f) in &s.fns {
        ck.roots.push(n.clone());
        if !down.contains_key(&f) {
            ck.obligations += 1;
            ck.discharged += 1;
            continue;
        }
        let sig = tcx.fn_sig(f).instantiate_identity().skip_norm_wip().skip_binder();
        let assoc = tcx.opt_associated_item(f);
        let method = assoc.is_some_and(|a| a.is_method());
        let rest: Vec<Ty<'_>> = sig.inputs().iter().copied().skip(usize::from(method)).collect();
        let rng = rest.iter().filter(|t| is_rng(tcx, f, **t)).count();
        let ext = assoc.and_then(|a| a.trait_item_def_id()).map(|t| (tcx.crate_name(t.krate).to_string(), tcx.item_name(t).to_string()));
        let decaps = ext.as_ref().is_some_and(|(c, m)| c == "kem" && m == "decapsulate");
        let ok = decaps || (rng == 1 && rest.len() == 1);
        if ok && !decaps {
            if method {
                enc += 1
            } else {
                gen += 1
            }
            ck.sample(format!("{n} takes its randomness from a CryptoRng argument"));
        }
        let path = || {
            let mut p = vec![];
            let mut at = Some(f);
            while let Some(d) = at {
                p.push(tcx.def_path_str(d));
                at = down.get(&d).copied().flatten();
            }
            p.join("\n    -> ")
        };
        ck.check(&format!("surface:{}", plain(n)), ok, || {
            format!(
                "{n} ({}) is reachable by users without the deterministic feature, leads to key generation or encryption, and takes more than a CryptoRng argument ({}):\n    {}",
                tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(f)),
                rest.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", "),
                path()
            )
        });
    }
    ck.check("anchors", !sinks.is_empty() && gen > 0 && enc > 0, || {
        format!("the analysis does not see key generation and encapsulation: {} samplers, {gen} generating and {enc} encapsulating functions", sinks.len())
    });
}
#[allow(unused)]
fn unused<'tcx>(t: Ty<'tcx>) -> bool {
    t.has_param()
}
