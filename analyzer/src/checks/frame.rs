//! Bookkeeping shared by the checks: runs, obligations, violations, the report.
use crate::interp::*;
use crate::run::*;
use crate::term::*;
use rustc_middle::ty::{Ty, TyCtxt};
use std::collections::{BTreeMap, BTreeSet};

pub struct Ck<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub prop: String,
    pub e: Engine<'tcx>,
    pub viol: BTreeMap<String, String>,
    pub obligations: u64,
    pub discharged: u64,
    pub samples: Vec<String>,
    pub funcs: BTreeSet<String>,
    pub roots: Vec<String>,
    pub counts: BTreeMap<String, u64>,
    pub kinds: Vec<EvKind>,
    /// taint of the inputs components are analysed with
    pub secret: u32,
    /// the property is about the values computed
    pub values: bool,
    /// the unknown key pair of the Diffie-Hellman runs
    pub pair: Option<(T, T)>,
    /// when the analysis began
    pub t0: std::time::Instant,
    /// the harness is built with only some of the features
    pub partial: bool,
    /// component contracts relied on by the runs so far
    pub used: Vec<(&'static str, rustc_middle::ty::Instance<'tcx>)>,
}

/// an execution that ends in one of these does not produce the result the property promises
pub const FATAL: &[EvKind] = &[
    EvKind::Panic,
    EvKind::Overflow,
    EvKind::Bounds,
    EvKind::DivZero,
    EvKind::Memory,
    EvKind::Unreachable,
    EvKind::Contract,
    EvKind::Unsupported,
];
pub const TAINT: &[EvKind] = &[EvKind::TaintBranch, EvKind::TaintDiv, EvKind::TaintAddr, EvKind::TaintCmp, EvKind::Unsupported];
pub const EFFECT: &[EvKind] = &[EvKind::Static, EvKind::Effect, EvKind::ForeignRng, EvKind::Unsupported];

/// `a::b::<X, Y>::c` without generic arguments
pub fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut depth = 0i32;
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        match c {
            '<' if depth > 0 || (i > 0 && !matches!(b[i - 1], ' ' | '(' )) => depth += 1,
            '>' if depth > 0 && b[i - 1] != '-' => {
                depth -= 1;
                i += 1;
                continue;
            }
            _ => {}
        }
        if depth == 0 {
            out.push(c);
        }
        i += 1;
    }
    out.replace("::::", "::").trim_end_matches("::").to_string()
}

impl<'tcx> Ck<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>, prop: &str) -> Self {
        Ck {
            tcx,
            prop: prop.into(),
            e: Engine::new(tcx),
            viol: BTreeMap::new(),
            obligations: 0,
            discharged: 0,
            samples: vec![],
            funcs: BTreeSet::new(),
            roots: vec![],
            counts: BTreeMap::new(),
            kinds: FATAL.to_vec(),
            secret: 0,
            values: true,
            pair: None,
            partial: std::env::var("KEMCHECK_PARTIAL").is_ok(),
            used: vec![],
            t0: std::time::Instant::now(),
        }
    }
    pub fn violation(&mut self, key: &str, text: String) {
        let k = format!("{}:{}", self.prop, key);
        if self.viol.contains_key(&k) {
            return;
        }
        self.viol.insert(k, text);
        // in case the rest of the analysis does not finish in time
        if let (Ok(p), true) = (std::env::var("KEMCHECK_OUT"), self.viol.len() < 20) {
            let _ = std::fs::write(format!("{p}.found"), self.json(self.t0.elapsed().as_secs_f64()));
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.into()).or_insert(0) += n;
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 60 && self.samples.last() != Some(&s) {
            self.samples.push(s);
        }
    }
    /// an obligation decided directly
    pub fn check(&mut self, key: &str, ok: bool, text: impl FnOnce() -> String) -> bool {
        self.obligations += 1;
        if ok {
            self.discharged += 1;
        } else {
            let t = text();
            self.violation(key, t);
        }
        ok
    }
    /// fresh engine; with the component contracts in force if asked for
    pub fn engine(&mut self, contracts: bool) {
        self.absorb();
        self.e = Engine::new(self.tcx);
        if contracts {
            for c in crate::models::ALL_CONTRACTS {
                self.e.cfg.contracts.insert(c);
            }
        }
    }
    /// collect what the engine recorded
    pub fn absorb(&mut self) {
        let evs = std::mem::take(&mut self.e.events);
        for ev in evs {
            if !self.kinds.contains(&ev.kind) {
                self.count(&format!("other events: {:?}", ev.kind), 1);
                continue;
            }
            let key = format!("{:?}:{}", ev.kind, plain(&ev.func));
            let text = format!(
                "{:?} at {} in {}: {}\n  reached from {}\n    {}",
                ev.kind,
                ev.site,
                ev.func,
                ev.msg,
                ev.root,
                ev.stack.join("\n    ")
            );
            self.violation(&key, text);
        }
        let s = std::mem::take(&mut self.e.stats);
        self.count("abstract steps", s.steps);
        self.count("calls", s.calls);
        let n = std::mem::take(&mut self.e.st.stat_probe_evals);
        self.count("probe evaluations", n);
        self.count("undecided branches joined", s.splits);
        self.count("branches", s.branches);
        self.count("assertions", s.asserts);
        self.count("dereferences", s.derefs);
        self.count("divisions", s.divs);
        let f = std::mem::take(&mut self.e.funcs);
        for (k, _) in f {
            if k.starts_with("ml_kem") || k.starts_with("x_wing") || k.starts_with("dhkem") || k.contains("ml_kem::") || k.contains("x_wing::") || k.contains("dhkem::") {
                self.funcs.insert(k);
            }
        }
        let u = std::mem::take(&mut self.e.contract_insts);
        for x in u {
            if !self.used.contains(&x) {
                self.used.push(x);
            }
        }
    }
    /// an entry point this build of the harness leaves out (the feature it needs is off)
    pub fn absent(&mut self, root: &str) -> bool {
        self.partial && self.e.find_fn(root).is_none()
    }
    pub fn run(&mut self, root: &str, fill: &mut dyn FnMut(&str, &Ty<'tcx>) -> Fill) -> Run {
        if self.absent(root) {
            self.count("entry points absent from this configuration", 1);
            return Run { args: vec![], ret: None, ok: false, stop: None, new_events: 0 };
        }
        if self.enough() {
            return Run { args: vec![], ret: None, ok: false, stop: None, new_events: 0 };
        }
        self.roots.push(root.to_string());
        let r = self.e.run_root(root, fill);
        self.ended(root, &r);
        self.absorb();
        r
    }
    /// the property is already known not to hold and the analysis has become slow
    pub fn enough(&mut self) -> bool {
        let done = !self.viol.is_empty() && self.t0.elapsed().as_secs() > 150;
        if done {
            self.count("entry points left out after a violation", 1);
        }
        done
    }
    pub fn ended(&mut self, root: &str, r: &Run) {
        self.obligations += 1;
        if r.ok {
            self.discharged += 1;
            return;
        }
        // the event that stopped the run is reported with its site; make sure something is
        let last = self.e.events.last().map(|e| (e.kind, format!("{:?} in {} ({}): {}", e.kind, e.func, e.site, e.msg)));
        match last {
            Some((k, _)) if self.kinds.contains(&k) => {}
            Some((_, s)) => self.violation(&format!("no-result:{root}"), format!("{root} does not complete: {s}")),
            None => self.violation(&format!("no-result:{root}"), format!("{root} does not complete: {:?}", r.stop)),
        }
    }
    /// value graphs must be equal, byte for byte (or coefficient for coefficient)
    pub fn compare(&mut self, label: &str, got: &[Option<T>], want: &[T]) -> bool {
        if !self.values {
            return got.len() == want.len();
        }
        let mut bad: Option<String> = None;
        let mut nbad = 0;
        self.obligations += want.len() as u64;
        if got.len() != want.len() {
            self.violation(label, format!("{label}: {} values, {} expected", got.len(), want.len()));
            return false;
        }
        for (i, (&g, &w)) in got.iter().zip(want).enumerate() {
            let e = &mut self.e;
            match g {
                None => {
                    nbad += 1;
                    bad.get_or_insert(format!("element {i} is never written"));
                }
                Some(g) => {
                    let c = e.st.canon(g);
                    let w = e.st.canon(w);
                    let same = c == w
                        || (e.st.w(c) == e.st.w(w)
                            && e.st.w(w) > 8
                            && e.st.hi(c) < crate::form::Q
                            && e.st.hi(w) < crate::form::Q
                            && e.st.form(c) == e.st.form(w))
                        || e.st.same_by_bits(c, w);
                    if same {
                        self.discharged += 1;
                    } else {
                        nbad += 1;
                        if bad.is_none() {
                            let (x, y) = e.st.diff(c, w, 12);
                            let sub = if (x, y) == (c, w) {
                                String::new()
                            } else {
                                format!(
                                    "\n  they first differ inside at\n    {}\n  against\n    {}",
                                    short(e.st.show(x, 4)),
                                    short(e.st.show(y, 4))
                                )
                            };
                            bad = Some(format!(
                                "element {i} computed at {} is\n    {}\n  but the specification requires\n    {}{sub}",
                                e.loc_str(g),
                                short(e.st.show(c, 5)),
                                short(e.st.show(w, 5))
                            ));
                        }
                    }
                }
            }
        }
        if nbad == 0 {
            if let Some(&w) = want.first() {
                let s = format!("{label}: {} values equal, e.g. [0] = {}", want.len(), self.e.st.show(w, 2));
                self.sample(s);
            }
            return true;
        }
        self.violation(label, format!("{label}: {nbad} of {} values differ; {}", want.len(), bad.unwrap()));
        false
    }
    /// type behind argument i of a harness function
    pub fn arg_type(&mut self, f: &str, i: usize) -> Ty<'tcx> {
        let inst = self.e.harness_fn(f);
        let sig = self.tcx.fn_sig(inst.def_id()).instantiate_identity().skip_norm_wip().skip_binder();
        let t = sig.inputs()[i];
        let t = t.builtin_deref(true).unwrap_or(t);
        let t = self.tcx.normalize_erasing_regions(self.e.lo.env(), rustc_middle::ty::Unnormalized::new_wip(t));
        self.tcx.erase_and_anonymize_regions(t)
    }
    pub fn arg_count(&mut self, f: &str) -> usize {
        let inst = self.e.harness_fn(f);
        self.tcx.fn_sig(inst.def_id()).skip_binder().inputs().skip_binder().len()
    }
    pub fn implements(&self, krate: &str, tr: &str, t: Ty<'tcx>) -> Option<bool> {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let d = self
            .tcx
            .all_traits_including_private()
            .find(|&d| self.tcx.item_name(d).as_str() == tr && self.tcx.crate_name(d.krate).as_str() == krate)?;
        let (infcx, env) = self.tcx.infer_ctxt().build_with_typing_env(self.e.lo.env());
        Some(infcx.type_implements_trait(d, [t], env).must_apply_modulo_regions())
    }
    /// the type implements (or does not implement) a marker trait
    pub fn marker(&mut self, label: &str, krate: &str, tr: &str, t: Ty<'tcx>, want: bool) {
        let got = self.implements(krate, tr, t);
        self.check(label, got == Some(want), || {
            format!("{label}: `{t}` {} {krate}::{tr}", if want { "does not implement" } else { "must not implement" })
        });
        self.sample(format!("{label}: `{t}` implements {tr}: {got:?}"));
    }
    pub fn ret_const(&mut self, label: &str, r: &Run, want: u128) {
        let o = self.e.ret_out(r);
        let mut v = Some(0u128);
        for (i, t) in o.iter().enumerate() {
            let c = t.and_then(|t| {
                let t = self.e.st.canon(t);
                self.e.st.as_const(t)
            });
            v = match (v, c) {
                (Some(a), Some(c)) => Some(a | c << (8 * if self.e.st.be { o.len() - 1 - i } else { i })),
                _ => None,
            };
        }
        self.check(label, v == Some(want), || format!("{label}: result {v:?}, expected {want} on every path"));
    }
    fn json(&self, wall: f64) -> String {
        let esc = |s: &str| {
            let mut o = String::with_capacity(s.len() + 8);
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                    c => o.push(c),
                }
            }
            o
        };
        let list = |v: &[String]| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
        let mut s = String::from("{");
        s += &format!("\"prop\":\"{}\",\"wall\":{wall:.2},\"obligations\":{},\"discharged\":{},", self.prop, self.obligations, self.discharged);
        s += &format!("\"roots\":[{}],", list(&self.roots));
        s += &format!("\"functions\":[{}],", list(&self.funcs.iter().cloned().collect::<Vec<_>>()));
        s += &format!("\"samples\":[{}],", list(&self.samples));
        s += &format!(
            "\"counts\":{{{}}},",
            self.counts.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect::<Vec<_>>().join(",")
        );
        s += &format!(
            "\"violations\":[{}]}}",
            self.viol.iter().map(|(k, v)| format!("{{\"key\":\"{}\",\"text\":\"{}\"}}", esc(k), esc(v))).collect::<Vec<_>>().join(",")
        );
        s
    }
    pub fn finish(&mut self, wall: f64) {
        self.absorb();
        match std::env::var("KEMCHECK_OUT") {
            Ok(p) => std::fs::write(p, self.json(wall)).expect("write report"),
            Err(_) => {
                eprintln!("{} obligations={} discharged={} violations={} wall={wall:.1}", self.prop, self.obligations, self.discharged, self.viol.len());
                for (k, v) in &self.viol {
                    eprintln!("VIOL {k}\n{v}");
                }
                for (k, v) in &self.counts {
                    eprintln!("  {k}: {v}");
                }
                eprintln!("  functions {}", self.funcs.len());
                for f in self.samples.iter().take(8) {
                    eprintln!("  sample {f}");
                }
            }
        }
    }
}

pub fn short(s: String) -> String {
    if s.len() <= 700 {
        return s;
    }
    let mut n = 700;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{} ... [{} characters]", &s[..n], s.len())
}
