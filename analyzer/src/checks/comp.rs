//! Components: ring arithmetic, codecs, compression, samplers, each on all inputs.
use super::frame::*;
use crate::form::Q;
use crate::interp::*;
use crate::lower::{live_in, Callee, LBody, LTm};
use crate::mem::*;
use crate::models::*;
use crate::run::*;
use crate::spec;
use crate::term::*;
use rustc_middle::ty::{self, Instance, Ty};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

/// workspace functions reachable from the roots (models and trait objects are not entered)
pub fn reach<'tcx>(ck: &mut Ck<'tcx>, roots: &[String]) -> Vec<Instance<'tcx>> {
    let mut seen: HashSet<Instance<'tcx>> = HashSet::new();
    let mut out = vec![];
    let mut q: VecDeque<Instance<'tcx>> = VecDeque::new();
    for r in roots {
        if ck.absent(r) {
            continue;
        }
        let i = ck.e.harness_fn(r);
        if seen.insert(i) {
            q.push_back(i);
        }
    }
    while let Some(i) = q.pop_front() {
        out.push(i);
        if !matches!(ck.e.action(i), Action::Body) {
            continue;
        }
        let b = ck.e.body(i);
        for bl in &b.blocks {
            if bl.cleanup {
                continue;
            }
            match &bl.tm {
                LTm::Call { callee: Callee::Inst(c), .. } => {
                    if seen.insert(*c) {
                        q.push_back(*c);
                    }
                }
                LTm::Drop { inst, .. } => {
                    if seen.insert(*inst) {
                        q.push_back(*inst);
                    }
                }
                _ => {}
            }
        }
    }
    out.retain(|i| ck.e.is_repo_fn(*i) && ck.tcx.crate_name(i.def_id().krate).as_str() != "kemharness");
    out
}
pub fn mlkem_roots() -> Vec<String> {
    let mut v = vec![];
    for m in ["mlkem512", "mlkem768", "mlkem1024"] {
        for f in ["keygen_det", "keygen", "encaps_det", "encaps", "decaps", "dk_roundtrip", "ek_roundtrip"] {
            v.push(format!("{m}::{f}"));
        }
    }
    v
}
/// value of a typenum integer type
pub fn typenum(t: Ty<'_>) -> Option<usize> {
    let s = format!("{t:?}");
    let ty::Adt(a, args) = t.kind() else { return None };
    let _ = s;
    let tail = format!("{a:?}");
    let name = tail.rsplit("::").next().unwrap_or("").to_string();
    let name = name.split('<').next().unwrap_or("").to_string();
    match name.as_str() {
        "UTerm" => Some(0),
        "UInt" => {
            let mut ts = args.types();
            let hi = typenum(ts.next()?)?;
            let lo = format!("{:?}", ts.next()?);
            Some(2 * hi + usize::from(lo.ends_with("B1")))
        }
        _ => None,
    }
}
fn adt_name<'tcx>(ck: &Ck<'tcx>, t: Ty<'tcx>) -> String {
    match t.peel_refs().kind() {
        ty::Adt(a, _) => ck.tcx.item_name(a.did()).to_string(),
        _ => String::new(),
    }
}
/// number of ring elements in an algebra object (0: a scalar)
fn shape<'tcx>(ck: &mut Ck<'tcx>, t: Ty<'tcx>) -> Option<usize> {
    let t = t.peel_refs();
    let n = adt_name(ck, t);
    let size = ck.e.lo.tyi(t).size as usize;
    match n.as_str() {
        "FieldElement" if size == 2 => Some(0),
        "Polynomial" | "NttPolynomial" | "PolynomialVector" | "NttVector" | "NttMatrix" if size % 512 == 0 && size > 0 => Some(size / 512),
        _ => None,
    }
}
fn arg_types<'tcx>(ck: &mut Ck<'tcx>, i: Instance<'tcx>) -> Vec<Ty<'tcx>> {
    let b = ck.e.body(i);
    (1..=b.argc).map(|k| b.locals[k].ty).collect()
}
pub fn words(st: &mut Store, b: &[Option<T>]) -> Vec<Option<T>> {
    b.chunks(2)
        .map(|c| match c {
            [Some(x), Some(y)] => Some(st.mem_concat(&[*x, *y])),
            _ => None,
        })
        .collect()
}
fn coeffs(st: &mut Store, name: &str, n: usize, hi: u128, taint: u32) -> Vec<T> {
    (0..n).map(|i| st.sym(&format!("{name}[{i}]"), 16, 0, hi, taint)).collect()
}
fn cells16(v: &[T]) -> Vec<Cell> {
    v.iter().enumerate().map(|(i, &t)| Cell { off: 2 * i as u32, size: 2, v: Val::Int(t) }).collect()
}
fn cells8(v: &[T]) -> Vec<Cell> {
    v.iter().enumerate().map(|(i, &t)| Cell { off: i as u32, size: 1, v: Val::Int(t) }).collect()
}
/// run an instance with the given argument contents, in order
pub fn run_with<'tcx>(ck: &mut Ck<'tcx>, label: &str, i: Instance<'tcx>, args: Vec<Vec<Cell>>) -> Run {
    ck.roots.push(label.to_string());
    ck.e.reset(label);
    let mut k = 0;
    let r = ck.e.run_inst(i, &mut |_, _| {
        let c = args.get(k).cloned().unwrap_or_default();
        k += 1;
        Fill::Cells(c)
    });
    ck.ended(label, &r);
    r
}
fn polys(v: &[T]) -> Vec<Vec<T>> {
    v.chunks(256).map(|c| c.to_vec()).collect()
}
fn powers(i: u32) -> Vec<u128> {
    let g = spec::gamma(i);
    let mut v = vec![1u128];
    for _ in 1..128 {
        v.push(v.last().unwrap() * g % Q);
    }
    v
}
/// the transform of FIPS 203 as 256 linear forms
pub fn ntt_spec(st: &mut Store, f: &[T]) -> Vec<T> {
    let mut out = vec![];
    for i in 0..128u32 {
        let p = powers(i);
        for par in 0..2 {
            let parts: Vec<(u128, T)> = (0..128).map(|j| (p[j], f[2 * j + par])).collect();
            out.push(spec::lin(st, &parts));
        }
    }
    out
}
pub fn ntt_inv_spec(st: &mut Store, f: &[T]) -> Vec<T> {
    let inv128 = spec::powmod(128, (Q - 2) as u32);
    let tab: Vec<Vec<u128>> = (0..128u32)
        .map(|i| {
            let ginv = spec::powmod(spec::gamma(i), (Q - 2) as u32);
            let mut v = vec![inv128];
            for _ in 1..128 {
                v.push(v.last().unwrap() * ginv % Q);
            }
            v
        })
        .collect();
    let mut out = vec![];
    for j in 0..128 {
        for par in 0..2 {
            let parts: Vec<(u128, T)> = (0..128).map(|i| (tab[i][j], f[2 * i + par])).collect();
            out.push(spec::lin(st, &parts));
        }
    }
    out
}
fn label_of<'tcx>(ck: &mut Ck<'tcx>, i: Instance<'tcx>) -> String {
    let k = ck.e.fn_key(i);
    let ts = arg_types(ck, i);
    let args: Vec<String> = ts
        .iter()
        .map(|t| {
            let n = adt_name(ck, *t);
            match shape(ck, *t) {
                Some(m) if n.ends_with("Vector") || n.ends_with("Matrix") => format!("{n}[{m}]"),
                _ if n == "Array" => format!("{} bytes", ck.e.lo.tyi(t.peel_refs()).size),
                _ if n.is_empty() => format!("{t}"),
                _ => n,
            }
        })
        .collect();
    let d: Vec<String> = i.args.types().filter_map(|t| typenum(t)).map(|n| n.to_string()).collect();
    let mut k = k;
    if k.self_adt.starts_with('&') {
        k.self_adt = format!("&{}", ts.first().map(|t| adt_name(ck, *t)).unwrap_or_default());
    }
    let tr = if k.trait_.is_empty() { k.self_adt.clone() } else { format!("{} as {}", k.self_adt, k.trait_) };
    format!("{tr}::{}<{}>({})", k.name, d.join(","), args.join(", "))
}

/// ring operation: Some(expected result) from the argument coefficients
fn ring_spec(st: &mut Store, tr: &str, name: &str, tys: &[String], n: &[usize], a: &[Vec<T>]) -> Option<(Vec<T>, bool)> {
    let prod = |st: &mut Store, x: T, y: T| {
        let (f, g) = (st.form(x), st.form(y));
        let p = st.form_mul(f, g).unwrap();
        st.field(p)
    };
    let zip = |st: &mut Store, k: u128| -> Vec<T> {
        (0..a[0].len()).map(|i| spec::lin(st, &[(1, a[0][i]), (k, a[1][i])])).collect()
    };
    Some(match (tr, name, tys.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice()) {
        ("Add", "add", [x, y]) if x == y && n[0] == n[1] => (zip(st, 1), false),
        ("AddAssign", "add_assign", [x, y]) if x == y && n[0] == n[1] => (zip(st, 1), true),
        ("Sub", "sub", [x, y]) if x == y && n[0] == n[1] => (zip(st, Q - 1), false),
        ("SubAssign", "sub_assign", [x, y]) if x == y && n[0] == n[1] => (zip(st, Q - 1), true),
        ("Neg", "neg", [_]) => (a[0].iter().map(|&x| spec::lin(st, &[(Q - 1, x)])).collect(), false),
        ("Mul" | "MulAssign", _, ["FieldElement", "FieldElement"]) => (vec![prod(st, a[0][0], a[1][0])], tr == "MulAssign"),
        ("Mul", "mul", ["FieldElement", "Polynomial" | "NttPolynomial"]) => {
            ((0..256).map(|i| prod(st, a[0][0], a[1][i])).collect(), false)
        }
        ("Mul", "mul", ["Polynomial" | "NttPolynomial", "FieldElement"]) => {
            ((0..256).map(|i| prod(st, a[0][i], a[1][0])).collect(), false)
        }
        ("Mul", "mul", ["NttPolynomial", "NttPolynomial"] | ["NttVector", "NttVector"]) if n[0] == n[1] => {
            (spec::dot(st, &polys(&a[0]), &polys(&a[1])), false)
        }
        ("Mul", "mul", ["NttMatrix", "NttVector"]) if n[0] == n[1] * n[1] => {
            let m = polys(&a[0]);
            let v = polys(&a[1]);
            let mut out = vec![];
            for row in m.chunks(n[1]) {
                out.extend(spec::dot(st, row, &v));
            }
            (out, false)
        }
        ("", "ntt", ["Polynomial" | "PolynomialVector"]) => {
            let mut out = vec![];
            for p in polys(&a[0]) {
                out.extend(ntt_spec(st, &p));
            }
            (out, false)
        }
        ("", "ntt_inverse", ["NttPolynomial" | "NttVector"]) => {
            let mut out = vec![];
            for p in polys(&a[0]) {
                out.extend(ntt_inv_spec(st, &p));
            }
            (out, false)
        }
        ("", "transpose", ["NttMatrix"]) => {
            let m = polys(&a[0]);
            let k = (m.len() as f64).sqrt() as usize;
            let mut out = vec![];
            for i in 0..k {
                for j in 0..k {
                    out.extend(&m[j * k + i]);
                }
            }
            (out, false)
        }
        _ => return None,
    })
}
/// decides one ring operation; false if the instance is not one
pub fn ring_op<'tcx>(ck: &mut Ck<'tcx>, i: Instance<'tcx>) -> bool {
    let key = ck.e.fn_key(i);
    if !matches!(key.trait_.as_str(), "Add" | "Sub" | "Mul" | "Neg" | "AddAssign" | "SubAssign" | "MulAssign")
        && !(key.trait_.is_empty() && matches!(key.name.as_str(), "ntt" | "ntt_inverse" | "transpose"))
    {
        return false;
    }
    let tys = arg_types(ck, i);
    let mut names = vec![];
    let mut n = vec![];
    let mut a = vec![];
    for (k, t) in tys.iter().enumerate() {
        let Some(s) = shape(ck, *t) else { return false };
        names.push(adt_name(ck, *t));
        n.push(s);
        let nm = ["a", "b", "c"].get(k).copied().unwrap_or("d");
        let c = if s == 0 { 1 } else { 256 * s };
        a.push(coeffs(&mut ck.e.st, nm, c, Q - 1, ck.secret));
    }
    let label = label_of(ck, i);
    let Some((want, inplace)) = ring_spec(&mut ck.e.st, &key.trait_, &key.name, &names, &n, &a) else { return false };
    let cells = a.iter().map(|v| cells16(v)).collect();
    let r = run_with(ck, &label, i, cells);
    if r.ok {
        let b = if inplace {
            let x = r.args[0].clone();
            ck.e.final_bytes(&x.ptr, x.size)
        } else {
            ck.e.ret_out(&r)
        };
        let got = words(&mut ck.e.st, &b);
        ck.compare(&label, &got, &want);
    }
    true
}
/// codec instance
pub fn codec<'tcx>(ck: &mut Ck<'tcx>, i: Instance<'tcx>) -> bool {
    let key = ck.e.fn_key(i);
    if key.trait_ != "Encode" {
        return false;
    }
    let b = ck.e.body(i);
    let (obj, enc, dec) = match key.name.as_str() {
        "encode" => (b.locals[1].ty, b.locals[0].ty, false),
        "decode" => (b.locals[0].ty, b.locals[1].ty, true),
        _ => return false,
    };
    let Some(n) = shape(ck, obj) else { return false };
    let bytes = ck.e.lo.tyi(enc.peel_refs()).size as usize;
    if n == 0 || bytes % (32 * n) != 0 {
        return false;
    }
    let d = bytes / (32 * n);
    let label = label_of(ck, i);
    if dec {
        let x = ck.e.st.byte_syms("b", bytes, ck.secret);
        let r = run_with(ck, &label, i, vec![cells8(&x)]);
        if r.ok {
            let want = if d == 12 { spec::decode12(&mut ck.e.st, &x) } else { spec::decode_raw(&mut ck.e.st, &x, d) };
            let o = ck.e.ret_out(&r);
            let got = words(&mut ck.e.st, &o);
            ck.compare(&label, &got, &want);
        }
    } else {
        let hi = if d == 12 { Q - 1 } else { mask(d as u16) };
        let x = coeffs(&mut ck.e.st, "f", 256 * n, hi, ck.secret);
        let r = run_with(ck, &label, i, vec![cells16(&x)]);
        if r.ok {
            let want = spec::encode(&mut ck.e.st, &x, d);
            let got = ck.e.ret_out(&r);
            ck.compare(&label, &got, &want);
        }
    }
    true
}
pub fn compression<'tcx>(ck: &mut Ck<'tcx>, i: Instance<'tcx>) -> bool {
    let key = ck.e.fn_key(i);
    if key.trait_ != "Compress" {
        return false;
    }
    let tys = arg_types(ck, i);
    let Some(n) = shape(ck, tys[0]) else { return false };
    // the width is the method's own parameter: the last one
    let Some(d) = i.args.types().last().and_then(typenum) else { return false };
    let c = if n == 0 { 1 } else { 256 * n };
    let label = label_of(ck, i);
    let (hi, comp) = match key.name.as_str() {
        "compress" => (Q - 1, true),
        "decompress" => (mask(d as u16), false),
        _ => return false,
    };
    let x = coeffs(&mut ck.e.st, "x", c, hi, ck.secret);
    let r = run_with(ck, &label, i, vec![cells16(&x)]);
    if r.ok {
        let want = if comp { spec::compress(&mut ck.e.st, &x, d) } else { spec::decompress(&mut ck.e.st, &x, d) };
        let a = r.args[0].clone();
        let b = ck.e.final_bytes(&a.ptr, a.size);
        let got = words(&mut ck.e.st, &b);
        ck.compare(&label, &got, &want);
    }
    true
}
pub fn cbd_spec(st: &mut Store, b: &[T], eta: usize) -> Vec<T> {
    let raw = spec::decode_raw(st, b, 2 * eta);
    let m = mask(eta as u16);
    let tab: Vec<u128> = (0..1u128 << (2 * eta)).map(|x| (Q + (x & m).count_ones() as u128 - (x >> eta).count_ones() as u128) % Q).collect();
    raw.into_iter()
        .map(|t| {
            let c = st.canon(t);
            st.tab(tab.clone(), c, 16)
        })
        .collect()
}
pub fn cbd<'tcx>(ck: &mut Ck<'tcx>, i: Instance<'tcx>) -> bool {
    let key = ck.e.fn_key(i);
    if key.name != "sample_cbd" {
        return false;
    }
    let b = ck.e.body(i);
    let tys = arg_types(ck, i);
    let label = label_of(ck, i);
    if key.self_adt == "Polynomial" {
        let bytes = ck.e.lo.tyi(tys[0].peel_refs()).size as usize;
        if bytes % 64 != 0 || tys.len() != 1 {
            return false;
        }
        let x = ck.e.st.byte_syms("prf", bytes, ck.secret);
        let r = run_with(ck, &label, i, vec![cells8(&x)]);
        if r.ok {
            let want = cbd_spec(&mut ck.e.st, &x, bytes / 64);
            let o = ck.e.ret_out(&r);
            let got = words(&mut ck.e.st, &o);
            ck.compare(&label, &got, &want);
        }
        return true;
    }
    if key.self_adt == "PolynomialVector" && tys.len() == 2 {
        let Some(n) = shape(ck, b.locals[0].ty) else { return false };
        let Some(eta) = i.args.types().last().and_then(typenum) else { return false };
        let had = ck.e.cfg.contracts.clone();
        ck.e.cfg.contracts.insert("sample_cbd");
        ck.e.actions.clear();
        let s = ck.e.st.byte_syms("sigma", 32, ck.secret);
        let start = ck.e.st.sym("start", 8, 0, 255 - n as u128, 0);
        let r = run_with(ck, &label, i, vec![cells8(&s), cells8(&[start])]);
        if r.ok {
            let mut want = vec![];
            for k in 0..n {
                let kk = ck.e.st.konst(k as u128, 8);
                let nonce = ck.e.st.add(start, kk);
                let nonce = ck.e.st.canon(nonce);
                let mut d = s.clone();
                d.push(nonce);
                let p = xof_term(&mut ck.e.st, "Shake256", &d, 0, 64 * eta as u32);
                let p = spec::canon_all(&mut ck.e.st, &p);
                want.extend(cbd_term(&mut ck.e.st, &p));
            }
            let o = ck.e.ret_out(&r);
            let got = words(&mut ck.e.st, &o);
            ck.compare(&label, &got, &want);
        }
        ck.e.cfg.contracts = had;
        ck.e.actions.clear();
        return true;
    }
    false
}

/// the instances, and those of the same one-parameter functions for every other width in use
fn all_widths<'tcx>(ck: &mut Ck<'tcx>, is: Vec<Instance<'tcx>>, tr: &str) -> Vec<Instance<'tcx>> {
    let mut ds: BTreeMap<usize, Ty<'tcx>> = BTreeMap::new();
    for i in &is {
        if ck.e.fn_key(*i).trait_ == "Encode" {
            for t in i.args.types() {
                if let Some(d) = typenum(t) {
                    if matches!(d, 1 | 4 | 5 | 6 | 10 | 11 | 12) {
                        ds.insert(d, t);
                    }
                }
            }
        }
    }
    let mut out = is.clone();
    for i in is {
        if ck.e.fn_key(i).trait_ != tr || i.args.len() != 1 {
            continue;
        }
        for t in ds.values() {
            let a = ck.tcx.mk_args(&[(*t).into()]);
            if let Some(j) = ck.e.lo.resolve_fn(i.def_id(), a) {
                if !out.contains(&j) {
                    out.push(j);
                }
            }
        }
    }
    ck.count("widths analysed", ds.len() as u64);
    out
}

pub fn c05(ck: &mut Ck<'_>) {
    ck.engine(false);
    let is = reach(ck, &mlkem_roots());
    let mut done = BTreeMap::new();
    for i in is {
        if ring_op(ck, i) {
            let k = ck.e.fn_key(i);
            let t = arg_types(ck, i)[0];
            *done.entry(format!("{} {} {}", adt_name(ck, t), k.trait_, k.name)).or_insert(0u64) += 1;
        }
    }
    for (k, n) in &done {
        ck.count(&format!("instances of {k}"), *n);
    }
    for need in ["Polynomial  ntt", "NttPolynomial  ntt_inverse", "FieldElement Add add", "FieldElement Sub sub", "FieldElement Mul mul"] {
        ck.check(&format!("present:{need}"), done.contains_key(need), || format!("{need}: no instance of this operation was found to analyse"));
    }
}
pub fn c06(ck: &mut Ck<'_>) {
    ck.engine(false);
    let is = reach(ck, &mlkem_roots());
    let mut n = 0;
    for i in all_widths(ck, is, "Encode") {
        if codec(ck, i) {
            n += 1;
        }
    }
    ck.count("codec instances", n);
    ck.check("present:codec", n >= 12, || format!("only {n} codec instances found to analyse"));
}
pub fn c07(ck: &mut Ck<'_>) {
    ck.engine(false);
    let is = reach(ck, &mlkem_roots());
    let mut n = 0;
    for i in all_widths(ck, is, "Compress") {
        if compression(ck, i) {
            n += 1;
        }
    }
    ck.count("compression instances", n);
    ck.check("present:compression", n >= 10, || format!("only {n} compression instances found to analyse"));
}
pub fn c08(ck: &mut Ck<'_>) {
    ck.engine(false);
    let is = reach(ck, &mlkem_roots());
    let mut n = 0;
    for i in is {
        if cbd(ck, i) {
            n += 1;
        }
    }
    ck.count("binomial sampler instances", n);
    ck.check("present:sample_cbd", n >= 2, || format!("only {n} binomial sampler instances found to analyse"));
}
pub fn c09(ck: &mut Ck<'_>) {
    ck.engine(false);
    let is = reach(ck, &mlkem_roots());
    let mut n = 0;
    for i in is {
        let k = ck.e.fn_key(i);
        if k.name == "sample_uniform" && k.self_adt == "NttPolynomial" {
            uniform(ck, i);
            n += 1;
        }
    }
    ck.check("present:sample_uniform", n >= 1, || "no uniform sampler found to analyse".into());
}

/// the components the runs so far replaced by their contracts, decided on all inputs
pub fn verify_components(ck: &mut Ck<'_>) {
    ck.absorb();
    let used = std::mem::take(&mut ck.used);
    ck.engine(false);
    for (name, i) in used {
        let ok = match name {
            "ntt" | "ntt_inverse" => ring_op(ck, i),
            "sample_cbd" => cbd(ck, i),
            // works on public data only
            "sample_uniform" if ck.secret != 0 => true,
            "sample_uniform" => {
                uniform(ck, i);
                true
            }
            _ => true,
        };
        ck.check(&format!("component:{name}"), ok, || format!("{name}: the component could not be matched with its contract"));
    }
    ck.absorb();
}

// ------------------------------------------------------------------ uniform sampling
struct State<'tcx> {
    m: Machine<'tcx>,
    /// candidates accepted so far (all earlier ones are decided)
    acc: usize,
}
struct Names {
    app: T,
    dead: T,
    acc: Vec<T>,
    lim: T,
}
const WINDOW: usize = 200;

fn cand(st: &mut Store, app: T, j: usize) -> T {
    let g = 3 * (j / 2) as u32;
    let z = st.konst(0, 4);
    let (b0, b1, b2) = (st.elem(app, g, 8, 255), st.elem(app, g + 1, 8, 255), st.elem(app, g + 2, 8, 255));
    let t = if j % 2 == 0 {
        st.bits(&[(b0, 0, 8), (b1, 0, 4), (z, 0, 4)], 16)
    } else {
        st.bits(&[(b1, 4, 4), (b2, 0, 8), (z, 0, 4)], 16)
    };
    st.canon(t)
}

/// Explores every path of the sampler over an arbitrary stream. Undecided branches fork; at each
/// fork the decided prefix of the candidate sequence is abstracted away (accepted candidates become
/// acc[0], acc[1], ..., rejected ones an arbitrary value, the unread stream is re-based), and states
/// that coincide are explored once. On every return the polynomial must be acc[0..256].
pub fn uniform<'tcx>(ck: &mut Ck<'tcx>, i: Instance<'tcx>) {
    let label = label_of(ck, i);
    let label = label.split("::sample_uniform").next().map(|s| format!("{s}::sample_uniform")).unwrap_or(label);
    ck.roots.push(label.clone());
    let b = ck.e.body(i);
    let rt = b.locals[1].ty.peel_refs();
    let rsize = ck.e.lo.tyi(rt).size;
    let seed = ck.e.st.byte_syms("xofseed", 34, 0);
    let app = ck.e.st.app("XOF", &seed);
    let acc: Vec<T> = (0..300).map(|k| ck.e.st.sym(&format!("acc[{k}]"), 16, 0, Q - 1, 0)).collect();
    let dead = ck.e.st.sym("rejected", 16, 0, 4095, 0);
    let lim = ck.e.st.konst(Q, 16);
    let mut nm = Names { app, dead, acc, lim };
    ck.e.reset(&label);
    let had = ck.e.explore;
    ck.e.explore = true;
    let g = ck.e.ghost(Ghost::Xof { app, pos: 0 });
    let mut first = true;
    let run = ck.e.prepare(i, &mut |_, _| {
        if first {
            first = false;
            Fill::Cells(vec![Cell { off: 0, size: rsize, v: Val::Ghost(g) }])
        } else {
            Fill::Uninit
        }
    });
    if !run.ok {
        ck.ended(&label, &run);
        ck.e.explore = had;
        return;
    }
    let mut work = vec![State { m: ck.e.m.clone(), acc: 0 }];
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    let mut live = HashMap::new();
    let (mut states, mut returns) = (0u64, 0u64);
    let mut failed = false;
    'outer: while let Some(s) = work.pop() {
        ck.e.m = s.m;
        let res = loop {
            if ck.e.m.frames.is_empty() {
                break None;
            }
            if let Err(e) = ck.e.step() {
                break Some(e);
            }
        };
        match res {
            None => {
                // returned
                returns += 1;
                let (mut n, tail) = match abstract_state(ck, &mut nm, s.acc) {
                    Ok(x) => x,
                    Err(e) => {
                        ck.violation(&label, format!("{label}: {e}"));
                        break;
                    }
                };
                let o = ck.e.ret_out(&run);
                let got = words(&mut ck.e.st, &o);
                let mut want: Vec<T> = nm.acc[..256].to_vec();
                for h in tail {
                    if n < 256 {
                        want[n] = h;
                    }
                    n += 1;
                }
                if !ck.compare(&label, &got, &want) || n < 256 {
                    failed = true;
                    ck.check(&format!("{label}:count"), n >= 256, || format!("{label} returns after accepting only {n} candidates"));
                    break;
                }
            }
            Some(Stop::Fork(alts)) => {
                let base = ck.e.m.clone();
                for (facts, bb) in alts {
                    ck.e.m = base.clone();
                    ck.e.m.facts.extend(facts);
                    ck.e.goto(bb);
                    forget_dead(ck, &mut live);
                    match abstract_state(ck, &mut nm, s.acc) {
                        Ok((n, _)) => {
                            let k = key_of(ck, n);
                            if seen.insert(k) {
                                states += 1;
                                if states % 5000 == 0 && std::env::var_os("KEMCHECK_PROGRESS").is_some() {
                                    eprintln!("{states} states, {} to do, {returns} returns, {n} accepted", work.len());
                                }
                                work.push(State { m: ck.e.m.clone(), acc: n });
                            }
                        }
                        Err(e) => {
                            let at = ck.e.here();
                            ck.violation(&label, format!("{label}: {e} ({at})"));
                            failed = true;
                            break 'outer;
                        }
                    }
                }
                if states > 400_000 {
                    ck.violation(&label, format!("{label}: more than {states} distinct states; the sampler could not be decided"));
                    break;
                }
            }
            Some(Stop::Diverge) => {
                // an event has been recorded; make it fatal for this obligation
                let r = Run { args: vec![], ret: None, ok: false, stop: Some(Stop::Diverge), new_events: 0 };
                ck.ended(&label, &r);
                failed = true;
                break;
            }
        }
    }
    ck.e.explore = had;
    ck.count("sampler states explored", states);
    ck.count("sampler paths returning", returns);
    ck.check(&format!("{label}:returns"), failed || returns > 0, || format!("{label} never returns"));
    ck.obligations += states;
    ck.discharged += states;
}

/// decide which candidates the facts settle, drop the settled prefix and rename; returns the number accepted
fn abstract_state(ck: &mut Ck<'_>, nm: &mut Names, acc0: usize) -> Result<(usize, Vec<T>), String> {
    // candidate index -> accepted
    let mut dec: BTreeMap<usize, bool> = BTreeMap::new();
    let facts = std::mem::take(&mut ck.e.m.facts);
    let mut keep = vec![];
    for (t, v) in facts {
        let c = ck.e.st.canon(t);
        if ck.e.st.as_const(c).is_some() {
            continue;
        }
        match ck.e.st.stream_fact(nm, c) {
            Some((j, pol)) => {
                dec.insert(j, v == pol);
                keep.push((t, v, j));
            }
            None => {
                let s = short(ck.e.st.show(c, 6));
                return Err(format!("a decision does not concern a fresh 12-bit candidate against 3329: {s}"));
            }
        }
    }
    let mut n = acc0;
    let mut pre = 0;
    while let Some(a) = dec.get(&pre) {
        let _ = a;
        pre += 1;
    }
    if let Some((&last, _)) = dec.iter().next_back() {
        if last > pre + 64 {
            return Err(format!("candidate {pre} of the remaining stream is passed over"));
        }
    }
    // a group is settled once a candidate of the next one is decided
    let groups = if pre % 2 == 1 { pre / 2 } else { (pre / 2).saturating_sub(1) };
    let mut map: HashMap<T, T> = HashMap::new();
    let mut ranks = vec![];
    for j in 0..pre {
        if dec[&j] {
            if n < nm.acc.len() {
                ranks.push(Some(n));
            } else {
                ranks.push(None);
            }
            n += 1;
        } else {
            ranks.push(None);
        }
    }
    let settled = 2 * groups;
    let n_settled = (0..settled).filter(|j| dec[j]).count() + acc0;
    let name = |j: usize| -> T {
        match ranks[j] {
            Some(r) => nm.acc[r],
            None => nm.dead,
        }
    };
    let mut raw = HashSet::new();
    for g in 0..groups {
        let (x, y) = (name(2 * g), name(2 * g + 1));
        let st = &mut ck.e.st;
        let b = 3 * g as u32;
        let (e0, e1, e2) = (st.elem(nm.app, b, 8, 255), st.elem(nm.app, b + 1, 8, 255), st.elem(nm.app, b + 2, 8, 255));
        let v0 = st.slice(x, 0, 8);
        let v1 = st.bits(&[(x, 8, 4), (y, 0, 4)], 8);
        let v2 = st.slice(y, 4, 8);
        map.insert(e0, v0);
        map.insert(e1, v1);
        map.insert(e2, v2);
        raw.extend([e0, e1, e2]);
    }
    if groups > 0 {
        for k in 3 * groups..3 * groups + 3 * WINDOW {
            let (o, r) = (ck.e.st.elem(nm.app, k as u32, 8, 255), ck.e.st.elem(nm.app, (k - 3 * groups) as u32, 8, 255));
            // do not overwrite the renaming of settled bytes
            map.insert(o, r);
        }
        ck.e.m.facts = keep.iter().filter(|f| f.2 >= settled).map(|f| (f.0, f.1)).collect();
        let dead8 = ck.e.st.slice(nm.dead, 0, 8);
        rename(ck, &mut map, &raw, dead8, 3 * groups as u32)?;
    } else {
        ck.e.m.facts = keep.iter().map(|f| (f.0, f.1)).collect();
    }
    // accepted candidates of the group still held by its stream bytes (re-based)
    let tail: Vec<T> = (settled..pre).filter(|j| dec[j]).map(|j| cand(&mut ck.e.st, nm.app, j - settled)).collect();
    Ok((n_settled, tail))
}

fn rename(ck: &mut Ck<'_>, map: &mut HashMap<T, T>, raw: &HashSet<T>, dead8: T, shift: u32) -> Result<(), String> {
    let empty = ck.e.empty_machine();
    let mut m = std::mem::replace(&mut ck.e.m, empty);
    let e = &mut ck.e;
    let mut err = None;
    let mut fix = |e: &mut Engine<'_>, v: Val| -> Val {
        match v {
            // a stream byte as such is forgotten once its candidates are settled
            Val::Int(t) if raw.contains(&t) => Val::Int(dead8),
            Val::Int(t) => Val::Int(e.st.subst(t, map)),
            Val::Ptr(p) if p.sym != 0 => Val::Ptr(Ptr { sym: e.st.subst(p.sym, map), ..p }),
            Val::Ghost(g) => match e.ghosts[g as usize].clone() {
                Ghost::Xof { app, pos } => {
                    if pos < shift {
                        err = Some("stream bytes are decided before they are read".to_string());
                        return v;
                    }
                    Val::Ghost(e.ghost(Ghost::Xof { app, pos: pos - shift }))
                }
                _ => v,
            },
            _ => v,
        }
    };
    for a in m.mem.stack.iter_mut().chain(m.mem.globals.iter_mut()) {
        let Some(rc) = a else { continue };
        let mut changed = false;
        let mut cells = Vec::with_capacity(rc.cells.len());
        for c in &rc.cells {
            let v = fix(e, c.v);
            changed |= v != c.v;
            cells.push(Cell { v, ..*c });
        }
        if changed {
            std::rc::Rc::make_mut(rc).cells = cells;
        }
    }
    for f in m.facts.iter_mut() {
        if let Val::Int(t) = fix(e, Val::Int(f.0)) {
            f.0 = t;
        }
    }
    ck.e.m = m;
    match err {
        Some(s) => Err(s),
        None => Ok(()),
    }
}

/// Empties the locals that no frame can read any more, so that states which differ only there coincide.
fn forget_dead<'tcx>(ck: &mut Ck<'tcx>, cache: &mut HashMap<usize, (std::rc::Rc<LBody<'tcx>>, Vec<Vec<u64>>)>) {
    let n = ck.e.m.frames.len();
    for k in 0..n {
        let f = &ck.e.m.frames[k];
        let bb = if k + 1 == n { f.bb } else { ck.e.m.frames[k + 1].ret_bb };
        let (body, base) = (f.body.clone(), f.base);
        if bb as usize >= body.blocks.len() || (k + 1 == n && f.si != 0) {
            continue;
        }
        let (_, live) = cache.entry(std::rc::Rc::as_ptr(&body) as usize).or_insert_with(|| (body.clone(), live_in(&body)));
        let live = &live[bb as usize];
        for l in 0..body.locals.len() {
            if live[l / 64] >> (l % 64) & 1 == 0 {
                if let Some(Some(a)) = ck.e.m.mem.stack.get_mut(base as usize + l) {
                    if !a.cells.is_empty() {
                        std::rc::Rc::make_mut(a).cells.clear();
                    }
                }
            }
        }
    }
}

/// everything the continuation can observe
fn key_of(ck: &Ck<'_>, n: usize) -> Vec<u64> {
    let m = &ck.e.m;
    let mut k: Vec<u64> = vec![n as u64, m.frames.len() as u64];
    for f in &m.frames {
        k.push(std::rc::Rc::as_ptr(&f.body) as u64);
        k.push((f.base as u64) << 32 | f.bb as u64);
        k.push((f.si as u64) << 32 | f.ret_bb as u64);
        if let Some((p, _)) = &f.ret {
            k.push((p.p.a as u64) << 32 | p.p.off as u32 as u64);
            k.push(p.p.sym as u64);
        }
    }
    let val = |v: &Val, k: &mut Vec<u64>| match v {
        Val::Int(t) => k.push(1 << 56 | *t as u64),
        Val::Ptr(p) => {
            let live = m.mem.get(p.a).is_some_and(|a| a.serial == p.serial) || p.a & CONSTA != 0;
            k.push((2 + live as u64) << 56 | p.a as u64);
            k.push(p.off as u64);
            k.push((p.sym as u64) << 32 | p.stride as u64);
        }
        Val::Fn(f) => k.push(4 << 56 | *f as u64),
        Val::Vt(f) => k.push(5 << 56 | *f as u64),
        Val::Ghost(g) => k.push(6 << 56 | *g as u64),
    };
    for (i, a) in m.mem.stack.iter().enumerate().chain(m.mem.globals.iter().enumerate()) {
        let Some(a) = a else { continue };
        k.push(7 << 56 | i as u64);
        for c in &a.cells {
            k.push((c.off as u64) << 32 | c.size as u64);
            val(&c.v, &mut k);
        }
    }
    for (t, v) in &m.facts {
        k.push(8 << 56 | (*t as u64) << 1 | *v as u64);
    }
    // 128-bit digest in two halves instead of the whole sequence
    use std::hash::{Hash, Hasher};
    let mut h1 = std::collections::hash_map::DefaultHasher::new();
    let mut h2 = std::collections::hash_map::DefaultHasher::new();
    k.hash(&mut h1);
    0x9e37_79b9u64.hash(&mut h2);
    k.hash(&mut h2);
    vec![h1.finish(), h2.finish()]
}

trait StreamFact {
    fn stream_fact(&mut self, nm: &Names, c: T) -> Option<(usize, bool)>;
}
impl StreamFact for Store {
    /// (candidate index, truth value that means "accepted")
    fn stream_fact(&mut self, nm: &Names, c: T) -> Option<(usize, bool)> {
        // the stream bytes the condition reads
        let mut bytes = HashSet::new();
        let mut todo = vec![c];
        let mut vis = HashSet::new();
        while let Some(t) = todo.pop() {
            if !vis.insert(t) {
                continue;
            }
            if let Node::Elem(a, i) = *self.node(t) {
                if a == nm.app {
                    bytes.insert(i);
                    continue;
                }
            }
            let mut ch = vec![];
            self.children(t, &mut ch);
            todo.extend(ch);
        }
        let g = *bytes.iter().min()? / 3;
        for j in [2 * g as usize, 2 * g as usize + 1] {
            let x = cand(self, nm.app, j);
            let lt = self.ult(x, nm.lim);
            let l = self.canon(lt);
            if l == c || lt == c {
                return Some((j, true));
            }
            let nl = self.bnot(lt);
            let l = self.canon(nl);
            if l == c || nl == c {
                return Some((j, false));
            }
        }
        None
    }
}
