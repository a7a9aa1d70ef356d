//! Sizes, panics, secrecy of control flow, randomness, purity, memory safety, equality.
use super::comp::*;
use super::frame::*;
use super::xwing::stream;
use crate::form::Q;
use crate::interp::*;
use crate::mem::*;
use crate::run::*;
use crate::spec::{self, PARAMS};
use crate::term::*;
use rustc_middle::ty::{self, Instance, Ty};
use std::collections::{HashMap, HashSet};

pub const DH: [&str; 5] = ["dh_k256", "dh_p256", "dh_p384", "dh_p521", "dh_x25519"];

// ------------------------------------------------------------------ C11
pub fn c11(ck: &mut Ck<'_>) {
    let rows: [(&str, Vec<u128>); 4] = [
        ("mlkem512", vec![2, 3, 2, 10, 4, 800, 1632, 768, 32, 800, 1632, 768, 32]),
        ("mlkem768", vec![3, 2, 2, 10, 4, 1184, 2400, 1088, 32, 1184, 2400, 1088, 32]),
        ("mlkem1024", vec![4, 2, 2, 11, 5, 1568, 3168, 1568, 32, 1568, 3168, 1568, 32]),
        ("xwing", vec![1216, 32, 1120, 32]),
    ];
    let what = [
        "k", "eta1", "eta2", "du", "dv", "encapsulation key bytes", "decapsulation key bytes", "ciphertext bytes", "shared key bytes",
        "EncapsulationKey::EncodedSize", "DecapsulationKey::EncodedSize", "CiphertextSize", "SharedKeySize",
    ];
    let xw = ["encapsulation key bytes", "decapsulation key bytes", "ciphertext bytes", "shared secret bytes"];
    for (f, want) in rows {
        ck.engine(false);
        let root = format!("sizes::{f}");
        let r = ck.run(&root, &mut |_, _| Fill::Uninit);
        if !r.ok {
            continue;
        }
        let o = ck.e.ret_out(&r);
        let word = ck.e.ptr_size() as usize;
        for (i, w) in want.iter().enumerate() {
            let mut v = Some(0u128);
            for k in 0..word {
                let c = o.get(word * i + k).copied().flatten().and_then(|t| ck.e.st.as_const(t));
                let at = if ck.e.st.be { word - 1 - k } else { k };
                v = v.zip(c).map(|(a, c)| a | c << (8 * at));
            }
            let name = if f == "xwing" { xw[i] } else { what[i] };
            ck.check(&format!("{f}:{name}"), v == Some(*w), || format!("{f}: {name} is {v:?}, the standard says {w}"));
            ck.sample(format!("{f}: {name} = {w}"));
        }
    }
    for f in ["same512", "same768", "same1024", "ek512", "ek768", "ek1024"] {
        let (a, b) = (ck.arg_type(&format!("sizes::{f}"), 0), ck.arg_type(&format!("sizes::{f}"), 1));
        ck.check(&format!("name:{f}"), a == b, || format!("the public name denotes `{a}`, not `{b}`"));
        ck.sample(format!("{f}: {a}"));
    }
    // the component X-Wing derives from its seed is ML-KEM-768
    ck.engine(true);
    let sk = ck.e.st.byte_syms("sk", 32, SECRET);
    let r = ck.run("xwing::derive", &mut |n, _| if n == "sk" { Fill::Given(sk.clone()) } else { Fill::Uninit });
    if r.ok {
        let e = super::xwing::expand(&mut ck.e.st, &sk);
        let ek = super::xwing::ek_of(&mut ck.e.st, &e);
        let o = ck.e.arg_out(&r, "eko");
        ck.compare("xwing::derive:ML-KEM-768 key", &o[..1184], &ek[..1184]);
    }
}

// ------------------------------------------------------------------ all entry points
/// every harness root of the three crates that works on bytes, keys or the generator
pub fn roots(ck: &mut Ck<'_>) -> Vec<String> {
    let mut v = mlkem_roots();
    for f in ["keygen", "dk_generate", "derive", "encaps", "decaps", "dk_roundtrip", "ek_roundtrip", "ct_roundtrip", "dk_drop", "ct_drop", "dk_zeroize", "ct_zeroize"] {
        v.push(format!("xwing::{f}"));
    }
    for m in ["mlkem512", "mlkem768", "mlkem1024"] {
        v.push(format!("{m}::dk_drop"));
    }
    for d in DH {
        for f in ["keypair", "encaps", "decaps"] {
            v.push(format!("{d}::{f}"));
        }
    }
    let _ = ck;
    v
}
/// run one of these with arbitrary contents
pub fn run_any(ck: &mut Ck<'_>, root: &str) -> Run {
    let m = root.split("::").next().unwrap().to_string();
    if m.starts_with("dh_") {
        return super::dh::run(ck, root);
    }
    if m == "xwing" && root.ends_with("decaps") {
        // ML-KEM decapsulation of arbitrary keys is a root of its own
        ck.e.cfg.contracts.insert("mlkem_decaps");
    }
    let p = PARAMS.iter().find(|p| p.name == m).copied();
    let obj = root.ends_with("_drop") && p.is_some();
    ck.run(root, &mut |n, _| match n {
        "dk" | "d" | "z" | "m" | "sk" => Fill::Bytes(SECRET),
        "ek" | "ct" => Fill::Bytes(0),
        "a" if obj => Fill::Leaves(SECRET, "a".into()),
        "a" => Fill::Bytes(SECRET),
        _ => Fill::Uninit,
    })
}

// ------------------------------------------------------------------ C12
pub fn c12(ck: &mut Ck<'_>) {
    ck.values = false;
    for r in roots(ck) {
        ck.engine(true);
        run_any(ck, &r);
    }
    verify_components(ck);
    sites(ck);
}
/// checks performed by the run are obligations of the report
fn sites(ck: &mut Ck<'_>) {
    ck.absorb();
    let n: u64 = ["assertions", "dereferences", "divisions"].iter().map(|k| ck.counts.get(*k).copied().unwrap_or(0)).sum();
    ck.obligations += n;
    ck.discharged += n - (ck.viol.len() as u64).min(n);
}

// ------------------------------------------------------------------ C13
pub fn c13(ck: &mut Ck<'_>) {
    ck.kinds = TAINT.to_vec();
    ck.values = false;
    ck.secret = SECRET;
    for p in PARAMS {
        for f in ["keygen_det", "keygen", "encaps_det", "encaps", "decaps", "dk_roundtrip"] {
            ck.engine(true);
            let root = format!("{}::{f}", p.name);
            let dk = super::mlkem::dk_bytes(&mut ck.e.st, &p);
            ck.run(&root, &mut |n, _| match n {
                "dk" => Fill::Given(dk.clone()),
                "d" | "z" | "m" => Fill::Bytes(SECRET),
                "ek" | "ct" => Fill::Bytes(0),
                _ => Fill::Uninit,
            });
        }
    }
    verify_components(ck);
    ck.absorb();
    let n: u64 = ["branches", "dereferences", "divisions"].iter().map(|k| ck.counts.get(*k).copied().unwrap_or(0)).sum();
    ck.obligations += n;
    ck.discharged += n - (ck.viol.len() as u64).min(n);
}

// ------------------------------------------------------------------ C29
pub fn c29(ck: &mut Ck<'_>) {
    ck.kinds = TAINT.to_vec();
    ck.values = false;
    ck.secret = SECRET;
    for f in ["keygen", "dk_generate", "derive", "encaps", "decaps", "dk_roundtrip", "dk_clone", "dk_drop", "ct_drop", "dk_zeroize", "ct_zeroize"] {
        ck.engine(true);
        run_any(ck, &format!("xwing::{f}"));
    }
    for d in DH {
        for f in ["keypair", "encaps", "decaps"] {
            ck.engine(true);
            run_any(ck, &format!("{d}::{f}"));
        }
    }
    verify_components(ck);
    ck.absorb();
    let n: u64 = ["branches", "dereferences", "divisions"].iter().map(|k| ck.counts.get(*k).copied().unwrap_or(0)).sum();
    ck.obligations += n;
    ck.discharged += n - (ck.viol.len() as u64).min(n);
}

// ------------------------------------------------------------------ C15
/// the bytes drawn, in order
fn drawn(ck: &Ck<'_>) -> Vec<T> {
    ck.e.m.draws.iter().flat_map(|d| d.bytes.clone()).collect()
}
pub fn c15(ck: &mut Ck<'_>) {
    ck.kinds.push(EvKind::ForeignRng);
    let exact = |ck: &mut Ck<'_>, root: &str, n: usize| {
        let d = drawn(ck);
        let s = stream(ck, n.max(d.len()));
        ck.check(&format!("{root}:amount drawn"), d == s[..n], || {
            format!("{root} takes {} bytes from the caller's generator, exactly {n} are due", d.len())
        });
        ck.sample(format!("{root}: draws {n} bytes"));
    };
    for p in PARAMS {
        // key generation: d then z
        ck.engine(true);
        let root = format!("{}::keygen", p.name);
        let r = ck.run(&root, &mut |_, _| Fill::Uninit);
        if r.ok {
            exact(ck, &root, 64);
            let s = stream(ck, 64);
            let k = spec::keygen(&mut ck.e.st, &p, &s[..32], &s[32..]);
            let o = ck.e.arg_out(&r, "dko");
            ck.compare(&format!("{root}:decapsulation key"), &o, &k.dk);
            let o = ck.e.arg_out(&r, "eko");
            ck.compare(&format!("{root}:encapsulation key"), &o, &k.ek);
        }
        // encapsulation: m
        ck.engine(true);
        let root = format!("{}::encaps", p.name);
        let ek = ck.e.st.byte_syms("ek", p.ek(), 0);
        let r = ck.run(&root, &mut |n, _| if n == "ek" { Fill::Given(ek.clone()) } else { Fill::Uninit });
        if r.ok {
            exact(ck, &root, 32);
            let s = stream(ck, 32);
            let (ct, k) = spec::encaps(&mut ck.e.st, &p, &ek, &s);
            let o = ck.e.arg_out(&r, "ss");
            ck.compare(&format!("{root}:shared key"), &o, &k);
            let o = ck.e.arg_out(&r, "ct");
            ck.compare(&format!("{root}:ciphertext"), &o, &ct);
        }
        // the others draw nothing
        for f in ["keygen_det", "encaps_det", "decaps", "dk_roundtrip", "ek_roundtrip"] {
            ck.engine(true);
            let root = format!("{}::{f}", p.name);
            if run_any(ck, &root).ok {
                exact(ck, &root, 0);
            }
        }
    }
    // X-Wing
    for f in ["keygen", "dk_generate"] {
        ck.engine(true);
        let root = format!("xwing::{f}");
        let r = ck.run(&root, &mut |_, _| Fill::Uninit);
        if r.ok {
            exact(ck, &root, 32);
            let s = stream(ck, 32);
            let o = ck.e.arg_out(&r, "dko");
            ck.compare(&format!("{root}:secret key"), &o, &s);
        }
    }
    ck.engine(true);
    let ek = ck.e.st.byte_syms("ek", 1216, 0);
    let r = ck.run("xwing::encaps", &mut |n, _| if n == "ek" { Fill::Given(ek.clone()) } else { Fill::Uninit });
    if r.ok {
        exact(ck, "xwing::encaps", 64);
        let s = stream(ck, 64);
        let (mut ct, _) = spec::encaps(&mut ck.e.st, &PARAMS[1], &ek[..1184], &s[..32]);
        let ct_x = crate::models::x25519_base(&mut ck.e.st, &s[32..]);
        ct.extend(ct_x);
        let o = ck.e.arg_out(&r, "cto");
        ck.compare("xwing::encaps:ciphertext", &o, &ct);
    }
    for f in ["derive", "decaps", "dk_roundtrip", "ek_roundtrip", "ct_roundtrip"] {
        ck.engine(true);
        let root = format!("xwing::{f}");
        if run_any(ck, &root).ok {
            exact(ck, &root, 0);
        }
    }
    // DHKEM: one fresh secret per call
    for d in DH {
        for (f, n) in [("keypair", 1usize), ("encaps", 1), ("decaps", 0)] {
            ck.engine(true);
            let root = format!("{d}::{f}");
            let r = super::dh::run(ck, &root);
            if r.ok {
                let got = drawn(ck);
                let want = if d == "dh_x25519" { stream(ck, 32 * n) } else { super::dh::fresh(ck).into_iter().take(n).collect() };
                ck.check(&format!("{root}:amount drawn"), got == want, || {
                    format!("{root} makes {} draws from the caller's generator, exactly {} are due", got.len(), want.len())
                });
                if n == 1 {
                    super::dh::uses_fresh(ck, &root, &r);
                }
            }
        }
    }
    // functions documented to use the operating system's generator, and only those
    for f in ["os_generate", "os_generate_key_pair"] {
        let path = format!("osrng::{f}");
        if ck.e.find_fn(&path).is_none() {
            continue;
        }
        ck.kinds = FATAL.to_vec();
        ck.engine(true);
        let os = |ck: &Ck<'_>| ck.counts.get("other events: ForeignRng").copied().unwrap_or(0);
        let before = os(ck);
        let r = ck.run(&path, &mut |_, _| Fill::Uninit);
        if r.ok {
            exact(ck, &path, 32);
            let n = os(ck) - before;
            ck.check(&format!("{path}:source"), n > 0, || format!("{path} does not draw from the operating system"));
            let s = stream(ck, 32);
            let o = ck.e.arg_out(&r, "dko");
            ck.compare(&format!("{path}:secret key"), &o, &s);
        }
        ck.absorb();
        ck.kinds.push(EvKind::ForeignRng);
    }
}

// ------------------------------------------------------------------ C16
pub fn c16(ck: &mut Ck<'_>) {
    ck.kinds = EFFECT.to_vec();
    ck.values = false;
    let mut seen: Vec<Ty<'_>> = vec![];
    for r in roots(ck) {
        ck.engine(true);
        run_any(ck, &r);
    }
    // object entry points with shared references
    for (root, args) in [
        ("dk_decaps", vec!["dk", "ct"]),
        ("ek_encaps", vec!["ek"]),
        ("dk_encode", vec!["dk"]),
        ("ek_encode", vec!["ek"]),
        ("dk_encaps_key", vec!["dk"]),
        ("dk_eq", vec!["a", "b"]),
        ("ek_eq", vec!["a", "b"]),
        ("dk_clone", vec!["a"]),
        ("ek_clone", vec!["a"]),
    ] {
        for p in PARAMS {
            let f = format!("{}::{root}", p.name);
            if ck.absent(&f) {
                continue;
            }
            seen.push(ck.arg_type(&f, 0));
            ck.engine(true);
            ck.run(&f, &mut |n, _| if args.contains(&n) { Fill::Leaves(SECRET, n.into()) } else { Fill::Uninit });
        }
    }
    for (root, args) in [
        ("dk_decaps", vec!["dk", "ct"]),
        ("ek_encaps", vec!["ek"]),
        ("dk_encode", vec!["dk"]),
        ("ek_encode", vec!["ek"]),
        ("ct_encode", vec!["ct"]),
        ("dk_encapsulation_key", vec!["dk"]),
        ("ek_eq", vec!["a", "b"]),
        ("ct_eq", vec!["a", "b"]),
        ("dk_clone", vec!["a"]),
        ("ek_clone", vec!["a"]),
        ("ct_clone", vec!["a"]),
    ] {
        let f = format!("xwing::{root}");
        if ck.absent(&f) {
            continue;
        }
        seen.push(ck.arg_type(&f, 0));
        ck.engine(true);
        if root == "dk_decaps" {
            ck.e.cfg.contracts.insert("mlkem_decaps");
        }
        ck.run(&f, &mut |n, _| if args.contains(&n) { Fill::Leaves(SECRET, n.into()) } else { Fill::Uninit });
    }
    for d in DH {
        for f in ["encaps", "decaps"] {
            let f = format!("{d}::{f}");
            if !ck.absent(&f) {
                seen.push(ck.arg_type(&f, 0));
            }
        }
    }
    verify_components(ck);
    let mut done: HashSet<Ty<'_>> = HashSet::new();
    for t in seen {
        if done.insert(t) {
            let ok = t.is_freeze(ck.tcx, ck.e.lo.env());
            ck.check(&format!("freeze:{}", plain(&t.to_string())), ok, || format!("`{t}` contains interior mutability"));
            ck.sample(format!("`{t}` has no interior mutability"));
        }
    }
    ck.absorb();
    let n = ck.counts.get("calls").copied().unwrap_or(0);
    ck.obligations += n;
    ck.discharged += n - (ck.viol.len() as u64).min(n);
}

// ------------------------------------------------------------------ C17
pub fn c17(ck: &mut Ck<'_>) {
    ck.kinds = vec![EvKind::Memory, EvKind::Bounds, EvKind::Unreachable, EvKind::Unsupported];
    for r in roots(ck) {
        ck.engine(true);
        run_any(ck, &r);
    }
    ck.values = false;
    verify_components(ck);
    ck.values = true;
    helpers(ck);
    sites(ck);
}
/// the array helpers with an element type that owns something, at lengths 2 x 3
fn helpers<'tcx>(ck: &mut Ck<'tcx>) {
    let tcx = ck.tcx;
    let lens: Vec<Ty<'tcx>> = (0..4).map(|i| ck.arg_type("sizes::lens", i)).collect();
    let (u2, u3, u6, wiped) = (lens[0], lens[1], lens[2], lens[3]);
    let mut n = 0;
    for &krate in tcx.crates(()) {
        if tcx.crate_name(krate).as_str() != "ml_kem" {
            continue;
        }
        for &im in tcx.trait_impls_in_crate(krate) {
            let Some(tr) = tcx.impl_opt_trait_ref(im) else { continue };
            let trn = tcx.item_name(tr.skip_binder().def_id).to_string();
            let fname = match trn.as_str() {
                "Flatten" => "flatten",
                "Unflatten" => "unflatten",
                _ => continue,
            };
            let Some(m) = tcx.associated_items(im).in_definition_order().find(|a| a.name().as_str() == fname) else { continue };
            let selfty = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let by_ref = selfty.is_ref();
            let g = tcx.generics_of(im);
            let args = ty::GenericArgs::for_item(tcx, im, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => match (fname, p.name.as_str()) {
                    (_, "T") => wiped.into(),
                    // [[T; M]; N] with 2 x 3, or [T; N] into M parts
                    ("flatten", "N") => u2.into(),
                    ("flatten", "M") => u3.into(),
                    (_, "N") => u6.into(),
                    (_, _) => u2.into(),
                },
            });
            let _ = g;
            let label = format!("{trn} for {}Array", if by_ref { "&" } else { "" });
            let inst = Instance::try_resolve(tcx, ck.e.lo.env(), m.def_id, args).ok().flatten();
            let Some(inst) = inst else { continue };
            n += 1;
            ck.engine(false);
            let leaf: Vec<T> = (0..6).map(|i| ck.e.st.sym(&format!("item[{i}]"), 64, 0, mask(64), SECRET)).collect();
            let cells: Vec<Cell> = leaf.iter().enumerate().map(|(i, &t)| Cell { off: 8 * i as u32, size: 8, v: Val::Int(t) }).collect();
            let r = run_with(ck, &label, inst, vec![cells]);
            if !r.ok {
                continue;
            }
            ck.check(&format!("{label}:no drop"), ck.e.m.wiped.is_empty(), || {
                format!("{label}: an element is dropped although ownership moves to the result")
            });
            let mut got: Vec<Option<T>> = vec![];
            if by_ref {
                // an array of references into the source
                let (p, size) = r.ret.unwrap();
                let word = ck.e.ptr_size();
                for k in 0..size / word {
                    let q = Ptr { off: p.off + (word * k) as i64, ..p };
                    let cells = ck.e.alloc(&p).map(|a| a.cells.clone()).unwrap_or_default();
                    let Some(c) = cells.iter().find(|c| c.off as i64 == q.off) else {
                        got.push(None);
                        continue;
                    };
                    if let Val::Ptr(x) = c.v {
                        let b = ck.e.final_bytes(&x, 24);
                        for w in b.chunks(8) {
                            let v: Option<Vec<T>> = w.iter().copied().collect();
                            got.push(v.map(|v| ck.e.st.mem_concat(&v)));
                        }
                    } else {
                        got.push(None);
                    }
                }
            } else {
                let o = ck.e.ret_out(&r);
                for w in o.chunks(8) {
                    let v: Option<Vec<T>> = w.iter().copied().collect();
                    got.push(v.map(|v| ck.e.st.mem_concat(&v)));
                }
            }
            ck.compare(&label, &got, &leaf);
        }
    }
    ck.count("array helpers", n);
}

// ------------------------------------------------------------------ C25
fn eq_roots() -> Vec<(String, String)> {
    let mut v = vec![];
    for m in ["mlkem512", "mlkem768", "mlkem1024"] {
        v.push((m.to_string(), "dk".to_string()));
        v.push((m.to_string(), "ek".to_string()));
    }
    v.push(("xwing".into(), "ek".into()));
    v.push(("xwing".into(), "ct".into()));
    v
}
/// every node of the graph
fn nodes(st: &Store, root: T) -> Vec<T> {
    let mut vis = HashSet::new();
    let mut todo = vec![root];
    while let Some(t) = todo.pop() {
        if vis.insert(t) {
            let mut ch = vec![];
            st.children(t, &mut ch);
            todo.extend(ch);
        }
    }
    vis.into_iter().collect()
}
pub fn c25(ck: &mut Ck<'_>) {
    let mut within: HashMap<String, Vec<String>> = HashMap::new();
    for (m, o) in eq_roots() {
        // components the encoding shows; the rest follows from them
        let root = format!("{m}::{o}_encode");
        ck.engine(false);
        let r = ck.run(&root, &mut |n, _| if n == o { Fill::Leaves(0, n.to_string()) } else { Fill::Uninit });
        if !r.ok {
            continue;
        }
        let leaves = r.arg(&o).init.clone();
        let mut seen = HashSet::new();
        for a in r.args.iter().filter(|a| a.name != o) {
            for t in ck.e.final_bytes(&a.ptr, a.size).into_iter().flatten() {
                seen.extend(nodes(&ck.e.st, t));
            }
        }
        let mut shown: Vec<bool> = leaves.iter().map(|t| seen.contains(t)).collect();
        let leaf = |e: &crate::interp::Engine<'_>, t: &T| e.st.show(*t, 1);
        if o == "dk" {
            let on = leaves.iter().zip(&shown).filter(|x| *x.1);
            within.insert(m.clone(), on.map(|x| leaf(&ck.e, x.0)).collect());
        } else if let Some(d) = within.get(&m) {
            // an encapsulation key held by a decapsulation key, whose encoding shows more
            for (t, s) in leaves.iter().zip(shown.iter_mut()) {
                let n = leaf(&ck.e, t);
                let n = n.strip_prefix("ek").unwrap_or(&n);
                *s |= d.iter().any(|d| d.ends_with(n));
            }
        }
        for (f, neg) in [("eq", false), ("ne", true)] {
            let root = format!("{m}::{o}_{f}");
            ck.engine(false);
            let r = ck.run(&root, &mut |n, _| Fill::Leaves(0, n.to_string()));
            if !r.ok {
                continue;
            }
            equality(ck, &root, &r, neg, &shown);
        }
    }
    for (m, o) in eq_roots().into_iter().chain([("xwing".to_string(), "dk".to_string())]) {
        let root = format!("{m}::{o}_clone");
        ck.engine(false);
        let r = ck.run(&root, &mut |n, _| Fill::Leaves(0, n.to_string()));
        if !r.ok {
            continue;
        }
        let a = r.arg("a").clone();
        let want: Vec<T> = ck.e.final_bytes(&a.ptr, a.size).into_iter().flatten().collect();
        let got = ck.e.ret_out(&r);
        // padding bytes are neither read nor written
        let src = ck.e.final_bytes(&a.ptr, a.size);
        let got: Vec<Option<T>> = got.iter().zip(&src).filter(|(_, s)| s.is_some()).map(|(g, _)| *g).collect();
        ck.compare(&format!("{root}:copy"), &got, &want);
    }
}
fn equality(ck: &mut Ck<'_>, root: &str, r: &Run, neg: bool, shown: &[bool]) {
    let (a, b) = (r.arg("a").init.clone(), r.arg("b").init.clone());
    let Some(Some(res)) = ck.e.ret_out(r).first().copied() else {
        ck.violation(root, format!("{root}: no result"));
        return;
    };
    let res = ck.e.st.canon(res);
    // comparisons of X25519 points
    let st = &mut ck.e.st;
    let mut points: Vec<(T, Vec<usize>)> = vec![];
    let mut badpt = None;
    for t in nodes(st, res) {
        if let Node::Elem(app, _) = *st.node(t) {
            if let Node::App(f, args) = st.node(app).clone() {
                if st.name_of(f) == "PointEq" {
                    let (x, y) = args.split_at(args.len() / 2);
                    let ix: Option<Vec<usize>> = x.iter().map(|t| a.iter().position(|u| u == t)).collect();
                    let iy: Option<Vec<usize>> = y.iter().map(|t| b.iter().position(|u| u == t)).collect();
                    let jx: Option<Vec<usize>> = x.iter().map(|t| b.iter().position(|u| u == t)).collect();
                    let jy: Option<Vec<usize>> = y.iter().map(|t| a.iter().position(|u| u == t)).collect();
                    match (ix, iy, jx, jy) {
                        (Some(x), Some(y), ..) | (_, _, Some(x), Some(y)) if x == y => points.push((t, x)),
                        _ => badpt = Some(t),
                    }
                }
            }
        }
    }
    if let Some(t) = badpt {
        let s = short(st.show(t, 3));
        ck.violation(&format!("{root}:points"), format!("{root}: a point of one operand is not compared with the same point of the other: {s}"));
        return;
    }
    let (yes, no) = (st.boolean(true), st.boolean(false));
    let mut map: HashMap<T, T> = b.iter().copied().zip(a.iter().copied()).collect();
    for (t, _) in &points {
        map.insert(*t, yes);
    }
    let v = st.subst(res, &mut map);
    let v = st.as_const(v);
    let w = u128::from(!neg);
    ck.check(&format!("{root}:equal contents"), v == Some(w), || {
        format!("{root}: for equal contents the result is {}", v.map(|v| v.to_string()).unwrap_or("undecided".into()))
    });
    let mut bad: Option<(usize, String)> = None;
    let mut nbad = 0;
    let mut due = 0;
    for i in 0..a.len() {
        if shown.get(i) == Some(&false) {
            continue;
        }
        due += 1;
        let st = &mut ck.e.st;
        let mut map: HashMap<T, T> = HashMap::new();
        if let Some((t, _)) = points.iter().find(|p| p.1.contains(&i)) {
            map.insert(*t, no);
        } else {
            let w = st.w(a[i]);
            let hi = if w == 16 { 4095 } else { mask(w) };
            let nz = st.sym(&format!("nonzero{w}"), w, 1, hi, 0);
            let x = st.xor(a[i], nz);
            map.insert(b[i], x);
        }
        let v = st.subst(res, &mut map);
        let mut c = st.as_const(v);
        if c != Some(u128::from(neg)) && !points.iter().any(|p| p.1.contains(&i)) {
            // operands compared in pieces: some bit differs
            let w = st.w(a[i]);
            let n = nbits(st.range(a[i]).1) as u16;
            let all = (0..2 * n).all(|k| {
                let j = k / 2;
                let (x, y) = (st.sym(&format!("bit{w}a"), w, 0, mask(n), 0), st.sym(&format!("bit{w}b"), w, 0, mask(n), 0));
                let (zero, one) = (st.konst(0, w), st.konst(1, w));
                let (p, q) = if k % 2 == 0 { (zero, one) } else { (one, zero) };
                let x = st.bits(&[(x, 0, j), (p, 0, 1), (x, j, n - j - 1)], w);
                let y = st.bits(&[(y, 0, j), (q, 0, 1), (y, j, n - j - 1)], w);
                let mut map: HashMap<T, T> = HashMap::from([(a[i], x), (b[i], y)]);
                let v = st.subst(res, &mut map);
                st.as_const(v) == Some(u128::from(neg))
            });
            if all {
                c = Some(u128::from(neg));
            }
        }
        ck.obligations += 1;
        if c == Some(u128::from(neg)) {
            ck.discharged += 1;
        } else {
            nbad += 1;
            if bad.is_none() {
                bad = Some((i, short(st.show(v, 4))));
            }
        }
        if nbad > 40 {
            break;
        }
    }
    ck.sample(format!("{root}: {due} of {} components are encoded, each alone decides inequality", a.len()));
    if let Some((i, s)) = bad {
        let n = ck.e.st.show(a[i], 1);
        ck.violation(
            &format!("{root}:component ignored"),
            format!("{root}: when only component {n} is known to differ the result is not always `different` but\n    {s}"),
        );
    }
    let _ = Q;
}
