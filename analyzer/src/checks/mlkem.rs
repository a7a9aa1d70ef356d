//! ML-KEM: the three operations against the FIPS 203 value graphs.
use super::frame::*;
use crate::run::*;
use crate::spec::{self, P, PARAMS};
use crate::term::*;
use std::collections::HashMap;

/// decapsulation-key bytes: secret vector and rejection value secret, the rest public
pub fn dk_bytes(st: &mut Store, p: &P) -> Vec<T> {
    let n = p.dk();
    (0..n)
        .map(|i| {
            let taint = if i < 384 * p.k || i >= n - 32 { SECRET } else { 0 };
            st.sym(&format!("dk[{i}]"), 8, 0, 255, taint)
        })
        .collect()
}
pub fn seeded(ck: &mut Ck<'_>, b: &[Vec<T>]) {
    let v: Vec<T> = b.iter().flatten().copied().collect();
    ck.e.cfg.stream.insert(0, v);
}

pub fn c03(ck: &mut Ck<'_>) {
    for p in PARAMS {
        ck.engine(true);
        for det in [true, false] {
            let d = ck.e.st.byte_syms("d", 32, SECRET);
            let z = ck.e.st.byte_syms("z", 32, SECRET);
            let root = format!("{}::{}", p.name, if det { "keygen_det" } else { "keygen" });
            seeded(ck, &[d.clone(), z.clone()]);
            let r = ck.run(&root, &mut |n, _| match n {
                "d" => Fill::Given(d.clone()),
                "z" => Fill::Given(z.clone()),
                _ => Fill::Uninit,
            });
            if !r.ok {
                continue;
            }
            let k = spec::keygen(&mut ck.e.st, &p, &d, &z);
            let o = ck.e.arg_out(&r, "dko");
            ck.compare(&format!("{root}:decapsulation key"), &o, &k.dk);
            let o = ck.e.arg_out(&r, "eko");
            ck.compare(&format!("{root}:encapsulation key"), &o, &k.ek);
            let o = ck.e.arg_out(&r, "dkeko");
            ck.compare(&format!("{root}:embedded encapsulation key"), &o, &k.ek);
        }
    }
    super::comp::verify_components(ck);
}

pub fn c02(ck: &mut Ck<'_>) {
    for p in PARAMS {
        ck.engine(true);
        for det in [true, false] {
            let ek = ck.e.st.byte_syms("ek", p.ek(), 0);
            let m = ck.e.st.byte_syms("m", 32, SECRET);
            let root = format!("{}::{}", p.name, if det { "encaps_det" } else { "encaps" });
            seeded(ck, &[m.clone()]);
            let r = ck.run(&root, &mut |n, _| match n {
                "ek" => Fill::Given(ek.clone()),
                "m" => Fill::Given(m.clone()),
                _ => Fill::Uninit,
            });
            if !r.ok {
                continue;
            }
            ck.ret_const(&format!("{root}:success"), &r, 1);
            let (ct, k) = spec::encaps(&mut ck.e.st, &p, &ek, &m);
            let o = ck.e.arg_out(&r, "ss");
            ck.compare(&format!("{root}:shared key"), &o, &k);
            let o = ck.e.arg_out(&r, "ct");
            ck.compare(&format!("{root}:ciphertext"), &o, &ct);
        }
    }
    super::comp::verify_components(ck);
}

pub struct Decaps {
    pub r: Run,
    pub dk: Vec<T>,
    pub ct: Vec<T>,
}
/// decapsulation with the re-encryption observed and replaced by unknown bytes
pub fn decaps_hooked(ck: &mut Ck<'_>, p: &P) -> Decaps {
    let root = format!("{}::decaps", p.name);
    let dk = dk_bytes(&mut ck.e.st, p);
    let ct = ck.e.st.byte_syms("ct", p.ct(), 0);
    let f = ck.e.harness_fn(&root);
    let sig = ck.tcx.fn_sig(f.def_id()).instantiate_identity().skip_norm_wip().skip_binder();
    let cty = sig.inputs()[1].builtin_deref(true).expect("ciphertext argument");
    let cty = ck.tcx.normalize_erasing_regions(ck.e.lo.env(), rustc_middle::ty::Unnormalized::new_wip(cty));
    ck.e.hook_ret = Some(cty);
    let r = ck.run(&root, &mut |n, _| match n {
        "dk" => Fill::Given(dk.clone()),
        "ct" => Fill::Given(ct.clone()),
        _ => Fill::Uninit,
    });
    ck.e.hook_ret = None;
    Decaps { r, dk, ct }
}
pub fn opts(v: &[T]) -> Vec<Option<T>> {
    v.iter().map(|&t| Some(t)).collect()
}

pub fn c01(ck: &mut Ck<'_>) {
    for p in PARAMS {
        ck.engine(true);
        let d = decaps_hooked(ck, &p);
        let root = format!("{}::decaps", p.name);
        if !d.r.ok {
            continue;
        }
        ck.ret_const(&format!("{root}:success"), &d.r, 1);
        let n = p.dk();
        let (s, ek, h, z) = (&d.dk[..384 * p.k], &d.dk[384 * p.k..n - 64], &d.dk[n - 64..n - 32], &d.dk[n - 32..]);
        let m = spec::decrypt(&mut ck.e.st, &p, s, &d.ct);
        let (k, rr) = spec::derive(&mut ck.e.st, &m, h);
        let e = spec::parse_ek(&mut ck.e.st, &p, ek);
        let c = spec::encrypt(&mut ck.e.st, &p, &e, &m, &rr);
        let kbar = spec::reject_key(&mut ck.e.st, z, &d.ct);
        let hooks = ck.e.hooks.clone();
        if !ck.check(&format!("{root}:re-encrypts"), !hooks.is_empty(), || format!("{root}: no re-encryption of the decrypted message found")) {
            continue;
        }
        for h in &hooks {
            ck.compare(&format!("{root}:re-encryption"), &opts(&h.bytes), &c);
        }
        let fresh = hooks[0].fresh.clone();
        ck.check(&format!("{root}:one re-encryption"), hooks.iter().all(|h| h.fresh == fresh), || {
            format!("{root}: several different values are re-encrypted")
        });
        let out = ck.e.arg_out(&d.r, "ss");
        let Some(out) = out.into_iter().collect::<Option<Vec<T>>>() else {
            ck.violation(&format!("{root}:shared key"), format!("{root}: shared key not fully written"));
            continue;
        };
        let k = spec::canon_all(&mut ck.e.st, &k);
        let kbar = spec::canon_all(&mut ck.e.st, &kbar);
        // world A: the re-encryption equals the received ciphertext
        let mut map: HashMap<T, T> = fresh.iter().copied().zip(d.ct.iter().copied()).collect();
        let got: Vec<Option<T>> = out.iter().map(|&t| Some(ck.e.st.subst(t, &mut map))).collect();
        ck.compare(&format!("{root}:accepted key"), &got, &k);
        // worlds B_i: byte i differs, the others are arbitrary
        let nz = ck.e.st.sym("nonzero", 8, 1, 255, SECRET);
        let mut bad = 0;
        for i in 0..p.ct() {
            let x = ck.e.st.xor(d.ct[i], nz);
            let mut map: HashMap<T, T> = HashMap::new();
            map.insert(fresh[i], x);
            for (j, &t) in out.iter().enumerate() {
                let v = ck.e.st.subst(t, &mut map);
                let v = ck.e.st.canon(v);
                ck.obligations += 1;
                if v == kbar[j] {
                    ck.discharged += 1;
                } else {
                    bad += 1;
                    if bad == 1 {
                        let w = ck.e.st.show(v, 5);
                        let at = ck.e.loc_str(t);
                        ck.violation(
                            &format!("{root}:rejected key"),
                            format!(
                                "{root}: when ciphertext byte {i} differs from the re-encryption, byte {j} of the result is not byte {j} of J(z || c) but\n    {w}\n  computed at {at}"
                            ),
                        );
                    }
                }
            }
            if bad > 200 {
                break;
            }
        }
    }
    super::comp::verify_components(ck);
}

pub fn c04(ck: &mut Ck<'_>) {
    for p in PARAMS {
        ck.engine(true);
        let ek = ck.e.st.byte_syms("ek", p.ek(), 0);
        let m = ck.e.st.byte_syms("m", 32, SECRET);
        let root = format!("{}::encaps_det", p.name);
        let r = ck.run(&root, &mut |n, _| match n {
            "ek" => Fill::Given(ek.clone()),
            "m" => Fill::Given(m.clone()),
            _ => Fill::Uninit,
        });
        if r.ok {
            let (ct, _) = spec::encaps(&mut ck.e.st, &p, &ek, &m);
            let o = ck.e.arg_out(&r, "ct");
            ck.compare(&format!("{root}:ciphertext"), &o, &ct);
        }
        let d = decaps_hooked(ck, &p);
        if !d.r.ok {
            continue;
        }
        let root = format!("{}::decaps", p.name);
        let m = spec::decrypt(&mut ck.e.st, &p, &d.dk[..384 * p.k], &d.ct);
        let n = p.dk();
        let (_, rr) = spec::derive(&mut ck.e.st, &m, &d.dk[n - 64..n - 32]);
        let e = spec::parse_ek(&mut ck.e.st, &p, &d.dk[384 * p.k..n - 64]);
        let c = spec::encrypt(&mut ck.e.st, &p, &e, &m, &rr);
        let hooks = ck.e.hooks.clone();
        ck.check(&format!("{root}:re-encrypts"), !hooks.is_empty(), || format!("{root}: no encryption of the decrypted message found"));
        for h in &hooks {
            // the message and coins are the 32-byte arguments, in this order
            if h.args.len() >= 2 {
                ck.compare(&format!("{root}:decrypted message"), &opts(&h.args[0]), &m);
                ck.compare(&format!("{root}:coins"), &opts(&h.args[1]), &rr);
            }
            ck.compare(&format!("{root}:ciphertext of the decrypted message"), &opts(&h.bytes), &c);
        }
    }
    super::comp::verify_components(ck);
}

pub fn c10(ck: &mut Ck<'_>) {
    for p in PARAMS {
        ck.engine(true);
        let n = p.dk();
        // key generation produces the layout
        let d = ck.e.st.byte_syms("d", 32, SECRET);
        let z = ck.e.st.byte_syms("z", 32, SECRET);
        let root = format!("{}::keygen_det", p.name);
        let r = ck.run(&root, &mut |n, _| match n {
            "d" => Fill::Given(d.clone()),
            "z" => Fill::Given(z.clone()),
            _ => Fill::Uninit,
        });
        if r.ok {
            let k = spec::keygen(&mut ck.e.st, &p, &d, &z);
            let o = ck.e.arg_out(&r, "dko");
            ck.compare(&format!("{root}:layout of the decapsulation key"), &o, &k.dk);
            let o = ck.e.arg_out(&r, "eko");
            ck.compare(&format!("{root}:layout of the encapsulation key"), &o, &k.ek);
        }
        // parse then encode
        let ek = ck.e.st.byte_syms("ek", p.ek(), 0);
        let root = format!("{}::ek_roundtrip", p.name);
        let r = ck.run(&root, &mut |n, _| if n == "ek" { Fill::Given(ek.clone()) } else { Fill::Uninit });
        if r.ok {
            let e = spec::parse_ek(&mut ck.e.st, &p, &ek);
            let o = ck.e.arg_out(&r, "eko");
            ck.compare(&root, &o, &e.bytes);
        }
        let dk = dk_bytes(&mut ck.e.st, &p);
        let e = spec::parse_ek(&mut ck.e.st, &p, &dk[384 * p.k..n - 64]);
        let mut want = vec![];
        for i in 0..p.k {
            let s = spec::decode12(&mut ck.e.st, &dk[384 * i..384 * (i + 1)]);
            want.extend(spec::encode(&mut ck.e.st, &s, 12));
        }
        want.extend(&e.bytes);
        want.extend(&dk[n - 64..]);
        for (root, eo) in [("dk_roundtrip", true), ("clone_roundtrip", false)] {
            let root = format!("{}::{root}", p.name);
            let r = ck.run(&root, &mut |n, _| match n {
                "dk" => Fill::Given(dk.clone()),
                "ct" => Fill::Bytes(0),
                _ => Fill::Uninit,
            });
            if r.ok {
                let o = ck.e.arg_out(&r, "dko");
                ck.compare(&format!("{root}:decapsulation key"), &o, &want);
                if eo {
                    let o = ck.e.arg_out(&r, "eko");
                    ck.compare(&format!("{root}:embedded encapsulation key"), &o, &e.bytes);
                }
            }
        }
        // parsing fills the object completely and re-parsing the encoding gives the same object
        for ty in ["dk", "ek"] {
            let b = if ty == "dk" { dk.clone() } else { ek.clone() };
            let root = format!("{}::{ty}_parse", p.name);
            let r = ck.run(&root, &mut |_, _| Fill::Given(b.clone()));
            if !r.ok {
                continue;
            }
            let Some(obj) = ck.e.ret_out(&r).into_iter().collect::<Option<Vec<T>>>() else {
                ck.violation(&format!("{root}:object"), format!("{root} leaves bytes of the key object unwritten"));
                continue;
            };
            let r = ck.run(&format!("{}::{ty}_encode", p.name), &mut |n, _| if n == ty { Fill::Given(obj.clone()) } else { Fill::Uninit });
            if !r.ok {
                continue;
            }
            let Some(enc) = ck.e.arg_out(&r, &format!("{ty}o")).into_iter().collect::<Option<Vec<T>>>() else { continue };
            let r = ck.run(&root, &mut |_, _| Fill::Given(enc.clone()));
            if r.ok {
                let o = ck.e.ret_out(&r);
                ck.compare(&format!("{root}:parse of encoding"), &o, &obj);
            }
        }
        // the hash of an encapsulation key is recomputed, that of a decapsulation key taken as stored
        let m = ck.e.st.byte_syms("m", 32, SECRET);
        let root = format!("{}::encaps_det", p.name);
        let r = ck.run(&root, &mut |n, _| match n {
            "ek" => Fill::Given(ek.clone()),
            "m" => Fill::Given(m.clone()),
            _ => Fill::Uninit,
        });
        if r.ok {
            let e = spec::parse_ek(&mut ck.e.st, &p, &ek);
            let (k, _) = spec::derive(&mut ck.e.st, &m, &e.h);
            let o = ck.e.arg_out(&r, "ss");
            ck.compare(&format!("{root}:recomputed hash"), &o, &k);
        }
        let d = decaps_hooked(ck, &p);
        let root = format!("{}::decaps", p.name);
        let mm = spec::decrypt(&mut ck.e.st, &p, &d.dk[..384 * p.k], &d.ct);
        let (_, rr) = spec::derive(&mut ck.e.st, &mm, &d.dk[n - 64..n - 32]);
        for h in ck.e.hooks.clone() {
            if h.args.len() >= 2 {
                ck.compare(&format!("{root}:stored hash"), &opts(&h.args[1]), &rr);
            }
        }
    }
    super::comp::verify_components(ck);
}

/// byte offsets of a decapsulation key object that hold secret data
pub fn secret_positions(ck: &mut Ck<'_>, p: &P) -> Option<Vec<usize>> {
    let root = format!("{}::dk_parse", p.name);
    let dk = dk_bytes(&mut ck.e.st, p);
    let r = ck.run(&root, &mut |_, _| Fill::Given(dk.clone()));
    if !r.ok {
        return None;
    }
    let o = ck.e.ret_out(&r);
    let pos: Vec<usize> = o
        .iter()
        .enumerate()
        .filter(|(_, t)| t.is_some_and(|t| ck.e.st.taint(t) & SECRET != 0))
        .map(|(i, _)| i)
        .collect();
    // every secret byte of the encoding is held somewhere
    let min = 512 * p.k + 32;
    ck.check(&format!("{root}:secrets held"), pos.len() >= min, || {
        format!("{root}: only {} bytes of the key object depend on the secret encoding, {min} expected", pos.len())
    });
    Some(pos)
}

pub fn c14(ck: &mut Ck<'_>) {
    for p in PARAMS {
        ck.engine(true);
        let Some(pos) = secret_positions(ck, &p) else { continue };
        let root = format!("{}::dk_drop", p.name);
        let r = ck.run(&root, &mut |_, _| Fill::Bytes(SECRET));
        if r.ok {
            super::xwing::wiped_all(ck, &format!("{root}:storage"), &r, "a", Some(&pos));
        }
        let r = ck.run(&root, &mut |_, _| Fill::Leaves(SECRET, "key".into()));
        if r.ok {
            super::xwing::wiped_all(ck, &format!("{root}:storage"), &r, "a", Some(&pos));
        }
        let t = ck.arg_type(&root, 0);
        let t = match t.kind() {
            rustc_middle::ty::Adt(_, a) => a.types().next().unwrap_or(t),
            _ => t,
        };
        ck.marker(&format!("{root}:marker"), "zeroize", "ZeroizeOnDrop", t, true);
        // whole life cycles through the public API: generate (or parse), use, drop
        let d = ck.e.st.byte_syms("d", 32, SECRET);
        let z = ck.e.st.byte_syms("z", 32, SECRET);
        ck.e.cfg.contracts.insert("mlkem_decaps");
        for root in ["pair_drop", "dk_roundtrip", "clone_roundtrip", "decaps"] {
            let root = format!("{}::{root}", p.name);
            let dk = dk_bytes(&mut ck.e.st, &p);
            let r = ck.run(&root, &mut |n, _| match n {
                "d" => Fill::Given(d.clone()),
                "z" => Fill::Given(z.clone()),
                "dk" => Fill::Given(dk.clone()),
                "ct" => Fill::Bytes(0),
                _ => Fill::Uninit,
            });
            if !r.ok {
                continue;
            }
            let wiped = ck.e.m.wiped.clone();
            let obj = if root.ends_with("pair_drop") {
                super::xwing::dk_object_of(ck, &p, &d, &z)
            } else {
                let r = ck.run(&format!("{}::dk_parse", p.name), &mut |_, _| Fill::Given(dk.clone()));
                if r.ok {
                    ck.e.ret_out(&r).into_iter().collect::<Option<Vec<T>>>()
                } else {
                    None
                }
            };
            let Some(obj) = obj else { continue };
            ck.e.m.wiped = wiped;
            let need: Vec<T> = pos.iter().map(|&i| obj[i]).collect();
            super::xwing::values_wiped(ck, &format!("{root}:wiped values"), &need);
        }
        ck.e.cfg.contracts.remove("mlkem_decaps");
    }
}
