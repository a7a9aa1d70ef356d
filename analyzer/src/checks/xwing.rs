//! X-Wing: key expansion, combiner, encodings, wiping.
use super::frame::*;
use super::mlkem::opts;
use crate::models::*;
use crate::run::*;
use crate::spec::{self, PARAMS};
use crate::term::*;

pub const LABEL: [u8; 6] = *br"\.//^\";

pub struct Exp {
    pub d: Vec<T>,
    pub z: Vec<T>,
    pub x: Vec<T>,
    pub pk_x: Vec<T>,
}
pub fn expand(st: &mut Store, sk: &[T]) -> Exp {
    let e = xof_term(st, "Shake128", sk, 0, 96);
    let x = e[64..].to_vec();
    let pk_x = x25519_base(st, &x);
    Exp { d: e[..32].to_vec(), z: e[32..64].to_vec(), x, pk_x }
}
pub fn ek_of(st: &mut Store, e: &Exp) -> Vec<T> {
    let k = spec::keygen(st, &PARAMS[1], &e.d, &e.z);
    let mut v = k.ek;
    v.extend(&e.pk_x);
    v
}
pub fn combine(st: &mut Store, ss_m: &[T], ss_x: &[T], ct_x: &[T], pk_x: &[T]) -> Vec<T> {
    let mut d: Vec<T> = LABEL.iter().map(|&b| st.konst(b as u128, 8)).collect();
    for p in [ss_m, ss_x, ct_x, pk_x] {
        d.extend(p);
    }
    let d = spec::canon_all(st, &d);
    hash_term(st, "Sha3_256", &d, 32)
}
fn given(ck: &mut Ck<'_>, root: &str, args: &[(&str, &[T])]) -> Run {
    let root = format!("xwing::{root}");
    ck.run(&root, &mut |n, _| match args.iter().find(|a| a.0 == n) {
        Some(a) => Fill::Given(a.1.to_vec()),
        None => Fill::Uninit,
    })
}
/// the ML-KEM-768 decapsulation key object the two seeds produce
pub fn dk_object(ck: &mut Ck<'_>, d: &[T], z: &[T]) -> Option<(Vec<T>, u32)> {
    let o = dk_object_of(ck, &PARAMS[1], d, z)?;
    let n = o.len() as u32;
    Some((o, n))
}
pub fn dk_object_of(ck: &mut Ck<'_>, p: &spec::P, d: &[T], z: &[T]) -> Option<Vec<T>> {
    let (d, z) = (d.to_vec(), z.to_vec());
    let r = ck.run(&format!("{}::dk_obj", p.name), &mut |n, _| match n {
        "d" => Fill::Given(d.clone()),
        "z" => Fill::Given(z.clone()),
        _ => Fill::Uninit,
    });
    if !r.ok {
        return None;
    }
    let o: Option<Vec<T>> = ck.e.ret_out(&r).into_iter().collect();
    if o.is_none() {
        ck.violation("object", "the decapsulation key object has bytes that are never written".into());
    }
    o
}

pub fn c19(ck: &mut Ck<'_>) {
    // sender
    ck.engine(true);
    let ek = ck.e.st.byte_syms("ek", 1216, 0);
    let r = given(ck, "encaps", &[("ek", &ek)]);
    if r.ok {
        ck.ret_const("xwing::encaps:success", &r, 1);
        let s = stream(ck, 64);
        let (ct_m, ss_m) = spec::encaps(&mut ck.e.st, &PARAMS[1], &ek[..1184], &s[..32]);
        let x = &s[32..];
        let ct_x = x25519_base(&mut ck.e.st, x);
        let ss_x = x25519_term(&mut ck.e.st, x, &ek[1184..]);
        let ss = combine(&mut ck.e.st, &ss_m, &ss_x, &ct_x, &ek[1184..]);
        let mut ct = ct_m;
        ct.extend(&ct_x);
        let o = ck.e.arg_out(&r, "cto");
        ck.compare("xwing::encaps:ciphertext", &o, &ct);
        let o = ck.e.arg_out(&r, "ss");
        ck.compare("xwing::encaps:shared secret", &o, &ss);
    }
    // receiver, ML-KEM decapsulation kept opaque (C01 decides it)
    ck.engine(true);
    ck.e.cfg.contracts.insert("mlkem_decaps");
    let sk = ck.e.st.byte_syms("sk", 32, SECRET);
    let ct = ck.e.st.byte_syms("ct", 1120, 0);
    let r = given(ck, "decaps", &[("sk", &sk), ("ct", &ct)]);
    if r.ok {
        ck.ret_const("xwing::decaps:success", &r, 1);
        let o = ck.e.arg_out(&r, "ss");
        let e = expand(&mut ck.e.st, &sk);
        if let Some((obj, _)) = dk_object(ck, &e.d, &e.z) {
            let ss_m = mlkem_decaps_term(&mut ck.e.st, &obj, &ct[..1088]);
            let ss_x = x25519_term(&mut ck.e.st, &e.x, &ct[1088..]);
            let ss = combine(&mut ck.e.st, &ss_m, &ss_x, &ct[1088..], &e.pk_x);
            ck.compare("xwing::decaps:shared secret", &o, &ss);
        }
    }
    super::comp::verify_components(ck);
}
/// first n bytes the generator delivers
pub fn stream(ck: &mut Ck<'_>, n: usize) -> Vec<T> {
    let s = ck.e.cfg.stream.entry(0).or_default();
    while s.len() < n {
        let k = s.len();
        s.push(ck.e.st.sym(&format!("rng[{k}]"), 8, 0, 255, SECRET));
    }
    s[..n].to_vec()
}

pub fn c20(ck: &mut Ck<'_>) {
    ck.engine(true);
    let sk = ck.e.st.byte_syms("sk", 32, SECRET);
    let r = given(ck, "derive", &[("sk", &sk)]);
    if r.ok {
        let e = expand(&mut ck.e.st, &sk);
        let ek = ek_of(&mut ck.e.st, &e);
        let o = ck.e.arg_out(&r, "eko");
        ck.compare("xwing::derive:encapsulation key", &o, &ek);
    }
    ck.engine(true);
    let r = given(ck, "keygen", &[]);
    if r.ok {
        let s = stream(ck, 32);
        let e = expand(&mut ck.e.st, &s);
        let ek = ek_of(&mut ck.e.st, &e);
        let o = ck.e.arg_out(&r, "dko");
        ck.compare("xwing::keygen:seed", &o, &s);
        let o = ck.e.arg_out(&r, "eko");
        ck.compare("xwing::keygen:encapsulation key", &o, &ek);
    }
    ck.engine(true);
    let r = given(ck, "dk_generate", &[]);
    if r.ok {
        let s = stream(ck, 32);
        let o = ck.e.arg_out(&r, "dko");
        ck.compare("xwing::dk_generate:seed", &o, &s);
    }
    // decapsulation uses the same expansion: the whole ML-KEM object and scalar
    ck.engine(true);
    ck.e.cfg.contracts.insert("mlkem_decaps");
    let sk = ck.e.st.byte_syms("sk", 32, SECRET);
    let ct = ck.e.st.byte_syms("ct", 1120, 0);
    let r = given(ck, "decaps", &[("sk", &sk), ("ct", &ct)]);
    if r.ok {
        let o = ck.e.arg_out(&r, "ss");
        let e = expand(&mut ck.e.st, &sk);
        if let Some((obj, _)) = dk_object(ck, &e.d, &e.z) {
            let ss_m = mlkem_decaps_term(&mut ck.e.st, &obj, &ct[..1088]);
            let ss_x = x25519_term(&mut ck.e.st, &e.x, &ct[1088..]);
            let ss = combine(&mut ck.e.st, &ss_m, &ss_x, &ct[1088..], &e.pk_x);
            ck.compare("xwing::decaps:expansion", &o, &ss);
        }
    }
    super::comp::verify_components(ck);
}

pub fn c21(ck: &mut Ck<'_>) {
    ck.engine(true);
    let sk = ck.e.st.byte_syms("sk", 32, SECRET);
    let r = given(ck, "dk_roundtrip", &[("sk", &sk)]);
    if r.ok {
        let o = ck.e.arg_out(&r, "dko");
        ck.compare("xwing::dk_roundtrip", &o, &sk);
    }
    let ek = ck.e.st.byte_syms("ek", 1216, 0);
    let r = given(ck, "ek_roundtrip", &[("ek", &ek)]);
    if r.ok {
        let p = spec::parse_ek(&mut ck.e.st, &PARAMS[1], &ek[..1184]);
        let mut want = p.bytes;
        want.extend(&ek[1184..]);
        let o = ck.e.arg_out(&r, "eko");
        ck.compare("xwing::ek_roundtrip", &o, &want);
    }
    let ct = ck.e.st.byte_syms("ct", 1120, 0);
    let r = given(ck, "ct_roundtrip", &[("ct", &ct)]);
    if r.ok {
        let o = ck.e.arg_out(&r, "cto");
        ck.compare("xwing::ct_roundtrip", &o, &ct);
    }
    // parsing an encoding gives back the object: objects by value, encode, parse
    for (ty, n) in [("ek", 1216), ("ct", 1120)] {
        ck.engine(true);
        let b = ck.e.st.byte_syms(ty, n, 0);
        let r = given(ck, &format!("{ty}_parse"), &[(ty, &b)]);
        if !r.ok {
            continue;
        }
        let Some(obj) = ck.e.ret_out(&r).into_iter().collect::<Option<Vec<T>>>() else {
            ck.violation(&format!("xwing::{ty}_parse:object"), format!("xwing::{ty}_parse leaves bytes of the object unwritten"));
            continue;
        };
        let r = given(ck, &format!("{ty}_encode"), &[(ty, &obj)]);
        if !r.ok {
            continue;
        }
        let Some(enc) = ck.e.arg_out(&r, &format!("{ty}o")).into_iter().collect::<Option<Vec<T>>>() else { continue };
        let r = given(ck, &format!("{ty}_parse"), &[(ty, &enc)]);
        if r.ok {
            let o = ck.e.ret_out(&r);
            ck.compare(&format!("xwing::{ty}:parse of encoding"), &o, &obj);
        }
    }
    // the encoding of a generated key and of a fresh ciphertext
    ck.engine(true);
    let r = given(ck, "keygen", &[]);
    if r.ok {
        let s = stream(ck, 32);
        let e = expand(&mut ck.e.st, &s);
        let ek = ek_of(&mut ck.e.st, &e);
        let o = ck.e.arg_out(&r, "eko");
        ck.compare("xwing::keygen:encoded key", &o, &ek);
        let o = ck.e.arg_out(&r, "dko");
        ck.compare("xwing::keygen:encoded seed", &o, &s);
    }
    ck.engine(true);
    let ek = ck.e.st.byte_syms("ek", 1216, 0);
    let r = given(ck, "encaps", &[("ek", &ek)]);
    if r.ok {
        let s = stream(ck, 64);
        let (mut ct, _) = spec::encaps(&mut ck.e.st, &PARAMS[1], &ek[..1184], &s[..32]);
        let ct_x = x25519_base(&mut ck.e.st, &s[32..]);
        ct.extend(ct_x);
        let o = ck.e.arg_out(&r, "cto");
        ck.compare("xwing::encaps:encoded ciphertext", &o, &ct);
    }
    super::comp::verify_components(ck);
}

/// every byte of the object is zero and was last written by a volatile store
pub fn wiped_all(ck: &mut Ck<'_>, label: &str, r: &Run, arg: &str, pos: Option<&[usize]>) {
    let a = r.arg(arg).clone();
    let o = ck.e.final_bytes(&a.ptr, a.size);
    let all: Vec<usize> = (0..a.size as usize).collect();
    let pos = pos.unwrap_or(&all);
    let mut cover = vec![false; a.size as usize];
    for &(x, s, off, n) in &ck.e.m.vstores {
        if x == a.ptr.a && s == a.ptr.serial {
            for i in 0..n as i64 {
                if let Some(c) = cover.get_mut((off + i - a.ptr.off) as usize) {
                    *c = true;
                }
            }
        }
    }
    let mut bad = vec![];
    for &i in pos {
        let z = o[i].and_then(|t| ck.e.st.as_const(t)) == Some(0);
        ck.obligations += 1;
        if z && cover[i] {
            ck.discharged += 1;
        } else {
            bad.push((i, z));
        }
    }
    ck.sample(format!("{label}: {} of {} bytes required to be zero, each by a volatile store", pos.len(), a.size));
    if let Some(&(i, z)) = bad.first() {
        ck.violation(
            label,
            format!(
                "{label}: {} of {} bytes are not wiped; first at offset {i} of the object ({})",
                bad.len(),
                pos.len(),
                if z { "zero, but written by a removable store" } else { "not zero after drop" }
            ),
        );
    }
}
pub fn values_wiped(ck: &mut Ck<'_>, label: &str, need: &[T]) {
    let got: std::collections::HashSet<T> = ck.e.m.wiped.iter().copied().collect();
    let got: std::collections::HashSet<T> = got.into_iter().map(|t| ck.e.st.canon(t)).collect();
    let mut bad = None;
    let mut n = 0;
    for &t in need {
        let t = ck.e.st.canon(t);
        if ck.e.st.as_const(t).is_some() {
            continue;
        }
        n += 1;
        ck.obligations += 1;
        if got.contains(&t) {
            ck.discharged += 1;
        } else if bad.is_none() {
            bad = Some(t);
        }
    }
    ck.sample(format!("{label}: {n} secret byte values destroyed by volatile stores"));
    if let Some(t) = bad {
        let s = short(ck.e.st.show(t, 4));
        ck.violation(label, format!("{label}: a secret byte is never overwritten by a volatile store: {s}"));
    }
}

pub fn c22(ck: &mut Ck<'_>) {
    for (root, arg) in [("dk_drop", "a"), ("ct_drop", "a"), ("dk_zeroize", "a"), ("ct_zeroize", "a")] {
        ck.engine(true);
        let root = format!("xwing::{root}");
        let r = ck.run(&root, &mut |_, _| Fill::Bytes(SECRET));
        if r.ok {
            wiped_all(ck, &format!("{root}:storage"), &r, arg, None);
        }
    }
    for f in ["xwing::dk_drop", "xwing::ct_drop"] {
        if ck.absent(f) {
            continue;
        }
        let t = ck.arg_type(f, 0);
        // ManuallyDrop<T>
        let t = match t.kind() {
            rustc_middle::ty::Adt(_, a) => a.types().next().unwrap_or(t),
            _ => t,
        };
        ck.marker(&format!("{f}:marker"), "zeroize", "ZeroizeOnDrop", t, true);
    }
    // the expanded keys
    for root in ["derive", "decaps", "keygen"] {
        ck.engine(true);
        ck.e.cfg.contracts.insert("mlkem_decaps");
        let sk = stream(ck, 32);
        let ct = ck.e.st.byte_syms("ct", 1120, 0);
        let r = given(ck, root, &[("sk", &sk), ("ct", &ct)]);
        if !r.ok {
            continue;
        }
        let wiped = ck.e.m.wiped.clone();
        let e = expand(&mut ck.e.st, &sk);
        let Some(pos) = super::mlkem::secret_positions(ck, &PARAMS[1]) else { continue };
        let Some((obj, _)) = dk_object(ck, &e.d, &e.z) else { continue };
        ck.e.m.wiped = wiped;
        let need: Vec<T> = pos.iter().map(|&i| obj[i]).collect();
        values_wiped(ck, &format!("xwing::{root}:expanded ML-KEM key"), &need);
        values_wiped(ck, &format!("xwing::{root}:expanded X25519 key"), &e.x);
    }
    let _ = opts;
}
