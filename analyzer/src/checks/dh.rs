//! DHKEM: Diffie-Hellman over uninterpreted group operations; transparency of the wrappers.
use super::frame::*;
use super::misc::DH;
use super::xwing::{stream, wiped_all};
use crate::interp::*;
use crate::mem::*;
use crate::models::*;
use crate::run::*;
use crate::term::*;

/// what the generator delivers as a scalar at the first draw
pub fn fresh(ck: &mut Ck<'_>) -> Vec<T> {
    let st = &mut ck.e.st;
    let k = st.konst(0, 32);
    let a = st.app("RandomScalar", &[k]);
    vec![st.elem_taint(a, 0, 8, 255, SECRET)]
}
fn secret(ck: &mut Ck<'_>, s: T) -> T {
    ck.e.st.app("scalar", &[s])
}
/// run an entry point with unknown keys
pub fn run(ck: &mut Ck<'_>, root: &str) -> Run {
    if ck.absent(root) {
        return ck.run(root, &mut |_, _| Fill::Uninit);
    }
    let x = root.starts_with("dh_x25519");
    let sk = ck.e.st.sym("sk", 8, 0, 255, SECRET);
    let sk = secret(ck, sk);
    let pk = ck.e.st.sym("pk", 8, 0, 255, 0);
    ck.pair = Some((sk, pk));
    let (gs, gp) = (ck.e.ghost(Ghost::Opaque(sk)), ck.e.ghost(Ghost::Opaque(pk)));
    let mut sizes = std::collections::HashMap::new();
    for i in 0..ck.arg_count(root) {
        let t = ck.arg_type(root, i);
        sizes.insert(t, ck.e.lo.tyi(t).size);
    }
    ck.run(root, &mut |n, t| {
        let cell = |g| Fill::Cells(vec![Cell { off: 0, size: sizes.get(t).copied().unwrap_or(0), v: Val::Ghost(g) }]);
        match n {
            "dk" if x => Fill::Bytes(SECRET),
            "ek" | "ct" if x => Fill::Bytes(0),
            "dk" => cell(gs),
            "ek" | "ct" => cell(gp),
            _ => Fill::Uninit,
        }
    })
}
/// content of an object: bytes, or the term of the opaque value that fills it
fn content(ck: &mut Ck<'_>, p: &Ptr, size: u32) -> Vec<Option<T>> {
    let cells = ck.e.alloc(p).map(|a| a.cells.clone()).unwrap_or_default();
    let ghosts: Vec<&Cell> = cells.iter().filter(|c| matches!(c.v, Val::Ghost(_))).collect();
    if ghosts.is_empty() {
        return ck.e.final_bytes(p, size);
    }
    ghosts
        .into_iter()
        .map(|c| match c.v {
            Val::Ghost(g) if c.off as i64 == p.off && c.size == size => match ck.e.ghosts[g as usize] {
                Ghost::Opaque(t) => Some(t),
                _ => None,
            },
            _ => None,
        })
        .collect()
}
fn arg_content(ck: &mut Ck<'_>, r: &Run, n: &str) -> Vec<Option<T>> {
    let a = r.arg(n).clone();
    content(ck, &a.ptr, a.size)
}
/// the freshly drawn secret and what must come of it
pub fn uses_fresh(ck: &mut Ck<'_>, root: &str, r: &Run) {
    let x = root.starts_with("dh_x25519");
    let enc = root.ends_with("encaps");
    let (s, p): (Vec<T>, Vec<T>) = if x {
        let s = stream(ck, 32);
        let p = x25519_base(&mut ck.e.st, &s);
        (s, p)
    } else {
        let f = fresh(ck)[0];
        let s = secret(ck, f);
        let p = ck.e.st.app("PublicKey", &[s]);
        (vec![s], vec![p])
    };
    if enc {
        let o = arg_content(ck, r, "cto");
        ck.compare(&format!("{root}:encapsulated key"), &o, &p);
        let ek = r.arg("ek").init.clone();
        let ss = if x {
            x25519_term(&mut ck.e.st, &s, &ek)
        } else {
            let pk = ck.pair.unwrap().1;
            vec![ck.e.st.app("ECDH", &[s[0], pk])]
        };
        let o = arg_content(ck, r, "sso");
        ck.compare(&format!("{root}:shared secret"), &o, &ss);
    } else {
        let o = arg_content(ck, r, "dko");
        ck.compare(&format!("{root}:secret key"), &o, &s);
        let o = arg_content(ck, r, "eko");
        ck.compare(&format!("{root}:public key"), &o, &p);
    }
}

pub fn c23(ck: &mut Ck<'_>) {
    for d in DH {
        for f in ["keypair", "encaps", "decaps"] {
            ck.engine(false);
            let root = format!("{d}::{f}");
            let r = run(ck, &root);
            if !r.ok {
                continue;
            }
            if f != "keypair" {
                ck.ret_const(&format!("{root}:success"), &r, 1);
            }
            let n: usize = ck.e.m.draws.len();
            let due = usize::from(f != "decaps");
            ck.check(&format!("{root}:draws"), n == due, || format!("{root} draws {n} times from the generator, {due} expected"));
            if f != "decaps" {
                uses_fresh(ck, &root, &r);
                continue;
            }
            let ss = if d == "dh_x25519" {
                let (k, u) = (r.arg("dk").init.clone(), r.arg("ct").init.clone());
                x25519_term(&mut ck.e.st, &k, &u)
            } else {
                let (sk, pk) = ck.pair.unwrap();
                vec![ck.e.st.app("ECDH", &[sk, pk])]
            };
            let o = arg_content(ck, &r, "sso");
            ck.compare(&format!("{root}:shared secret"), &o, &ss);
        }
    }
}

// ------------------------------------------------------------------ C24
const OPS: [&str; 15] = [
    "from", "as_ref", "into_inner", "clone", "eq", "ne", "partial_cmp", "cmp", "lt", "le", "gt", "ge", "hash", "default", "zeroize",
];
/// everything the operation produces: its result and the final contents of what it was given
fn outcome(ck: &mut Ck<'_>, root: &str, flag: T, syms: &[T]) -> Option<Vec<(String, Vec<Option<T>>)>> {
    let names = ["x", "y", "h"];
    let gs: Vec<(u32, T)> = names
        .iter()
        .zip(syms)
        .map(|(_, &t)| {
            (ck.e.ghost(Ghost::Opaque(t)), t)
        })
        .collect();
    let mut sizes = std::collections::HashMap::new();
    for i in 0..ck.arg_count(root) {
        let t = ck.arg_type(root, i);
        sizes.insert(t, ck.e.lo.tyi(t).size);
    }
    let r = ck.run(root, &mut |n, t| match names.iter().position(|m| *m == n) {
        Some(k) => Fill::Cells(vec![Cell { off: 0, size: sizes[t], v: Val::Ghost(gs[k].0) }]),
        None if n == "c" => Fill::Cells(vec![Cell { off: 0, size: 1, v: Val::Int(flag) }]),
        None => Fill::Uninit,
    });
    if !r.ok {
        return None;
    }
    let mut out = vec![];
    if let Some((p, n)) = r.ret {
        let cells = ck.e.alloc(&p).map(|a| a.cells.clone()).unwrap_or_default();
        match cells.first().map(|c| c.v) {
            Some(Val::Ptr(q)) => {
                let own = r.args.iter().find(|a| a.ptr.a == q.a && a.ptr.serial == q.serial && a.ptr.off == q.off);
                out.push((format!("reference to {}", own.map(|a| a.name.clone()).unwrap_or("something else".into())), vec![]));
            }
            _ => {
                let v = content(ck, &p, n);
                out.push(("result".into(), v));
            }
        }
    }
    for a in r.args.clone() {
        if a.ptr.serial != 0 {
            let v = content(ck, &a.ptr, a.size);
            out.push((format!("argument {} afterwards", a.name), v));
        }
    }
    for (_, v) in out.iter_mut() {
        for t in v.iter_mut().flatten() {
            *t = ck.e.st.canon(*t);
        }
    }
    Some(out)
}
fn same(ck: &mut Ck<'_>, wrapped: &str, plain: &str) {
    if ck.absent(wrapped) {
        return;
    }
    ck.engine(false);
    let syms: Vec<T> = ["x", "y", "h"].iter().map(|n| ck.e.st.sym(&format!("op_{n}"), 8, 0, 255, 0)).collect();
    let flag = ck.e.st.sym("flag", 8, 0, 1, 0);
    let a = outcome(ck, plain, flag, &syms);
    let b = outcome(ck, wrapped, flag, &syms);
    let (Some(a), Some(b)) = (a, b) else { return };
    ck.check(&format!("{wrapped}:shape"), a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.0 == y.0), || {
        format!("{wrapped} yields {:?}, the wrapped value {:?}", b.iter().map(|x| &x.0).collect::<Vec<_>>(), a.iter().map(|x| &x.0).collect::<Vec<_>>())
    });
    for ((n, x), (_, y)) in a.iter().zip(&b) {
        let ok = x == y;
        let text = if ok {
            String::new()
        } else {
            let show = |v: &[Option<T>]| {
                v.iter().take(4).map(|t| t.map(|t| short(ck.e.st.show(t, 6))).unwrap_or("nothing".into())).collect::<Vec<_>>().join(", ")
            };
            format!("{wrapped}: {n} is {} but for the wrapped value it is {}", show(y), show(x))
        };
        ck.check(&format!("{wrapped}:{n}"), ok, || text);
        ck.sample(format!("{wrapped}: {n} as for the wrapped value"));
    }
}
pub fn c24(ck: &mut Ck<'_>) {
    for w in ["enc", "dec"] {
        for op in OPS {
            same(ck, &format!("opaque::{w}::{op}"), &format!("opaque::inner::{op}"));
        }
    }
    for c in ["k256", "p256", "p384", "p521"] {
        same(ck, &format!("opaque::point_{c}"), &format!("opaque::inner_{c}"));
    }
    for (f, want) in [("marked", true), ("unmarked", false)] {
        let f = format!("opaque::{f}");
        if ck.absent(&f) {
            continue;
        }
        for i in 0..ck.arg_count(&f) {
            let t = ck.arg_type(&f, i);
            ck.marker(&format!("{f}:{}", plain(&t.to_string())), "zeroize", "ZeroizeOnDrop", t, want);
        }
    }
    for f in ["drop_enc", "drop_dec"] {
        ck.engine(false);
        let root = format!("opaque::{f}");
        let r = ck.run(&root, &mut |_, _| Fill::Bytes(SECRET));
        if r.ok {
            wiped_all(ck, &format!("{root}:storage"), &r, "a", None);
        }
    }
}
