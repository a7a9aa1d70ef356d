//! The value graphs FIPS 203 and the X-Wing draft prescribe, written independently of the code.
use crate::form::Q;
use crate::models::*;
use crate::term::*;

#[derive(Clone, Copy, Debug)]
pub struct P {
    pub name: &'static str,
    pub k: usize,
    pub eta1: usize,
    pub eta2: usize,
    pub du: usize,
    pub dv: usize,
}
pub const PARAMS: [P; 3] = [
    P { name: "mlkem512", k: 2, eta1: 3, eta2: 2, du: 10, dv: 4 },
    P { name: "mlkem768", k: 3, eta1: 2, eta2: 2, du: 10, dv: 4 },
    P { name: "mlkem1024", k: 4, eta1: 2, eta2: 2, du: 11, dv: 5 },
];
impl P {
    pub fn ek(&self) -> usize {
        384 * self.k + 32
    }
    pub fn dk(&self) -> usize {
        768 * self.k + 96
    }
    pub fn ct(&self) -> usize {
        32 * (self.du * self.k + self.dv)
    }
}
pub type Poly = Vec<T>;

pub fn powmod(b: u128, mut e: u32) -> u128 {
    let (mut r, mut b) = (1, b % Q);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e >>= 1;
    }
    r
}
pub fn bitrev7(i: u32) -> u32 {
    (0..7).fold(0, |a, k| a | ((i >> k) & 1) << (6 - k))
}
pub fn gamma(i: u32) -> u128 {
    powmod(17, 2 * bitrev7(i) + 1)
}
pub fn compress_tab(d: usize) -> Vec<u128> {
    // round half up of 2^d x / q, mod 2^d
    (0..Q).map(|x| ((2 * (x << d) + Q) / (2 * Q)) & mask(d as u16)).collect()
}
pub fn decompress_tab(d: usize) -> Vec<u128> {
    (0..1u128 << d).map(|y| (2 * Q * y + (1 << d)) / (1 << (d + 1))).collect()
}

pub fn canon_all(st: &mut Store, v: &[T]) -> Vec<T> {
    v.iter().map(|&t| st.canon(t)).collect()
}
/// bit b of value i at bit i*d+b
pub fn encode(st: &mut Store, p: &[T], d: usize) -> Vec<T> {
    let n = p.len() * d / 8;
    (0..n)
        .map(|j| {
            let mut parts = vec![];
            let mut pos = 8 * j;
            while pos < 8 * j + 8 {
                let (i, b) = (pos / d, pos % d);
                let w = (d - b).min(8 * j + 8 - pos);
                parts.push((p[i], b as u16, w as u16));
                pos += w;
            }
            st.bits(&parts, 8)
        })
        .collect()
}
/// the d-bit values of a byte string (16-bit terms)
pub fn decode_raw(st: &mut Store, b: &[T], d: usize) -> Vec<T> {
    let n = b.len() * 8 / d;
    (0..n)
        .map(|i| {
            let mut parts = vec![];
            let mut pos = i * d;
            while pos < i * d + d {
                let (j, o) = (pos / 8, pos % 8);
                let w = (8 - o).min(i * d + d - pos);
                parts.push((b[j], o as u16, w as u16));
                pos += w;
            }
            let z = st.konst(0, (16 - d) as u16);
            parts.push((z, 0, (16 - d) as u16));
            st.bits(&parts, 16)
        })
        .collect()
}
pub fn decode12(st: &mut Store, b: &[T]) -> Vec<T> {
    let raw = decode_raw(st, b, 12);
    raw.into_iter()
        .map(|t| {
            let c = st.canon(t);
            if st.hi(c) < Q {
                return c;
            }
            // whole values are reduced through the ring form
            let f = st.form(c);
            st.field(f)
        })
        .collect()
}
pub fn compress(st: &mut Store, p: &[T], d: usize) -> Vec<T> {
    let tab = compress_tab(d);
    p.iter()
        .map(|&t| {
            let c = st.canon(t);
            st.tab(tab.clone(), c, 16)
        })
        .collect()
}
pub fn decompress(st: &mut Store, p: &[T], d: usize) -> Vec<T> {
    let tab = decompress_tab(d);
    p.iter()
        .map(|&t| {
            let c = st.canon(t);
            st.tab(tab.clone(), c, 16)
        })
        .collect()
}
pub fn ntt(st: &mut Store, p: &[T]) -> Poly {
    let c = canon_all(st, p);
    apply_poly(st, "NTT", &c)
}
pub fn ntt_inv(st: &mut Store, p: &[T]) -> Poly {
    let c = canon_all(st, p);
    apply_poly(st, "NTTinv", &c)
}
/// sum of coefficient-wise terms sign*x
pub fn lin(st: &mut Store, parts: &[(u128, T)]) -> T {
    let mut acc = st.form_const(0);
    for &(k, t) in parts {
        let f = st.form(t);
        acc = st.form_add(acc, f, k);
    }
    st.field(acc)
}
pub fn add(st: &mut Store, a: &[T], b: &[T]) -> Poly {
    (0..256).map(|i| lin(st, &[(1, a[i]), (1, b[i])])).collect()
}
pub fn sub(st: &mut Store, a: &[T], b: &[T]) -> Poly {
    (0..256).map(|i| lin(st, &[(1, a[i]), (Q - 1, b[i])])).collect()
}
/// dot product of NTT-domain vectors: slots modulo X^2 - gamma_i
pub fn dot(st: &mut Store, a: &[Poly], b: &[Poly]) -> Poly {
    let mut out = Vec::with_capacity(256);
    for i in 0..128 {
        let g = gamma(i as u32);
        let mut c0 = st.form_const(0);
        let mut c1 = st.form_const(0);
        for (x, y) in a.iter().zip(b) {
            let (a0, a1) = (st.form(x[2 * i]), st.form(x[2 * i + 1]));
            let (b0, b1) = (st.form(y[2 * i]), st.form(y[2 * i + 1]));
            let p = st.form_mul(a0, b0).unwrap();
            c0 = st.form_add(c0, p, 1);
            let p = st.form_mul(a1, b1).unwrap();
            c0 = st.form_add(c0, p, g);
            let p = st.form_mul(a0, b1).unwrap();
            c1 = st.form_add(c1, p, 1);
            let p = st.form_mul(a1, b0).unwrap();
            c1 = st.form_add(c1, p, 1);
        }
        out.push(st.field(c0));
        out.push(st.field(c1));
    }
    out
}
pub fn prf(st: &mut Store, s: &[T], n: usize, eta: usize) -> Vec<T> {
    let mut d = s.to_vec();
    d.push(st.konst(n as u128, 8));
    xof_term(st, "Shake256", &d, 0, 64 * eta as u32)
}
pub fn cbd(st: &mut Store, s: &[T], n: usize, eta: usize) -> Poly {
    let b = prf(st, s, n, eta);
    let b = canon_all(st, &b);
    cbd_term(st, &b)
}
/// A[row][col] from SHAKE128(rho || col || row)
pub fn matrix(st: &mut Store, rho: &[T], k: usize) -> Vec<Vec<Poly>> {
    (0..k)
        .map(|row| {
            (0..k)
                .map(|col| {
                    let mut d = rho.to_vec();
                    d.push(st.konst(col as u128, 8));
                    d.push(st.konst(row as u128, 8));
                    let app = st.app("Shake128", &d);
                    sample_uniform_term(st, app)
                })
                .collect()
        })
        .collect()
}
pub struct Keys {
    pub dk: Vec<T>,
    pub ek: Vec<T>,
}
pub fn keygen(st: &mut Store, p: &P, d: &[T], z: &[T]) -> Keys {
    let mut data = d.to_vec();
    data.push(st.konst(p.k as u128, 8));
    let data = canon_all(st, &data);
    let g = hash_term(st, "Sha3_512", &data, 64);
    let (rho, sigma) = g.split_at(32);
    let a = matrix(st, rho, p.k);
    let s: Vec<Poly> = (0..p.k).map(|i| cbd(st, sigma, i, p.eta1)).collect();
    let e: Vec<Poly> = (0..p.k).map(|i| cbd(st, sigma, p.k + i, p.eta1)).collect();
    let sh: Vec<Poly> = s.iter().map(|x| ntt(st, x)).collect();
    let eh: Vec<Poly> = e.iter().map(|x| ntt(st, x)).collect();
    let mut ek = vec![];
    let mut dk = vec![];
    for i in 0..p.k {
        let x = dot(st, &a[i], &sh);
        let t = add(st, &x, &eh[i]);
        ek.extend(encode(st, &t, 12));
        dk.extend(encode(st, &sh[i], 12));
    }
    ek.extend(rho);
    let ek = canon_all(st, &ek);
    dk.extend(&ek);
    let h = hash_term(st, "Sha3_256", &ek, 32);
    dk.extend(h);
    dk.extend(z);
    let dk = canon_all(st, &dk);
    Keys { dk, ek }
}
pub struct Ek {
    pub t: Vec<Poly>,
    pub rho: Vec<T>,
    pub h: Vec<T>,
    pub bytes: Vec<T>,
}
pub fn parse_ek(st: &mut Store, p: &P, b: &[T]) -> Ek {
    let b = canon_all(st, b);
    let t: Vec<Poly> = (0..p.k).map(|i| decode12(st, &b[384 * i..384 * (i + 1)])).collect();
    let mut bytes = vec![];
    for x in &t {
        bytes.extend(encode(st, x, 12));
    }
    let rho = b[384 * p.k..].to_vec();
    bytes.extend(&rho);
    let bytes = canon_all(st, &bytes);
    let h = hash_term(st, "Sha3_256", &bytes, 32);
    Ek { t, rho, h, bytes }
}
pub fn encrypt(st: &mut Store, p: &P, ek: &Ek, m: &[T], r: &[T]) -> Vec<T> {
    let r = canon_all(st, r);
    let y: Vec<Poly> = (0..p.k).map(|i| cbd(st, &r, i, p.eta1)).collect();
    let e1: Vec<Poly> = (0..p.k).map(|i| cbd(st, &r, p.k + i, p.eta2)).collect();
    let e2 = cbd(st, &r, 2 * p.k, p.eta2);
    let a = matrix(st, &ek.rho, p.k);
    let yh: Vec<Poly> = y.iter().map(|x| ntt(st, x)).collect();
    let mut ct = vec![];
    for i in 0..p.k {
        // row i of the transpose is column i
        let col: Vec<Poly> = (0..p.k).map(|j| a[j][i].clone()).collect();
        let x = dot(st, &col, &yh);
        let x = ntt_inv(st, &x);
        let u = add(st, &x, &e1[i]);
        let c = compress(st, &u, p.du);
        ct.extend(encode(st, &c, p.du));
    }
    let x = dot(st, &ek.t, &yh);
    let x = ntt_inv(st, &x);
    let mraw = decode_raw(st, m, 1);
    let mu = decompress(st, &mraw, 1);
    let v = add(st, &x, &e2);
    let v = add(st, &v, &mu);
    let c = compress(st, &v, p.dv);
    ct.extend(encode(st, &c, p.dv));
    canon_all(st, &ct)
}
/// (K, r)
pub fn derive(st: &mut Store, m: &[T], h: &[T]) -> (Vec<T>, Vec<T>) {
    let mut d = m.to_vec();
    d.extend(h);
    let d = canon_all(st, &d);
    let g = hash_term(st, "Sha3_512", &d, 64);
    (g[..32].to_vec(), g[32..].to_vec())
}
pub fn encaps(st: &mut Store, p: &P, ekb: &[T], m: &[T]) -> (Vec<T>, Vec<T>) {
    let ek = parse_ek(st, p, ekb);
    let (k, r) = derive(st, m, &ek.h);
    let ct = encrypt(st, p, &ek, m, &r);
    (ct, k)
}
pub fn decrypt(st: &mut Store, p: &P, sb: &[T], ct: &[T]) -> Vec<T> {
    let sb = canon_all(st, sb);
    let ct = canon_all(st, ct);
    let s: Vec<Poly> = (0..p.k).map(|i| decode12(st, &sb[384 * i..384 * (i + 1)])).collect();
    let mut uh = vec![];
    let n = 32 * p.du;
    for i in 0..p.k {
        let raw = decode_raw(st, &ct[n * i..n * (i + 1)], p.du);
        let u = decompress(st, &raw, p.du);
        uh.push(ntt(st, &u));
    }
    let raw = decode_raw(st, &ct[n * p.k..], p.dv);
    let v = decompress(st, &raw, p.dv);
    let x = dot(st, &s, &uh);
    let x = ntt_inv(st, &x);
    let w = sub(st, &v, &x);
    let c = compress(st, &w, 1);
    let m = encode(st, &c, 1);
    canon_all(st, &m)
}
pub fn reject_key(st: &mut Store, z: &[T], ct: &[T]) -> Vec<T> {
    let mut d = z.to_vec();
    d.extend(ct);
    let d = canon_all(st, &d);
    xof_term(st, "Shake256", &d, 0, 32)
}
