//! Polynomial normal forms modulo q over value-graph atoms, and canonicalisation of terms.
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub const Q: u128 = 3329;

pub type Mono = Vec<T>; // sorted
pub type F = Rc<Vec<(Mono, u32)>>; // sorted by mono, coefficient in 1..q

pub struct Forms {
    pub list: Vec<F>,
    map: HashMap<F, u32>,
    memo: HashMap<T, u32>,
    canon: HashMap<T, T>,
}
impl Forms {
    pub fn new() -> Self {
        Forms { list: vec![], map: HashMap::new(), memo: HashMap::new(), canon: HashMap::new() }
    }
    pub fn intern(&mut self, f: F) -> u32 {
        if let Some(&i) = self.map.get(&f) {
            return i;
        }
        let i = self.list.len() as u32;
        self.map.insert(f.clone(), i);
        self.list.push(f);
        i
    }
    pub fn show(&self, s: &Store, f: u32, depth: usize) -> String {
        let f = &self.list[f as usize];
        let mut o = String::from("Zq{");
        for (i, (m, c)) in f.iter().enumerate() {
            if i >= 4 {
                o += &format!(" +… /*{} terms*/", f.len());
                break;
            }
            if i > 0 {
                o += " + "
            }
            let v: Vec<String> = m.iter().map(|&t| s.show(t, depth.min(2))).collect();
            o += &format!("{}{}{}", c, if v.is_empty() { "" } else { "*" }, v.join("*"));
        }
        o + "}"
    }
}

pub const MAX_MONO: usize = 60_000;

pub fn fadd(a: &F, b: &F, kb: u128) -> F {
    // a + kb*b
    if kb == 0 {
        return a.clone();
    }
    let mut out = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        let o = if i == a.len() {
            std::cmp::Ordering::Greater
        } else if j == b.len() {
            std::cmp::Ordering::Less
        } else {
            a[i].0.cmp(&b[j].0)
        };
        match o {
            std::cmp::Ordering::Less => {
                out.push(a[i].clone());
                i += 1;
            }
            std::cmp::Ordering::Greater => {
                let c = (b[j].1 as u128 * kb % Q) as u32;
                if c != 0 {
                    out.push((b[j].0.clone(), c));
                }
                j += 1;
            }
            std::cmp::Ordering::Equal => {
                let c = ((a[i].1 as u128 + b[j].1 as u128 * kb) % Q) as u32;
                if c != 0 {
                    out.push((a[i].0.clone(), c));
                }
                i += 1;
                j += 1;
            }
        }
    }
    Rc::new(out)
}
pub fn fconst(c: u128) -> F {
    let c = (c % Q) as u32;
    Rc::new(if c == 0 { vec![] } else { vec![(vec![], c)] })
}
pub fn fscale(a: &F, k: u128) -> F {
    let k = k % Q;
    if k == 1 {
        return a.clone();
    }
    Rc::new(
        a.iter()
            .filter_map(|(m, c)| {
                let c = (*c as u128 * k % Q) as u32;
                if c == 0 {
                    None
                } else {
                    Some((m.clone(), c))
                }
            })
            .collect(),
    )
}
pub fn fmul(a: &F, b: &F) -> Option<F> {
    if a.len() * b.len() > MAX_MONO {
        return None;
    }
    let mut m: std::collections::BTreeMap<Mono, u128> = Default::default();
    for (x, c) in a.iter() {
        for (y, d) in b.iter() {
            let mut k = x.clone();
            k.extend(y.iter().copied());
            k.sort_unstable();
            *m.entry(k).or_insert(0) += *c as u128 * *d as u128;
        }
    }
    Some(Rc::new(
        m.into_iter()
            .filter_map(|(k, c)| {
                let c = (c % Q) as u32;
                if c == 0 {
                    None
                } else {
                    Some((k, c))
                }
            })
            .collect(),
    ))
}

impl Store {
    fn f(&self, i: u32) -> F {
        self.forms.list[i as usize].clone()
    }
    pub fn fatom(&mut self, t: T) -> u32 {
        let t = self.norm(t);
        self.forms.intern(Rc::new(vec![(vec![t], 1)]))
    }
    /// residue term for a form
    pub fn field(&mut self, id: u32) -> T {
        let f = self.f(id);
        if f.is_empty() {
            return self.konst(0, 16);
        }
        if f.len() == 1 {
            let (m, c) = &f[0];
            if m.is_empty() {
                return self.konst(*c as u128, 16);
            }
            if m.len() == 1 && *c == 1 {
                let a = m[0];
                if self.hi(a) < Q {
                    return self.zext(a, 16);
                }
            }
        }
        let taint = f.iter().flat_map(|(m, _)| m.iter()).fold(0, |x, &t| x | self.taint(t));
        self.intern(Node::Field(id), 16, 0, Q - 1, taint, true)
    }
    pub fn form_add(&mut self, a: u32, b: u32, kb: u128) -> u32 {
        let (x, y) = (self.f(a), self.f(b));
        self.forms.intern(fadd(&x, &y, kb % Q))
    }
    pub fn form_mul(&mut self, a: u32, b: u32) -> Option<u32> {
        let (x, y) = (self.f(a), self.f(b));
        let r = fmul(&x, &y)?;
        Some(self.forms.intern(r))
    }
    pub fn form_const(&mut self, c: u128) -> u32 {
        self.forms.intern(fconst(c))
    }

    /// linear relation t = g + sum k_i * v_i (mod q) over some cut
    fn linear(&mut self, t: T) -> Option<(u128, Vec<(T, u128)>)> {
        let mut cuts = self.cuts(t, 2, self.probe_limit());
        cuts.sort_by_key(|c| c.0);
        for (n, cut) in cuts {
            if cut.is_empty() || (cut.len() > 1 && n > 1 << 24) || cut == [t] {
                continue;
            }
            let prog = self.program(t, &cut);
            let (key, hit) = self.shape_cache_get(&prog, &cut, 1);
            let dec = |p: Probe| -> Option<(u128, Vec<u128>)> {
                if p.lo == u128::MAX {
                    None
                } else {
                    Some((p.lo & 0xffff, vec![(p.lo >> 16) & 0xffff, (p.lo >> 32) & 0xffff]))
                }
            };
            let res = match hit {
                Some(p) => dec(p),
                None => {
                    let rg: Vec<(u128, u128)> = cut
                        .iter()
                        .map(|&c| (self.d[c as usize].lo, self.d[c as usize].hi))
                        .collect();
                    let mut regs = vec![0u128; (prog.nin + prog.ins.len()).max(1)];
                    let mut at = |v: &[u128]| {
                        regs[..v.len()].copy_from_slice(v);
                        prog.run(&mut regs) % Q
                    };
                    let base: Vec<u128> = rg.iter().map(|r| r.0).collect();
                    let g0 = at(&base);
                    let mut ks = vec![];
                    let mut g = g0;
                    for i in 0..cut.len() {
                        let mut k = 0;
                        if rg[i].1 > rg[i].0 {
                            let mut v = base.clone();
                            v[i] += 1;
                            k = (at(&v) + Q - g0) % Q;
                        }
                        ks.push(k);
                        g = (g + (Q - k) * (base[i] % Q)) % Q;
                    }
                    let ks2 = ks.clone();
                    self.probed(n as u64);
                    let ok = prog.fold(
                        &rg,
                        || true,
                        |acc, vals, r| {
                            let mut e = g;
                            for (v, k) in vals.iter().zip(ks2.iter()) {
                                e += (v % Q) * k;
                            }
                            if e % Q != r % Q {
                                *acc = false;
                            }
                            *acc
                        },
                        |a, b| a && b,
                    );
                    let enc = if ok {
                        g | ks[0] << 16 | ks.get(1).copied().unwrap_or(0) << 32
                    } else {
                        u128::MAX
                    };
                    let p = Probe { lo: enc, hi: 0 };
                    self.shape_cache_put(key, p);
                    dec(p)
                }
            };
            if let Some((g, ks)) = res {
                return Some((g, cut.iter().copied().zip(ks).collect()));
            }
        }
        None
    }

    pub fn form(&mut self, t: T) -> u32 {
        if let Some(&f) = self.forms.memo.get(&t) {
            return f;
        }
        let f = self.form_compute(t);
        let f = self.one_variable(f);
        self.forms.memo.insert(t, f);
        f
    }
    /// a sum of several functions of the same few bits is one function of them
    fn one_variable(&mut self, id: u32) -> u32 {
        let f = self.f(id);
        let atoms: Vec<(T, u128)> =
            f.iter().filter(|m| m.0.len() == 1).map(|m| (m.0[0], m.1 as u128)).collect();
        if !(2..=16).contains(&atoms.len()) || f.iter().any(|m| m.0.len() > 1) {
            return id;
        }
        let constant = f.iter().find(|m| m.0.is_empty()).map_or(0, |m| m.1 as u128);
        type Pieces = Vec<(T, u16, u16, u16)>; // variable, from, width, at
        let mut fns: Vec<(u128, Option<Vec<u128>>, T, Pieces)> = vec![];
        for &(a, k) in &atoms {
            let (tab, i) = match self.as_tab(a) {
                Some((tab, i)) => (Some(tab), i),
                None => (None, a),
            };
            if self.hi(i) >= 1 << 14 {
                return id;
            }
            let mut pieces = vec![];
            if let Node::Bits(segs) = self.node(i) {
                let mut at = 0;
                for s in segs.iter() {
                    match s {
                        Seg::K(0, _) => {}
                        Seg::K(..) => return id,
                        Seg::E(x, lo, w) => pieces.push((*x, *lo, *w, at)),
                    }
                    at += s.w();
                }
            } else {
                pieces.push((i, 0, nbits(self.hi(i)) as u16, 0));
            }
            fns.push((k, tab, i, pieces));
        }
        let widest = fns.iter().max_by_key(|x| x.3.iter().map(|p| p.2).sum::<u16>()).unwrap();
        let (index, frame) = (widest.2, widest.3.clone());
        // where each bit of every other index sits in the widest one
        let mut maps: Vec<Vec<(u16, u16)>> = vec![];
        for x in &fns {
            let mut m = vec![];
            for &(v, lo, w, at) in &x.3 {
                for b in 0..w {
                    let Some(p) = frame.iter().find(|p| p.0 == v && (p.1..p.1 + p.2).contains(&(lo + b))) else {
                        return id;
                    };
                    m.push((p.3 + lo + b - p.1, at + b));
                }
            }
            maps.push(m);
        }
        let (lo, hi) = self.range(index);
        let mut tab = vec![0u128; hi as usize + 1];
        for x in lo..=hi {
            let mut sum = constant;
            for (f, m) in fns.iter().zip(&maps) {
                let i = m.iter().fold(0u128, |i, &(from, to)| i | (x >> from & 1) << to);
                let v = match &f.1 {
                    Some(t) => match t.get(i as usize) {
                        Some(&v) => v,
                        None => return id,
                    },
                    None => i,
                };
                sum += f.0 * (v % Q);
            }
            tab[x as usize] = sum % Q;
        }
        if hi <= lo {
            return id;
        }
        let k = (tab[lo as usize + 1] + Q - tab[lo as usize]) % Q;
        let g = (tab[lo as usize] + (Q - k) * (lo % Q)) % Q;
        if (lo..=hi).all(|x| tab[x as usize] == (g + k * x) % Q) {
            let a = self.fatom(index);
            let g = self.form_const(g);
            return self.form_add(g, a, k);
        }
        let t = self.tab_canon(tab, index, 16);
        self.fatom(t)
    }
    fn form_compute(&mut self, t: T) -> u32 {
        let node = self.node(t).clone();
        match node {
            Node::Const(c) => return self.form_const(c),
            Node::Field(f) => return f,
            Node::Sym(_) | Node::Elem(..) => {
                let c = self.canon(t);
                return self.fatom(c);
            }
            Node::Op(op @ (Op::Add | Op::Sub | Op::Mul), [a, b, _]) if self.exact.contains(&t) => {
                let (fa, fb) = (self.form(a), self.form(b));
                match op {
                    Op::Add => return self.form_add(fa, fb, 1),
                    Op::Sub => return self.form_add(fa, fb, Q - 1),
                    _ => {
                        if let Some(r) = self.form_mul(fa, fb) {
                            return r;
                        }
                    }
                }
            }
            Node::Bits(ref segs) => {
                // complete: every piece is the whole value of its term
                let mut parts = vec![];
                let mut pos = 0u32;
                let mut complete = true;
                for s in segs.iter() {
                    match s {
                        Seg::K(v, _) => {
                            if *v != 0 {
                                let c = self.form_const(*v % Q);
                                parts.push((pos, c))
                            }
                        }
                        Seg::E(x, 0, w) if *w >= nbits(self.hi(*x)) => {
                            let f = self.form(*x);
                            parts.push((pos, f));
                        }
                        _ => complete = false,
                    }
                    pos += s.w() as u32;
                }
                if complete {
                    let mut acc = self.form_const(0);
                    for (p, f) in parts {
                        let k = (1u128 << p) % Q;
                        acc = self.form_add(acc, f, k);
                    }
                    return acc;
                }
            }
            _ => {}
        }
        if let Some((g, ks)) = self.linear(t) {
            let mut acc = self.form_const(g);
            for (v, k) in ks {
                let f = self.form(v);
                acc = self.form_add(acc, f, k);
            }
            return acc;
        }
        let c = self.canon_nonfield(t);
        self.fatom(c)
    }

    /// canonical representative of a term
    pub fn canon(&mut self, t: T) -> T {
        if let Some(&c) = self.forms.canon.get(&t) {
            return c;
        }
        let c = self.canon_compute(t);
        self.forms.canon.insert(t, c);
        self.forms.canon.insert(c, c);
        c
    }
    fn canon_compute(&mut self, t: T) -> T {
        let node = self.node(t).clone();
        match node {
            Node::Const(_) | Node::Sym(_) | Node::Field(_) => return t,
            Node::Elem(a, i) => {
                let a2 = self.canon(a);
                if a2 == a {
                    return t;
                }
                let (w, hi, taint) = (self.w(t), self.hi(t), self.taint(t));
                return self.elem_taint(a2, i, w, hi, taint);
            }
            Node::App(f, args) => {
                let v: Vec<T> = args.iter().map(|&a| self.canon(a)).collect();
                let taint = self.taint(t);
                return self.intern(Node::App(f, v.into()), 0, 0, 0, taint, true);
            }
            Node::Bits(segs) => {
                let r = self.canon_nonfield(t);
                if let Node::Bits(_) = self.node(r) {
                    return r;
                }
                let _ = segs;
                return self.canon(r);
            }
            _ => {}
        }
        if let Some(c) = self.as_const(t) {
            let w = self.w(t);
            return self.konst(c, w);
        }
        if self.hi(t) < Q && self.w(t) >= 12 {
            let f = self.form(t);
            let ff = self.f(f);
            // a lone atom equal to the non-field canonical form means "not a ring expression"
            let lone = ff.len() == 1 && ff[0].0.len() == 1 && ff[0].1 == 1;
            let w = self.w(t);
            if lone {
                let a = ff[0].0[0];
                if self.hi(a) < Q {
                    return self.zext(a, w);
                }
            }
            let r = self.field(f);
            return self.zext(r, w);
        }
        self.canon_nonfield(t)
    }
    /// canonical form ignoring the ring view of the term itself: function table over the best cut
    fn canon_nonfield(&mut self, t: T) -> T {
        let node = self.node(t).clone();
        let w = self.w(t);
        match &node {
            Node::Elem(..) | Node::Sym(_) | Node::Const(_) | Node::Field(_) | Node::App(..) => {
                return self.canon(t)
            }
            Node::Bits(segs) => {
                if self.leafy(t) {
                    return self.canon_segments(t, segs);
                }
            }
            _ => {}
        }
        // single-variable function tables
        let mut cuts = self.cuts(t, 1, 1 << 14);
        // deepest variables first: an intermediate table or operation is never a canonical index
        cuts.sort_by_cached_key(|c| {
            let inner = c.1.len() == 1 && !self.leafy(c.1[0]);
            (inner, c.0)
        });
        if let Some((_, cut)) = cuts.into_iter().find(|c| c.1 != [t]) {
            if cut.is_empty() {
                let p = self.probe_on(t, &[]);
                return self.konst(p.lo, w);
            }
            let v = cut[0];
            let prog = self.program(t, &cut);
            let (lo, hi) = self.range(v);
            let mut regs = vec![0u128; (prog.nin + prog.ins.len()).max(1)];
            let mut tab = vec![0u128; hi as usize + 1];
            let mut ident = true;
            for x in lo..=hi {
                regs[0] = x;
                let r = prog.run(&mut regs);
                tab[x as usize] = r;
                ident &= r == x;
            }
            let mut cv = self.canon(v);
            if ident {
                return self.zext(cv, w);
            }
            while let Some((inner, i)) = self.as_tab(cv) {
                if inner.iter().any(|&x| x as usize >= tab.len()) {
                    break;
                }
                tab = inner.iter().map(|&x| tab[x as usize]).collect();
                cv = i;
            }
            let cv = self.norm(cv);
            return self.tab_canon(tab, cv, w);
        }
        match node {
            Node::Op(op, c) => {
                let a = self.canon(c[0]);
                let b = if c[1] == NIL { NIL } else { self.canon(c[1]) };
                let d = if c[2] == NIL { NIL } else { self.canon(c[2]) };
                if [a, b, d] == c {
                    return t;
                }
                self.rebuild(op, a, b, d, w)
            }
            Node::Tab(id, i) => {
                let i2 = self.canon(i);
                let i2 = self.norm(i2);
                let tb = (*self.tabs[id as usize]).clone();
                self.tab(tb, i2, w)
            }
            Node::Bits(segs) => self.canon_segments(t, &segs),
            _ => t,
        }
    }
    /// a function table, or a ring expression in one atom of small range
    fn as_tab(&mut self, t: T) -> Option<(Vec<u128>, T)> {
        match *self.node(t) {
            Node::Tab(id, i) => Some(((*self.tabs[id as usize]).clone(), i)),
            Node::Bits(ref segs) => {
                let segs = segs.clone();
                let (mut k, mut pos, mut one) = (0u128, 0u16, None);
                for s in segs.iter() {
                    match s {
                        Seg::K(v, _) => k |= v << pos,
                        Seg::E(x, lo, w) => {
                            if one.replace((*x, *lo, *w, pos)).is_some() {
                                return None;
                            }
                        }
                    }
                    pos += s.w();
                }
                let (x, lo, w, at) = one?;
                let Node::Tab(id, i) = *self.node(x) else { return None };
                let tb = self.tabs[id as usize].iter().map(|v| (v >> lo & ((1 << w) - 1)) << at | k).collect();
                Some((tb, i))
            }
            Node::Field(f) => {
                let ff = self.f(f);
                let mut atom = None;
                for (m, _) in ff.iter() {
                    for &a in m {
                        if *atom.get_or_insert(a) != a {
                            return None;
                        }
                    }
                }
                let a = atom?;
                let hi = self.hi(a);
                if hi >= 1 << 13 {
                    return None;
                }
                let tab = (0..=hi)
                    .map(|x| ff.iter().fold(0, |s, (m, c)| (s + m.iter().fold(*c as u128, |p, _| p * x % Q)) % Q))
                    .collect();
                Some((tab, a))
            }
            _ => None,
        }
    }
    /// a function table, written as bits of its index where that is all it does
    fn tab_canon(&mut self, tab: Vec<u128>, i: T, w: u16) -> T {
        let (lo, hi) = self.range(i);
        let iw = self.w(i);
        let mut parts: Vec<(T, u16, u16)> = vec![];
        for b in 0..w {
            let bit = |x: u128| tab[x as usize] >> b & 1;
            if (lo..=hi).all(|x| bit(x) == bit(lo)) {
                let k = self.konst(bit(lo), 1);
                parts.push((k, 0, 1));
            } else if let Some(k) = (0..iw).find(|&k| (lo..=hi).all(|x| x >> k & 1 == bit(x))) {
                parts.push((i, k, 1));
            } else {
                return self.tab(tab, i, w);
            }
        }
        self.bits(&parts, w)
    }
    /// a leaf, or bits of leaves
    fn leafy(&mut self, t: T) -> bool {
        let parts: Vec<T> = match self.node(t) {
            Node::Bits(segs) => segs.iter().filter_map(|s| if let Seg::E(x, _, _) = s { Some(*x) } else { None }).collect(),
            _ => vec![t],
        };
        parts.into_iter().all(|x| match self.node(x) {
            Node::Elem(..) | Node::Sym(_) | Node::Const(_) => true,
            Node::Field(_) => self.as_tab(x).is_none(),
            _ => false,
        })
    }
    /// the same value at the standard width for indices and ring atoms
    fn norm(&mut self, t: T) -> T {
        if self.hi(t) >= 1 << 16 {
            return t;
        }
        if let Node::Bits(_) | Node::Tab(..) = self.node(t) {
            if let Some((tb, i)) = self.as_tab(t) {
                return self.tab(tb, i, 16);
            }
        }
        if self.w(t) != 16 {
            self.bits(&[(t, 0, self.w(t).min(16))], 16)
        } else {
            t
        }
    }
    /// segmentwise canonical form: slices of function tables become single-bit tables, so the
    /// result does not depend on how the value was segmented
    fn canon_segments(&mut self, t: T, segs: &[Seg]) -> T {
        let mut v: Vec<(T, u16, u16)> = vec![];
        for s in segs {
            match s {
                Seg::K(k, w) => {
                    let k = self.konst(*k, *w);
                    v.push((k, 0, *w))
                }
                Seg::E(x, lo, w) => {
                    let c = self.canon(*x);
                    let Some((tb, i)) = self.as_tab(c) else {
                        v.push((c, *lo, *w));
                        continue;
                    };
                    for b in *lo..*lo + *w {
                        let col: Vec<u128> = tb.iter().map(|x| x >> b & 1).collect();
                        let (rlo, rhi) = self.range(i);
                        let same = (0..self.w(i)).find(|&k| (rlo..=rhi).all(|x| x >> k & 1 == col[x as usize]));
                        match same {
                            Some(k) => v.push((i, k, 1)),
                            None => {
                                let bit = self.tab(col, i, 1);
                                v.push((bit, 0, 1))
                            }
                        }
                    }
                }
            }
        }
        let w = self.w(t);
        self.bits(&v, w)
    }
    /// deepest first difference between two canonical terms
    pub fn diff(&self, a: T, b: T, depth: usize) -> (T, T) {
        if depth == 0 {
            return (a, b);
        }
        let pick = |x: &[T], y: &[T]| -> Option<(T, T)> {
            if x.len() != y.len() {
                return None;
            }
            x.iter().zip(y).find(|(p, q)| p != q).map(|(p, q)| (*p, *q))
        };
        let next = match (self.node(a), self.node(b)) {
            (Node::Elem(x, i), Node::Elem(y, j)) if i == j => pick(&[*x], &[*y]),
            (Node::App(f, x), Node::App(g, y)) if f == g => pick(x, y),
            (Node::Tab(f, x), Node::Tab(g, y)) if f == g => pick(&[*x], &[*y]),
            (Node::Op(f, x), Node::Op(g, y)) if f == g => {
                let k = x.iter().zip(y.iter()).find(|(p, q)| p != q);
                k.filter(|(p, q)| **p != NIL && **q != NIL).map(|(p, q)| (*p, *q))
            }
            (Node::Bits(x), Node::Bits(y)) if x.len() == y.len() => {
                x.iter().zip(y.iter()).find(|(p, q)| p != q).and_then(|(p, q)| match (p, q) {
                    (Seg::E(x, l, w), Seg::E(y, m, v)) if l == m && w == v => Some((*x, *y)),
                    _ => None,
                })
            }
            (Node::Field(f), Node::Field(g)) => {
                let (x, y) = (self.f(*f), self.f(*g));
                let only = |p: &F, q: &F| -> Vec<(Mono, u32)> { p.iter().filter(|m| !q.contains(m)).cloned().collect() };
                let (p, q) = (only(&x, &y), only(&y, &x));
                match (p.len(), q.len()) {
                    (a, b) if a > 0 && a == b => {
                        // pair up by coefficient and shape
                        let (m, c) = &p[0];
                        q.iter().find(|(n, d)| c == d && m.len() == n.len()).and_then(|(n, _)| pick(m, n))
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        match next {
            Some((x, y)) => self.diff(x, y, depth - 1),
            None => (a, b),
        }
    }
    pub fn rebuild(&mut self, op: Op, a: T, b: T, c: T, w: u16) -> T {
        match op {
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::UDiv => self.udiv(a, b),
            Op::URem => self.urem(a, b),
            Op::SDiv | Op::SRem => self.sdivrem(op, a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Shl => self.shl(a, b),
            Op::Shr => self.shr(a, b),
            Op::Sar => self.sar(a, b),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            Op::MulOvf | Op::SAddOvf | Op::SSubOvf | Op::SMulOvf => self.ovf(op, a, b),
            Op::Sext => self.sext(a, w),
            Op::Popcnt | Op::Ctz | Op::Clz => self.un(op, a, w),
            Op::Ite => self.ite(a, b, c),
        }
    }
    /// atoms two terms depend on, with the bits of them that matter
    fn bit_support(&self, roots: &[T]) -> Option<Vec<(T, u128)>> {
        let mut at: HashMap<T, u128> = HashMap::new();
        let mut seen = HashSet::new();
        let mut todo: Vec<T> = roots.to_vec();
        while let Some(t) = todo.pop() {
            if !seen.insert(t) {
                continue;
            }
            if seen.len() > 200 {
                return None;
            }
            match self.node(t) {
                Node::Const(_) => {}
                Node::Field(f) => {
                    for (m, _) in self.f(*f).iter() {
                        todo.extend(m.iter().copied());
                    }
                }
                Node::Bits(segs) => {
                    for s in segs.iter() {
                        if let Seg::E(x, lo, w) = s {
                            match self.node(*x) {
                                Node::Sym(_) | Node::Elem(..) => *at.entry(*x).or_default() |= mask(*w) << lo,
                                _ => todo.push(*x),
                            }
                        }
                    }
                }
                Node::App(..) => return None,
                Node::Sym(_) | Node::Elem(..) => {
                    *at.entry(t).or_default() |= mask(nbits(self.d[t as usize].hi));
                }
                _ => {
                    let mut ch = vec![];
                    self.children(t, &mut ch);
                    todo.extend(ch);
                }
            }
        }
        let mut v: Vec<_> = at.into_iter().collect();
        v.sort();
        Some(v)
    }
    /// equality decided by tabulating both terms over the few bits they depend on
    pub fn same_by_bits(&mut self, a: T, b: T) -> bool {
        let Some(at) = self.bit_support(&[a, b]) else { return false };
        let n: u32 = at.iter().map(|x| x.1.count_ones()).sum();
        if n > 12 {
            return false;
        }
        (0u128..1 << n).all(|k| {
            let mut map = HashMap::new();
            let mut k = k;
            for &(t, m) in &at {
                let mut v = 0;
                for i in 0..128 {
                    if m >> i & 1 == 1 {
                        v |= (k & 1) << i;
                        k >>= 1;
                    }
                }
                let c = self.konst(v, self.w(t));
                map.insert(t, c);
            }
            let x = self.subst(a, &mut map);
            let y = self.subst(b, &mut map);
            let (x, y) = (self.as_const(x), self.as_const(y));
            x.is_some() && x == y
        })
    }
    /// substitute terms (bottom-up rebuild with simplification)
    pub fn subst(&mut self, t: T, map: &mut HashMap<T, T>) -> T {
        if let Some(&r) = map.get(&t) {
            return r;
        }
        let node = self.node(t).clone();
        let w = self.w(t);
        let r = match node {
            Node::Const(_) | Node::Sym(_) => t,
            Node::Field(f) => {
                let ff = self.f(f);
                let mut acc = self.form_const(0);
                let mut changed = false;
                for (m, c) in ff.iter() {
                    let mut p = self.form_const(*c as u128);
                    for &a in m {
                        let b = self.subst(a, map);
                        changed |= a != b;
                        let fb = self.form(b);
                        p = self.form_mul(p, fb).expect("form too large");
                    }
                    acc = self.form_add(acc, p, 1);
                }
                if changed {
                    self.field(acc)
                } else {
                    t
                }
            }
            Node::Elem(a, i) => {
                let b = self.subst(a, map);
                if a == b {
                    t
                } else {
                    let (hi, taint) = (self.hi(t), self.taint(t));
                    self.elem_taint(b, i, w, hi, taint)
                }
            }
            Node::App(f, args) => {
                let v: Vec<T> = args.iter().map(|&a| self.subst(a, map)).collect();
                let taint = v.iter().fold(0, |a, &t| a | self.taint(t));
                self.intern(Node::App(f, v.into()), 0, 0, 0, taint, true)
            }
            Node::Bits(segs) => {
                let v: Vec<(T, u16, u16)> = segs
                    .iter()
                    .map(|s| match s {
                        Seg::K(v, w) => {
                            let k = self.konst(*v, *w);
                            (k, 0, *w)
                        }
                        Seg::E(x, lo, w) => (self.subst(*x, map), *lo, *w),
                    })
                    .collect();
                self.bits(&v, w)
            }
            Node::Op(op, c) => {
                let a = self.subst(c[0], map);
                let b = if c[1] == NIL { NIL } else { self.subst(c[1], map) };
                let d = if c[2] == NIL { NIL } else { self.subst(c[2], map) };
                if [a, b, d] == c {
                    t
                } else {
                    self.rebuild(op, a, b, d, w)
                }
            }
            Node::Tab(id, i) => {
                let i2 = self.subst(i, map);
                if i2 == i {
                    t
                } else {
                    let tb = (*self.tabs[id as usize]).clone();
                    self.tab(tb, i2, w)
                }
            }
        };
        map.insert(t, r);
        r
    }
}
