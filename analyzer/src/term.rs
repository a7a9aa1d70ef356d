//! Value graph: hash-consed terms with bit-level normalisation, intervals and taint.
use std::collections::HashMap;

pub type T = u32;
/// taint bit of secret data
pub const SECRET: u32 = 1;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    Shr,
    Sar,
    Eq,
    Ult,
    Slt,
    MulOvf,
    SAddOvf,
    SSubOvf,
    SMulOvf,
    Sext,
    Popcnt,
    Ctz,
    Clz,
    Ite,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Seg {
    K(u128, u16),
    /// bits lo..lo+w of a term
    E(T, u16, u16),
}
impl Seg {
    pub fn w(&self) -> u16 {
        match self {
            Seg::K(_, w) => *w,
            Seg::E(_, _, w) => *w,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Sym(u32),
    Op(Op, [T; 3]),
    Bits(Box<[Seg]>),
    /// uninterpreted function; opaque result, observed through Elem
    App(u32, Box<[T]>),
    Elem(T, u32),
    /// residue in 0..q given by a polynomial normal form
    Field(u32),
    Tab(u32, T),
}

pub struct Data {
    pub node: Node,
    pub w: u16,
    pub lo: u128,
    pub hi: u128,
    pub taint: u32,
    pub refined: bool,
    pub loc: u32,
}

pub struct SymInfo {
    pub name: String,
}

pub struct Store {
    pub d: Vec<Data>,
    map: HashMap<(Node, u16), T>,
    pub syms: Vec<SymInfo>,
    pub fnames: Vec<String>,
    fmap: HashMap<String, u32>,
    pub tabs: Vec<std::rc::Rc<Vec<u128>>>,
    tmap: HashMap<Vec<u128>, u32>,
    pub exact: std::collections::HashSet<T>,
    pub cur_loc: u32,
    pub stat_probe: u64,
    pub stat_probe_evals: u64,
    pub forms: crate::form::Forms,
    /// byte order and pointer width (bits) of the target under analysis
    pub be: bool,
    pub pw: u16,
}

#[derive(Clone, Copy, Debug)]
pub struct Probe {
    pub lo: u128,
    pub hi: u128,
}

pub const NIL: T = u32::MAX;

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn nbits(x: u128) -> u16 {
    (128 - x.leading_zeros()) as u16
}
fn sext_val(x: u128, w: u16) -> i128 {
    if w >= 128 {
        x as i128
    } else {
        ((x << (128 - w)) as i128) >> (128 - w)
    }
}

pub const PROBE_LIMIT: u128 = 1 << 25;
thread_local! {
    /// what enumerating a program showed, for every store
    static SHAPE: std::cell::RefCell<HashMap<Vec<u64>, Probe>> = Default::default();
    /// tables are shared between stores and never freed: a program names them by address
    static TABLES: std::cell::RefCell<HashMap<Vec<u128>, std::rc::Rc<Vec<u128>>>> = Default::default();
}
/// evaluations so far, and how many are spent on large enumerations
static EVALS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub const PROBE_BUDGET: u64 = 3_000_000_000;

impl Store {
    pub fn new() -> Self {
        let mut s = Store {
            d: vec![],
            map: HashMap::new(),
            syms: vec![],
            fnames: vec![],
            fmap: HashMap::new(),
            tabs: vec![],
            tmap: HashMap::new(),
            exact: Default::default(),
            cur_loc: 0,
            stat_probe: 0,
            stat_probe_evals: 0,
            forms: crate::form::Forms::new(),
            be: false,
            pw: 64,
        };
        s.konst(0, 8);
        s
    }
    pub fn node(&self, t: T) -> &Node {
        &self.d[t as usize].node
    }
    pub fn w(&self, t: T) -> u16 {
        self.d[t as usize].w
    }
    pub fn taint(&self, t: T) -> u32 {
        self.d[t as usize].taint
    }
    pub fn cval(&self, t: T) -> Option<u128> {
        match self.d[t as usize].node {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn is_const(&self, t: T) -> bool {
        self.cval(t).is_some()
    }
    pub fn intern(&mut self, node: Node, w: u16, lo: u128, hi: u128, taint: u32, refined: bool) -> T {
        if let Some(&t) = self.map.get(&(node.clone(), w)) {
            return t;
        }
        let t = self.d.len() as T;
        self.map.insert((node.clone(), w), t);
        self.d.push(Data { node, w, lo, hi, taint, refined, loc: self.cur_loc });
        t
    }
    pub fn konst(&mut self, v: u128, w: u16) -> T {
        let v = v & mask(w);
        self.intern(Node::Const(v), w, v, v, 0, true)
    }
    pub fn sym(&mut self, name: &str, w: u16, lo: u128, hi: u128, taint: u32) -> T {
        let id = self.syms.len() as u32;
        self.syms.push(SymInfo { name: name.to_string() });
        self.intern(Node::Sym(id), w, lo, hi, taint, true)
    }
    pub fn byte_syms(&mut self, name: &str, n: usize, taint: u32) -> Vec<T> {
        (0..n).map(|i| self.sym(&format!("{name}[{i}]"), 8, 0, 255, taint)).collect()
    }
    pub fn fname(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.fmap.get(n) {
            return i;
        }
        let i = self.fnames.len() as u32;
        self.fnames.push(n.to_string());
        self.fmap.insert(n.to_string(), i);
        i
    }
    pub fn name_of(&self, f: u32) -> &str {
        &self.fnames[f as usize]
    }
    pub fn app(&mut self, f: &str, args: &[T]) -> T {
        let f = self.fname(f);
        let taint = args.iter().fold(0, |a, &t| a | self.taint(t));
        self.intern(Node::App(f, args.into()), 0, 0, 0, taint, true)
    }
    pub fn elem(&mut self, a: T, i: u32, w: u16, hi: u128) -> T {
        let taint = self.taint(a);
        self.intern(Node::Elem(a, i), w, 0, hi, taint, true)
    }
    pub fn elem_taint(&mut self, a: T, i: u32, w: u16, hi: u128, taint: u32) -> T {
        self.intern(Node::Elem(a, i), w, 0, hi, taint, true)
    }
    pub fn table(&mut self, v: Vec<u128>) -> u32 {
        if let Some(&i) = self.tmap.get(&v) {
            return i;
        }
        let i = self.tabs.len() as u32;
        self.tmap.insert(v.clone(), i);
        let known = TABLES.with_borrow(|s| s.get(&v).cloned());
        let shared = known.unwrap_or_else(|| {
            let r = std::rc::Rc::new(v.clone());
            TABLES.with_borrow_mut(|s| s.insert(v, r.clone()));
            r
        });
        self.tabs.push(shared);
        i
    }
    pub fn tab(&mut self, table: Vec<u128>, idx: T, w: u16) -> T {
        if let Some(c) = self.cval(idx) {
            if (c as usize) < table.len() {
                return self.konst(table[c as usize], w);
            }
        }
        let (lo, hi) = self.range(idx);
        let l = lo.min(table.len() as u128 - 1) as usize;
        let h = hi.min(table.len() as u128 - 1) as usize;
        let (mut mn, mut mx) = (u128::MAX, 0);
        for &x in &table[l..=h] {
            mn = mn.min(x);
            mx = mx.max(x);
        }
        if mn == mx {
            return self.konst(mn, w);
        }
        let id = self.table(table);
        let taint = self.taint(idx);
        self.intern(Node::Tab(id, idx), w, mn, mx, taint, true)
    }

    /// interval of a term, sharpened by probing when the cheap interval wrapped
    pub fn range(&mut self, t: T) -> (u128, u128) {
        if !self.d[t as usize].refined {
            self.d[t as usize].refined = true;
            if let Some(p) = self.probe(t) {
                let d = &mut self.d[t as usize];
                d.lo = d.lo.max(p.lo);
                d.hi = d.hi.min(p.hi);
            }
        }
        let d = &self.d[t as usize];
        (d.lo, d.hi)
    }
    pub fn hi(&mut self, t: T) -> u128 {
        self.range(t).1
    }
    /// constant value if the term is provably constant
    pub fn as_const(&mut self, t: T) -> Option<u128> {
        if let Some(c) = self.cval(t) {
            return Some(c);
        }
        let (lo, hi) = self.range(t);
        if lo == hi {
            Some(lo)
        } else {
            None
        }
    }

    fn mk(&mut self, op: Op, a: T, b: T, c: T, w: u16, lo: u128, hi: u128, refined: bool) -> T {
        let mut taint = self.taint(a);
        if b != NIL {
            taint |= self.taint(b);
        }
        if c != NIL {
            taint |= self.taint(c);
        }
        if lo == hi {
            return self.konst(lo, w);
        }
        self.intern(Node::Op(op, [a, b, c]), w, lo, hi, taint, refined)
    }

    // ---- bit structure ----
    /// mask of bits that may be one
    /// bits known to be set
    fn sure_bits(&self, t: T) -> u128 {
        if let Node::Bits(segs) = self.node(t) {
            let (mut r, mut pos) = (0u128, 0u16);
            for s in segs.iter() {
                if let Seg::K(v, _) = s {
                    r |= v << pos;
                }
                pos += s.w();
            }
            return r;
        }
        self.cval(t).unwrap_or(0)
    }
    pub fn maybe_bits(&mut self, t: T) -> u128 {
        let hi = self.hi(t);
        let m = mask(nbits(hi));
        if let Node::Bits(segs) = self.node(t) {
            let segs = segs.clone();
            let mut r = 0u128;
            let mut pos = 0u16;
            for s in segs.iter() {
                match s {
                    Seg::K(v, _) => r |= v << pos,
                    Seg::E(_, _, w) => r |= mask(*w) << pos,
                }
                pos += s.w();
            }
            r & m
        } else {
            m
        }
    }
    fn push_slice(&mut self, out: &mut Vec<Seg>, t: T, lo: u16, w: u16) {
        if w == 0 {
            return;
        }
        if let Some(c) = self.cval(t) {
            let v = if lo >= 128 { 0 } else { (c >> lo) & mask(w) };
            self.push_seg(out, Seg::K(v, w));
            return;
        }
        if let Node::Bits(segs) = self.node(t) {
            let segs = segs.clone();
            let mut pos = 0u16;
            let end = lo + w;
            for s in segs.iter() {
                let sw = s.w();
                let a = pos.max(lo);
                let b = (pos + sw).min(end);
                if a < b {
                    match s {
                        Seg::K(v, _) => {
                            let x = (v >> (a - pos)) & mask(b - a);
                            self.push_seg(out, Seg::K(x, b - a))
                        }
                        Seg::E(u, ulo, _) => self.push_slice(out, *u, ulo + (a - pos), b - a),
                    }
                }
                pos += sw;
            }
            if pos < end {
                let a = pos.max(lo);
                self.push_seg(out, Seg::K(0, end - a));
            }
            return;
        }
        if let Some((x, p, zero)) = self.zero_test(t) {
            let n = self.w(t);
            if lo + w > p && lo + w <= n {
                if lo < p {
                    self.push_slice(out, t, lo, p - lo);
                }
                let k = self.konst(0, self.w(x));
                let e = self.eq(x, k);
                let e = if zero { e } else { self.bnot(e) };
                for _ in lo.max(p)..lo + w {
                    self.push_slice(out, e, 0, 1);
                }
                return;
            }
        }
        let nb = nbits(self.hi(t));
        if lo >= nb {
            self.push_seg(out, Seg::K(0, w));
        } else if lo + w > nb {
            self.push_seg(out, Seg::E(t, lo, nb - lo));
            self.push_seg(out, Seg::K(0, lo + w - nb));
        } else {
            self.push_seg(out, Seg::E(t, lo, w));
        }
    }
    /// (x, p, true): bits p.. of t all tell whether x is zero; (x, p, false): whether it is not.
    /// The forms x | -x, !x & (x - 1) and x - 1 for words too wide for a function table.
    fn zero_test(&mut self, t: T) -> Option<(T, u16, bool)> {
        let w = self.w(t);
        if w <= 16 {
            return None;
        }
        let (op, a, b) = match *self.node(t) {
            Node::Op(op @ (Op::Or | Op::And | Op::Sub), [a, b, _]) => (op, a, b),
            _ => return None,
        };
        let parts = |s: &Self, t: T| match *s.node(t) {
            Node::Op(op @ (Op::Sub | Op::Xor), [a, b, _]) => Some((op, a, b)),
            _ => None,
        };
        match op {
            Op::Or => {
                for (x, y) in [(a, b), (b, a)] {
                    if let Some((Op::Sub, z, v)) = parts(self, y) {
                        if v == x && self.cval(z) == Some(0) {
                            return Some((x, w - 1, false));
                        }
                    }
                }
            }
            Op::And => {
                for (n, d) in [(a, b), (b, a)] {
                    if let (Some((Op::Xor, x, m)), Some((Op::Sub, y, k))) = (parts(self, n), parts(self, d)) {
                        if x == y && self.cval(m) == Some(mask(w)) && self.cval(k) == Some(1) {
                            return Some((x, w - 1, true));
                        }
                    }
                }
            }
            _ => {
                if self.cval(b) == Some(1) {
                    let n = nbits(self.range(a).1);
                    if n < w {
                        return Some((a, n, true));
                    }
                }
            }
        }
        None
    }
    fn push_seg(&mut self, out: &mut Vec<Seg>, s: Seg) {
        if s.w() == 0 {
            return;
        }
        if let Some(last) = out.last_mut() {
            match (&mut *last, &s) {
                (Seg::K(v, w), Seg::K(v2, w2)) if *w + *w2 <= 128 => {
                    *v |= v2 << *w;
                    *w += w2;
                    return;
                }
                (Seg::E(t, lo, w), Seg::E(t2, lo2, w2)) if t == t2 && *lo + *w == *lo2 => {
                    *w += w2;
                    return;
                }
                _ => {}
            }
        }
        out.push(s);
    }
    /// build a term of width w from segments (low first)
    fn from_segs(&mut self, segs: Vec<Seg>, w: u16) -> T {
        debug_assert_eq!(segs.iter().map(|s| s.w()).sum::<u16>(), w);
        if segs.len() == 1 {
            if let Seg::K(v, _) = segs[0] {
                return self.konst(v, w);
            }
        }
        // [E(t,0,nb)] + zeros, width(t)==w  => t
        let z = match segs.len() {
            1 => true,
            2 => matches!(segs[1], Seg::K(0, _)),
            _ => false,
        };
        if z {
            if let Seg::E(t, 0, ew) = segs[0] {
                if self.w(t) == w && ew >= nbits(self.hi(t)) {
                    return t;
                }
            }
        }
        let (mut lo, mut hi, mut taint, mut pos) = (0u128, 0u128, 0u32, 0u16);
        for s in &segs {
            match *s {
                Seg::K(v, _) => {
                    lo |= v << pos;
                    hi |= v << pos;
                }
                Seg::E(t, l, ew) => {
                    taint |= self.taint(t);
                    let (tl, th) = self.range(t);
                    if l == 0 && ew >= nbits(th) {
                        lo += tl << pos;
                        hi += th << pos;
                    } else if l + ew >= nbits(th) {
                        lo += (tl >> l) << pos;
                        hi += (th >> l) << pos;
                    } else {
                        hi += mask(ew) << pos;
                    }
                }
            }
            pos += s.w();
        }
        if lo == hi {
            return self.konst(lo, w);
        }
        self.intern(Node::Bits(segs.into()), w, lo, hi, taint, true)
    }
    /// bits lo..lo+w as a term of width w (zero extended as needed)
    pub fn slice(&mut self, t: T, lo: u16, w: u16) -> T {
        if lo == 0 && w == self.w(t) {
            return t;
        }
        let mut segs = vec![];
        let tw = self.w(t);
        let avail = tw.saturating_sub(lo).min(w);
        self.push_slice(&mut segs, t, lo, avail);
        self.push_seg(&mut segs, Seg::K(0, w - avail));
        self.from_segs(segs, w)
    }
    pub fn zext(&mut self, t: T, w: u16) -> T {
        self.slice(t, 0, w)
    }
    /// concatenate terms, low first
    pub fn usize_k(&mut self, x: u128) -> T {
        let w = self.pw;
        self.konst(x & mask(w), w)
    }
    /// byte `k` of an `n`-byte object holding integer `t`, in memory order
    pub fn mem_byte(&mut self, t: T, n: u32, k: u32) -> T {
        self.mem_slice(t, n, k, 1)
    }
    pub fn mem_slice(&mut self, t: T, n: u32, lo: u32, len: u32) -> T {
        let at = if self.be { n - lo - len } else { lo };
        self.slice(t, at as u16 * 8, len as u16 * 8)
    }
    /// the integer whose bytes in memory order are `parts`
    pub fn mem_concat(&mut self, parts: &[T]) -> T {
        if self.be {
            let v: Vec<T> = parts.iter().rev().copied().collect();
            return self.concat(&v);
        }
        self.concat(parts)
    }
    pub fn concat(&mut self, parts: &[T]) -> T {
        let mut segs = vec![];
        let mut w = 0;
        for &p in parts {
            let pw = self.w(p);
            self.push_slice(&mut segs, p, 0, pw);
            w += pw;
        }
        self.from_segs(segs, w)
    }
    /// concatenation of bit slices (term, lo, width), padded with zeros to width w
    pub fn bits(&mut self, parts: &[(T, u16, u16)], w: u16) -> T {
        let mut segs = vec![];
        let mut n = 0;
        for &(t, lo, pw) in parts {
            self.push_slice(&mut segs, t, lo, pw);
            n += pw;
        }
        self.push_seg(&mut segs, Seg::K(0, w - n));
        self.from_segs(segs, w)
    }
    fn segs_of(&mut self, t: T) -> Vec<Seg> {
        let w = self.w(t);
        let mut v = vec![];
        self.push_slice(&mut v, t, 0, w);
        v
    }
    /// bitwise combination by walking both segment lists; f says what to do per common piece
    fn bit_or_disjoint(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let sa = self.segs_of(a);
        let sb = self.segs_of(b);
        let mut out = vec![];
        let (mut i, mut j, mut oi, mut oj) = (0, 0, 0u16, 0u16);
        let mut pos = 0;
        while pos < w {
            let n = (sa[i].w() - oi).min(sb[j].w() - oj);
            let pick = |s: &Seg, o: u16| match s {
                Seg::K(v, _) => Seg::K((v >> o) & mask(n), n),
                Seg::E(t, l, _) => Seg::E(*t, l + o, n),
            };
            let pa = pick(&sa[i], oi);
            let pb = pick(&sb[j], oj);
            match (&pa, &pb) {
                (Seg::K(x, _), Seg::K(y, _)) => self.push_seg(&mut out, Seg::K(x | y, n)),
                (Seg::K(0, _), Seg::E(t, l, w2)) => self.push_slice(&mut out, *t, *l, *w2),
                (Seg::E(t, l, w2), Seg::K(0, _)) => self.push_slice(&mut out, *t, *l, *w2),
                _ => unreachable!("bit_or_disjoint"),
            }
            oi += n;
            oj += n;
            pos += n;
            if oi == sa[i].w() {
                i += 1;
                oi = 0;
            }
            if oj == sb[j].w() {
                j += 1;
                oj = 0;
            }
        }
        self.from_segs(out, w)
    }
    /// a bitwise operation on two words packed from the same fields, field by field
    fn lanes(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let (Node::Bits(x), Node::Bits(y)) = (self.node(a), self.node(b)) else { return None };
        let live = |s: &[Seg]| s.iter().filter(|s| matches!(s, Seg::E(..))).count();
        if x.len() != y.len() || live(x) < 2 || live(y) < 2 || x.iter().zip(y.iter()).any(|(p, q)| p.w() != q.w()) {
            return None;
        }
        let ws: Vec<u16> = x.iter().map(|s| s.w()).collect();
        let w = self.w(a);
        let mut segs = vec![];
        let mut pos = 0;
        for n in ws {
            let (p, q) = (self.bits(&[(a, pos, n)], n.max(8)), self.bits(&[(b, pos, n)], n.max(8)));
            let r = match op {
                Op::Xor => self.xor(p, q),
                Op::Or => self.or(p, q),
                _ => self.and(p, q),
            };
            self.push_slice(&mut segs, r, 0, n);
            pos += n;
        }
        Some(self.from_segs(segs, w))
    }
    fn seg_disjoint(&mut self, a: T, b: T) -> bool {
        // positions where neither side is known-zero must not exist (constants count by value)
        self.maybe_bits(a) & self.maybe_bits(b) == 0
    }

    // ---- arithmetic ----
    fn comm(a: T, b: T, ca: bool) -> (T, T) {
        // constants to the right
        if ca {
            (b, a)
        } else {
            (a, b)
        }
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.is_const(a) { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(x.wrapping_add(y), w);
        }
        if self.cval(b) == Some(0) {
            return a;
        }
        if self.seg_disjoint(a, b) {
            return self.bit_or_disjoint(a, b);
        }
        if let Some(t) = self.add_fields(a, b) {
            return t;
        }
        let (a, b) = if !self.is_const(b) && a > b { (b, a) } else { (a, b) };
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        match ah.checked_add(bh) {
            Some(h) if h <= mask(w) => {
                let t = self.mk(Op::Add, a, b, NIL, w, al + bl, h, true);
                self.exact.insert(t);
                t
            }
            _ => self.mk(Op::Add, a, b, NIL, w, 0, mask(w), false),
        }
    }
    /// a sum of packed fields between which no carry can pass, as the sums of the fields
    fn add_fields(&mut self, a: T, b: T) -> Option<T> {
        if !matches!(self.node(a), Node::Bits(_)) || !matches!(self.node(b), Node::Bits(_)) {
            return None;
        }
        let w = self.w(a);
        let (ma, mb) = (self.maybe_bits(a), self.maybe_bits(b));
        let mut at = vec![0u16];
        let mut from = 0u16;
        for p in 1..w {
            let f = |m: u128| (m >> from) & mask(p - from);
            let both = f(ma) != 0 && f(mb) != 0;
            let rest = (ma >> p) & (mb >> p) != 0;
            // the field ends where the sum of its largest values cannot carry, and the next one starts
            if both && rest && f(ma) + f(mb) <= mask(p - from) && ((ma | mb) >> p) & 1 == 1 {
                at.push(p);
                from = p;
            }
        }
        if at.len() < 2 {
            return None;
        }
        at.push(w);
        let mut segs = vec![];
        for k in at.windows(2) {
            let n = k[1] - k[0];
            let (x, y) = (self.bits(&[(a, k[0], n)], w), self.bits(&[(b, k[0], n)], w));
            let s = self.add(x, y);
            self.push_slice(&mut segs, s, 0, n);
        }
        Some(self.from_segs(segs, w))
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(x.wrapping_sub(y), w);
        }
        if self.cval(b) == Some(0) {
            return a;
        }
        if a == b {
            return self.konst(0, w);
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if al >= bh {
            let t = self.mk(Op::Sub, a, b, NIL, w, al - bh, ah - bl, false);
            self.exact.insert(t);
            t
        } else if let Some((lo, hi)) = self.remainder(a, b).or_else(|| self.difference(a, b)) {
            let t = self.mk(Op::Sub, a, b, NIL, w, lo, hi.min(ah), false);
            self.exact.insert(t);
            t
        } else {
            self.mk(Op::Sub, a, b, NIL, w, 0, mask(w), false)
        }
    }
    /// the term whose value this is, ignoring zero extension
    fn unext(&self, mut t: T) -> T {
        while let Node::Bits(s) = self.node(t) {
            match s[0] {
                Seg::E(x, 0, w) if w >= nbits(self.d[x as usize].hi) && s[1..].iter().all(|s| matches!(s, Seg::K(0, _))) => t = x,
                _ => break,
            }
        }
        t
    }
    /// a value as an integer polynomial in values it was computed from without wrapping
    fn zpoly(&self, t: T, depth: u32) -> Option<Vec<(Vec<T>, i128)>> {
        let t = self.unext(t);
        let r = match *self.node(t) {
            Node::Const(c) => return Some(if c == 0 { vec![] } else { vec![(vec![], i128::try_from(c).ok()?)] }),
            Node::Op(op @ (Op::Add | Op::Sub | Op::Mul), [a, b, _]) if depth > 0 && self.exact.contains(&t) => {
                let (x, y) = (self.zpoly(a, depth - 1)?, self.zpoly(b, depth - 1)?);
                let mut r: Vec<(Vec<T>, i128)> = vec![];
                let mut put = |m: Vec<T>, c: i128| match r.iter_mut().find(|e| e.0 == m) {
                    Some(e) => {
                        e.1 = e.1.checked_add(c)?;
                        Some(())
                    }
                    None => {
                        r.push((m, c));
                        Some(())
                    }
                };
                if op == Op::Mul {
                    for (m, c) in &x {
                        for (n, d) in &y {
                            let mut k = [&m[..], &n[..]].concat();
                            k.sort();
                            put(k, c.checked_mul(*d)?)?;
                        }
                    }
                } else {
                    for (m, c) in x {
                        put(m, c)?;
                    }
                    for (m, c) in y {
                        put(m, if op == Op::Sub { -c } else { c })?;
                    }
                }
                r.retain(|e| e.1 != 0);
                r
            }
            _ => vec![(vec![t], 1)],
        };
        (r.len() <= 32).then_some(r)
    }
    /// bounds of a - b from their integer polynomials, if those show that it is not negative
    fn difference(&mut self, a: T, b: T) -> Option<(u128, u128)> {
        if self.is_const(b) || !self.exact.contains(&self.unext(a)) {
            return None;
        }
        let (x, y) = (self.zpoly(a, 6)?, self.zpoly(b, 6)?);
        let mut r = x;
        for (m, c) in y {
            match r.iter_mut().find(|e| e.0 == m) {
                Some(e) => e.1 = e.1.checked_sub(c)?,
                None => r.push((m, -c)),
            }
        }
        let (mut lo, mut hi) = (0i128, 0i128);
        for (m, c) in r {
            let (mut l, mut h) = (1i128, 1i128);
            for t in m {
                let (tl, th) = self.range(t);
                l = l.checked_mul(i128::try_from(tl).ok()?)?;
                h = h.checked_mul(i128::try_from(th).ok()?)?;
            }
            let (u, v) = (c.checked_mul(l)?, c.checked_mul(h)?);
            lo = lo.checked_add(u.min(v))?;
            hi = hi.checked_add(u.max(v))?;
        }
        (lo >= 0).then_some((lo as u128, hi as u128))
    }
    /// Bounds of x - d*floor(x*m / 2^s), the estimate of x mod d by a multiplication and a shift:
    /// the value is x*(2^s - d*m)/2^s + d*f for a fraction f in [0, 1).
    fn remainder(&mut self, a: T, b: T) -> Option<(u128, u128)> {
        let (x, b) = (self.unext(a), self.unext(b));
        let mul = |st: &Self, t: T| match *st.node(t) {
            Node::Op(Op::Mul, [y, k, _]) if st.exact.contains(&t) => Some((y, st.cval(k)?)),
            _ => None,
        };
        let (y, d) = mul(self, b)?;
        let y = self.unext(y);
        let (p, s) = match self.node(y) {
            Node::Bits(g) => match g[0] {
                Seg::E(p, s, w) if s + w >= nbits(self.d[p as usize].hi) && g[1..].iter().all(|g| matches!(g, Seg::K(0, _))) => (p, s),
                _ => return None,
            },
            _ => return None,
        };
        let p = self.unext(p);
        let (z, m) = mul(self, p)?;
        if self.unext(z) != x || s > 60 || d >= 1 << 40 || m >= 1 << 60 {
            return None;
        }
        let (lo, hi) = self.range(a);
        if hi >= 1 << 48 {
            return None;
        }
        let two = 1i128 << s;
        let n = two - (d * m) as i128;
        let (u, v) = ((lo as i128).checked_mul(n)?, (hi as i128).checked_mul(n)?);
        let min = -(-u.min(v)).div_euclid(two);
        let max = (u.max(v) + d as i128 * (two - 1)).div_euclid(two);
        if min < 0 || max < min || max as u128 > hi {
            return None;
        }
        Some((min as u128, max as u128))
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.is_const(a) { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(x.wrapping_mul(y), w);
        }
        if let Some(y) = self.cval(b) {
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.konst(y.trailing_zeros() as u128, w);
                return self.shl(a, k);
            }
        }
        let (a, b) = if !self.is_const(b) && a > b { (b, a) } else { (a, b) };
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        match ah.checked_mul(bh) {
            Some(h) if h <= mask(w) => {
                let t = self.mk(Op::Mul, a, b, NIL, w, al * bl, h, true);
                self.exact.insert(t);
                t
            }
            _ => self.mk(Op::Mul, a, b, NIL, w, 0, mask(w), false),
        }
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                return self.konst(x / y, w);
            }
        }
        if let Some(y) = self.cval(b) {
            if y.is_power_of_two() {
                let k = self.konst(y.trailing_zeros() as u128, w);
                return self.shr(a, k);
            }
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        let (lo, hi) = if bl == 0 { (0, ah) } else { (al / bh, ah / bl) };
        self.mk(Op::UDiv, a, b, NIL, w, lo, hi, true)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                return self.konst(x % y, w);
            }
        }
        let (_al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl {
            return a;
        }
        if let Some(y) = self.cval(b) {
            if y.is_power_of_two() {
                let n = y.trailing_zeros() as u16;
                let s = self.slice(a, 0, n);
                return self.zext(s, w);
            }
        }
        let hi = if bl == 0 { ah } else { ah.min(bh - 1) };
        self.mk(Op::URem, a, b, NIL, w, 0, hi, false)
    }
    pub fn sdivrem(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        let half = 1u128 << (w - 1);
        if self.hi(a) < half && self.hi(b) < half {
            return if op == Op::SDiv { self.udiv(a, b) } else { self.urem(a, b) };
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let (x, y) = (sext_val(x, w), sext_val(y, w));
            if y != 0 {
                let r = if op == Op::SDiv { x.wrapping_div(y) } else { x.wrapping_rem(y) };
                return self.konst(r as u128, w);
            }
        }
        self.mk(op, a, b, NIL, w, 0, mask(w), false)
    }
    pub fn shl(&mut self, a: T, k: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(k) {
            let k = k as u16 % w;
            if k == 0 {
                return a;
            }
            let mut segs = vec![Seg::K(0, k)];
            self.push_slice(&mut segs, a, 0, w - k);
            return self.from_segs(segs, w);
        }
        self.mk(Op::Shl, a, k, NIL, w, 0, mask(w), false)
    }
    pub fn shr(&mut self, a: T, k: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(k) {
            let k = k as u16 % w;
            if k == 0 {
                return a;
            }
            let mut segs = vec![];
            self.push_slice(&mut segs, a, k, w - k);
            self.push_seg(&mut segs, Seg::K(0, k));
            return self.from_segs(segs, w);
        }
        let h = self.hi(a);
        self.mk(Op::Shr, a, k, NIL, w, 0, h, false)
    }
    pub fn sar(&mut self, a: T, k: T) -> T {
        let w = self.w(a);
        if self.hi(a) < 1u128 << (w - 1) {
            return self.shr(a, k);
        }
        if let (Some(x), Some(k)) = (self.cval(a), self.cval(k)) {
            return self.konst((sext_val(x, w) >> (k as u16 % w)) as u128, w);
        }
        self.mk(Op::Sar, a, k, NIL, w, 0, mask(w), false)
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let aw = self.w(a);
        if w <= aw {
            return self.slice(a, 0, w);
        }
        if self.hi(a) < 1u128 << (aw - 1) {
            return self.zext(a, w);
        }
        if let Some(x) = self.cval(a) {
            return self.konst(sext_val(x, aw) as u128, w);
        }
        self.mk(Op::Sext, a, NIL, NIL, w, 0, mask(w), false)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(x & y, w);
        }
        let (a, b) = Self::comm(a, b, ca.is_some());
        if a == b {
            return a;
        }
        if let Some(m) = self.cval(b) {
            // slices of a
            if m == 0 {
                return b;
            }
            if m == mask(w) {
                return a;
            }
            let mut segs = vec![];
            let mut pos = 0u16;
            while pos < w {
                let bit = (m >> pos) & 1;
                let mut n = 1;
                while pos + n < w && (m >> (pos + n)) & 1 == bit {
                    n += 1;
                }
                if bit == 1 {
                    self.push_slice(&mut segs, a, pos, n);
                } else {
                    self.push_seg(&mut segs, Seg::K(0, n));
                }
                pos += n;
            }
            return self.from_segs(segs, w);
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        let ma = self.maybe_bits(a) & self.maybe_bits(b);
        if ma == 0 {
            return self.konst(0, w);
        }
        if let Some(t) = self.lanes(Op::And, a, b) {
            return t;
        }
        let h = self.hi(a).min(self.hi(b)).min(ma);
        self.mk(Op::And, a, b, NIL, w, 0, h, false)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(x | y, w);
        }
        let (a, b) = Self::comm(a, b, ca.is_some());
        if a == b || self.cval(b) == Some(0) {
            return a;
        }
        if self.cval(b) == Some(mask(w)) {
            return b;
        }
        if self.seg_disjoint(a, b) {
            return self.bit_or_disjoint(a, b);
        }
        if let Some(t) = self.lanes(Op::Or, a, b) {
            return t;
        }
        let (a, b) = if !self.is_const(b) && a > b { (b, a) } else { (a, b) };
        let m = self.maybe_bits(a) | self.maybe_bits(b);
        let l = self.range(a).0.max(self.range(b).0);
        self.mk(Op::Or, a, b, NIL, w, l, m, false)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(x ^ y, w);
        }
        let (a, b) = Self::comm(a, b, ca.is_some());
        if a == b {
            return self.konst(0, w);
        }
        if self.cval(b) == Some(0) {
            return a;
        }
        if self.seg_disjoint(a, b) {
            return self.bit_or_disjoint(a, b);
        }
        // (x ^ y) ^ y = x
        for (p, q) in [(a, b), (b, a)] {
            if let Node::Op(Op::Xor, [x, y, _]) = *self.node(p) {
                if x == q {
                    return y;
                }
                if y == q {
                    return x;
                }
                if self.is_const(y) && self.is_const(q) {
                    let k = self.cval(y).unwrap() ^ self.cval(q).unwrap();
                    let k = self.konst(k, w);
                    return self.xor(x, k);
                }
            }
        }
        if let Some(t) = self.lanes(Op::Xor, a, b) {
            return t;
        }
        let (a, b) = if !self.is_const(b) && a > b { (b, a) } else { (a, b) };
        let m = self.maybe_bits(a) | self.maybe_bits(b);
        self.mk(Op::Xor, a, b, NIL, w, 0, m, false)
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        let m = self.konst(mask(w), w);
        self.xor(a, m)
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        let z = self.konst(0, w);
        self.sub(z, a)
    }
    pub fn boolean(&mut self, b: bool) -> T {
        self.konst(b as u128, 8)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.boolean(true);
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.boolean(x == y);
        }
        let (a, b) = if self.is_const(a) { (b, a) } else { (a, b) };
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl || bh < al {
            return self.boolean(false);
        }
        // bool == 1 / == 0
        if ah <= 1 {
            if let Some(k) = self.cval(b) {
                if k == 1 {
                    return self.slice_bool(a);
                }
                if k == 0 {
                    let a = self.slice_bool(a);
                    return self.bnot(a);
                }
            }
        }
        // a ^ y == a exactly when y == 0
        for (p, q) in [(a, b), (b, a)] {
            if let Node::Op(Op::Xor, [x, y, _]) = *self.node(p) {
                if x == q || y == q {
                    let r = if x == q { y } else { x };
                    let z = self.konst(0, self.w(r));
                    return self.eq(r, z);
                }
            }
        }
        // known-bit conflict
        if let Some(k) = self.cval(b) {
            let m = self.maybe_bits(a);
            if k & !m != 0 {
                return self.boolean(false);
            }
            if let Node::Bits(s) = self.node(a) {
                let mut pos = 0;
                for s in s.iter() {
                    if let Seg::K(v, w) = s {
                        if (k >> pos) & mask(*w) != *v {
                            return self.boolean(false);
                        }
                    }
                    pos += s.w();
                }
            }
        }
        if matches!(self.node(a), Node::Bits(_)) || matches!(self.node(b), Node::Bits(_)) {
            let (ma, mb) = (self.maybe_bits(a), self.maybe_bits(b));
            if self.sure_bits(a) & !mb != 0 || self.sure_bits(b) & !ma != 0 {
                return self.boolean(false);
            }
        }
        let (a, b) = if !self.is_const(b) && a > b { (b, a) } else { (a, b) };
        self.mk(Op::Eq, a, b, NIL, 8, 0, 1, false)
    }
    fn slice_bool(&mut self, a: T) -> T {
        self.slice(a, 0, 8)
    }
    pub fn bnot(&mut self, a: T) -> T {
        let one = self.konst(1, 8);
        // structural double negation
        if let Node::Op(Op::Xor, [x, y, _]) = *self.node(a) {
            if y == one {
                return x;
            }
        }
        self.xor(a, one)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.boolean(false);
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl {
            return self.boolean(true);
        }
        if al >= bh || self.remainder(a, b).is_some() || self.difference(a, b).is_some() {
            return self.boolean(false);
        }
        self.mk(Op::Ult, a, b, NIL, 8, 0, 1, false)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let t = self.ult(b, a);
        self.bnot(t)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let half = 1u128 << (w - 1);
        if self.hi(a) < half && self.hi(b) < half {
            return self.ult(a, b);
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.boolean(sext_val(x, w) < sext_val(y, w));
        }
        self.mk(Op::Slt, a, b, NIL, 8, 0, 1, false)
    }
    pub fn un(&mut self, op: Op, a: T, w: u16) -> T {
        if let Some(x) = self.cval(a) {
            let aw = self.w(a);
            let v = eval_op(op, x, 0, 0, aw, 0);
            return self.konst(v, w);
        }
        let aw = self.w(a) as u128;
        self.mk(op, a, NIL, NIL, w, 0, aw, false)
    }
    pub fn ovf(&mut self, op: Op, a: T, b: T) -> T {
        // signed / multiplication overflow flags
        let w = self.w(a);
        let (ah, bh) = (self.hi(a), self.hi(b));
        let half = if w == 128 { 1u128 << 127 } else { 1u128 << (w - 1) };
        match op {
            Op::MulOvf => {
                if let Some(h) = ah.checked_mul(bh) {
                    if h <= mask(w) {
                        return self.boolean(false);
                    }
                }
            }
            Op::SAddOvf => {
                if ah < half && bh < half && ah + bh < half {
                    return self.boolean(false);
                }
            }
            Op::SSubOvf => {
                if ah < half && bh < half {
                    return self.boolean(false);
                }
            }
            Op::SMulOvf => {
                if let Some(h) = ah.checked_mul(bh) {
                    if h < half {
                        return self.boolean(false);
                    }
                }
            }
            _ => unreachable!(),
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.boolean(eval_op(op, x, y, 0, w, w) != 0);
        }
        self.mk(op, a, b, NIL, 8, 0, 1, false)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if let Some(k) = self.cval(c) {
            return if k != 0 { a } else { b };
        }
        if w == 8 && self.cval(a) == Some(1) && self.cval(b) == Some(0) {
            return c;
        }
        if w == 8 && self.cval(a) == Some(0) && self.cval(b) == Some(1) {
            return self.bnot(c);
        }
        // normalise negated condition
        if let Node::Op(Op::Xor, [x, y, _]) = *self.node(c) {
            if self.cval(y) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        self.mk(Op::Ite, c, a, b, w, al.min(bl), ah.max(bh), false)
    }

    pub fn children(&self, t: T, out: &mut Vec<T>) {
        match self.node(t) {
            Node::Const(_) | Node::Sym(_) | Node::Field(_) => {}
            Node::Op(_, c) => out.extend(c.iter().copied().filter(|&x| x != NIL)),
            Node::Bits(s) => {
                for s in s.iter() {
                    if let Seg::E(t, _, _) = s {
                        out.push(*t)
                    }
                }
            }
            Node::App(_, a) => out.extend(a.iter().copied()),
            Node::Elem(a, _) => out.push(*a),
            Node::Tab(_, i) => out.push(*i),
        }
    }
    pub fn is_leaf(&self, t: T) -> bool {
        matches!(self.node(t), Node::Sym(_) | Node::Field(_) | Node::Elem(..) | Node::App(..) | Node::Const(_))
    }

    /// Cuts of `t`: frontiers {v1..vn} (n<=maxn) such that t is a function of the v's and
    /// the product of their range sizes is within the limit. In order of distance from t.
    pub fn cuts(&mut self, t: T, maxn: usize, limit: u128) -> Vec<(u128, Vec<T>)> {
        use std::collections::BTreeSet;
        let mut fr: BTreeSet<T> = BTreeSet::new();
        let mut res = vec![];
        if self.is_leaf(t) {
            return res;
        }
        fr.insert(t);
        let mut pops = 0;
        let mut ch = vec![];
        loop {
            let Some(&m) = fr.iter().next_back() else { break };
            // expand the max id unless leaf
            if self.is_leaf(m) {
                // expand the largest non-leaf instead
                let Some(&m2) = fr.iter().rev().find(|&&x| !self.is_leaf(x)) else { break };
                // only sound as a cut if ids above m2 in the frontier are leaves: they stay in the frontier
                fr.remove(&m2);
                ch.clear();
                self.children(m2, &mut ch);
            } else {
                fr.remove(&m);
                ch.clear();
                self.children(m, &mut ch);
            }
            for &c in &ch {
                if !self.is_const(c) {
                    fr.insert(c);
                }
            }
            pops += 1;
            if fr.is_empty() {
                res.push((1, vec![]));
                break;
            }
            if fr.len() <= maxn {
                let mut p: u128 = 1;
                for &v in &fr {
                    let d = &self.d[v as usize];
                    let n = (d.hi - d.lo).saturating_add(1);
                    p = p.saturating_mul(n);
                }
                if p <= limit {
                    res.push((p, fr.iter().copied().collect()));
                }
            }
            if pops > 300 || fr.len() > 24 {
                break;
            }
        }
        res
    }

    pub fn program(&self, t: T, cut: &[T]) -> Prog {
        // topological list of the region between cut and t
        let mut order: Vec<T> = vec![];
        let mut seen: HashMap<T, u32> = HashMap::new();
        let mut consts = vec![];
        for (i, &c) in cut.iter().enumerate() {
            seen.insert(c, i as u32);
        }
        fn go(s: &Store, t: T, seen: &mut HashMap<T, u32>, order: &mut Vec<T>) {
            if seen.contains_key(&t) {
                return;
            }
            let mut ch = vec![];
            s.children(t, &mut ch);
            for c in ch {
                go(s, c, seen, order);
            }
            seen.insert(t, u32::MAX);
            order.push(t);
        }
        go(self, t, &mut seen, &mut order);
        let mut ins = vec![];
        let mut n = cut.len() as u32;
        for &x in &order {
            seen.insert(x, n);
            n += 1;
        }
        for &x in &order {
            let w = self.w(x);
            let i = match self.node(x) {
                Node::Const(c) => {
                    consts.push(*c);
                    Ins::K(*c)
                }
                Node::Op(op, c) => {
                    let g = |y: T| if y == NIL { 0 } else { seen[&y] };
                    Ins::Op(*op, g(c[0]), g(c[1]), g(c[2]), self.w(c[0]), w)
                }
                Node::Bits(s) => Ins::Bits(
                    s.iter()
                        .map(|s| match s {
                            Seg::K(v, w) => (u32::MAX, *v, *w),
                            Seg::E(t, lo, w) => (seen[t], *lo as u128, *w),
                        })
                        .collect(),
                ),
                Node::Tab(id, i) => Ins::Tab(self.tabs[*id as usize].clone(), seen[i]),
                n => panic!("program: free leaf {n:?}"),
            };
            ins.push(i);
        }
        Prog { nin: cut.len(), ins }
    }

    fn shape_key(&self, p: &Prog, cut: &[T], kind: u64) -> Vec<u64> {
        let mut k = vec![kind];
        for &c in cut {
            let d = &self.d[c as usize];
            k.push(d.w as u64);
            k.push(d.lo as u64);
            k.push((d.lo >> 64) as u64);
            k.push(d.hi as u64);
            k.push((d.hi >> 64) as u64);
        }
        for i in &p.ins {
            match i {
                Ins::K(c) => k.extend([1, *c as u64, (*c >> 64) as u64]),
                Ins::Op(o, a, b, c, aw, w) => {
                    k.extend([2 + ((*o as u64) << 8), *a as u64 | (*b as u64) << 32, *c as u64, *aw as u64 | (*w as u64) << 32])
                }
                Ins::Bits(s) => {
                    k.push(3 | (s.len() as u64) << 8);
                    for (a, b, c) in s.iter() {
                        k.extend([*a as u64 | (*c as u64) << 32, *b as u64, (*b >> 64) as u64]);
                    }
                }
                Ins::Tab(t, a) => k.extend([4, std::rc::Rc::as_ptr(t) as u64, *a as u64]),
            }
        }
        k
    }

    pub fn probed(&mut self, n: u64) {
        self.stat_probe_evals += n;
        EVALS.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
    }
    /// a program whose every value needs a large enumeration is given up on
    pub fn probe_limit(&self) -> u128 {
        if EVALS.load(std::sync::atomic::Ordering::Relaxed) < PROBE_BUDGET {
            PROBE_LIMIT
        } else {
            1 << 16
        }
    }
    /// exact range of t over its best enumerable cut
    pub fn probe(&mut self, t: T) -> Option<Probe> {
        let cuts = self.cuts(t, 3, self.probe_limit());
        // smallest; among equals the nearest. Multi-variable cuts only up to 2^18.
        let best = cuts.iter().filter(|c| c.1.len() <= 1 || c.0 <= 1 << 18).min_by_key(|c| c.0)?.clone();
        Some(self.probe_on(t, &best.1))
    }
    pub fn probe_on(&mut self, t: T, cut: &[T]) -> Probe {
        let prog = self.program(t, cut);
        let key = self.shape_key(&prog, cut, 0);
        if let Some(p) = SHAPE.with_borrow(|s| s.get(&key).copied()) {
            return p;
        }
        let ranges: Vec<(u128, u128)> = cut.iter().map(|&c| (self.d[c as usize].lo, self.d[c as usize].hi)).collect();
        // once both ends of the known interval have been met there is nothing left to learn
        let (lo, hi) = (self.d[t as usize].lo, self.d[t as usize].hi);
        let evals = std::sync::atomic::AtomicU64::new(0);
        let r = prog.fold(
            &ranges,
            || (u128::MAX, 0u128, Tally(&evals, 0)),
            |acc, _, v| {
                acc.0 = acc.0.min(v);
                acc.1 = acc.1.max(v);
                acc.2 .1 += 1;
                acc.0 > lo || acc.1 < hi
            },
            |a, b| (a.0.min(b.0), a.1.max(b.1), a.2),
        );
        let r = { let (a, b, _) = r; (a, b) };
        self.stat_probe += 1;
        self.probed(evals.load(std::sync::atomic::Ordering::Relaxed));
        let p = Probe { lo: r.0, hi: r.1 };
        SHAPE.with_borrow_mut(|s| s.insert(key, p));
        p
    }
    pub fn shape_cache_get(&self, p: &Prog, cut: &[T], kind: u64) -> (Vec<u64>, Option<Probe>) {
        let k = self.shape_key(p, cut, kind);
        let r = SHAPE.with_borrow(|s| s.get(&k).copied());
        (k, r)
    }
    pub fn shape_cache_put(&mut self, k: Vec<u64>, p: Probe) {
        SHAPE.with_borrow_mut(|s| s.insert(k, p));
    }

    pub fn show(&self, t: T, depth: usize) -> String {
        let d = &self.d[t as usize];
        match &d.node {
            Node::Const(c) => format!("{c}"),
            Node::Sym(i) => self.syms[*i as usize].name.clone(),
            _ if depth == 0 => format!("…#{t}"),
            Node::Op(op, c) => {
                let v: Vec<String> =
                    c.iter().filter(|&&x| x != NIL).map(|&x| self.show(x, depth - 1)).collect();
                format!("{op:?}{}({})", d.w, v.join(","))
            }
            Node::Bits(s) => {
                let v: Vec<String> = s
                    .iter()
                    .map(|s| match s {
                        Seg::K(v, w) => format!("{v}:{w}"),
                        Seg::E(t, lo, w) => format!("{}[{}..{}]", self.show(*t, depth - 1), lo, lo + w),
                    })
                    .collect();
                format!("Bits{}<{}>", d.w, v.join("|"))
            }
            Node::App(f, a) => {
                let v: Vec<String> = a.iter().take(4).map(|&x| self.show(x, depth - 1)).collect();
                format!("{}({}{} /*{}*/)", self.fnames[*f as usize], v.join(","), if a.len() > 4 { ",…" } else { "" }, a.len())
            }
            Node::Elem(a, i) => format!("{}[{}]", self.show(*a, depth), i),
            Node::Field(f) => self.forms.show(self, *f, depth - 1),
            Node::Tab(id, i) => format!("tab{}[{}]", id, self.show(*i, depth - 1)),
        }
    }
}

pub enum Ins {
    K(u128),
    Op(Op, u32, u32, u32, u16, u16),
    Bits(Box<[(u32, u128, u16)]>),
    Tab(std::rc::Rc<Vec<u128>>, u32),
}
pub struct Prog {
    pub nin: usize,
    pub ins: Vec<Ins>,
}
/// counts evaluations into a shared total when dropped
struct Tally<'a>(&'a std::sync::atomic::AtomicU64, u64);
impl Drop for Tally<'_> {
    fn drop(&mut self) {
        self.0.fetch_add(self.1, std::sync::atomic::Ordering::Relaxed);
    }
}
// Tables are only read while a probe runs on several threads.
struct SyncProg<'a>(&'a Prog);
unsafe impl Sync for SyncProg<'_> {}
unsafe impl Send for SyncProg<'_> {}

#[inline]
pub fn eval_op(op: Op, a: u128, b: u128, c: u128, aw: u16, w: u16) -> u128 {
    match op {
        Op::Add => a.wrapping_add(b) & mask(w),
        Op::Sub => a.wrapping_sub(b) & mask(w),
        Op::Mul => a.wrapping_mul(b) & mask(w),
        Op::UDiv => a.checked_div(b).unwrap_or(0),
        Op::URem => a.checked_rem(b).unwrap_or(0),
        Op::SDiv => sext_val(a, w).checked_div(sext_val(b, w)).unwrap_or(0) as u128 & mask(w),
        Op::SRem => sext_val(a, w).checked_rem(sext_val(b, w)).unwrap_or(0) as u128 & mask(w),
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => (a << (b as u32 % w as u32)) & mask(w),
        Op::Shr => a >> (b as u32 % w as u32),
        Op::Sar => (sext_val(a, w) >> (b as u32 % w as u32)) as u128 & mask(w),
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext_val(a, aw) < sext_val(b, aw)) as u128,
        Op::MulOvf => match a.checked_mul(b) {
            Some(x) => (x > mask(aw)) as u128,
            None => 1,
        },
        Op::SAddOvf | Op::SSubOvf | Op::SMulOvf => {
            let (x, y) = (sext_val(a, aw), sext_val(b, aw));
            let r = match op {
                Op::SAddOvf => x.checked_add(y),
                Op::SSubOvf => x.checked_sub(y),
                _ => x.checked_mul(y),
            };
            match r {
                Some(r) => (sext_val(r as u128 & mask(aw), aw) != r) as u128,
                None => 1,
            }
        }
        Op::Sext => sext_val(a, aw) as u128 & mask(w),
        Op::Popcnt => a.count_ones() as u128,
        Op::Ctz => {
            if a == 0 {
                aw as u128
            } else {
                a.trailing_zeros() as u128
            }
        }
        Op::Clz => (aw as u128) - nbits(a) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
    }
}

impl Prog {
    pub fn run(&self, regs: &mut [u128]) -> u128 {
        let mut n = self.nin;
        if self.ins.is_empty() {
            return regs[0];
        }
        for i in &self.ins {
            let v = match i {
                Ins::K(c) => *c,
                Ins::Op(op, a, b, c, aw, w) => {
                    eval_op(*op, regs[*a as usize], regs[*b as usize], regs[*c as usize], *aw, *w)
                }
                Ins::Bits(s) => {
                    let mut r = 0u128;
                    let mut pos = 0u16;
                    for (a, b, w) in s.iter() {
                        let x = if *a == u32::MAX { *b } else { (regs[*a as usize] >> *b) & mask(*w) };
                        r |= x << pos;
                        pos += w;
                    }
                    r
                }
                Ins::Tab(t, a) => t.get(regs[*a as usize] as usize).copied().unwrap_or(0),
            };
            regs[n] = v;
            n += 1;
        }
        regs[n - 1]
    }
    /// fold over all assignments of the inputs; `f` returns false to stop early
    pub fn fold<A: Send>(
        &self,
        ranges: &[(u128, u128)],
        init: impl Fn() -> A + Sync,
        f: impl Fn(&mut A, &[u128], u128) -> bool + Sync,
        join: impl Fn(A, A) -> A,
    ) -> A {
        let nregs = (self.nin + self.ins.len()).max(1);
        let total: u128 = ranges.iter().map(|r| r.1 - r.0 + 1).product();
        let seq = |from: u128, to: u128| {
            let mut acc = init();
            let mut regs = vec![0u128; nregs];
            let mut vals = vec![0u128; ranges.len()];
            let mut i = from;
            while i < to {
                let mut x = i;
                for (k, r) in ranges.iter().enumerate() {
                    let n = r.1 - r.0 + 1;
                    vals[k] = r.0 + if ranges.len() == 1 { x } else { x % n };
                    if ranges.len() > 1 {
                        x /= n;
                    }
                }
                regs[..vals.len()].copy_from_slice(&vals);
                let v = self.run(&mut regs);
                if !f(&mut acc, &vals, v) {
                    break;
                }
                i += 1;
            }
            acc
        };
        if total < 1 << 15 {
            return seq(0, total);
        }
        let nt = 8u128;
        let sp = SyncProg(self);
        let initr = &init;
        let fr = &f;
        let parts: Vec<A> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..nt)
                .map(|k| {
                    let sp = &sp;
                    s.spawn(move || {
                        let sp: &SyncProg = sp;
                        let p = sp.0;
                        let mut acc = initr();
                        let mut regs = vec![0u128; nregs];
                        let mut vals = vec![0u128; ranges.len()];
                        let mut i = total * k / nt;
                        let to = total * (k + 1) / nt;
                        while i < to {
                            let mut x = i;
                            for (k, r) in ranges.iter().enumerate() {
                                let n = r.1 - r.0 + 1;
                                vals[k] = r.0 + if ranges.len() == 1 { x } else { x % n };
                                if ranges.len() > 1 {
                                    x /= n;
                                }
                            }
                            regs[..vals.len()].copy_from_slice(&vals);
                            let v = p.run(&mut regs);
                            if !fr(&mut acc, &vals, v) {
                                break;
                            }
                            i += 1;
                        }
                        acc
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        parts.into_iter().reduce(join).unwrap()
    }
}
