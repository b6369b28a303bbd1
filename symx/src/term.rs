//! Hash-consed bit-vector terms (width 1..=128) with a canonicalising simplifier.
use crate::ir::{mask, sext};
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOp {
    Add,
    Mul,
    Div,
    Rem,
    Sqrt,
    Fma,
    SiToFp,
    UiToFp,
    FpToSiSat,
    FpToUiSat,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Const(u128),
    Var(u32),
    Extract(T, u32),
    /// least-significant part first
    Cat(Box<[T]>),
    Not(T),
    And(T, T),
    Or(T, T),
    Xor(T, T),
    Add(T, T),
    Sub(T, T),
    Mul(T, T),
    UDiv(T, T),
    URem(T, T),
    SDiv(T, T),
    SRem(T, T),
    Shl(T, T),
    LShr(T, T),
    AShr(T, T),
    SExt(T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Ite(T, T, T),
    Fp(FOp, Box<[T]>),
    Tab(u32, T),
}

pub struct Info {
    pub n: N,
    pub w: u32,
    pub kz: u128, // known zero bits
    pub ko: u128, // known one bits
    pub lo: u128,
    pub hi: u128,
    pub lin: bool, // contains xor/tab structure worth GF(2) normalisation
    pub fp: bool,  // contains floating point operations
}

pub struct Lin {
    pub w: u32,
    pub k: u128,
    pub cols: Vec<(T, u128)>,
}

pub struct Table {
    pub w: u32,
    pub iw: u32,
    pub vals: Rc<Vec<u128>>,
    /// affine fit: f0, basis, exceptions (index, difference)
    pub affine: Option<(u128, Vec<u128>, Vec<(u128, u128)>)>,
}

pub struct Ctx {
    pub t: Vec<Info>,
    map: HashMap<(N, u32), T, BuildH>,
    vars_memo: HashMap<T, Rc<[u32]>, BuildH>,
    canon_memo: HashMap<T, T, BuildH>,
    pub tables: Vec<Table>,
    tabmap: HashMap<(Vec<u128>, u32), u32>,
    lin_memo: HashMap<T, Option<Rc<Lin>>>,
    pub nvars: u32,
    pub tt: T,
    pub ff: T,
    /// a sample of the rewrites done by the simplifier: the operation as asked for, and the result
    pub audit: Vec<(N, u32, T)>,
    audit_n: u64,
    audit_next: u64,
    audit_rng: u64,
}

#[derive(Default, Clone, Copy)]
pub struct BuildH;
impl std::hash::BuildHasher for BuildH {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
pub struct FxH(u64);
impl FxH {
    #[inline]
    fn add(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.add(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.add(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.add(i)
    }
    fn write_usize(&mut self, i: usize) {
        self.add(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.add(i as u64);
        self.add((i >> 64) as u64)
    }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            t: vec![],
            map: HashMap::default(),
            vars_memo: HashMap::default(),
            canon_memo: HashMap::default(),
            tables: vec![],
            tabmap: HashMap::new(),
            lin_memo: HashMap::new(),
            nvars: 0,
            tt: 0,
            ff: 0,
            audit: vec![],
            audit_n: 0,
            audit_next: 1,
            audit_rng: 0x9E3779B97F4A7C15,
        };
        // index 0 is reserved so that 0 can mean "none"
        c.t.push(Info { n: N::Const(0), w: 0, kz: 0, ko: 0, lo: 0, hi: 0, lin: false, fp: false });
        c.ff = c.konst(0, 1);
        c.tt = c.konst(1, 1);
        c
    }
    #[inline]
    pub fn w(&self, t: T) -> u32 {
        self.t[t as usize].w
    }
    #[inline]
    pub fn n(&self, t: T) -> &N {
        &self.t[t as usize].n
    }
    #[inline]
    pub fn cv(&self, t: T) -> Option<u128> {
        match self.t[t as usize].n {
            N::Const(v) => Some(v),
            _ => None,
        }
    }
    #[inline]
    fn audit_due(&mut self) -> bool {
        self.audit_n += 1;
        self.audit_n >= self.audit_next
    }
    #[cold]
    fn audit_note(&mut self, n: N, w: u32, r: T) {
        let mut symbolic = false;
        let mut fp = self.t[r as usize].fp;
        {
            let mut arg = |x: &T| {
                symbolic |= self.cv(*x).is_none();
                fp |= self.t[*x as usize].fp;
            };
            match &n {
                N::Cat(ps) => ps.iter().for_each(&mut arg),
                N::Extract(a, _) | N::Not(a) | N::SExt(a) => arg(a),
                N::Ite(a, b, c) => {
                    arg(a);
                    arg(b);
                    arg(c)
                }
                N::And(a, b) | N::Or(a, b) | N::Xor(a, b) | N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b) | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => {
                    arg(a);
                    arg(b)
                }
                _ => return,
            }
        }
        // constant folding and plain construction are of no interest
        if !symbolic || fp || self.w(r) != w || *self.n(r) == n {
            return;
        }
        self.audit.push((n, w, r));
        // ever rarer, so that the sample is spread over the whole run
        self.audit_rng = self.audit_rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let gap = 8u64 << (self.audit.len() / 8).min(40);
        self.audit_next = self.audit_n + 1 + (self.audit_rng >> 33) % gap;
    }
    /// the operation exactly as asked for, not simplified and not shared
    pub fn unsimplified(&mut self, n: N, w: u32) -> T {
        let (lin, fp) = self.flags(&n);
        let id = self.t.len() as T;
        self.t.push(Info { n, w, kz: 0, ko: 0, lo: 0, hi: mask(w), lin, fp });
        id
    }

    pub fn konst(&mut self, v: u128, w: u32) -> T {
        self.raw(N::Const(v & mask(w)), w)
    }
    pub fn var(&mut self) -> (u32, T) {
        let id = self.nvars;
        self.nvars += 1;
        (id, self.raw(N::Var(id), 8))
    }
    pub fn var_by_id(&mut self, id: u32) -> T {
        if id >= self.nvars {
            self.nvars = id + 1;
        }
        self.raw(N::Var(id), 8)
    }

    fn raw(&mut self, n: N, w: u32) -> T {
        debug_assert!(w >= 1 && w <= 128, "width {} {:?}", w, n);
        let key = (n, w);
        if let Some(&t) = self.map.get(&key) {
            return t;
        }
        let (mut kz, mut ko, mut lo, mut hi) = self.analyse(&key.0, w);
        let m = mask(w);
        kz &= m;
        ko &= m;
        // reconcile
        lo = lo.max(ko);
        hi = hi.min(!kz & m);
        if hi <= m {
            let lead = if hi == 0 { w } else { w - (128 - hi.leading_zeros()) };
            if lead > 0 {
                kz |= m & !(mask(w - lead));
            }
        }
        if lo > hi {
            lo = 0;
            hi = m;
        }
        if kz | ko == m {
            if let N::Const(_) = key.0 {
            } else {
                return self.konst(ko, w);
            }
        }
        if lo == hi {
            if let N::Const(_) = key.0 {
            } else {
                return self.konst(lo, w);
            }
        }
        let (lin, fp) = self.flags(&key.0);
        let id = self.t.len() as T;
        self.t.push(Info { n: key.0.clone(), w, kz, ko, lo, hi, lin, fp });
        self.map.insert(key, id);
        id
    }

    fn flags(&self, n: &N) -> (bool, bool) {
        let f = |t: &T| (self.t[*t as usize].lin, self.t[*t as usize].fp);
        let or = |a: (bool, bool), b: (bool, bool)| (a.0 | b.0, a.1 | b.1);
        match n {
            N::Const(_) | N::Var(_) => (false, false),
            N::Extract(a, _) | N::Not(a) | N::SExt(a) => f(a),
            N::Tab(_, a) => (true, f(a).1),
            N::Cat(ps) => ps.iter().fold((false, false), |acc, p| or(acc, f(p))),
            N::Xor(a, b) => (true, f(a).1 | f(b).1),
            N::And(a, b) | N::Or(a, b) | N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b) | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => or(f(a), f(b)),
            N::Ite(a, b, c) => or(f(a), or(f(b), f(c))),
            N::Fp(_, ps) => (ps.iter().any(|p| f(p).0), true),
        }
    }

    fn analyse(&self, n: &N, w: u32) -> (u128, u128, u128, u128) {
        let m = mask(w);
        let g = |t: &T| &self.t[*t as usize];
        let full = (0, 0, 0, m);
        match n {
            N::Const(v) => (!v, *v, *v, *v),
            N::Var(_) | N::Fp(..) => full,
            N::Extract(a, lo) => {
                let i = g(a);
                let (kz, ko) = (i.kz >> lo, i.ko >> lo);
                if *lo == 0 {
                    if i.hi <= m {
                        return (kz, ko, i.lo, i.hi);
                    }
                } else if lo + w == i.w {
                    return (kz, ko, i.lo >> lo, i.hi >> lo);
                }
                (kz, ko, 0, m)
            }
            N::Cat(ps) => {
                let (mut kz, mut ko, mut sh) = (0u128, 0u128, 0);
                let (mut lo, mut hi) = (0u128, 0u128);
                for p in ps.iter() {
                    let i = g(p);
                    kz |= i.kz << sh;
                    ko |= i.ko << sh;
                    lo |= i.lo << sh;
                    hi |= i.hi << sh;
                    sh += i.w;
                }
                (kz, ko, lo, hi)
            }
            N::Not(a) => {
                let i = g(a);
                (i.ko, i.kz, !i.hi & m, !i.lo & m)
            }
            N::And(a, b) => {
                let (x, y) = (g(a), g(b));
                (x.kz | y.kz, x.ko & y.ko, 0, x.hi.min(y.hi))
            }
            N::Or(a, b) => {
                let (x, y) = (g(a), g(b));
                (x.kz & y.kz, x.ko | y.ko, x.lo.max(y.lo), m)
            }
            N::Xor(a, b) => {
                let (x, y) = (g(a), g(b));
                ((x.kz & y.kz) | (x.ko & y.ko), (x.kz & y.ko) | (x.ko & y.kz), 0, m)
            }
            N::Add(a, b) => {
                let (x, y) = (g(a), g(b));
                // low known zeros
                let tz = (!x.kz).trailing_zeros().min((!y.kz).trailing_zeros()).min(w);
                let kz = mask(tz) & if tz == 0 { 0 } else { !0 };
                if let (Some(l), Some(h)) = (x.lo.checked_add(y.lo), x.hi.checked_add(y.hi)) {
                    if h <= m {
                        return (kz, 0, l, h);
                    }
                    // both wrap exactly once
                    if w < 128 && l > m {
                        return (kz, 0, l & m, h & m);
                    }
                }
                (kz, 0, 0, m)
            }
            N::Sub(a, b) => {
                let (x, y) = (g(a), g(b));
                if x.lo >= y.hi {
                    (0, 0, x.lo - y.hi, x.hi - y.lo)
                } else {
                    full
                }
            }
            N::Mul(a, b) => {
                let (x, y) = (g(a), g(b));
                let tz = ((!x.kz).trailing_zeros().min(w) + (!y.kz).trailing_zeros().min(w)).min(w);
                let kz = if tz == 0 { 0 } else { mask(tz) };
                match (x.lo.checked_mul(y.lo), x.hi.checked_mul(y.hi)) {
                    (Some(l), Some(h)) if h <= m => (kz, 0, l, h),
                    _ => (kz, 0, 0, m),
                }
            }
            N::UDiv(a, b) => {
                let (x, y) = (g(a), g(b));
                if y.lo > 0 { (0, 0, x.lo / y.hi, x.hi / y.lo) } else { full }
            }
            N::URem(a, b) => {
                let (x, y) = (g(a), g(b));
                if y.lo > 0 { (0, 0, 0, x.hi.min(y.hi - 1)) } else { full }
            }
            N::LShr(a, _) => (0, 0, 0, g(a).hi),
            N::SExt(a) => {
                let i = g(a);
                let sw = i.w;
                let top = m & !mask(sw);
                let sb = 1u128 << (sw - 1);
                if i.kz & sb != 0 {
                    (i.kz | top, i.ko, i.lo, i.hi)
                } else if i.ko & sb != 0 {
                    (i.kz, i.ko | top, i.lo | top, i.hi | top)
                } else {
                    (i.kz & mask(sw - 1).min(mask(sw)), i.ko & (sb - 1), 0, m)
                }
            }
            N::Ite(_, a, b) => {
                let (x, y) = (g(a), g(b));
                (x.kz & y.kz, x.ko & y.ko, x.lo.min(y.lo), x.hi.max(y.hi))
            }
            N::Tab(t, _) => {
                let v = &self.tables[*t as usize].vals;
                let (mut kz, mut ko, mut lo, mut hi) = (!0u128, !0u128, !0u128, 0u128);
                for &x in v.iter() {
                    kz &= !x;
                    ko &= x;
                    lo = lo.min(x);
                    hi = hi.max(x);
                }
                (kz, ko, lo, hi)
            }
            _ => full,
        }
    }

    // ------------------------------------------------------------ structure

    pub fn extract(&mut self, t: T, lo: u32, w: u32) -> T {
        let r = self.extract_s(t, lo, w);
        if self.audit_due() {
            self.audit_note(N::Extract(t, lo), w, r);
        }
        r
    }
    fn extract_s(&mut self, t: T, lo: u32, w: u32) -> T {
        let tw = self.w(t);
        debug_assert!(lo + w <= tw, "extract {} {} of {}", lo, w, tw);
        if w == tw {
            return t;
        }
        {
            let i = &self.t[t as usize];
            let m = mask(w) << lo;
            if (i.kz | i.ko) & m == m {
                let v = i.ko >> lo;
                return self.konst(v, w);
            }
        }
        match self.n(t).clone() {
            N::Const(v) => self.konst(v >> lo, w),
            N::Extract(a, l2) => self.extract(a, lo + l2, w),
            N::Cat(ps) => {
                let mut out = vec![];
                let mut off = 0;
                for p in ps.iter() {
                    let pw = self.w(*p);
                    let (s, e) = (off.max(lo), (off + pw).min(lo + w));
                    if s < e {
                        out.push(self.extract(*p, s - off, e - s));
                    }
                    off += pw;
                }
                self.cat(out)
            }
            N::Not(a) => {
                let x = self.extract(a, lo, w);
                self.not(x)
            }
            N::And(a, b) if self.pushable(a, b) => {
                let (x, y) = (self.extract(a, lo, w), self.extract(b, lo, w));
                self.and(x, y)
            }
            N::Or(a, b) if self.pushable(a, b) => {
                let (x, y) = (self.extract(a, lo, w), self.extract(b, lo, w));
                self.or(x, y)
            }
            N::Xor(a, b) if self.pushable(a, b) => {
                let (x, y) = (self.extract(a, lo, w), self.extract(b, lo, w));
                self.xor(x, y)
            }
            N::Ite(c, a, b) => {
                let (x, y) = (self.extract(a, lo, w), self.extract(b, lo, w));
                self.ite(c, x, y)
            }
            N::Add(a, b) if lo == 0 && self.pushable(a, b) => {
                let (x, y) = (self.extract(a, 0, w), self.extract(b, 0, w));
                self.add(x, y)
            }
            N::Sub(a, b) if lo == 0 && self.pushable(a, b) => {
                let (x, y) = (self.extract(a, 0, w), self.extract(b, 0, w));
                self.sub(x, y)
            }
            N::SExt(a) => {
                let aw = self.w(a);
                if lo + w <= aw {
                    self.extract(a, lo, w)
                } else if lo < aw {
                    let x = self.extract(a, lo, aw - lo);
                    self.sext(x, w)
                } else {
                    let x = self.extract(a, aw - 1, 1);
                    self.sext(x, w)
                }
            }
            N::Tab(tab, i) => {
                let vals: Vec<u128> = self.tables[tab as usize].vals.iter().map(|v| (v >> lo) & mask(w)).collect();
                self.tab(vals, w, i)
            }
            _ => self.raw(N::Extract(t, lo), w),
        }
    }
    fn pushable(&self, a: T, b: T) -> bool {
        let f = |t: T| matches!(self.n(t), N::Const(_) | N::Cat(_) | N::SExt(_));
        f(a) || f(b)
    }

    pub fn cat(&mut self, parts: Vec<T>) -> T {
        let copy = if self.audit_due() { Some(parts.clone().into_boxed_slice()) } else { None };
        let r = self.cat_s(parts);
        if let Some(ps) = copy {
            let w = self.w(r);
            self.audit_note(N::Cat(ps), w, r);
        }
        r
    }
    fn cat_s(&mut self, parts: Vec<T>) -> T {
        let mut out: Vec<T> = Vec::with_capacity(parts.len());
        let mut stack: Vec<T> = parts;
        stack.reverse();
        while let Some(p) = stack.pop() {
            if let N::Cat(ps) = self.n(p) {
                let ps = ps.clone();
                for q in ps.iter().rev() {
                    stack.push(*q);
                }
                continue;
            }
            if let Some(&l) = out.last() {
                if let Some(mm) = self.merge(l, p) {
                    out.pop();
                    // the merged term may itself merge further
                    stack.push(mm);
                    continue;
                }
            }
            out.push(p);
        }
        if out.len() == 1 {
            return out[0];
        }
        let w = out.iter().map(|p| self.w(*p)).sum();
        self.raw(N::Cat(out.into_boxed_slice()), w)
    }

    /// merge adjacent parts (a below b) into one non-Cat term if possible
    fn merge(&mut self, a: T, b: T) -> Option<T> {
        self.merge_d(a, b, 3)
    }
    fn merge_d(&mut self, a: T, b: T, depth: u32) -> Option<T> {
        let (wa, wb) = (self.w(a), self.w(b));
        if wa + wb > 128 || depth == 0 {
            return None;
        }
        match (self.n(a).clone(), self.n(b).clone()) {
            (N::Const(x), N::Const(y)) => Some(self.konst(x | (y << wa), wa + wb)),
            (N::Extract(x, l), N::Extract(y, l2)) if x == y && l + wa == l2 => {
                if l == 0 && wa + wb == self.w(x) {
                    Some(x)
                } else {
                    // avoid re-pushing: build directly
                    Some(self.raw(N::Extract(x, l), wa + wb))
                }
            }
            (N::Not(x), N::Not(y)) => {
                let c = self.merge_d(x, y, depth)?;
                Some(self.not(c))
            }
            (N::Ite(c, x1, y1), N::Ite(c2, x2, y2)) if c == c2 => {
                let x = self.cat(vec![x1, x2]);
                let y = self.cat(vec![y1, y2]);
                Some(self.ite(c, x, y))
            }
            (N::Xor(x1, y1), N::Xor(x2, y2)) => {
                for (p, q) in [(x2, y2), (y2, x2)] {
                    if let (Some(x), Some(y)) = (self.merge_d(x1, p, depth - 1), self.merge_d(y1, q, depth - 1)) {
                        return Some(self.raw_bit(2, x, y));
                    }
                }
                None
            }
            (N::And(x1, y1), N::And(x2, y2)) => {
                for (p, q) in [(x2, y2), (y2, x2)] {
                    if let (Some(x), Some(y)) = (self.merge_d(x1, p, depth - 1), self.merge_d(y1, q, depth - 1)) {
                        return Some(self.raw_bit(0, x, y));
                    }
                }
                None
            }
            (N::Or(x1, y1), N::Or(x2, y2)) => {
                for (p, q) in [(x2, y2), (y2, x2)] {
                    if let (Some(x), Some(y)) = (self.merge_d(x1, p, depth - 1), self.merge_d(y1, q, depth - 1)) {
                        return Some(self.raw_bit(1, x, y));
                    }
                }
                None
            }
            (N::Tab(t1, i), N::Tab(t2, j)) if i == j => {
                let v: Vec<u128> = self.tables[t1 as usize].vals.iter().zip(self.tables[t2 as usize].vals.iter()).map(|(a, b)| a | (b << wa)).collect();
                Some(self.tab(v, wa + wb, i))
            }
            _ => None,
        }
    }

    pub fn zext(&mut self, t: T, w: u32) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        let z = self.konst(0, w - tw);
        self.cat(vec![t, z])
    }
    pub fn sext(&mut self, t: T, w: u32) -> T {
        let r = self.sext_s(t, w);
        if self.audit_due() {
            let w = w;
            self.audit_note(N::SExt(t), w, r);
        }
        r
    }
    fn sext_s(&mut self, t: T, w: u32) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        if let Some(v) = self.cv(t) {
            return self.konst(sext(v, tw) as u128, w);
        }
        let i = &self.t[t as usize];
        if i.kz >> (tw - 1) & 1 == 1 {
            return self.zext(t, w);
        }
        match self.n(t).clone() {
            N::SExt(a) => self.sext(a, w),
            N::Ite(c, a, b) if self.cv(a).is_some() && self.cv(b).is_some() => {
                let (x, y) = (self.sext(a, w), self.sext(b, w));
                self.ite(c, x, y)
            }
            _ => self.raw(N::SExt(t), w),
        }
    }
    pub fn not(&mut self, t: T) -> T {
        let r = self.not_s(t);
        if self.audit_due() {
            let w = self.w(t);
            self.audit_note(N::Not(t), w, r);
        }
        r
    }
    fn not_s(&mut self, t: T) -> T {
        let w = self.w(t);
        match self.n(t).clone() {
            N::Const(v) => self.konst(!v, w),
            N::Not(a) => a,
            N::Ite(c, a, b) if self.cv(a).is_some() || self.cv(b).is_some() => {
                let (x, y) = (self.not(a), self.not(b));
                self.ite(c, x, y)
            }
            N::Cat(ps) if ps.iter().any(|p| self.cv(*p).is_some()) => {
                let v = ps.iter().map(|p| self.not(*p)).collect();
                self.cat(v)
            }
            _ => self.raw(N::Not(t), w),
        }
    }
    /// an equivalent condition in which negations are at the leaves and comparisons with a constant
    /// have it on the right
    pub fn canon(&mut self, t: T) -> T {
        self.canon_n(t, false)
    }
    fn canon_n(&mut self, t: T, neg: bool) -> T {
        let key = (t << 1) | neg as T;
        if let Some(r) = self.canon_memo.get(&key) {
            return *r;
        }
        let r = match self.n(t).clone() {
            N::Not(a) => self.canon_n(a, !neg),
            N::And(a, b) | N::Or(a, b) => {
                let conj = matches!(self.n(t), N::And(..)) != neg;
                let (x, y) = (self.canon_n(a, neg), self.canon_n(b, neg));
                if conj { self.and(x, y) } else { self.or(x, y) }
            }
            N::Ult(a, b) if self.cv(a).map_or(false, |k| k != mask(self.w(a))) => {
                let w = self.w(a);
                let k = self.cv(a).unwrap() + 1;
                let k = self.konst(k, w);
                let u = self.raw(N::Ult(b, k), 1);
                if neg { u } else { self.raw(N::Not(u), 1) }
            }
            _ => {
                if neg { self.not(t) } else { t }
            }
        };
        self.canon_memo.insert(key, r);
        r
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let r = self.and_s(a, b);
        if self.audit_due() {
            let w = self.w(a);
            self.audit_note(N::And(a, b), w, r);
        }
        r
    }
    fn and_s(&mut self, a: T, b: T) -> T {
        self.bitop(0, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let r = self.or_s(a, b);
        if self.audit_due() {
            let w = self.w(a);
            self.audit_note(N::Or(a, b), w, r);
        }
        r
    }
    fn or_s(&mut self, a: T, b: T) -> T {
        self.bitop(1, a, b)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let r = self.xor_s(a, b);
        if self.audit_due() {
            let w = self.w(a);
            self.audit_note(N::Xor(a, b), w, r);
        }
        r
    }
    fn xor_s(&mut self, a: T, b: T) -> T {
        self.bitop(2, a, b)
    }
    fn raw_bit(&mut self, op: u8, a: T, b: T) -> T {
        let (a, b) = if self.cv(a).is_some() || (a > b && self.cv(b).is_none()) { (b, a) } else { (a, b) };
        let w = self.w(a);
        self.raw(
            match op {
                0 => N::And(a, b),
                1 => N::Or(a, b),
                _ => N::Xor(a, b),
            },
            w,
        )
    }
    fn bitop(&mut self, op: u8, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let m = mask(w);
        if a == b {
            return if op == 2 { self.konst(0, w) } else { a };
        }
        // effective constants from known bits
        let (ia, ib) = (&self.t[a as usize], &self.t[b as usize]);
        let (akz, ako, bkz, bko) = (ia.kz, ia.ko, ib.kz, ib.ko);
        if let (N::Const(x), N::Const(y)) = (&ia.n, &ib.n) {
            let v = match op {
                0 => x & y,
                1 => x | y,
                _ => x ^ y,
            };
            return self.konst(v, w);
        }
        // complement
        if self.n(a) == &N::Not(b) || self.n(b) == &N::Not(a) {
            return if op == 0 { self.konst(0, w) } else { self.konst(m, w) };
        }
        // whole-word shortcuts through known bits
        match op {
            0 => {
                // a & b where every bit is either b known one or a known zero
                if (bko | akz) & m == m {
                    return a;
                }
                if (ako | bkz) & m == m {
                    return b;
                }
            }
            1 => {
                if (bkz | ako) & m == m {
                    return a;
                }
                if (akz | bko) & m == m {
                    return b;
                }
            }
            _ => {
                if bkz == m {
                    return a;
                }
                if akz == m {
                    return b;
                }
                if bko == m {
                    return self.not(a);
                }
                if ako == m {
                    return self.not(b);
                }
            }
        }
        // segment-wise simplification: positions where one side is a known identity/absorbing bit
        // class per bit: 0 general, 1 -> a, 2 -> b, 3 -> zero, 4 -> one, 5 -> !a, 6 -> !b
        let cls = |i: u32| -> u8 {
            let bit = 1u128 << i;
            let (az, ao, bz, bo) = (akz & bit != 0, ako & bit != 0, bkz & bit != 0, bko & bit != 0);
            match op {
                0 => {
                    if az || bz {
                        3
                    } else if ao {
                        2
                    } else if bo {
                        1
                    } else {
                        0
                    }
                }
                1 => {
                    if ao || bo {
                        4
                    } else if az {
                        2
                    } else if bz {
                        1
                    } else {
                        0
                    }
                }
                _ => {
                    if (az && bz) || (ao && bo) {
                        3
                    } else if (az && bo) || (ao && bz) {
                        4
                    } else if az {
                        2
                    } else if bz {
                        1
                    } else if ao {
                        6
                    } else if bo {
                        5
                    } else {
                        0
                    }
                }
            }
        };
        if (akz | ako | bkz | bko) != 0 && w > 1 {
            let mut segs: Vec<(u32, u32, u8)> = vec![];
            for i in 0..w {
                let c = cls(i);
                match segs.last_mut() {
                    Some(s) if s.2 == c => s.1 += 1,
                    _ => segs.push((i, 1, c)),
                }
            }
            let limit = if op == 2 { 12 } else { 20 };
            if segs.len() <= limit && !(segs.len() == 1 && segs[0].2 == 0) {
                let mut parts = vec![];
                for (lo, n, c) in segs {
                    let p = match c {
                        1 => self.extract(a, lo, n),
                        2 => self.extract(b, lo, n),
                        3 => self.konst(0, n),
                        4 => self.konst(!0, n),
                        5 => {
                            let x = self.extract(a, lo, n);
                            self.not(x)
                        }
                        6 => {
                            let x = self.extract(b, lo, n);
                            self.not(x)
                        }
                        _ => {
                            let (x, y) = (self.extract(a, lo, n), self.extract(b, lo, n));
                            if n == w {
                                self.raw_bit(op, x, y)
                            } else {
                                self.bitop(op, x, y)
                            }
                        }
                    };
                    parts.push(p);
                }
                return self.cat(parts);
            }
        }
        // Ite with constant leaves against a constant
        if let Some(r) = self.push_ite(a, b, |c, x, y| c.bitop(op, x, y)) {
            return r;
        }
        // SExt(bit) & x -> ite(bit, x, 0)
        if w > 1 {
            for (x, y) in [(a, b), (b, a)] {
                if let N::SExt(s) = *self.n(x) {
                    if self.w(s) == 1 {
                        let z = self.konst(0, w);
                        let ones = self.konst(!0, w);
                        return match op {
                            0 => self.ite(s, y, z),
                            1 => self.ite(s, ones, y),
                            _ => {
                                let ny = self.not(y);
                                self.ite(s, ny, y)
                            }
                        };
                    }
                }
            }
        }
        if w == 1 && op < 2 {
            // absorption: a & (a & b), a & (a | b)
            for (x, y) in [(a, b), (b, a)] {
                match (op, self.n(y)) {
                    (0, N::And(p, q)) | (1, N::Or(p, q)) if *p == x || *q == x => return y,
                    (0, N::Or(p, q)) | (1, N::And(p, q)) if *p == x || *q == x => return x,
                    _ => {}
                }
            }
        }
        // xor with constants: (x ^ c1) ^ c2
        if op == 2 {
            for (x, y) in [(a, b), (b, a)] {
                if let (Some(c2), N::Xor(p, q)) = (self.cv(y), self.n(x).clone()) {
                    if let Some(c1) = self.cv(q) {
                        let k = self.konst(c1 ^ c2, w);
                        return self.xor(p, k);
                    }
                }
            }
        }
        self.raw_bit(op, a, b)
    }

    /// op(ite(c,k1,k2), k) with constants -> ite(c, op, op)
    fn push_ite(&mut self, a: T, b: T, f: impl Fn(&mut Self, T, T) -> T) -> Option<T> {
        let isc = |s: &Self, t: T| s.cv(t).is_some();
        match (self.n(a).clone(), self.n(b).clone()) {
            (N::Ite(c, x, y), N::Const(_)) if isc(self, x) && isc(self, y) => {
                let (p, q) = (f(self, x, b), f(self, y, b));
                Some(self.ite(c, p, q))
            }
            (N::Const(_), N::Ite(c, x, y)) if isc(self, x) && isc(self, y) => {
                let (p, q) = (f(self, a, x), f(self, a, y));
                Some(self.ite(c, p, q))
            }
            (N::Ite(c, x, y), N::Ite(c2, x2, y2)) if c == c2 && isc(self, x) && isc(self, y) && isc(self, x2) && isc(self, y2) => {
                let (p, q) = (f(self, x, x2), f(self, y, y2));
                Some(self.ite(c, p, q))
            }
            (N::Tab(t, i), N::Const(_)) if self.tables[t as usize].vals.len() <= 256 => {
                let vals = self.tables[t as usize].vals.clone();
                let tw = self.tables[t as usize].w;
                let mut out = Vec::with_capacity(vals.len());
                let mut w = 0;
                for v in vals.iter() {
                    let k = self.konst(*v, tw);
                    let r = f(self, k, b);
                    w = self.w(r);
                    out.push(self.cv(r)?);
                }
                Some(self.tab(out, w, i))
            }
            (N::Const(_), N::Tab(t, i)) if self.tables[t as usize].vals.len() <= 256 => {
                let vals = self.tables[t as usize].vals.clone();
                let tw = self.tables[t as usize].w;
                let mut out = Vec::with_capacity(vals.len());
                let mut w = 0;
                for v in vals.iter() {
                    let k = self.konst(*v, tw);
                    let r = f(self, a, k);
                    w = self.w(r);
                    out.push(self.cv(r)?);
                }
                Some(self.tab(out, w, i))
            }
            _ => None,
        }
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        let r = self.ite_s(c, a, b);
        if self.audit_due() {
            let w = self.w(a);
            self.audit_note(N::Ite(c, a, b), w, r);
        }
        r
    }
    fn ite_s(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.cv(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let N::Not(d) = *self.n(c) {
            return self.ite(d, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let a = match *self.n(a) {
            N::Ite(c2, x, _) if c2 == c => x,
            _ => a,
        };
        let b = match *self.n(b) {
            N::Ite(c2, _, y) if c2 == c => y,
            _ => b,
        };
        if a == b {
            return a;
        }
        // factor equal bit ranges of Cats
        if let (N::Cat(pa), N::Cat(pb)) = (self.n(a).clone(), self.n(b).clone()) {
            // common cut points
            let cuts = |s: &Self, ps: &[T]| {
                let mut o = 0;
                let mut v = vec![];
                for p in ps {
                    o += s.w(*p);
                    v.push(o);
                }
                v
            };
            let (ca, cb) = (cuts(self, &pa), cuts(self, &pb));
            let common: Vec<u32> = ca.iter().filter(|x| cb.contains(x)).copied().collect();
            let mut lo = 0;
            let mut segs = vec![];
            let mut gain = false;
            for c0 in &common {
                let (x, y) = (self.extract(a, lo, c0 - lo), self.extract(b, lo, c0 - lo));
                if x == y {
                    gain = true;
                }
                segs.push((x, y));
                lo = *c0;
            }
            if gain && segs.len() > 1 {
                let parts = segs.into_iter().map(|(x, y)| if x == y { x } else { self.ite(c, x, y) }).collect();
                return self.cat(parts);
            }
        }
        self.raw(N::Ite(c, a, b), w)
    }

    // ------------------------------------------------------------ arithmetic

    pub fn add(&mut self, a: T, b: T) -> T {
        let r = self.add_s(a, b);
        if self.audit_due() {
            let w = self.w(a);
            self.audit_note(N::Add(a, b), w, r);
        }
        r
    }
    fn add_s(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.konst(x.wrapping_add(y), w);
        }
        if self.cv(a).is_some() {
            return self.add(b, a);
        }
        if self.cv(b) == Some(0) {
            return a;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let (ia, ib) = (&self.t[a as usize], &self.t[b as usize]);
        if (ia.kz | ib.kz) & mask(w) == mask(w) {
            return self.or(a, b);
        }
        if let Some(r) = self.push_ite(a, b, |c, x, y| c.add(x, y)) {
            return r;
        }
        if let Some(y) = self.cv(b) {
            if let N::Add(p, q) = *self.n(a) {
                if let Some(x) = self.cv(q) {
                    let k = self.konst(x.wrapping_add(y), w);
                    return self.add(p, k);
                }
            }
            if let N::Sub(p, q) = *self.n(a) {
                if let Some(x) = self.cv(p) {
                    let k = self.konst(x.wrapping_add(y), w);
                    return self.sub(k, q);
                }
            }
            // low parts below the constant's lowest set bit are untouched
            if let N::Cat(ps) = self.n(a) {
                let tz = y.trailing_zeros();
                let mut bd = 0;
                for p in ps.iter() {
                    let pw = self.w(*p);
                    if bd + pw > tz {
                        break;
                    }
                    bd += pw;
                }
                if bd > 0 && bd < w {
                    let (lo, hi) = (self.extract(a, 0, bd), self.extract(a, bd, w - bd));
                    let k = self.konst(y >> bd, w - bd);
                    let s = self.add(hi, k);
                    return self.cat(vec![lo, s]);
                }
            }
        } else {
            // (p + c) + b -> (p + b) + c
            for (x, y) in [(a, b), (b, a)] {
                if let N::Add(p, q) = *self.n(x) {
                    if self.cv(q).is_some() {
                        let s = self.add(p, y);
                        return self.add(s, q);
                    }
                }
                // (p - y) + y -> p
                if let N::Sub(p, q) = *self.n(x) {
                    if q == y {
                        return p;
                    }
                }
            }
        }
        if a == b {
            let one = self.konst(1, w);
            return self.shl(a, one);
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.raw(N::Add(a, b), w)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let r = self.sub_s(a, b);
        if self.audit_due() {
            let w = self.w(a);
            self.audit_note(N::Sub(a, b), w, r);
        }
        r
    }
    fn sub_s(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        if let Some(y) = self.cv(b) {
            let k = self.konst(y.wrapping_neg(), w);
            return self.add(a, k);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(r) = self.push_ite(a, b, |c, x, y| c.sub(x, y)) {
            return r;
        }
        if let N::Add(p, q) = *self.n(a) {
            if p == b {
                return q;
            }
            if q == b {
                return p;
            }
            if self.cv(q).is_some() {
                let s = self.sub(p, b);
                return self.add(s, q);
            }
        }
        if let N::Add(p, q) = *self.n(b) {
            // a - (p + c) -> (a - p) - c
            if self.cv(q).is_some() {
                let s = self.sub(a, p);
                return self.sub(s, q);
            }
        }
        if self.cv(a) == Some(0) {
            if let N::Cat(ps) = self.n(b).clone() {
                if ps.len() == 2 && self.w(ps[0]) == 1 && self.cv(ps[1]) == Some(0) {
                    return self.sext(ps[0], w);
                }
            }
            if let N::Sub(p, q) = *self.n(b) {
                return self.sub(q, p);
            }
        }
        self.raw(N::Sub(a, b), w)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let r = self.mul_s(a, b);
        if self.audit_due() {
            let w = self.w(a);
            self.audit_note(N::Mul(a, b), w, r);
        }
        r
    }
    fn mul_s(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.konst(x.wrapping_mul(y), w);
        }
        if self.cv(a).is_some() {
            return self.mul(b, a);
        }
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.konst(y.trailing_zeros() as u128, w);
                return self.shl(a, k);
            }
        }
        if let Some(r) = self.push_ite(a, b, |c, x, y| c.mul(x, y)) {
            return r;
        }
        // bit * x
        for (x, y) in [(a, b), (b, a)] {
            if self.t[x as usize].hi <= 1 && w > 1 {
                let bit = self.extract(x, 0, 1);
                let z = self.konst(0, w);
                return self.ite(bit, y, z);
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.raw(N::Mul(a, b), w)
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let r = self.udiv_s(a, b);
        if self.audit_due() {
            let w = self.w(a);
            self.audit_note(N::UDiv(a, b), w, r);
        }
        r
    }
    fn udiv_s(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return self.konst(!0, w);
            }
            if let Some(x) = self.cv(a) {
                return self.konst(x / y, w);
            }
            if y.is_power_of_two() {
                let k = self.konst(y.trailing_zeros() as u128, w);
                return self.lshr(a, k);
            }
            if self.t[a as usize].hi < y {
                return self.konst(0, w);
            }
        }
        if let Some(r) = self.push_ite(a, b, |c, x, y| c.udiv(x, y)) {
            return r;
        }
        // narrow
        let hi = self.t[a as usize].hi.max(self.t[b as usize].hi);
        let nb = (128 - hi.leading_zeros()).max(1);
        if nb < w && self.cv(b) != Some(0) && self.t[b as usize].lo > 0 {
            let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
            let d = self.raw(N::UDiv(x, y), nb);
            return self.zext(d, w);
        }
        self.raw(N::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let r = self.urem_s(a, b);
        if self.audit_due() {
            let w = self.w(a);
            self.audit_note(N::URem(a, b), w, r);
        }
        r
    }
    fn urem_s(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return a;
            }
            if let Some(x) = self.cv(a) {
                return self.konst(x % y, w);
            }
            if y.is_power_of_two() {
                let k = self.konst(y - 1, w);
                return self.and(a, k);
            }
            if self.t[a as usize].hi < y {
                return a;
            }
        }
        if let Some(r) = self.push_ite(a, b, |c, x, y| c.urem(x, y)) {
            return r;
        }
        let hi = self.t[a as usize].hi.max(self.t[b as usize].hi);
        let nb = (128 - hi.leading_zeros()).max(1);
        if nb < w && self.t[b as usize].lo > 0 {
            let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
            let d = self.raw(N::URem(x, y), nb);
            return self.zext(d, w);
        }
        self.raw(N::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let r = self.sdiv_s(a, b);
        if self.audit_due() {
            let w = self.w(a);
            self.audit_note(N::SDiv(a, b), w, r);
        }
        r
    }
    fn sdiv_s(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y == 0 {
                return self.konst(!0, w);
            }
            return self.konst(sext(x, w).wrapping_div(sext(y, w)) as u128, w);
        }
        let s = 1u128 << (w - 1);
        if self.t[a as usize].kz & s != 0 && self.t[b as usize].kz & s != 0 {
            return self.udiv(a, b);
        }
        self.raw(N::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let r = self.srem_s(a, b);
        if self.audit_due() {
            let w = self.w(a);
            self.audit_note(N::SRem(a, b), w, r);
        }
        r
    }
    fn srem_s(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y == 0 {
                return a;
            }
            return self.konst(sext(x, w).wrapping_rem(sext(y, w)) as u128, w);
        }
        let s = 1u128 << (w - 1);
        if self.t[a as usize].kz & s != 0 && self.t[b as usize].kz & s != 0 {
            return self.urem(a, b);
        }
        self.raw(N::SRem(a, b), w)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let r = self.shl_s(a, b);
        if self.audit_due() {
            let w = self.w(a);
            self.audit_note(N::Shl(a, b), w, r);
        }
        r
    }
    fn shl_s(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(n) = self.cv(b) {
            if n >= w as u128 {
                return self.konst(0, w);
            }
            if n == 0 {
                return a;
            }
            let z = self.konst(0, n as u32);
            let x = self.extract(a, 0, w - n as u32);
            return self.cat(vec![z, x]);
        }
        self.raw(N::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let r = self.lshr_s(a, b);
        if self.audit_due() {
            let w = self.w(a);
            self.audit_note(N::LShr(a, b), w, r);
        }
        r
    }
    fn lshr_s(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(n) = self.cv(b) {
            if n >= w as u128 {
                return self.konst(0, w);
            }
            if n == 0 {
                return a;
            }
            let z = self.konst(0, n as u32);
            let x = self.extract(a, n as u32, w - n as u32);
            return self.cat(vec![x, z]);
        }
        self.raw(N::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let r = self.ashr_s(a, b);
        if self.audit_due() {
            let w = self.w(a);
            self.audit_note(N::AShr(a, b), w, r);
        }
        r
    }
    fn ashr_s(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(n) = self.cv(b) {
            let n = n.min(w as u128 - 1) as u32;
            if n == 0 {
                return a;
            }
            let x = self.extract(a, n, w - n);
            return self.sext(x, w);
        }
        self.raw(N::AShr(a, b), w)
    }

    // ------------------------------------------------------------ comparisons

    pub fn eq(&mut self, a: T, b: T) -> T {
        let r = self.eq_s(a, b);
        if self.audit_due() {
            let w = 1;
            self.audit_note(N::Eq(a, b), w, r);
        }
        r
    }
    fn eq_s(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tt;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ia, ib) = (&self.t[a as usize], &self.t[b as usize]);
        if (ia.kz & ib.ko) | (ia.ko & ib.kz) != 0 || ia.hi < ib.lo || ib.hi < ia.lo {
            return self.ff;
        }
        let (ca, cb) = (self.cv(a), self.cv(b));
        if ca.is_some() && cb.is_some() {
            return if ca == cb { self.tt } else { self.ff };
        }
        if ca.is_some() {
            return self.eq(b, a);
        }
        if w == 1 {
            if let Some(v) = cb {
                return if v == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        if let Some(k) = cb {
            match self.n(a).clone() {
                N::Not(x) => {
                    let kk = self.konst(!k, w);
                    return self.eq(x, kk);
                }
                N::Xor(x, c) => {
                    if let Some(c) = self.cv(c) {
                        let kk = self.konst(k ^ c, w);
                        return self.eq(x, kk);
                    }
                    if k == 0 {
                        return self.eq(x, c);
                    }
                }
                N::Add(x, c) => {
                    if let Some(c) = self.cv(c) {
                        let kk = self.konst(k.wrapping_sub(c), w);
                        return self.eq(x, kk);
                    }
                }
                N::Sub(x, y) => {
                    if k == 0 {
                        return self.eq(x, y);
                    }
                    if let Some(c) = self.cv(x) {
                        let kk = self.konst(c.wrapping_sub(k), w);
                        return self.eq(y, kk);
                    }
                }
                N::SExt(x) => {
                    let xw = self.w(x);
                    if sext(k & mask(xw), xw) as u128 & mask(w) != k {
                        return self.ff;
                    }
                    let kk = self.konst(k, xw);
                    return self.eq(x, kk);
                }
                N::Ite(c, x, y) => {
                    let ex = self.eq(x, b);
                    let ey = self.eq(y, b);
                    if self.cv(ex).is_some() || self.cv(ey).is_some() {
                        return self.ite(c, ex, ey);
                    }
                }
                N::Tab(t, i) => {
                    let hits: Vec<usize> = self.tables[t as usize].vals.iter().enumerate().filter(|(_, v)| **v == k).map(|(i, _)| i).collect();
                    let n = self.tables[t as usize].vals.len();
                    let iw = self.w(i);
                    if hits.is_empty() {
                        return self.ff;
                    }
                    if hits.len() <= 4 || n - hits.len() <= 4 {
                        let inv = hits.len() > 4;
                        let set: Vec<usize> = if inv { (0..n).filter(|i| !hits.contains(i)).collect() } else { hits };
                        let mut r = self.ff;
                        for h in set {
                            let kk = self.konst(h as u128, iw);
                            let e = self.eq(i, kk);
                            r = self.or(r, e);
                        }
                        return if inv { self.not(r) } else { r };
                    }
                }
                _ => {}
            }
        }
        // split at cut points
        let split = match (self.n(a), self.n(b)) {
            (N::Cat(_), N::Const(_)) => Some(a),
            (N::Cat(_), N::Cat(_)) => Some(a),
            (N::Cat(ps), _) if ps.iter().any(|p| self.cv(*p).is_some()) => Some(a),
            (_, N::Cat(ps)) if ps.iter().any(|p| self.cv(*p).is_some()) => Some(b),
            _ => None,
        };
        if let Some(s) = split {
            let other = if s == a { b } else { a };
            let ps = match self.n(s) {
                N::Cat(ps) => ps.clone(),
                _ => unreachable!(),
            };
            let ok = match self.n(other).clone() {
                N::Const(_) => true,
                N::Cat(qs) => {
                    let mut cuts = vec![];
                    let mut o = 0;
                    for q in qs.iter() {
                        o += self.w(*q);
                        cuts.push(o);
                    }
                    let mut o = 0;
                    let mut hit = false;
                    for p in ps.iter() {
                        o += self.w(*p);
                        if o != w && cuts.contains(&o) {
                            hit = true;
                        }
                    }
                    hit || ps.iter().chain(qs.iter()).any(|p| self.cv(*p).is_some())
                }
                _ => true,
            };
            if ok {
                // cut at the parts of `s` (and of other if Cat: common cuts only)
                let mut cuts: Vec<u32> = vec![];
                let mut o = 0;
                for p in ps.iter() {
                    o += self.w(*p);
                    cuts.push(o);
                }
                if let N::Cat(qs) = self.n(other).clone() {
                    let mut oc = vec![];
                    let mut o = 0;
                    for q in qs.iter() {
                        let c = self.cv(*q).is_some();
                        if c && !oc.contains(&o) {
                            oc.push(o);
                        }
                        o += self.w(*q);
                        oc.push(o);
                    }
                    // constants on either side justify a cut at their ends
                    let mut keep: Vec<u32> = cuts.iter().filter(|c| oc.contains(c)).copied().collect();
                    let mut addc = |s: &Self, ps: &[T]| {
                        let mut o = 0;
                        for p in ps {
                            let pw = s.w(*p);
                            if s.cv(*p).is_some() {
                                if o > 0 {
                                    keep.push(o);
                                }
                                keep.push(o + pw);
                            }
                            o += pw;
                        }
                    };
                    addc(self, &ps);
                    addc(self, &qs);
                    keep.push(w);
                    keep.sort();
                    keep.dedup();
                    cuts = keep;
                }
                if cuts.len() > 1 {
                    let mut r = self.tt;
                    let mut lo = 0;
                    for c in cuts {
                        let (x, y) = (self.extract(a, lo, c - lo), self.extract(b, lo, c - lo));
                        let e = self.eq(x, y);
                        r = self.and(r, e);
                        if r == self.ff {
                            return r;
                        }
                        lo = c;
                    }
                    return r;
                }
            }
        }
        match (self.n(a).clone(), self.n(b).clone()) {
            (N::Not(x), N::Not(y)) => return self.eq(x, y),
            (N::SExt(x), N::SExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
            (N::Add(x, c), N::Add(y, d)) if c == d => return self.eq(x, y),
            (N::Add(x, c), N::Add(y, d)) if x == y => return self.eq(c, d),
            (N::Add(x, c), _) if x == b || c == b => {
                let o = if x == b { c } else { x };
                let z = self.konst(0, w);
                return self.eq(o, z);
            }
            (_, N::Add(x, c)) if x == a || c == a => {
                let o = if x == a { c } else { x };
                let z = self.konst(0, w);
                return self.eq(o, z);
            }
            (N::Xor(x, c), N::Xor(y, d)) => {
                if x == y {
                    return self.eq(c, d);
                }
                if c == d {
                    return self.eq(x, y);
                }
                if x == d {
                    return self.eq(c, y);
                }
                if c == y {
                    return self.eq(x, d);
                }
            }
            _ => {}
        }
        if self.t[a as usize].lin || self.t[b as usize].lin {
            if let (Some(la), Some(lb)) = (self.lin(a), self.lin(b)) {
                if la.k == lb.k && la.cols == lb.cols {
                    return self.tt;
                }
                // difference
                let d = lin_xor(&la, &lb);
                if std::env::var("SYMX_LIN").is_ok() && w > 8 {
                    eprintln!("lin diff w{} k {:x} cols {} / {} / {}", w, d.k, la.cols.len(), lb.cols.len(), d.cols.len());
                    for (a, m) in d.cols.iter().take(6) {
                        eprintln!("   {:x} {}", m, self.show(*a, 4));
                    }
                }
                if d.cols.is_empty() {
                    return self.ff;
                }
                // rebuild as a conjunction over distinct row equations is left to the solver,
                // on the (small) difference
                if d.cols.len() < 64 {
                    let t = self.lin_term(&d);
                    let z = self.konst(0, w);
                    return if let Some(v) = self.cv(t) {
                        if v == 0 { self.tt } else { self.ff }
                    } else {
                        let (x, y) = if t < z { (t, z) } else { (z, t) };
                        self.raw(N::Eq(x, y), 1)
                    };
                }
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.raw(N::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        let r = self.ult_s(a, b);
        if self.audit_due() {
            let w = 1;
            self.audit_note(N::Ult(a, b), w, r);
        }
        r
    }
    fn ult_s(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.ff;
        }
        let w = self.w(a);
        let (ia, ib) = (&self.t[a as usize], &self.t[b as usize]);
        let (alo, ahi, blo, bhi) = (ia.lo, ia.hi, ib.lo, ib.hi);
        if ahi < blo {
            return self.tt;
        }
        if alo >= bhi {
            return self.ff;
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        // narrow to significant bits
        let hi = ahi.max(bhi);
        let nb = 128 - hi.leading_zeros();
        if nb < w && nb > 0 {
            let (x, y) = (self.extract(a, 0, nb), self.extract(b, 0, nb));
            return self.ult(x, y);
        }
        if let Some(y) = self.cv(b) {
            if y == 1 {
                let z = self.konst(0, w);
                return self.eq(a, z);
            }
            if y.is_power_of_two() {
                let k = y.trailing_zeros();
                let x = self.extract(a, k, w - k);
                let z = self.konst(0, w - k);
                return self.eq(x, z);
            }
            if y == mask(w) {
                let e = self.eq(a, b);
                return self.not(e);
            }
            // exact singleton at the end of the range
            if alo + 1 == y {
                let k = self.konst(alo, w);
                return self.eq(a, k);
            }
        }
        if let Some(x) = self.cv(a) {
            if x == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            if (x + 1).is_power_of_two() {
                let k = (x + 1).trailing_zeros();
                let y = self.extract(b, k, w - k);
                let z = self.konst(0, w - k);
                let e = self.eq(y, z);
                return self.not(e);
            }
        }
        if let Some(r) = self.push_ite(a, b, |c, x, y| c.ult(x, y)) {
            return r;
        }
        // equal high parts
        if let (N::Cat(pa), N::Cat(pb)) = (self.n(a).clone(), self.n(b).clone()) {
            let (x, y) = (*pa.last().unwrap(), *pb.last().unwrap());
            if x == y {
                let xw = self.w(x);
                let (p, q) = (self.extract(a, 0, w - xw), self.extract(b, 0, w - xw));
                return self.ult(p, q);
            }
        }
        self.raw(N::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let r = self.ult(b, a);
        self.not(r)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let r = self.slt_s(a, b);
        if self.audit_due() {
            let w = 1;
            self.audit_note(N::Slt(a, b), w, r);
        }
        r
    }
    fn slt_s(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.ff;
        }
        let w = self.w(a);
        if w == 1 {
            // 1 is -1
            let n = self.not(b);
            return self.and(a, n);
        }
        let s = 1u128 << (w - 1);
        let sg = |i: &Info| {
            if i.kz & s != 0 {
                Some(false)
            } else if i.ko & s != 0 {
                Some(true)
            } else {
                None
            }
        };
        let (sa, sb) = (sg(&self.t[a as usize]), sg(&self.t[b as usize]));
        match (sa, sb) {
            (Some(x), Some(y)) => {
                if x == y {
                    return self.ult(a, b);
                }
                return if x { self.tt } else { self.ff };
            }
            _ => {}
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cv(a) == Some(mask(w)) {
            let x = self.extract(b, w - 1, 1);
            return self.not(x);
        }
        if let Some(r) = self.push_ite(a, b, |c, x, y| c.slt(x, y)) {
            return r;
        }
        // both sign-extended: compare narrow
        let narrow = |s: &Self, t: T| -> Option<u32> {
            match s.n(t) {
                N::SExt(x) => Some(s.w(*x)),
                N::Const(v) => {
                    let v = sext(*v, w);
                    let need = if v >= 0 { 129 - (v as u128).leading_zeros() } else { 129 - (!(v as u128)).leading_zeros() };
                    Some(need.max(1))
                }
                _ => {
                    let h = s.t[t as usize].hi;
                    if h < (1u128 << (w - 1)) { Some(129 - h.leading_zeros()) } else { None }
                }
            }
        };
        if let (Some(x), Some(y)) = (narrow(self, a), narrow(self, b)) {
            let nw = x.max(y);
            if nw < w {
                let (p, q) = (self.extract(a, 0, nw), self.extract(b, 0, nw));
                return self.slt(p, q);
            }
        }
        // one sign known: split on the other's sign
        match (sa, sb) {
            (Some(false), None) => {
                // a >= 0: b >= 0 && a < b
                let x = self.extract(b, w - 1, 1);
                let nx = self.not(x);
                let (p, q) = (self.extract(a, 0, w - 1), self.extract(b, 0, w - 1));
                let u = self.ult(p, q);
                return self.and(nx, u);
            }
            (None, Some(false)) => {
                let x = self.extract(a, w - 1, 1);
                let (p, q) = (self.extract(a, 0, w - 1), self.extract(b, 0, w - 1));
                let u = self.ult(p, q);
                return self.or(x, u);
            }
            (Some(true), None) => {
                let x = self.extract(b, w - 1, 1);
                let nx = self.not(x);
                let (p, q) = (self.extract(a, 0, w - 1), self.extract(b, 0, w - 1));
                let u = self.ult(p, q);
                return self.or(nx, u);
            }
            (None, Some(true)) => {
                let x = self.extract(a, w - 1, 1);
                let (p, q) = (self.extract(a, 0, w - 1), self.extract(b, 0, w - 1));
                let u = self.ult(p, q);
                return self.and(x, u);
            }
            _ => {}
        }
        self.raw(N::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        let r = self.slt(b, a);
        self.not(r)
    }

    // ------------------------------------------------------------ floating point

    /// fp operation; widths identify the format (32 / 64)
    pub fn fp(&mut self, op: FOp, args: &[T], w: u32) -> T {
        if args.iter().all(|a| self.cv(*a).is_some()) {
            let v: Vec<(u128, u32)> = args.iter().map(|a| (self.cv(*a).unwrap(), self.w(*a))).collect();
            let r = feval(op, &v, w);
            return self.konst(r, w);
        }
        let mut args = args.to_vec();
        if op == FOp::Div {
            // division by a power of two is multiplication by its (exact) reciprocal
            if let Some(d) = self.cv(args[1]) {
                let r = if w == 32 {
                    let f = f32::from_bits(d as u32);
                    let m = d as u32 & 0x7fffff;
                    let e = (d as u32 >> 23) & 0xff;
                    if m == 0 && e > 1 && e < 253 { Some((1.0 / f).to_bits() as u128) } else { None }
                } else {
                    let f = f64::from_bits(d as u64);
                    let m = d as u64 & ((1 << 52) - 1);
                    let e = (d as u64 >> 52) & 0x7ff;
                    if m == 0 && e > 1 && e < 2045 { Some((1.0 / f).to_bits() as u128) } else { None }
                };
                if let Some(r) = r {
                    let k = self.konst(r, w);
                    return self.fp(FOp::Mul, &[args[0], k], w);
                }
            }
        }
        if op == FOp::FpTrunc && w == 32 {
            // narrowing a widened value gives it back, a signalling NaN quietened
            if let N::Fp(FOp::FpExt, a) = self.n(args[0]).clone() {
                let x = a[0];
                if self.w(x) == 32 {
                    let m = self.extract(x, 0, 31);
                    let k = self.konst(0x7f80_0000, 31);
                    let nan = self.ult(k, m);
                    let q = self.konst(0x40_0000, 32);
                    let xq = self.or(x, q);
                    return self.ite(nan, xq, x);
                }
            }
        }
        if matches!(op, FOp::Add | FOp::Mul) {
            args.sort();
        }
        if op == FOp::Fma && args[0] > args[1] {
            args.swap(0, 1);
        }
        self.raw(N::Fp(op, args.into_boxed_slice()), w)
    }
    pub fn fcmp(&mut self, pred: u8, a: T, b: T) -> T {
        let w = self.w(a);
        let (eb, mb) = if w == 32 { (8, 23) } else { (11, 52) };
        let inf = mask(eb) << mb;
        let nan = |c: &mut Self, x: T| {
            let m = c.extract(x, 0, w - 1);
            let k = c.konst(inf, w - 1);
            c.ult(k, m)
        };
        let (na, nb) = (nan(self, a), nan(self, b));
        let uno = self.or(na, nb);
        let z = self.konst(0, w - 1);
        let (ma, mb2) = (self.extract(a, 0, w - 1), self.extract(b, 0, w - 1));
        let (za, zb) = (self.eq(ma, z), self.eq(mb2, z));
        let zz = self.and(za, zb);
        let same = self.eq(a, b);
        let eq = self.or(zz, same);
        // a < b for non-nan: sign/magnitude
        let (sa, sb) = (self.extract(a, w - 1, 1), self.extract(b, w - 1, 1));
        let mlt = self.ult(ma, mb2);
        let mgt = self.ult(mb2, ma);
        let nzz = self.not(zz);
        let nsb = self.not(sb);
        let diff = self.and(sa, nsb);
        let lt_diff = self.and(diff, nzz);
        let nsa = self.not(sa);
        let pp = self.and(nsa, nsb);
        let pos = self.and(pp, mlt);
        let nn = self.and(sa, sb);
        let neg = self.and(nn, mgt);
        let l1 = self.or(lt_diff, pos);
        let lt = self.or(l1, neg);
        let ord = self.not(uno);
        let le = self.or(lt, eq);
        let gt = self.not(le);
        let mut r = self.ff;
        if pred & 1 != 0 {
            let x = self.and(ord, eq);
            r = self.or(r, x);
        }
        if pred & 2 != 0 {
            let x = self.and(ord, gt);
            r = self.or(r, x);
        }
        if pred & 4 != 0 {
            let x = self.and(ord, lt);
            r = self.or(r, x);
        }
        if pred & 8 != 0 {
            r = self.or(r, uno);
        }
        if pred & 7 == 7 {
            return if pred & 8 != 0 { self.tt } else { ord };
        }
        r
    }

    // ------------------------------------------------------------ tables

    pub fn tab(&mut self, vals: Vec<u128>, w: u32, idx: T) -> T {
        let iw = self.w(idx);
        debug_assert_eq!(vals.len() as u128, 1u128 << iw);
        if let Some(i) = self.cv(idx) {
            return self.konst(vals[i as usize], w);
        }
        // use the index's known bits to shrink the table
        let (kz, ko) = (self.t[idx as usize].kz, self.t[idx as usize].ko);
        if (kz | ko) & mask(iw) != 0 {
            // drop known bits
            let mut keep = vec![];
            for b in 0..iw {
                if (kz | ko) >> b & 1 == 0 {
                    keep.push(b);
                }
            }
            let mut nv = Vec::with_capacity(1 << keep.len());
            for i in 0..(1u128 << keep.len()) {
                let mut full = ko & mask(iw);
                for (j, b) in keep.iter().enumerate() {
                    if i >> j & 1 == 1 {
                        full |= 1 << b;
                    }
                }
                nv.push(vals[full as usize]);
            }
            let parts: Vec<T> = keep.iter().map(|b| self.extract(idx, *b, 1)).collect();
            let ni = self.cat(parts);
            return self.tab(nv, w, ni);
        }
        if vals.iter().all(|v| *v == vals[0]) {
            return self.konst(vals[0], w);
        }
        if iw == 1 {
            let (a, b) = (self.konst(vals[1], w), self.konst(vals[0], w));
            return self.ite(idx, a, b);
        }
        if w == iw && vals.iter().enumerate().all(|(i, v)| i as u128 == *v) {
            return idx;
        }
        let key = (vals, w);
        let id = match self.tabmap.get(&key) {
            Some(&i) => i,
            None => {
                let id = self.tables.len() as u32;
                let affine = affine_fit(&key.0, iw);
                self.tables.push(Table { w, iw, vals: Rc::new(key.0.clone()), affine });
                self.tabmap.insert(key, id);
                id
            }
        };
        self.raw(N::Tab(id, idx), w)
    }

    /// GF(2)-linear normal form over atoms (1-bit terms)
    pub fn lin(&mut self, t: T) -> Option<Rc<Lin>> {
        if let Some(r) = self.lin_memo.get(&t) {
            return r.clone();
        }
        let r = self.lin_compute(t).map(Rc::new);
        self.lin_memo.insert(t, r.clone());
        r
    }
    fn lin_atoms(&mut self, t: T) -> Lin {
        let w = self.w(t);
        let mut cols = vec![];
        let mut k = 0;
        for i in 0..w {
            let b = self.extract(t, i, 1);
            if let Some(v) = self.cv(b) {
                k |= v << i;
            } else {
                let mut at = b;
                if let N::Not(x) = *self.n(b) {
                    at = x;
                    k |= 1 << i;
                }
                cols.push((at, 1u128 << i));
            }
        }
        normal(w, k, cols)
    }
    fn lin_compute(&mut self, t: T) -> Option<Lin> {
        let w = self.w(t);
        let n = self.n(t).clone();
        Some(match n {
            N::Const(v) => Lin { w, k: v, cols: vec![] },
            N::Xor(a, b) => {
                let (x, y) = (self.lin(a)?, self.lin(b)?);
                lin_xor(&x, &y)
            }
            N::Not(a) => {
                let x = self.lin(a)?;
                Lin { w, k: x.k ^ mask(w), cols: x.cols.clone() }
            }
            N::Cat(ps) => {
                let mut cols = vec![];
                let mut k = 0;
                let mut sh = 0;
                for p in ps.iter() {
                    let x = self.lin(*p)?;
                    k |= x.k << sh;
                    for (a, m) in &x.cols {
                        cols.push((*a, m << sh));
                    }
                    sh += x.w;
                }
                normal(w, k, cols)
            }
            N::Extract(a, lo) if self.t[a as usize].lin => {
                let x = self.lin(a)?;
                normal(w, (x.k >> lo) & mask(w), x.cols.iter().map(|(a, m)| (*a, (m >> lo) & mask(w))).collect())
            }
            N::Ite(c, a, b) => {
                // linear if c is linear and a^b is constant
                let (x, y) = (self.lin(a)?, self.lin(b)?);
                let d = lin_xor(&x, &y);
                if d.cols.is_empty() {
                    let lc = self.lin(c)?;
                    let mut cols: Vec<(T, u128)> = y.cols.clone();
                    for (at, m) in &lc.cols {
                        if m & 1 == 1 {
                            cols.push((*at, d.k));
                        }
                    }
                    let k = y.k ^ if lc.k & 1 == 1 { d.k } else { 0 };
                    normal(w, k, cols)
                } else {
                    // general ite: treat the difference as atom-wise  -> opaque
                    self.lin_opaque(t)
                }
            }
            N::Tab(tb, i) => {
                let (f0, basis, exc) = match self.tables[tb as usize].affine.clone() {
                    Some(x) => x,
                    None => return Some(self.lin_opaque(t)),
                };
                let li = self.lin(i)?;
                let mut k = f0;
                for (j, b) in basis.iter().enumerate() {
                    if li.k >> j & 1 == 1 {
                        k ^= b;
                    }
                }
                let mut cols: Vec<(T, u128)> = vec![];
                for (at, m) in &li.cols {
                    let mut d = 0;
                    for (j, b) in basis.iter().enumerate() {
                        if m >> j & 1 == 1 {
                            d ^= b;
                        }
                    }
                    cols.push((*at, d));
                }
                let iw = self.w(i);
                for (e, d) in exc {
                    let kk = self.konst(e, iw);
                    let c = self.eq(i, kk);
                    match self.cv(c) {
                        Some(1) => k ^= d,
                        Some(_) => {}
                        None => {
                            if let N::Not(x) = *self.n(c) {
                                k ^= d;
                                cols.push((x, d));
                            } else {
                                cols.push((c, d));
                            }
                        }
                    }
                }
                normal(w, k, cols)
            }
            _ => self.lin_opaque(t),
        })
    }
    fn lin_opaque(&mut self, t: T) -> Lin {
        let w = self.w(t);
        if w == 1 {
            return Lin { w, k: 0, cols: vec![(t, 1)] };
        }
        // bits of t as atoms, without recursing into structure that extract() would push through
        if matches!(self.n(t), N::Ite(..) | N::Tab(..)) {
            let mut cols = vec![];
            let mut k = 0;
            for i in 0..w {
                let b = self.extract(t, i, 1);
                match self.cv(b) {
                    Some(v) => k |= v << i,
                    None => cols.push((b, 1u128 << i)),
                }
            }
            return normal(w, k, cols);
        }
        self.lin_atoms(t)
    }
    fn lin_term(&mut self, l: &Lin) -> T {
        let mut r = self.konst(l.k, l.w);
        for (a, m) in &l.cols {
            let (x, z) = (self.konst(*m, l.w), self.konst(0, l.w));
            let i = self.ite(*a, x, z);
            r = self.raw_xor(r, i);
        }
        r
    }
    fn raw_xor(&mut self, a: T, b: T) -> T {
        if self.cv(a) == Some(0) {
            return b;
        }
        if self.cv(b) == Some(0) {
            return a;
        }
        if self.cv(a).is_some() && self.cv(b).is_some() {
            return self.xor(a, b);
        }
        self.raw_bit(2, a, b)
    }

    // ------------------------------------------------------------ queries

    pub fn operands(&self, n: &N) -> Vec<T> {
        let mut v = vec![];
        Self::children_of(n, |c| v.push(c));
        v
    }
    /// the number of nodes of the term written out as a tree (saturating)
    pub fn unfolded(&self, t: T, memo: &mut std::collections::HashMap<T, u64>) -> u64 {
        if let Some(x) = memo.get(&t) {
            return *x;
        }
        let ch = self.operands(self.n(t));
        let r = ch.into_iter().fold(1u64, |a, c| (a + self.unfolded(c, memo)).min(1 << 40));
        memo.insert(t, r);
        r
    }
    pub fn children(&self, t: T, f: impl FnMut(T)) {
        Self::children_of(self.n(t), f)
    }
    fn children_of(n: &N, mut f: impl FnMut(T)) {
        match n {
            N::Const(_) | N::Var(_) => {}
            N::Extract(a, _) | N::Not(a) | N::SExt(a) | N::Tab(_, a) => f(*a),
            N::Cat(ps) | N::Fp(_, ps) => {
                for p in ps.iter() {
                    f(*p)
                }
            }
            N::And(a, b) | N::Or(a, b) | N::Xor(a, b) | N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b) | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => {
                f(*a);
                f(*b)
            }
            N::Ite(a, b, c) => {
                f(*a);
                f(*b);
                f(*c)
            }
        }
    }

    pub fn vars(&mut self, t: T) -> Rc<[u32]> {
        if let Some(v) = self.vars_memo.get(&t) {
            return v.clone();
        }
        let r: Rc<[u32]> = match self.n(t) {
            N::Const(_) => Rc::from(Vec::new()),
            N::Var(v) => Rc::from(vec![*v]),
            _ => {
                let mut ch = vec![];
                self.children(t, |c| ch.push(c));
                let sets: Vec<Rc<[u32]>> = ch.into_iter().map(|c| self.vars(c)).collect();
                let mut v: Vec<u32> = vec![];
                for s in &sets {
                    v.extend_from_slice(s);
                }
                v.sort_unstable();
                v.dedup();
                // share if equal to a child's
                match sets.into_iter().find(|s| s.len() == v.len()) {
                    Some(s) => s,
                    None => Rc::from(v),
                }
            }
        };
        self.vars_memo.insert(t, r.clone());
        r
    }

    /// rebuild a node with new children (through the simplifier)
    pub fn rebuild(&mut self, t: T, f: &mut impl FnMut(&mut Self, T) -> T) -> T {
        let w = self.w(t);
        match self.n(t).clone() {
            N::Const(_) | N::Var(_) => t,
            N::Extract(a, lo) => {
                let x = f(self, a);
                if x == a { t } else { self.extract(x, lo, w) }
            }
            N::Not(a) => {
                let x = f(self, a);
                if x == a { t } else { self.not(x) }
            }
            N::SExt(a) => {
                let x = f(self, a);
                if x == a { t } else { self.sext(x, w) }
            }
            N::Tab(tb, a) => {
                let x = f(self, a);
                if x == a {
                    t
                } else {
                    let v = self.tables[tb as usize].vals.to_vec();
                    self.tab(v, w, x)
                }
            }
            N::Cat(ps) => {
                let v: Vec<T> = ps.iter().map(|p| f(self, *p)).collect();
                if v[..] == ps[..] { t } else { self.cat(v) }
            }
            N::Fp(op, ps) => {
                let v: Vec<T> = ps.iter().map(|p| f(self, *p)).collect();
                if v[..] == ps[..] { t } else { self.fp(op, &v, w) }
            }
            N::Ite(c, a, b) => {
                let cc = f(self, c);
                if let Some(v) = self.cv(cc) {
                    return if v == 1 { f(self, a) } else { f(self, b) };
                }
                let (x, y) = (f(self, a), f(self, b));
                if cc == c && x == a && y == b { t } else { self.ite(cc, x, y) }
            }
            n => {
                let (a, b) = match n {
                    N::And(a, b) | N::Or(a, b) | N::Xor(a, b) | N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b) | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => (a, b),
                    _ => unreachable!(),
                };
                let (x, y) = (f(self, a), f(self, b));
                if x == a && y == b {
                    return t;
                }
                match n {
                    N::And(..) => self.and(x, y),
                    N::Or(..) => self.or(x, y),
                    N::Xor(..) => self.xor(x, y),
                    N::Add(..) => self.add(x, y),
                    N::Sub(..) => self.sub(x, y),
                    N::Mul(..) => self.mul(x, y),
                    N::UDiv(..) => self.udiv(x, y),
                    N::URem(..) => self.urem(x, y),
                    N::SDiv(..) => self.sdiv(x, y),
                    N::SRem(..) => self.srem(x, y),
                    N::Shl(..) => self.shl(x, y),
                    N::LShr(..) => self.lshr(x, y),
                    N::AShr(..) => self.ashr(x, y),
                    N::Eq(..) => self.eq(x, y),
                    N::Ult(..) => self.ult(x, y),
                    N::Slt(..) => self.slt(x, y),
                    _ => unreachable!(),
                }
            }
        }
    }

    pub fn show(&self, t: T, depth: u32) -> String {
        if depth == 0 {
            return format!("t{}:{}", t, self.w(t));
        }
        match self.n(t) {
            N::Const(v) => format!("{:#x}:{}", v, self.w(t)),
            N::Var(v) => format!("v{}", v),
            N::Extract(a, lo) => format!("{}[{}+:{}]", self.show(*a, depth - 1), lo, self.w(t)),
            N::Cat(ps) => format!("cat({})", ps.iter().rev().map(|p| self.show(*p, depth - 1)).collect::<Vec<_>>().join(", ")),
            n => {
                let mut v = vec![];
                self.children(t, |c| v.push(c));
                let name = format!("{:?}", n);
                let name = name.split('(').next().unwrap().to_string();
                format!("{}({})", name, v.iter().map(|p| self.show(*p, depth - 1)).collect::<Vec<_>>().join(", "))
            }
        }
    }
}

fn normal(w: u32, k: u128, mut cols: Vec<(T, u128)>) -> Lin {
    cols.sort_unstable_by_key(|c| c.0);
    let mut out: Vec<(T, u128)> = Vec::with_capacity(cols.len());
    for (a, m) in cols {
        match out.last_mut() {
            Some(l) if l.0 == a => l.1 ^= m,
            _ => out.push((a, m)),
        }
    }
    out.retain(|c| c.1 != 0);
    Lin { w, k, cols: out }
}
fn lin_xor(a: &Lin, b: &Lin) -> Lin {
    let mut out = Vec::with_capacity(a.cols.len() + b.cols.len());
    let (mut i, mut j) = (0, 0);
    while i < a.cols.len() || j < b.cols.len() {
        if j >= b.cols.len() || (i < a.cols.len() && a.cols[i].0 < b.cols[j].0) {
            out.push(a.cols[i]);
            i += 1;
        } else if i >= a.cols.len() || b.cols[j].0 < a.cols[i].0 {
            out.push(b.cols[j]);
            j += 1;
        } else {
            let m = a.cols[i].1 ^ b.cols[j].1;
            if m != 0 {
                out.push((a.cols[i].0, m));
            }
            i += 1;
            j += 1;
        }
    }
    Lin { w: a.w, k: a.k ^ b.k, cols: out }
}

fn affine_fit(vals: &[u128], iw: u32) -> Option<(u128, Vec<u128>, Vec<(u128, u128)>)> {
    if iw < 3 {
        return None;
    }
    let majority = |it: Vec<u128>| -> u128 {
        let mut m: HashMap<u128, u32> = HashMap::new();
        for v in it {
            *m.entry(v).or_insert(0) += 1;
        }
        m.into_iter().max_by_key(|x| (x.1, x.0)).unwrap().0
    };
    let n = vals.len();
    let mut basis = vec![];
    for j in 0..iw {
        basis.push(majority((0..n).map(|x| vals[x] ^ vals[x ^ (1 << j)]).collect()));
    }
    let lin = |x: usize| -> u128 {
        let mut r = 0;
        for (j, b) in basis.iter().enumerate() {
            if x >> j & 1 == 1 {
                r ^= b;
            }
        }
        r
    };
    let f0 = majority((0..n).map(|x| vals[x] ^ lin(x)).collect());
    let exc: Vec<(u128, u128)> = (0..n).filter(|x| vals[*x] != lin(*x) ^ f0).map(|x| (x as u128, vals[x] ^ lin(x) ^ f0)).collect();
    if exc.len() * 8 > n {
        return None;
    }
    Some((f0, basis, exc))
}

pub fn feval(op: FOp, a: &[(u128, u32)], w: u32) -> u128 {
    let f = |i: usize| f32::from_bits(a[i].0 as u32);
    let d = |i: usize| f64::from_bits(a[i].0 as u64);
    let is32 = w == 32;
    let r32 = |x: f32| x.to_bits() as u128;
    let r64 = |x: f64| x.to_bits() as u128;
    match op {
        FOp::Add => if is32 { r32(f(0) + f(1)) } else { r64(d(0) + d(1)) },
        FOp::Mul => if is32 { r32(f(0) * f(1)) } else { r64(d(0) * d(1)) },
        FOp::Div => if is32 { r32(f(0) / f(1)) } else { r64(d(0) / d(1)) },
        FOp::Rem => if is32 { r32(f(0) % f(1)) } else { r64(d(0) % d(1)) },
        FOp::Sqrt => if is32 { r32(f(0).sqrt()) } else { r64(d(0).sqrt()) },
        FOp::Fma => if is32 { r32(f(0).mul_add(f(1), f(2))) } else { r64(d(0).mul_add(d(1), d(2))) },
        FOp::SiToFp => {
            let v = sext(a[0].0, a[0].1);
            if is32 { r32(v as f32) } else { r64(v as f64) }
        }
        FOp::UiToFp => {
            let v = a[0].0;
            if is32 { r32(v as f32) } else { r64(v as f64) }
        }
        FOp::FpToSiSat => {
            let x = if a[0].1 == 32 { f(0) as f64 } else { d(0) };
            if x.is_nan() {
                return 0;
            }
            let (lo, hi) = (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1));
            let v: i128 = if x <= lo { -(1i128 << (w - 1)) } else if x >= hi { (1i128 << (w - 1)) - 1 } else { x as i128 };
            v as u128 & mask(w)
        }
        FOp::FpToUiSat => {
            let x = if a[0].1 == 32 { f(0) as f64 } else { d(0) };
            if x.is_nan() || x <= 0.0 {
                return 0;
            }
            if x >= 2f64.powi(w as i32) { mask(w) } else { x as u128 }
        }
        FOp::FpTrunc => r32(d(0) as f32),
        FOp::FpExt => r64(f(0) as f64),
    }
}

// ---------------------------------------------------------------- models

#[derive(Clone, Default)]
pub struct Model {
    pub vals: Vec<u8>,
}
impl Model {
    pub fn get(&self, v: u32) -> u8 {
        self.vals.get(v as usize).copied().unwrap_or(0)
    }
}

/// values of terms over a single byte variable, for each of its 256 values
#[derive(Default)]
pub struct Tables {
    memo: HashMap<T, Rc<[u128; 256]>, BuildH>,
    sets: HashMap<T, [u64; 4], BuildH>,
}
impl Tables {
    fn eval(&mut self, c: &Ctx, root: T) -> Rc<[u128; 256]> {
        if self.memo.len() > 8000 {
            self.memo.clear();
        }
        let mut st = vec![(root, false)];
        while let Some((t, done)) = st.pop() {
            if self.memo.contains_key(&t) {
                continue;
            }
            if !done {
                st.push((t, true));
                c.children(t, |x| st.push((x, false)));
                continue;
            }
            let mut ch: Vec<(T, Rc<[u128; 256]>)> = vec![];
            let memo = &self.memo;
            c.children(t, |x| ch.push((x, memo[&x].clone())));
            let mut r = [0u128; 256];
            for (i, o) in r.iter_mut().enumerate() {
                *o = op(c, t, i as u8, |x| ch.iter().find(|y| y.0 == x).unwrap().1[i]);
            }
            self.memo.insert(t, Rc::new(r));
        }
        self.memo[&root].clone()
    }
    /// the values of the variable for which the condition holds
    pub fn set(&mut self, c: &Ctx, t: T) -> [u64; 4] {
        if let Some(r) = self.sets.get(&t) {
            return *r;
        }
        let v = self.eval(c, t);
        let mut r = [0; 4];
        for i in 0..256 {
            if v[i] & 1 == 1 {
                r[i / 64] |= 1 << (i % 64);
            }
        }
        if self.sets.len() > 100_000 {
            self.sets.clear();
        }
        self.sets.insert(t, r);
        r
    }
}
/// value of a term from the values of its children; every variable is `var`
fn op(c: &Ctx, t: T, var: u8, g: impl Fn(T) -> u128) -> u128 {
    let w = c.w(t);
    let r = match c.n(t) {
        N::Const(v) => *v,
        N::Var(_) => var as u128,
        N::Extract(a, lo) => g(*a) >> lo,
        N::Cat(ps) => {
            let (mut r, mut sh) = (0u128, 0);
            for p in ps.iter() {
                r |= g(*p) << sh;
                sh += c.w(*p);
            }
            r
        }
        N::Not(a) => !g(*a),
        N::And(a, b) => g(*a) & g(*b),
        N::Or(a, b) => g(*a) | g(*b),
        N::Xor(a, b) => g(*a) ^ g(*b),
        N::Add(a, b) => g(*a).wrapping_add(g(*b)),
        N::Sub(a, b) => g(*a).wrapping_sub(g(*b)),
        N::Mul(a, b) => g(*a).wrapping_mul(g(*b)),
        N::UDiv(a, b) => {
            let (x, y) = (g(*a), g(*b));
            if y == 0 { !0 } else { x / y }
        }
        N::URem(a, b) => {
            let (x, y) = (g(*a), g(*b));
            if y == 0 { x } else { x % y }
        }
        N::SDiv(a, b) => {
            let (x, y) = (sext(g(*a), w), sext(g(*b), w));
            (if y == 0 { if x < 0 { 1 } else { -1 } } else { x.wrapping_div(y) }) as u128
        }
        N::SRem(a, b) => {
            let (x, y) = (sext(g(*a), w), sext(g(*b), w));
            (if y == 0 { x } else { x.wrapping_rem(y) }) as u128
        }
        N::Shl(a, b) => {
            let (x, y) = (g(*a), g(*b));
            if y >= w as u128 { 0 } else { x << y }
        }
        N::LShr(a, b) => {
            let (x, y) = (g(*a), g(*b));
            if y >= w as u128 { 0 } else { x >> y }
        }
        N::AShr(a, b) => {
            let (x, y) = (sext(g(*a), w), g(*b));
            (x >> y.min(w as u128 - 1)) as u128
        }
        N::SExt(a) => sext(g(*a), c.w(*a)) as u128,
        N::Eq(a, b) => (g(*a) == g(*b)) as u128,
        N::Ult(a, b) => (g(*a) < g(*b)) as u128,
        N::Slt(a, b) => {
            let aw = c.w(*a);
            (sext(g(*a), aw) < sext(g(*b), aw)) as u128
        }
        N::Ite(x, a, b) => if g(*x) == 1 { g(*a) } else { g(*b) },
        N::Fp(op, ps) => {
            let v: Vec<(u128, u32)> = ps.iter().map(|p| (g(*p), c.w(*p))).collect();
            feval(*op, &v, w)
        }
        N::Tab(tb, i) => c.tables[*tb as usize].vals[g(*i) as usize],
    };
    r & mask(w)
}

pub struct Evaluator {
    memo: HashMap<T, u128, BuildH>,
    pub model: Rc<Model>,
}
impl Evaluator {
    pub fn new(model: Rc<Model>) -> Self {
        Evaluator { memo: HashMap::default(), model }
    }
    pub fn eval(&mut self, c: &Ctx, t: T) -> u128 {
        match c.n(t) {
            N::Const(v) => return *v,
            N::Var(v) => return self.model.get(*v) as u128,
            _ => {}
        }
        if let Some(v) = self.memo.get(&t) {
            return *v;
        }
        let w = c.w(t);
        let m = mask(w);
        let n = c.n(t);
        let r = match n {
            N::Const(_) | N::Var(_) => unreachable!(),
            N::Extract(a, lo) => self.eval(c, *a) >> lo,
            N::Cat(ps) => {
                let (mut r, mut sh) = (0u128, 0);
                for p in ps.iter() {
                    r |= self.eval(c, *p) << sh;
                    sh += c.w(*p);
                }
                r
            }
            N::Not(a) => !self.eval(c, *a),
            N::And(a, b) => self.eval(c, *a) & self.eval(c, *b),
            N::Or(a, b) => self.eval(c, *a) | self.eval(c, *b),
            N::Xor(a, b) => self.eval(c, *a) ^ self.eval(c, *b),
            N::Add(a, b) => self.eval(c, *a).wrapping_add(self.eval(c, *b)),
            N::Sub(a, b) => self.eval(c, *a).wrapping_sub(self.eval(c, *b)),
            N::Mul(a, b) => self.eval(c, *a).wrapping_mul(self.eval(c, *b)),
            N::UDiv(a, b) => {
                let (x, y) = (self.eval(c, *a), self.eval(c, *b));
                if y == 0 { !0 } else { x / y }
            }
            N::URem(a, b) => {
                let (x, y) = (self.eval(c, *a), self.eval(c, *b));
                if y == 0 { x } else { x % y }
            }
            N::SDiv(a, b) => {
                let (x, y) = (sext(self.eval(c, *a), w), sext(self.eval(c, *b), w));
                (if y == 0 { if x < 0 { 1 } else { -1 } } else { x.wrapping_div(y) }) as u128
            }
            N::SRem(a, b) => {
                let (x, y) = (sext(self.eval(c, *a), w), sext(self.eval(c, *b), w));
                (if y == 0 { x } else { x.wrapping_rem(y) }) as u128
            }
            N::Shl(a, b) => {
                let (x, y) = (self.eval(c, *a), self.eval(c, *b));
                if y >= w as u128 { 0 } else { x << y }
            }
            N::LShr(a, b) => {
                let (x, y) = (self.eval(c, *a), self.eval(c, *b));
                if y >= w as u128 { 0 } else { x >> y }
            }
            N::AShr(a, b) => {
                let (x, y) = (sext(self.eval(c, *a), w), self.eval(c, *b));
                (x >> y.min(w as u128 - 1)) as u128
            }
            N::SExt(a) => sext(self.eval(c, *a), c.w(*a)) as u128,
            N::Eq(a, b) => (self.eval(c, *a) == self.eval(c, *b)) as u128,
            N::Ult(a, b) => (self.eval(c, *a) < self.eval(c, *b)) as u128,
            N::Slt(a, b) => {
                let aw = c.w(*a);
                (sext(self.eval(c, *a), aw) < sext(self.eval(c, *b), aw)) as u128
            }
            N::Ite(x, a, b) => {
                if self.eval(c, *x) == 1 {
                    self.eval(c, *a)
                } else {
                    self.eval(c, *b)
                }
            }
            N::Fp(op, ps) => {
                let v: Vec<(u128, u32)> = ps.iter().map(|p| (self.eval(c, *p), c.w(*p))).collect();
                feval(*op, &v, w)
            }
            N::Tab(tb, i) => {
                let k = self.eval(c, *i);
                c.tables[*tb as usize].vals[k as usize]
            }
        } & m;
        self.memo.insert(t, r);
        r
    }
}
