//! Decides satisfiability of conjunctions of 1-bit terms with Z3.
use crate::term::*;
use crate::z3::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub z3_queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub trivial: u64,
    pub second: u64,
    pub fp_precise: u64,
    pub time_us: u64,
    pub max_us: u64,
    pub cross_checked: u64,
    /// decided by truth table over one byte variable
    pub table: u64,
}

pub struct Solver {
    z: Rc<Z3>,
    cx: Ptr,
    simple: Ptr,
    bv: HashMap<T, Ast, BuildH>,
    bl: HashMap<T, Ast, BuildH>,
    fdecls: HashMap<(FOp, Vec<u32>, u32), Ptr>,
    cache: HashMap<Vec<T>, Res, BuildH>,
    models: Vec<Rc<Model>>,
    tables: HashMap<u32, Tables, BuildH>,
    cross_us: u64,
    start: Instant,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub precise: bool,
    pub dump: Option<String>,
    /// every n-th z3 answer is re-decided with a different solver configuration
    pub cross_every: u64,
    pub slow_us: u64,
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe {
            (self.z.solver_dec_ref)(self.cx, self.simple);
            (self.z.del_context)(self.cx);
        }
    }
}

impl Solver {
    pub fn new(z: Rc<Z3>) -> Solver {
        unsafe {
            let cfg = (z.mk_config)();
            let cx = (z.mk_context)(cfg);
            (z.set_error_handler)(cx, std::ptr::null());
            let simple = (z.mk_simple_solver)(cx);
            (z.solver_inc_ref)(cx, simple);
            let p = (z.mk_params)(cx);
            (z.params_inc_ref)(cx, p);
            (z.params_set_uint)(cx, p, (z.mk_string_symbol)(cx, c"timeout".as_ptr()), 1000);
            (z.solver_set_params)(cx, simple, p);
            Solver { z, cx, simple, bv: HashMap::default(), bl: HashMap::default(), fdecls: HashMap::new(), cache: HashMap::default(), models: vec![], tables: HashMap::default(), stats: Stats::default(), timeout_ms: 120_000, precise: false, dump: None, cross_every: 0, slow_us: u64::MAX, cross_us: 0, start: Instant::now() }
        }
    }
    pub fn version(&self) -> String {
        unsafe { CStr::from_ptr((self.z.get_full_version)()).to_string_lossy().into_owned() }
    }
    pub fn ast_count(&self) -> usize {
        self.bv.len() + self.bl.len()
    }

    fn err(&self) {
        unsafe {
            let e = (self.z.get_error_code)(self.cx);
            if e != 0 {
                panic!("z3 error {}", CStr::from_ptr((self.z.get_error_msg)(self.cx, e)).to_string_lossy());
            }
        }
    }
    fn sort(&self, w: u32) -> Ptr {
        unsafe { (self.z.mk_bv_sort)(self.cx, w) }
    }
    fn num(&self, v: u128, w: u32) -> Ast {
        unsafe {
            if w <= 64 {
                (self.z.mk_unsigned_int64)(self.cx, v as u64, self.sort(w))
            } else {
                let s = CString::new(v.to_string()).unwrap();
                (self.z.mk_numeral)(self.cx, s.as_ptr(), self.sort(w))
            }
        }
    }

    fn translate(&mut self, c: &Ctx, root: T) {
        // iterative post-order over children to avoid deep native recursion
        let mut st = vec![(root, false)];
        while let Some((t, done)) = st.pop() {
            if self.bv.contains_key(&t) {
                continue;
            }
            if !done {
                st.push((t, true));
                c.children(t, |x| {
                    st.push((x, false));
                });
            } else {
                self.trans1(c, t);
            }
        }
    }
    fn isbool(&self, c: &Ctx, t: T) -> bool {
        c.w(t) == 1 && matches!(c.n(t), N::Eq(..) | N::Ult(..) | N::Slt(..) | N::Not(_) | N::And(..) | N::Or(..) | N::Xor(..) | N::Ite(..) | N::Const(_))
    }
    fn boolean(&mut self, c: &Ctx, t: T) -> Ast {
        if let Some(a) = self.bl.get(&t) {
            return *a;
        }
        self.translate(c, t);
        if let Some(a) = self.bl.get(&t) {
            return *a;
        }
        let a = unsafe { (self.z.mk_eq)(self.cx, self.bv[&t], self.num(1, 1)) };
        self.bl.insert(t, a);
        a
    }
    fn trans1(&mut self, c: &Ctx, t: T) {
        let z = self.z.clone();
        let cx = self.cx;
        let w = c.w(t);
        unsafe {
            if self.isbool(c, t) {
                let mut b = |s: &mut Self, x: T| s.boolean(c, x);
                let a = match c.n(t) {
                    N::Const(v) => if *v == 1 { (z.mk_true)(cx) } else { (z.mk_false)(cx) },
                    N::Not(x) => {
                        let x = b(self, *x);
                        (z.mk_not)(cx, x)
                    }
                    N::And(x, y) => {
                        let a = [b(self, *x), b(self, *y)];
                        (z.mk_and)(cx, 2, a.as_ptr())
                    }
                    N::Or(x, y) => {
                        let a = [b(self, *x), b(self, *y)];
                        (z.mk_or)(cx, 2, a.as_ptr())
                    }
                    N::Xor(x, y) => {
                        let a = [b(self, *x), b(self, *y)];
                        (z.mk_xor)(cx, a[0], a[1])
                    }
                    N::Ite(x, y, q) => {
                        let a = [b(self, *x), b(self, *y), b(self, *q)];
                        (z.mk_ite)(cx, a[0], a[1], a[2])
                    }
                    N::Eq(x, y) => {
                        if c.w(*x) == 1 {
                            let a = [b(self, *x), b(self, *y)];
                            (z.mk_eq)(cx, a[0], a[1])
                        } else {
                            (z.mk_eq)(cx, self.bv[x], self.bv[y])
                        }
                    }
                    N::Ult(x, y) => (z.mk_bvult)(cx, self.bv[x], self.bv[y]),
                    N::Slt(x, y) => (z.mk_bvslt)(cx, self.bv[x], self.bv[y]),
                    _ => unreachable!(),
                };
                self.bl.insert(t, a);
                let v = (z.mk_ite)(cx, a, self.num(1, 1), self.num(0, 1));
                self.bv.insert(t, v);
                self.err();
                return;
            }
            let a = match c.n(t) {
                N::Const(v) => self.num(*v, w),
                N::Var(v) => (z.mk_const)(cx, (z.mk_int_symbol)(cx, *v as i32), self.sort(8)),
                N::Extract(x, lo) => (z.mk_extract)(cx, lo + w - 1, *lo, self.bv[x]),
                N::Cat(ps) => {
                    let mut r = self.bv[&ps[0]];
                    for p in &ps[1..] {
                        r = (z.mk_concat)(cx, self.bv[p], r);
                    }
                    r
                }
                N::Not(x) => (z.mk_bvnot)(cx, self.bv[x]),
                N::And(x, y) => (z.mk_bvand)(cx, self.bv[x], self.bv[y]),
                N::Or(x, y) => (z.mk_bvor)(cx, self.bv[x], self.bv[y]),
                N::Xor(x, y) => (z.mk_bvxor)(cx, self.bv[x], self.bv[y]),
                N::Add(x, y) => (z.mk_bvadd)(cx, self.bv[x], self.bv[y]),
                N::Sub(x, y) => (z.mk_bvsub)(cx, self.bv[x], self.bv[y]),
                N::Mul(x, y) => (z.mk_bvmul)(cx, self.bv[x], self.bv[y]),
                N::UDiv(x, y) => (z.mk_bvudiv)(cx, self.bv[x], self.bv[y]),
                N::URem(x, y) => (z.mk_bvurem)(cx, self.bv[x], self.bv[y]),
                N::SDiv(x, y) => (z.mk_bvsdiv)(cx, self.bv[x], self.bv[y]),
                N::SRem(x, y) => (z.mk_bvsrem)(cx, self.bv[x], self.bv[y]),
                N::Shl(x, y) => (z.mk_bvshl)(cx, self.bv[x], self.bv[y]),
                N::LShr(x, y) => (z.mk_bvlshr)(cx, self.bv[x], self.bv[y]),
                N::AShr(x, y) => (z.mk_bvashr)(cx, self.bv[x], self.bv[y]),
                N::SExt(x) => (z.mk_sign_ext)(cx, w - c.w(*x), self.bv[x]),
                N::Ite(x, y, q) => {
                    let b = self.boolean(c, *x);
                    (z.mk_ite)(cx, b, self.bv[y], self.bv[q])
                }
                N::Eq(..) | N::Ult(..) | N::Slt(..) => unreachable!(),
                N::Tab(tb, i) => self.table(c, *tb, self.bv[i]),
                N::Fp(op, ps) => {
                    let args: Vec<Ast> = ps.iter().map(|p| self.bv[p]).collect();
                    let ws: Vec<u32> = ps.iter().map(|p| c.w(*p)).collect();
                    self.fp(*op, &args, &ws, w)
                }
            };
            self.bv.insert(t, a);
            self.err();
        }
    }
    fn table(&mut self, c: &Ctx, tb: u32, idx: Ast) -> Ast {
        let z = self.z.clone();
        let cx = self.cx;
        let t = &c.tables[tb as usize];
        unsafe {
            let one = self.num(1, 1);
            let bits: Vec<Ast> = (0..t.iw).map(|i| (z.mk_eq)(cx, (z.mk_extract)(cx, i, i, idx), one)).collect();
            if let Some((f0, basis, exc)) = &t.affine {
                let mut r = self.num(*f0, t.w);
                let zero = self.num(0, t.w);
                for (i, b) in basis.iter().enumerate() {
                    if *b != 0 {
                        let k = self.num(*b, t.w);
                        r = (z.mk_bvxor)(cx, r, (z.mk_ite)(cx, bits[i], k, zero));
                    }
                }
                for (i, d) in exc {
                    let e = (z.mk_eq)(cx, idx, self.num(*i, t.iw));
                    let k = self.num(*d, t.w);
                    r = (z.mk_bvxor)(cx, r, (z.mk_ite)(cx, e, k, zero));
                }
                return r;
            }
            let mut lvl: Vec<Ast> = t.vals.iter().map(|v| self.num(*v, t.w)).collect();
            let mut raw: Vec<Option<u128>> = t.vals.iter().map(|v| Some(*v)).collect();
            for b in bits {
                let n = lvl.len() / 2;
                let mut nx = Vec::with_capacity(n);
                let mut nr = Vec::with_capacity(n);
                for i in 0..n {
                    if raw[2 * i].is_some() && raw[2 * i] == raw[2 * i + 1] {
                        nx.push(lvl[2 * i]);
                        nr.push(raw[2 * i]);
                    } else {
                        nx.push((z.mk_ite)(cx, b, lvl[2 * i + 1], lvl[2 * i]));
                        nr.push(None);
                    }
                }
                lvl = nx;
                raw = nr;
            }
            lvl[0]
        }
    }
    fn fp(&mut self, op: FOp, a: &[Ast], ws: &[u32], w: u32) -> Ast {
        let z = self.z.clone();
        let cx = self.cx;
        unsafe {
            if self.precise && !matches!(op, FOp::Rem | FOp::FpToSiSat | FOp::FpToUiSat) {
                let fs = |w: u32| if w == 32 { (z.mk_fpa_sort)(cx, 8, 24) } else { (z.mk_fpa_sort)(cx, 11, 53) };
                let rne = (z.mk_fpa_rne)(cx);
                let f = |i: usize| (z.mk_fpa_to_fp_bv)(cx, a[i], fs(ws[i]));
                let r = match op {
                    FOp::Add => (z.mk_fpa_add)(cx, rne, f(0), f(1)),
                    FOp::Mul => (z.mk_fpa_mul)(cx, rne, f(0), f(1)),
                    FOp::Div => (z.mk_fpa_div)(cx, rne, f(0), f(1)),
                    FOp::Fma => (z.mk_fpa_fma)(cx, rne, f(0), f(1), f(2)),
                    FOp::Sqrt => (z.mk_fpa_sqrt)(cx, rne, f(0)),
                    FOp::SiToFp => (z.mk_fpa_to_fp_signed)(cx, rne, a[0], fs(w)),
                    FOp::UiToFp => (z.mk_fpa_to_fp_unsigned)(cx, rne, a[0], fs(w)),
                    FOp::FpTrunc | FOp::FpExt => (z.mk_fpa_to_fp_float)(cx, rne, f(0), fs(w)),
                    _ => unreachable!(),
                };
                return (z.mk_fpa_to_ieee_bv)(cx, r);
            }
            let key = (op, ws.to_vec(), w);
            let d = match self.fdecls.get(&key) {
                Some(d) => *d,
                None => {
                    let doms: Vec<Ptr> = ws.iter().map(|w| self.sort(*w)).collect();
                    let name = CString::new(format!("fp_{:?}_{:?}_{}", op, ws, w)).unwrap();
                    let d = (z.mk_func_decl)(cx, (z.mk_string_symbol)(cx, name.as_ptr()), doms.len() as u32, doms.as_ptr(), self.sort(w));
                    self.fdecls.insert(key, d);
                    d
                }
            };
            (z.mk_app)(cx, d, a.len() as u32, a.as_ptr())
        }
    }

    /// `conds` must all be non-constant. `base` is a model used to fill variables outside the query.
    pub fn check(&mut self, c: &mut Ctx, conds: &[T], base: &Rc<Model>) -> Res {
        self.stats.queries += 1;
        let mut key: Vec<T> = vec![];
        for &x in conds {
            match c.cv(x) {
                Some(0) => {
                    self.stats.trivial += 1;
                    return Res::Unsat;
                }
                Some(_) => {}
                None => key.push(x),
            }
        }
        key.sort_unstable();
        key.dedup();
        if key.is_empty() {
            return Res::Sat(base.clone());
        }
        for x in &key {
            let n = c.not(*x);
            if key.binary_search(&n).is_ok() {
                self.stats.trivial += 1;
                return Res::Unsat;
            }
        }
        let vars: Vec<u32> = {
            let mut v = vec![];
            for x in &key {
                v.extend_from_slice(&c.vars(*x));
            }
            v.sort_unstable();
            v.dedup();
            v
        };
        let merge = |m: &Model| -> Rc<Model> {
            let mut r = (**base).clone();
            let mx = *vars.last().unwrap() as usize;
            if r.vals.len() <= mx {
                r.vals.resize(mx + 1, 0);
            }
            for v in &vars {
                r.vals[*v as usize] = m.get(*v);
            }
            Rc::new(r)
        };
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return match r {
                Res::Sat(m) => Res::Sat(merge(m)),
                x => x.clone(),
            };
        }
        // recent models
        for m in self.models.iter().rev().take(6) {
            let mut ev = Evaluator::new(m.clone());
            if key.iter().all(|k| ev.eval(c, *k) == 1) {
                self.stats.model_hits += 1;
                let r = merge(m);
                self.cache.insert(key, Res::Sat(r.clone()));
                return Res::Sat(r);
            }
        }
        let mut cross = false;
        if vars.len() == 1 {
            let d = self.domain(c, vars[0], &key);
            self.stats.table += 1;
            // a sample of the truth-table verdicts is re-decided by z3
            // (fewer when the terms are large: at most about a tenth of the time goes there)
            let check = self.stats.table % 16 == 0 && self.cross_us <= 500_000 + self.start.elapsed().as_micros() as u64 / 10;
            match (0..256).find(|i| d[i / 64] >> (i % 64) & 1 == 1) {
                Some(i) => {
                    let mut m = (**base).clone();
                    let v = vars[0] as usize;
                    if m.vals.len() <= v {
                        m.vals.resize(v + 1, 0);
                    }
                    m.vals[v] = i as u8;
                    let r = Rc::new(m);
                    self.cache.insert(key, Res::Sat(r.clone()));
                    return Res::Sat(r);
                }
                None if !check => {
                    self.cache.insert(key, Res::Unsat);
                    return Res::Unsat;
                }
                None => {
                    self.stats.cross_checked += 1;
                    cross = true;
                }
            }
        }
        // an equation defining otherwise free bytes can be solved by evaluation; the result is
        // accepted only if it satisfies every condition
        if let Some(m) = Self::repair(c, &key, base) {
            self.stats.model_hits += 1;
            let r = merge(&m);
            self.cache.insert(key, Res::Sat(r.clone()));
            return Res::Sat(r);
        }
        let t0 = Instant::now();
        let r = self.decide(c, &key, &vars, base);
        let us = t0.elapsed().as_micros() as u64;
        if us > self.slow_us {
            eprintln!("slow query {} ms:", us / 1000);
            let depth = std::env::var("SYMX_DEPTH").ok().and_then(|d| d.parse().ok()).unwrap_or(4u32);
            for k in &key {
                eprintln!("   {}", c.show(*k, depth).chars().take(100 * depth as usize).collect::<String>());
            }
        }
        if cross {
            self.cross_us += us;
        }
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        match &r {
            Res::Sat(m) => {
                self.stats.sat += 1;
                self.models.push(m.clone());
                if self.models.len() > 64 {
                    self.models.drain(..32);
                }
            }
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
        self.cache.insert(key, r.clone());
        r
    }

    /// values of a byte variable that satisfy conditions over it alone
    pub fn domain(&mut self, c: &Ctx, v: u32, conds: &[T]) -> [u64; 4] {
        let tb = self.tables.entry(v).or_default();
        let mut d = [!0u64; 4];
        for k in conds {
            let s = tb.set(c, *k);
            for i in 0..4 {
                d[i] &= s[i];
            }
        }
        d
    }

    fn repair(c: &Ctx, key: &[T], base: &Rc<Model>) -> Option<Rc<Model>> {
        let mut m = base.clone();
        for _ in 0..2 {
            let mut ev = Evaluator::new(m.clone());
            let bad: Vec<T> = key.iter().copied().filter(|k| ev.eval(c, *k) != 1).collect();
            if bad.is_empty() {
                return Some(m);
            }
            if bad.len() > 3 {
                return None;
            }
            let mut nm = (*m).clone();
            for b in bad {
                let (a, x) = match c.n(b) {
                    N::Eq(a, x) => (*a, *x),
                    _ => return None,
                };
                let assignable = |t: T| -> bool {
                    match c.n(t) {
                        N::Var(_) => true,
                        N::Cat(ps) => ps.iter().all(|p| matches!(c.n(*p), N::Var(_))),
                        _ => false,
                    }
                };
                let (dst, src) = if assignable(a) { (a, x) } else if assignable(x) { (x, a) } else { return None };
                let v = ev.eval(c, src);
                let parts: Vec<T> = match c.n(dst) {
                    N::Cat(ps) => ps.to_vec(),
                    _ => vec![dst],
                };
                for (i, p) in parts.iter().enumerate() {
                    if let N::Var(k) = c.n(*p) {
                        let k = *k as usize;
                        if nm.vals.len() <= k {
                            nm.vals.resize(k + 1, 0);
                        }
                        nm.vals[k] = (v >> (8 * i)) as u8;
                    }
                }
            }
            m = Rc::new(nm);
        }
        let mut ev = Evaluator::new(m.clone());
        if key.iter().all(|k| ev.eval(c, *k) == 1) { Some(m) } else { None }
    }

    fn decide(&mut self, c: &mut Ctx, key: &[T], vars: &[u32], base: &Rc<Model>) -> Res {
        self.stats.z3_queries += 1;
        let has_fp = key.iter().any(|k| c.t[*k as usize].fp);
        let asts: Vec<Ast> = key.iter().map(|k| self.boolean(c, *k)).collect();
        let z = self.z.clone();
        let cx = self.cx;
        let r = unsafe {
            (z.solver_push)(cx, self.simple);
            for a in &asts {
                (z.solver_assert)(cx, self.simple, *a);
            }
            let r = (z.solver_check)(cx, self.simple);
            let res = match r {
                1 => Some(Res::Sat(self.model(c, self.simple, vars, base))),
                -1 => Some(Res::Unsat),
                _ => None,
            };
            (z.solver_pop)(cx, self.simple, 1);
            match res {
                Some(Res::Unsat) if self.cross_every > 0 && self.stats.z3_queries % self.cross_every == 0 => {
                    self.stats.cross_checked += 1;
                    match self.slow(c, &asts, vars, base, "qfbv") {
                        Res::Sat(_) => panic!("solver configurations disagree"),
                        _ => Res::Unsat,
                    }
                }
                Some(x) => x,
                None => {
                    self.stats.second += 1;
                    self.slow(c, &asts, vars, base, if has_fp { "default" } else { "qfbv" })
                }
            }
        };
        if let Res::Sat(m) = &r {
            let mut ev = Evaluator::new(m.clone());
            if !key.iter().all(|k| ev.eval(c, *k) == 1) {
                if !has_fp {
                    for k in key {
                        if ev.eval(c, *k) != 1 {
                            panic!("model does not satisfy {}", c.show(*k, 8));
                        }
                    }
                }
                // spurious for the uninterpreted reading of the fp operations: decide precisely
                self.stats.fp_precise += 1;
                let mut s = Solver::new(self.z.clone());
                s.precise = true;
                s.timeout_ms = self.timeout_ms;
                let asts: Vec<Ast> = key.iter().map(|k| s.boolean(c, *k)).collect();
                let r = s.slow(c, &asts, vars, base, "default");
                if let Res::Sat(m) = &r {
                    let mut ev = Evaluator::new(m.clone());
                    if !key.iter().all(|k| ev.eval(c, *k) == 1) {
                        return Res::Unknown("floating-point model not confirmed".into());
                    }
                }
                return r;
            }
        }
        r
    }
    /// decide a sample of the simplifier's rewrites: (decided, undecided, a wrong one)
    pub fn audit(&mut self, c: &mut Ctx, limit: usize, seed: u64) -> (u64, u64, Option<String>) {
        let mut list = std::mem::take(&mut c.audit);
        let (mut yes, mut open) = (0, 0);
        let t0 = std::time::Instant::now();
        let mut rng = seed | 1;
        let mut sizes = std::collections::HashMap::new();
        for _ in 0..4 * limit {
            if yes + open >= limit as u64 {
                break;
            }
            if list.is_empty() || t0.elapsed().as_millis() > 1500 {
                break;
            }
            rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let (n, w, r) = list.swap_remove((rng >> 33) as usize % list.len());
            let text = format!("{:?}", n);
            // the translation of deeply shared terms takes time in their unfolded size
            if c.unfolded(r, &mut sizes) > 5000 || c.operands(&n).iter().any(|x| c.unfolded(*x, &mut sizes) > 5000) {
                continue;
            }
            let raw = c.unsimplified(n, w);
            let e = c.unsimplified(N::Eq(raw, r), 1);
            let q = c.unsimplified(N::Not(e), 1);
            let a = self.boolean(c, q);
            let (z, cx) = (self.z.clone(), self.cx);
            let res = unsafe {
                let s = (z.mk_solver_from_tactic)(cx, (z.mk_tactic)(cx, c"qfbv".as_ptr()));
                (z.solver_inc_ref)(cx, s);
                let p = (z.mk_params)(cx);
                (z.params_inc_ref)(cx, p);
                (z.params_set_uint)(cx, p, (z.mk_string_symbol)(cx, c"timeout".as_ptr()), 300);
                (z.solver_set_params)(cx, s, p);
                (z.solver_assert)(cx, s, a);
                let r = (z.solver_check)(cx, s);
                (z.solver_dec_ref)(cx, s);
                (z.params_dec_ref)(cx, p);
                r
            };
            match res {
                -1 => yes += 1,
                1 => return (yes, open, Some(format!("{} is not {}: {}", text, r, c.show(raw, 4)))),
                _ => open += 1,
            }
        }
        (yes, open, None)
    }
    fn slow(&mut self, c: &Ctx, asts: &[Ast], vars: &[u32], base: &Rc<Model>, tac: &str) -> Res {
        let z = self.z.clone();
        let cx = self.cx;
        unsafe {
            let name = CString::new(tac).unwrap();
            let t = (z.mk_tactic)(cx, name.as_ptr());
            let s = (z.mk_solver_from_tactic)(cx, t);
            (z.solver_inc_ref)(cx, s);
            let p = (z.mk_params)(cx);
            (z.params_inc_ref)(cx, p);
            (z.params_set_uint)(cx, p, (z.mk_string_symbol)(cx, c"timeout".as_ptr()), self.timeout_ms);
            (z.solver_set_params)(cx, s, p);
            for a in asts {
                (z.solver_assert)(cx, s, *a);
            }
            let r = (z.solver_check)(cx, s);
            let res = match r {
                1 => Res::Sat(self.model(c, s, vars, base)),
                -1 => Res::Unsat,
                _ => {
                    let why = CStr::from_ptr((z.solver_get_reason_unknown)(cx, s)).to_string_lossy().into_owned();
                    Res::Unknown(why)
                }
            };
            (z.solver_dec_ref)(cx, s);
            (z.params_dec_ref)(cx, p);
            res
        }
    }
    fn model(&mut self, c: &Ctx, s: Ptr, vars: &[u32], base: &Rc<Model>) -> Rc<Model> {
        let z = self.z.clone();
        let cx = self.cx;
        let _ = c;
        let mut r = (**base).clone();
        let mx = *vars.last().unwrap_or(&0) as usize;
        if r.vals.len() <= mx {
            r.vals.resize(mx + 1, 0);
        }
        unsafe {
            let m = (z.solver_get_model)(cx, s);
            (z.model_inc_ref)(cx, m);
            for v in vars {
                let a = (z.mk_const)(cx, (z.mk_int_symbol)(cx, *v as i32), self.sort(8));
                let mut o: Ast = std::ptr::null_mut();
                let mut x = 0u64;
                if (z.model_eval)(cx, m, a, true, &mut o) {
                    (z.get_numeral_uint64)(cx, o, &mut x);
                }
                r.vals[*v as usize] = x as u8;
            }
            (z.model_dec_ref)(cx, m);
        }
        Rc::new(r)
    }
    pub fn smt2(&mut self, c: &Ctx, conds: &[T]) -> String {
        let asts: Vec<Ast> = conds.iter().filter(|k| c.cv(**k).is_none()).map(|k| self.boolean(c, *k)).collect();
        unsafe {
            let z = self.z.clone();
            (z.solver_push)(self.cx, self.simple);
            for a in &asts {
                (z.solver_assert)(self.cx, self.simple, *a);
            }
            let s = CStr::from_ptr((z.solver_to_string)(self.cx, self.simple)).to_string_lossy().into_owned();
            (z.solver_pop)(self.cx, self.simple, 1);
            s
        }
    }
}
