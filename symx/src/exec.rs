//! Symbolic execution of the lowered module.
use crate::ir::*;
use crate::mem::*;
use crate::prog::*;
use crate::solver::*;
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<CFunc>,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub dest: u32,
    pub ret_ty: TyId,
    pub normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Input {
    Sym(u32, u32),
    Choice(u64),
}

#[derive(Default)]
pub struct Subst {
    /// per variable: (known mask, value)
    pub known: HashMap<u32, (u8, u8), BuildH>,
    pub memo: RefCell<HashMap<T, T, BuildH>>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub top: Frame,
    pub mem: Mem,
    pub pc: Rc<Vec<T>>,
    /// the conjuncts of the path condition in canonical form
    pub lits: Rc<HashSet<T, BuildH>>,
    pub subst: Rc<Subst>,
    pub fixed: Rc<Vec<(T, u128)>>,
    pub model: Rc<Model>,
    pub inputs: Vec<Input>,
    pub nvar: u32,
    pub pending: Option<u64>,
    pub insts: u64,
    pub step_limit: u64,
    pub split: bool,
    pub lim_single: u64,
    pub lim_total: u64,
    pub heap: u64,
    pub covers: Rc<BTreeSet<u64>>,
    pub trace: Rc<Vec<(u8, T, u8)>>,
    pub marks: Rc<Vec<u64>>,
    pub forks: u32,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub site: String,
    pub inputs: Vec<String>,
    pub case: u64,
    pub marks: Vec<u64>,
}

#[derive(Debug)]
pub enum Stop {
    /// path ended normally / infeasible / assumption
    Done,
    Killed,
    Violation,
    Inconclusive(String),
}

#[derive(Default, Clone, Debug)]
pub struct Counters {
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub insts: u64,
    pub asserts: u64,
    pub asserts_trivial: u64,
    pub asserts_solver: u64,
    pub safety: u64,
}

pub struct Sample {
    pub inputs: Vec<String>,
    pub trace: String,
}

pub struct Exec {
    pub p: Prog,
    pub c: Ctx,
    pub s: Solver,
    pub ev: Evaluator,
    pub work: Vec<State>,
    pub viol: Vec<Violation>,
    seen_viol: HashSet<(String, String)>,
    pub incon: Vec<String>,
    pub covers: BTreeMap<u64, u64>,
    pub funcs_hit: Vec<bool>,
    pub blocks_hit: HashSet<(u32, u32), BuildH>,
    pub cnt: Counters,
    pub case: u64,
    pub tier: u64,
    pub samples: Vec<Sample>,
    pub sample_every: u64,
    pub max_samples: usize,
    pub seed: u64,
    pub verbose: bool,
    /// concrete mode: inputs are read from here
    pub script: Option<Vec<Vec<u8>>>,
    pub deadline: Option<std::time::Instant>,
    /// seconds (from `epoch`, 0 when unset) after which every worker stops because a violation was found
    pub stop_at: Option<(&'static std::sync::atomic::AtomicU64, std::time::Instant, u64)>,
    pub fork_sites: HashMap<String, u64>,
    pub site_prof: bool,
    pub prints: bool,
    pub discover: Option<u64>,
}

type R<X> = Result<X, Stop>;

#[inline]
fn m64(w: u32) -> u64 {
    if w >= 64 { !0 } else { (1u64 << w) - 1 }
}
#[inline]
fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}

impl Exec {
    pub fn new(p: Prog, s: Solver) -> Exec {
        let nf = p.funcs.len();
        Exec {
            p,
            c: Ctx::new(),
            s,
            ev: Evaluator::new(Rc::new(Model::default())),
            work: vec![],
            viol: vec![],
            seen_viol: HashSet::new(),
            incon: vec![],
            covers: BTreeMap::new(),
            funcs_hit: vec![false; nf],
            blocks_hit: HashSet::default(),
            cnt: Counters::default(),
            case: 0,
            tier: 0,
            samples: vec![],
            sample_every: 97,
            max_samples: 2,
            seed: 0,
            verbose: false,
            script: None,
            deadline: None,
            stop_at: None,
            fork_sites: HashMap::new(),
            site_prof: false,
            prints: false,
            discover: None,
        }
    }

    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let sym = *self.p.m.symmap.get(entry).ok_or_else(|| format!("no entry {}", entry))?;
        let f = match self.p.kinds[sym as usize] {
            SymKind::Func(f) => self.p.funcs[f as usize].clone(),
            _ => return Err(format!("entry {} is not a function", entry)),
        };
        let top = Frame { regs: vec![Val::I(0); f.nregs as usize], f, bb: 0, ip: 0, allocas: vec![], dest: NOREG, ret_ty: 0, normal: None };
        let st = State {
            frames: vec![],
            top,
            mem: self.p.mem.clone(),
            pc: Rc::new(vec![]),
            lits: Rc::new(HashSet::default()),
            subst: Rc::new(Subst::default()),
            fixed: Rc::new(vec![]),
            model: Rc::new(Model::default()),
            inputs: vec![],
            nvar: 0,
            pending: None,
            insts: 0,
            step_limit: 400_000_000,
            split: false,
            lim_single: 1 << 30,
            lim_total: 1 << 31,
            heap: 0,
            covers: Rc::new(BTreeSet::new()),
            trace: Rc::new(vec![]),
            marks: Rc::new(vec![]),
            forks: 0,
        };
        self.work.push(st);
        Ok(())
    }

    pub fn run(&mut self) {
        while let Some(st) = self.work.pop() {
            if let Some(d) = self.deadline {
                if std::time::Instant::now() > d {
                    self.incon.push(format!("time budget exhausted with {} pending states", self.work.len() + 1));
                    self.work.clear();
                    return;
                }
            }
            if self.stopped() {
                self.incon.push(format!("stopped after a violation with {} pending states", self.work.len() + 1));
                self.work.clear();
                return;
            }
            self.run_state(st);
        }
    }

    /// a violation was found (in any worker) and the time granted after it is over
    pub fn stopped(&self) -> bool {
        match self.stop_at {
            Some((at, epoch, _)) => {
                let t = at.load(std::sync::atomic::Ordering::Relaxed);
                t != 0 && epoch.elapsed().as_secs() + 1 > t
            }
            None => false,
        }
    }
    pub fn run_one(&mut self, st: State) {
        self.run_state(st)
    }
    pub fn into_prog(self) -> Prog {
        self.p
    }
    fn run_state(&mut self, mut st: State) {
        let i0 = st.insts;
        let r = self.steps(&mut st);
        self.cnt.insts += st.insts - i0;
        match r {
            Ok(()) | Err(Stop::Done) => {
                self.cnt.paths += 1;
                for c in st.covers.iter() {
                    *self.covers.entry(*c).or_insert(0) += 1;
                }
                if self.samples.len() < self.max_samples && (self.cnt.paths == 1 || self.cnt.paths % self.sample_every == 0) {
                    let s = self.sample(&st);
                    self.samples.push(s);
                }
            }
            Err(Stop::Killed) => self.cnt.killed += 1,
            Err(Stop::Violation) => self.cnt.paths += 1,
            Err(Stop::Inconclusive(m)) => {
                let w = self.site(&st);
                self.incon.push(format!("{} at {}", m, w));
            }
        }
    }

    /// a model of the path with random values wherever the path condition allows
    fn varied(&mut self, st: &State) -> Rc<Model> {
        let mut vals = st.model.vals.clone();
        vals.resize(self.c.nvars as usize, 0);
        let mut x = 0x9E3779B97F4A7C15u64 ^ (self.cnt.paths as u64).wrapping_mul(0xD1B54A32D192ED03) ^ self.seed;
        let mut rnd = || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 24) as u8
        };
        let mut fixed: HashSet<u32, BuildH> = HashSet::default();
        for p in st.pc.iter() {
            fixed.extend(self.c.vars(*p).iter());
        }
        for i in 0..vals.len() {
            let r = rnd();
            if !fixed.contains(&(i as u32)) {
                vals[i] = r;
            }
        }
        let m = Rc::new(Model { vals });
        let mut ev = Evaluator::new(m.clone());
        if st.pc.iter().all(|p| ev.eval(&self.c, *p) == 1) {
            m
        } else {
            st.model.clone()
        }
    }
    fn sample(&mut self, st: &State) -> Sample {
        let model = self.varied(st);
        let mut ev = Evaluator::new(model.clone());
        let mut bytes = vec![];
        for (b, t, i) in st.trace.iter() {
            if *t == 0 {
                bytes.push(*b);
            } else {
                let w = self.c.w(*t);
                let lo = *i as u32 * 8;
                let v = ev.eval(&self.c, *t);
                let _ = w;
                bytes.push((v >> lo) as u8);
            }
        }
        Sample { inputs: Self::fmt_inputs(&st.inputs, &model), trace: hex(&bytes) }
    }
    fn fmt_inputs(inp: &[Input], m: &Model) -> Vec<String> {
        inp.iter()
            .map(|i| match i {
                Input::Sym(v, n) => format!("s{}", hex(&(*v..*v + *n).map(|x| m.get(x)).collect::<Vec<_>>())),
                Input::Choice(c) => format!("c{}", c),
            })
            .collect()
    }

    pub fn site(&self, st: &State) -> String {
        let mut v = vec![format!("{}:{}:{}", st.top.f.short, st.top.bb, st.top.ip)];
        for f in st.frames.iter().rev().take(5) {
            v.push(f.f.short.clone());
        }
        v.join(" < ")
    }

    fn violate(&mut self, st: &State, kind: &str, msg: String, model: Option<Rc<Model>>) {
        // identify by kind + innermost functions, so that one defect is reported once per unit
        let mut site = vec![];
        if kind != "assert" {
            site.push(st.top.f.short.clone());
            for f in st.frames.iter().rev().take(4) {
                site.push(f.f.short.clone());
            }
        }
        let site = site.join(" < ");
        if !self.seen_viol.insert((format!("{}:{}", kind, msg), site.clone())) {
            return;
        }
        if let Some((at, epoch, grace)) = self.stop_at.filter(|x| x.2 > 0) {
            let _ = at.compare_exchange(0, epoch.elapsed().as_secs() + 1 + grace, std::sync::atomic::Ordering::Relaxed, std::sync::atomic::Ordering::Relaxed);
        }
        let m = model.unwrap_or_else(|| st.model.clone());
        self.viol.push(Violation { kind: kind.into(), msg, site, inputs: Self::fmt_inputs(&st.inputs, &m), case: self.case, marks: st.marks.to_vec() });
    }

    // ------------------------------------------------------------ values

    #[inline]
    fn get<'a>(fr: &'a Frame, o: Opnd) -> &'a Val {
        match o {
            Opnd::Reg(r) => &fr.regs[r as usize],
            Opnd::Const(k) => &fr.f.consts[k as usize],
        }
    }
    fn term(&mut self, v: &Val, w: u32) -> T {
        match v {
            Val::I(x) => self.c.konst(*x as u128, w),
            Val::W(x) => self.c.konst(**x, w),
            Val::S(t) => {
                debug_assert_eq!(self.c.w(*t), w);
                *t
            }
            Val::A(_) => panic!("term of aggregate"),
        }
    }
    fn val(&self, t: T) -> Val {
        match self.c.cv(t) {
            Some(v) => Prog::mkint(v, self.c.w(t)),
            None => Val::S(t),
        }
    }
    fn wide(v: &Val) -> u128 {
        match v {
            Val::I(x) => *x as u128,
            Val::W(x) => **x,
            _ => panic!("wide"),
        }
    }
    fn is_conc(v: &Val) -> bool {
        matches!(v, Val::I(_) | Val::W(_))
    }

    // ------------------------------------------------------------ path conditions

    fn simp(&mut self, sb: &Rc<Subst>, t: T) -> T {
        if sb.known.is_empty() {
            return t;
        }
        if self.c.cv(t).is_some() {
            return t;
        }
        if let Some(r) = sb.memo.borrow().get(&t) {
            return *r;
        }
        let r = match self.c.n(t).clone() {
            N::Var(v) => match sb.known.get(&v) {
                None => t,
                Some((m, val)) => {
                    let mut parts = vec![];
                    let mut i = 0;
                    while i < 8 {
                        let k = m >> i & 1;
                        let mut j = i;
                        while j < 8 && m >> j & 1 == k {
                            j += 1;
                        }
                        if k == 1 {
                            parts.push(self.c.konst((*val >> i) as u128, j - i));
                        } else {
                            parts.push(self.c.extract(t, i, j - i));
                        }
                        i = j;
                    }
                    self.c.cat(parts)
                }
            },
            _ => {
                let vars = self.c.vars(t);
                if !vars.iter().any(|v| sb.known.contains_key(v)) {
                    t
                } else {
                    let sb2 = sb.clone();
                    // SAFETY of recursion: depth is bounded by the term depth
                    let mut selfp: *mut Exec = self;
                    let _ = &mut selfp;
                    let ctx: *mut Ctx = &mut self.c;
                    let this: *mut Exec = self;
                    unsafe { (*ctx).rebuild(t, &mut |_c, x| (*this).simp(&sb2, x)) }
                }
            }
        };
        sb.memo.borrow_mut().insert(t, r);
        r
    }

    fn learn(&mut self, known: &mut HashMap<u32, (u8, u8), BuildH>, t: T) -> bool {
        // t is known to be true
        match self.c.n(t).clone() {
            N::And(a, b) => {
                let x = self.learn(known, a);
                let y = self.learn(known, b);
                x | y
            }
            N::Not(a) => match self.c.n(a).clone() {
                N::Or(x, y) => {
                    let (nx, ny) = (self.c.not(x), self.c.not(y));
                    let p = self.learn(known, nx);
                    let q = self.learn(known, ny);
                    p | q
                }
                _ => self.bits(known, a, 0),
            },
            N::Eq(a, b) => match self.c.cv(b) {
                Some(k) => self.bits(known, a, k),
                None => false,
            },
            N::Extract(..) => self.bits(known, t, 1),
            _ => false,
        }
    }
    fn bits(&mut self, known: &mut HashMap<u32, (u8, u8), BuildH>, t: T, k: u128) -> bool {
        let w = self.c.w(t);
        match self.c.n(t).clone() {
            N::Var(v) => {
                known.insert(v, (0xff, k as u8));
                true
            }
            N::Extract(a, lo) => match self.c.n(a) {
                N::Var(v) => {
                    let m = ((mask(w) << lo) & 0xff) as u8;
                    let e = known.entry(*v).or_insert((0, 0));
                    e.0 |= m;
                    e.1 = (e.1 & !m) | ((k << lo) as u8 & m);
                    true
                }
                _ => false,
            },
            N::Cat(ps) => {
                let mut o = 0;
                let mut r = false;
                for p in ps.iter() {
                    let pw = self.c.w(*p);
                    r |= self.bits(known, *p, (k >> o) & mask(pw));
                    o += pw;
                }
                r
            }
            N::Not(a) => self.bits(known, a, !k & mask(w)),
            _ => false,
        }
    }

    pub fn add_pc(&mut self, st: &mut State, t: T) {
        if self.c.cv(t) == Some(1) {
            return;
        }
        Rc::make_mut(&mut st.pc).push(t);
        let mut parts = vec![self.c.canon(t)];
        while let Some(x) = parts.pop() {
            if let N::And(a, b) = *self.c.n(x) {
                parts.push(a);
                parts.push(b);
            }
            Rc::make_mut(&mut st.lits).insert(x);
        }
        let mut known = st.subst.known.clone();
        let mut new = self.learn(&mut known, t);
        // bits of a byte on which all its remaining values agree
        let vs = self.c.vars(t);
        if vs.len() == 1 {
            let pc = st.pc.clone();
            let conds: Vec<T> = pc.iter().copied().filter(|p| *self.c.vars(*p) == *vs).collect();
            let d = self.s.domain(&self.c, vs[0], &conds);
            let (mut a, mut o) = (255u8, 0u8);
            for i in 0..256usize {
                if d[i / 64] >> (i % 64) & 1 == 1 {
                    a &= i as u8;
                    o |= i as u8;
                }
            }
            let m = !(a ^ o);
            if a & !o == 0 && m != 0 {
                let old = known.get(&vs[0]).copied().unwrap_or((0, 0));
                if old.0 | m != old.0 {
                    known.insert(vs[0], (m, a & m));
                    new = true;
                }
            }
        }
        if new {
            st.subst = Rc::new(Subst { known, memo: RefCell::new(HashMap::default()) });
        }
    }

    fn slice(&mut self, st: &State, cond: T) -> Vec<T> {
        let mut vs: HashSet<u32, BuildH> = HashSet::default();
        vs.extend(self.c.vars(cond).iter());
        let pc = st.pc.clone();
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, p) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let pv = self.c.vars(*p);
                if pv.iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    out.push(*p);
                    for v in pv.iter() {
                        ch |= vs.insert(*v);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }

    fn query(&mut self, st: &State, cond: T) -> R<Option<Rc<Model>>> {
        if self.c.cv(cond) == Some(0) {
            return Ok(None);
        }
        let nc = self.c.not(cond);
        if self.holds(st, nc) {
            return Ok(None);
        }
        let mut q = self.slice(st, cond);
        q.push(cond);
        match self.s.check(&mut self.c, &q, &st.model) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown(w) => Err(Stop::Inconclusive(format!("solver gave no answer: {}", w))),
        }
    }
    fn meval(&mut self, st: &State, t: T) -> u128 {
        if !Rc::ptr_eq(&self.ev.model, &st.model) {
            self.ev = Evaluator::new(st.model.clone());
        }
        self.ev.eval(&self.c, t)
    }

    /// a condition that is literally part of the path condition is a constant
    fn known(&mut self, st: &State, v: Val) -> Val {
        let Val::S(t) = v else { return v };
        match self.settled(st, t) {
            Some(b) => Val::I(b as u64),
            None => Val::S(t),
        }
    }

    /// the condition follows from the conjuncts of the path condition by propositional reasoning
    fn holds(&mut self, st: &State, t: T) -> bool {
        let t = self.c.canon(t);
        self.holds_c(st, t, 6)
    }
    fn holds_c(&mut self, st: &State, t: T, depth: u32) -> bool {
        if self.c.cv(t) == Some(1) || st.lits.contains(&t) {
            return true;
        }
        match *self.c.n(t) {
            N::And(a, b) if depth > 0 => self.holds_c(st, a, depth - 1) && self.holds_c(st, b, depth - 1),
            N::Or(a, b) if depth > 0 => self.holds_c(st, a, depth - 1) || self.holds_c(st, b, depth - 1),
            _ => false,
        }
    }
    fn settled(&mut self, st: &State, t: T) -> Option<bool> {
        if self.holds(st, t) {
            return Some(true);
        }
        let nt = self.c.not(t);
        if self.holds(st, nt) {
            return Some(false);
        }
        None
    }

    fn forked(&mut self, st: &State) {
        self.cnt.forks += 1;
        if self.site_prof {
            let s = self.site(st);
            *self.fork_sites.entry(s).or_insert(0) += 1;
        }
    }

    /// Decide a 1-bit condition; when both outcomes are feasible the alternative is queued
    /// (it will re-execute the current instruction).
    fn decide(&mut self, st: &mut State, v: &Val) -> R<bool> {
        let t = match v {
            Val::I(x) => return Ok(*x & 1 == 1),
            Val::S(t) => *t,
            _ => panic!("decide"),
        };
        if let Some(b) = self.settled(st, t) {
            return Ok(b);
        }
        let t = {
            let sb = st.subst.clone();
            self.simp(&sb, t)
        };
        if let Some(x) = self.c.cv(t) {
            return Ok(x == 1);
        }
        let b = self.meval(st, t) == 1;
        let nt = self.c.not(t);
        let (cur, other) = if b { (t, nt) } else { (nt, t) };
        if let Some(m) = self.query(st, other)? {
            let mut alt = st.clone();
            alt.model = m;
            alt.forks += 1;
            self.add_pc(&mut alt, other);
            self.forked(st);
            self.work.push(alt);
            st.forks += 1;
            self.add_pc(st, cur);
        }
        Ok(b)
    }

    fn conc128(&mut self, st: &mut State, v: &Val, limit: usize, what: &str) -> R<u128> {
        let t0 = match v {
            Val::I(x) => return Ok(*x as u128),
            Val::W(x) => return Ok(**x),
            Val::S(t) => *t,
            _ => panic!("conc"),
        };
        let sb = st.subst.clone();
        let t = self.simp(&sb, t0);
        if let Some(x) = self.c.cv(t) {
            return Ok(x);
        }
        for (a, x) in st.fixed.iter() {
            if *a == t0 {
                return Ok(*x);
            }
        }
        let w = self.c.w(t);
        let first = self.meval(st, t);
        let mut vals = vec![first];
        let mut excl: Vec<T> = vec![];
        let k = self.c.konst(first, w);
        let e = self.c.eq(t, k);
        excl.push(self.c.not(e));
        let mut alts = vec![];
        loop {
            let mut cond = self.c.tt;
            for x in &excl {
                cond = self.c.and(cond, *x);
            }
            let q = {
                let mut q = self.slice(st, t);
                q.extend_from_slice(&excl);
                self.s.check(&mut self.c, &q, &st.model)
            };
            let m = match q {
                Res::Sat(m) => m,
                Res::Unsat => break,
                Res::Unknown(w) => return Err(Stop::Inconclusive(format!("solver gave no answer: {}", w))),
            };
            let x = Evaluator::new(m.clone()).eval(&self.c, t);
            if vals.contains(&x) {
                return Err(Stop::Inconclusive("enumeration made no progress".into()));
            }
            vals.push(x);
            if vals.len() > limit {
                return Err(Stop::Inconclusive(format!("more than {} values for {}", limit, what)));
            }
            let k = self.c.konst(x, w);
            let e = self.c.eq(t, k);
            excl.push(self.c.not(e));
            alts.push((x, e, m));
        }
        for (x, e, m) in alts {
            let mut alt = st.clone();
            alt.model = m;
            alt.forks += 1;
            self.add_pc(&mut alt, e);
            Rc::make_mut(&mut alt.fixed).push((t0, x));
            self.forked(st);
            self.work.push(alt);
        }
        let k = self.c.konst(first, w);
        let e = self.c.eq(t, k);
        self.add_pc(st, e);
        Rc::make_mut(&mut st.fixed).push((t0, first));
        Ok(first)
    }
    fn conc(&mut self, st: &mut State, v: &Val, what: &str) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            _ => Ok(self.conc128(st, v, 2048, what)? as u64),
        }
    }

    // ------------------------------------------------------------ memory

    fn memfail(&mut self, st: &State, e: MemErr, what: &str, addr: u64, n: u64) -> Stop {
        let (id, off) = split(addr);
        let size = st.mem.obj(id).map(|o| o.data.len()).unwrap_or(0);
        self.violate(st, "memory", format!("{:?} {} of {} bytes at offset {} of object size {}", e, what, n, off, size), None);
        if self.verbose {
            eprintln!("memfail {:?} {} addr {:#x} at {}", e, what, addr, self.site(st));
        }
        Stop::Violation
    }

    fn load_scalar(&mut self, st: &State, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as u64;
        let (id, off) = match st.mem.check(addr, n) {
            Ok(x) => x,
            Err(e) => return Err(self.memfail(st, e, "load", addr, n)),
        };
        let o = st.mem.obj(id).unwrap();
        let n = n as usize;
        if let Some(s) = &o.sym {
            let s = &s[off..off + n];
            if s.iter().any(|x| x.0 != 0) {
                let d = &o.data[off..off + n];
                return Ok(Self::combine(&mut self.c, d, s, w));
            }
        }
        let d = &o.data[off..off + n];
        if n <= 8 {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(d);
            Ok(Val::I(u64::from_le_bytes(b) & m64(w)))
        } else {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(d);
            Ok(Prog::mkint(u128::from_le_bytes(b), w))
        }
    }
    fn combine(c: &mut Ctx, d: &[u8], s: &[(T, u8)], w: u32) -> Val {
        let mut parts = Vec::with_capacity(d.len());
        let n = d.len();
        let mut i = 0;
        while i < n {
            let (t, b) = s[i];
            if t == 0 {
                let mut j = i;
                let mut v = 0u128;
                while j < n && s[j].0 == 0 {
                    v |= (d[j] as u128) << (8 * (j - i));
                    j += 1;
                }
                parts.push(c.konst(v, 8 * (j - i) as u32));
                i = j;
            } else {
                let mut j = i + 1;
                while j < n && s[j].0 == t && s[j].1 as usize == b as usize + (j - i) {
                    j += 1;
                }
                let tw = c.w(t);
                let lo = 8 * b as u32;
                let len = 8 * (j - i) as u32;
                parts.push(if lo == 0 && len == tw { t } else { c.extract(t, lo, len) });
                i = j;
            }
        }
        let t = c.cat(parts);
        let t = if c.w(t) > w { c.extract(t, 0, w) } else { t };
        match c.cv(t) {
            Some(v) => Prog::mkint(v, w),
            None => Val::S(t),
        }
    }
    fn load(&mut self, st: &State, addr: u64, t: TyId) -> R<Val> {
        let ti = &self.p.tys[t as usize];
        if ti.w != 0 {
            let w = ti.w;
            return self.load_scalar(st, addr, w);
        }
        match ti.kind.clone() {
            Kind::Vec(n, e, ew) => {
                if ew % 8 != 0 {
                    let v = self.load_scalar(st, addr, n * ew)?;
                    return Ok(self.from_bits(&[(v, n * ew)], t));
                }
                let es = self.p.tys[e as usize].size;
                let mut v = Vec::with_capacity(n as usize);
                for i in 0..n {
                    v.push(self.load_scalar(st, addr + i as u64 * es, ew)?);
                }
                Ok(Val::A(v.into()))
            }
            Kind::Agg(es) => {
                let mut v = Vec::with_capacity(es.len());
                for (e, o) in es {
                    v.push(self.load(st, addr + o, e)?);
                }
                Ok(Val::A(v.into()))
            }
            _ => Ok(Val::I(0)),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, t: TyId, v: &Val) -> R<()> {
        let ti = &self.p.tys[t as usize];
        if ti.w != 0 {
            let w = ti.w;
            return self.store_scalar(st, addr, w, v);
        }
        match ti.kind.clone() {
            Kind::Vec(n, e, ew) => {
                if ew % 8 != 0 {
                    let b = self.to_bits(v, t);
                    let x = self.recut(&b, n * ew, 1)[0].clone();
                    return self.store_scalar(st, addr, n * ew, &x);
                }
                let es = self.p.tys[e as usize].size;
                if let Val::A(a) = v {
                    for i in 0..n {
                        self.store_scalar(st, addr + i as u64 * es, ew, &a[i as usize])?;
                    }
                }
                Ok(())
            }
            Kind::Agg(es) => {
                if let Val::A(a) = v {
                    for (i, (e, o)) in es.iter().enumerate() {
                        self.store(st, addr + o, *e, &a[i])?;
                    }
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
    fn store_scalar(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = match st.mem.check(addr, n as u64) {
            Ok(x) => x,
            Err(e) => return Err(self.memfail(st, e, "store", addr, n as u64)),
        };
        let o = st.mem.obj_mut(id).unwrap();
        if o.kind == OKind::Const {
            return Err(self.memfail(st, MemErr::ReadOnly, "store", addr, n as u64));
        }
        match v {
            Val::I(x) => {
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                } else {
                    o.data[off..off + n].copy_from_slice(&(*x as u128).to_le_bytes()[..n]);
                }
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill((0, 0));
                }
            }
            Val::W(x) => {
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill((0, 0));
                }
            }
            Val::S(t) => {
                let t = if w % 8 != 0 { self.c.zext(*t, 8 * n as u32) } else { *t };
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![(0, 0); len]);
                for i in 0..n {
                    s[off + i] = (t, i as u8);
                }
            }
            Val::A(_) => panic!("store agg"),
        }
        Ok(())
    }

    /// load through a symbolic address
    fn load_sym(&mut self, st: &mut State, at: T, t: TyId) -> R<Val> {
        let sb = st.subst.clone();
        let at = self.simp(&sb, at);
        if let Some(a) = self.c.cv(at) {
            return self.load(st, a as u64, t);
        }
        let w = self.p.tys[t as usize].w;
        let a0 = self.meval(st, at) as u64;
        let (id, _) = split(a0);
        let base = ((id as u64) << 32) + BASE;
        let n = self.p.tys[t as usize].ssize;
        let size = match st.mem.obj(id) {
            Ok(o) => o.data.len() as u64,
            Err(e) => return Err(self.memfail(st, e, "load", a0, n)),
        };
        if w == 0 || n > size {
            let a = self.conc(st, &Val::S(at), "address")?;
            return self.load(st, a, t);
        }
        let kb = self.c.konst(base as u128, 64);
        let off = self.c.sub(at, kb);
        // every feasible address must be inside this object
        let lim = self.c.konst((size - n) as u128, 64);
        let bad = self.c.ult(lim, off);
        if self.c.cv(bad) != Some(0) {
            if self.c.cv(bad) == Some(1) || self.query(st, bad)?.is_some() {
                // several objects, or out of bounds: split by value
                let a = self.conc(st, &Val::S(at), "address")?;
                return self.load(st, a, t);
            }
        }
        self.cnt.safety += 1;
        let (kz, ko) = (self.c.t[off as usize].kz, self.c.t[off as usize].ko);
        // restrict to the bits below the object size
        let bits: u32 = 64 - (size - n).leading_zeros();
        let mut unk = vec![];
        for i in 0..bits {
            if (kz | ko) >> i & 1 == 0 {
                unk.push(i);
            }
        }
        // input-like memory at an unknown offset: one path per offset keeps the terms small
        let konst = st.mem.obj(id).map(|o| o.kind == OKind::Const).unwrap_or(false);
        if unk.len() > 12 || (!konst && unk.len() > 3) {
            let a = self.conc(st, &Val::S(at), "address")?;
            return self.load(st, a, t);
        }
        let cnt = 1usize << unk.len();
        let mut vals = Vec::with_capacity(cnt);
        let mut allc = true;
        for i in 0..cnt {
            let mut o = ko as u64 & m64(bits);
            for (j, b) in unk.iter().enumerate() {
                if i >> j & 1 == 1 {
                    o |= 1 << b;
                }
            }
            let v = if o + n <= size { self.load_scalar(st, base + o, w)? } else { Val::I(0) };
            allc &= Self::is_conc(&v);
            vals.push(v);
        }
        let parts: Vec<T> = unk.iter().map(|b| self.c.extract(off, *b, 1)).collect();
        let idx = self.c.cat(parts);
        if allc {
            let tv: Vec<u128> = vals.iter().map(Self::wide).collect();
            let r = self.c.tab(tv, w, idx);
            return Ok(self.val(r));
        }
        if cnt > 64 {
            let a = self.conc(st, &Val::S(at), "address")?;
            return self.load(st, a, t);
        }
        let mut lvl: Vec<T> = vals.iter().map(|v| self.term(v, w)).collect();
        for b in 0..unk.len() {
            let c = self.c.extract(off, unk[b], 1);
            lvl = lvl.chunks(2).map(|p| self.c.ite(c, p[1], p[0])).collect();
        }
        Ok(self.val(lvl[0]))
    }

    // ------------------------------------------------------------ vectors / bit casts

    fn to_bits(&mut self, v: &Val, t: TyId) -> Vec<(Val, u32)> {
        let ti = &self.p.tys[t as usize];
        if ti.w != 0 {
            return vec![(v.clone(), ti.w)];
        }
        match (&ti.kind, v) {
            (Kind::Vec(_, _, w), Val::A(a)) => a.iter().map(|x| (x.clone(), *w)).collect(),
            _ => panic!("to_bits"),
        }
    }
    fn recut(&mut self, parts: &[(Val, u32)], ew: u32, n: u32) -> Vec<Val> {
        let mut out = vec![];
        let allc = parts.iter().all(|p| Self::is_conc(&p.0));
        let mut pi = 0;
        let mut po = 0; // bit offset in parts[pi]
        for _ in 0..n {
            let mut need = ew;
            let mut got = 0;
            let mut acc = 0u128;
            let mut ts: Vec<T> = vec![];
            while need > 0 {
                let (v, w) = &parts[pi];
                let take = need.min(w - po);
                if allc {
                    acc |= ((Self::wide(v) >> po) & mask(take)) << got;
                } else {
                    let t = self.term(v, *w);
                    ts.push(self.c.extract(t, po, take));
                }
                got += take;
                need -= take;
                po += take;
                if po == *w {
                    pi += 1;
                    po = 0;
                }
            }
            out.push(if allc {
                Prog::mkint(acc, ew)
            } else {
                let t = self.c.cat(ts);
                self.val(t)
            });
        }
        out
    }
    fn from_bits(&mut self, parts: &[(Val, u32)], t: TyId) -> Val {
        let ti = &self.p.tys[t as usize];
        if ti.w != 0 {
            let w = ti.w;
            return self.recut(parts, w, 1)[0].clone();
        }
        match ti.kind {
            Kind::Vec(n, _, ew) => Val::A(self.recut(parts, ew, n).into()),
            _ => panic!("from_bits"),
        }
    }

    // ------------------------------------------------------------ operators

    fn bin1(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        use BinOp::*;
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let r = match op {
                Add => x.wrapping_add(y),
                Sub => x.wrapping_sub(y),
                Mul => x.wrapping_mul(y),
                UDiv => if y == 0 { m } else { x / y },
                URem => if y == 0 { x } else { x % y },
                SDiv => if y == 0 { m } else { sx64(x, w).wrapping_div(sx64(y, w)) as u64 },
                SRem => if y == 0 { x } else { sx64(x, w).wrapping_rem(sx64(y, w)) as u64 },
                Shl => if y >= w as u64 { 0 } else { x << y },
                LShr => if y >= w as u64 { 0 } else { x >> y },
                AShr => (sx64(x, w) >> y.min(w as u64 - 1).min(63)) as u64,
                And => x & y,
                Or => x | y,
                Xor => x ^ y,
                FAdd | FSub | FMul | FDiv | FRem => {
                    let yy = if matches!(op, FSub) { y ^ (1 << (w - 1)) } else { y };
                    let o = match op {
                        FAdd | FSub => FOp::Add,
                        FMul => FOp::Mul,
                        FDiv => FOp::Div,
                        _ => FOp::Rem,
                    };
                    feval(o, &[(x as u128, w), (yy as u128, w)], w) as u64
                }
            };
            return Val::I(r & m);
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let c = &mut self.c;
        let r = match op {
            Add => c.add(x, y),
            Sub => c.sub(x, y),
            Mul => c.mul(x, y),
            UDiv => c.udiv(x, y),
            URem => c.urem(x, y),
            SDiv => c.sdiv(x, y),
            SRem => c.srem(x, y),
            Shl => c.shl(x, y),
            LShr => c.lshr(x, y),
            AShr => c.ashr(x, y),
            And => c.and(x, y),
            Or => c.or(x, y),
            Xor => c.xor(x, y),
            FAdd => c.fp(FOp::Add, &[x, y], w),
            FSub => {
                let s = c.konst(1u128 << (w - 1), w);
                let ny = c.xor(y, s);
                c.fp(FOp::Add, &[x, ny], w)
            }
            FMul => c.fp(FOp::Mul, &[x, y], w),
            FDiv => c.fp(FOp::Div, &[x, y], w),
            FRem => c.fp(FOp::Rem, &[x, y], w),
        };
        self.val(r)
    }
    fn icmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        use Pred::*;
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Eq => x == y,
                Ne => x != y,
                Ugt => x > y,
                Uge => x >= y,
                Ult => x < y,
                Ule => x <= y,
                Sgt => sx64(x, w) > sx64(y, w),
                Sge => sx64(x, w) >= sx64(y, w),
                Slt => sx64(x, w) < sx64(y, w),
                Sle => sx64(x, w) <= sx64(y, w),
            };
            return Val::I(r as u64);
        }
        let (x, y) = (self.term(a, w), self.term(b, w));
        let c = &mut self.c;
        let r = match p {
            Eq => c.eq(x, y),
            Ne => {
                let e = c.eq(x, y);
                c.not(e)
            }
            Ugt => c.ult(y, x),
            Uge => c.ule(y, x),
            Ult => c.ult(x, y),
            Ule => c.ule(x, y),
            Sgt => c.slt(y, x),
            Sge => c.sle(y, x),
            Slt => c.slt(x, y),
            Sle => c.sle(x, y),
        };
        self.val(r)
    }
    fn map2(&mut self, t: TyId, a: &Val, b: &Val, mut f: impl FnMut(&mut Self, u32, &Val, &Val) -> Val) -> Val {
        let ti = &self.p.tys[t as usize];
        if ti.w != 0 {
            let w = ti.w;
            return f(self, w, a, b);
        }
        let ew = match ti.kind {
            Kind::Vec(_, _, w) => w,
            _ => panic!("map2"),
        };
        match (a, b) {
            (Val::A(x), Val::A(y)) => Val::A(x.iter().zip(y.iter()).map(|(p, q)| f(self, ew, p, q)).collect::<Vec<_>>().into()),
            _ => panic!("map2"),
        }
    }
    fn map1(&mut self, t: TyId, a: &Val, mut f: impl FnMut(&mut Self, u32, &Val) -> Val) -> Val {
        let ti = &self.p.tys[t as usize];
        if ti.w != 0 {
            let w = ti.w;
            return f(self, w, a);
        }
        let ew = match ti.kind {
            Kind::Vec(_, _, w) => w,
            _ => panic!("map1"),
        };
        match a {
            Val::A(x) => Val::A(x.iter().map(|p| f(self, ew, p)).collect::<Vec<_>>().into()),
            _ => panic!("map1"),
        }
    }
    fn elem(&self, t: TyId) -> TyId {
        match self.p.tys[t as usize].kind {
            Kind::Vec(_, e, _) => e,
            _ => t,
        }
    }
    fn cast1(&mut self, op: CastOp, sw: u32, dw: u32, a: &Val) -> Val {
        use CastOp::*;
        match op {
            Trunc => match a {
                Val::I(x) => Val::I(x & m64(dw)),
                Val::W(x) => Prog::mkint(**x, dw),
                Val::S(t) => {
                    let r = self.c.extract(*t, 0, dw);
                    self.val(r)
                }
                _ => panic!(),
            },
            ZExt | PtrToInt | IntToPtr => {
                if sw == dw {
                    return a.clone();
                }
                if dw < sw {
                    return self.cast1(Trunc, sw, dw, a);
                }
                match a {
                    Val::I(x) => Prog::mkint(*x as u128, dw),
                    Val::W(x) => Prog::mkint(**x, dw),
                    Val::S(t) => {
                        let r = self.c.zext(*t, dw);
                        self.val(r)
                    }
                    _ => panic!(),
                }
            }
            SExt => match a {
                Val::S(t) => {
                    let r = self.c.sext(*t, dw);
                    self.val(r)
                }
                v => Prog::mkint(sext(Self::wide(v), sw) as u128, dw),
            },
            BitCast => a.clone(),
            SIToFP | UIToFP | FPTrunc | FPExt | FPToSI | FPToUI => {
                let o = match op {
                    SIToFP => FOp::SiToFp,
                    UIToFP => FOp::UiToFp,
                    FPTrunc => FOp::FpTrunc,
                    FPExt => FOp::FpExt,
                    FPToSI => FOp::FpToSiSat,
                    _ => FOp::FpToUiSat,
                };
                let t = self.term(a, sw);
                let r = self.c.fp(o, &[t], dw);
                self.val(r)
            }
        }
    }
    fn ite(&mut self, c: T, a: &Val, b: &Val, t: TyId) -> Val {
        let ti = &self.p.tys[t as usize];
        if ti.w != 0 {
            let w = ti.w;
            if let (Val::I(x), Val::I(y)) = (a, b) {
                if x == y {
                    return a.clone();
                }
            }
            let (x, y) = (self.term(a, w), self.term(b, w));
            let r = self.c.ite(c, x, y);
            return self.val(r);
        }
        let es: Vec<TyId> = match &ti.kind {
            Kind::Vec(n, e, _) => vec![*e; *n as usize],
            Kind::Agg(es) => es.iter().map(|e| e.0).collect(),
            _ => return a.clone(),
        };
        match (a, b) {
            (Val::A(x), Val::A(y)) => Val::A(es.iter().enumerate().map(|(i, e)| self.ite(c, &x[i], &y[i], *e)).collect::<Vec<_>>().into()),
            _ => panic!("ite"),
        }
    }
    fn has_ptr(&self, t: TyId) -> bool {
        match &self.p.tys[t as usize].kind {
            Kind::Ptr => true,
            Kind::Agg(es) => es.iter().any(|e| self.has_ptr(e.0)),
            _ => false,
        }
    }

    // ------------------------------------------------------------ main loop

    #[inline]
    fn set(st: &mut State, d: u32, v: Val) {
        if d != NOREG {
            st.top.regs[d as usize] = v;
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let from = st.top.bb;
        let f = st.top.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, _, inc) = &b.phis[0];
                let v = inc.iter().find(|x| x.1 == from).map(|x| Self::get(&st.top, x.0).clone()).expect("phi");
                st.top.regs[*d as usize] = v;
            } else {
                let mut vs = Vec::with_capacity(b.phis.len());
                for (_, _, inc) in &b.phis {
                    let v = inc.iter().find(|x| x.1 == from).map(|x| Self::get(&st.top, x.0).clone()).expect("phi");
                    vs.push(v);
                }
                for ((d, _, _), v) in b.phis.iter().zip(vs) {
                    st.top.regs[*d as usize] = v;
                }
            }
        }
        st.top.bb = to;
        st.top.ip = 0;
        if f.target {
            self.blocks_hit.insert((f.id, to));
        }
    }

    fn steps(&mut self, st: &mut State) -> R<()> {
        loop {
            let f = st.top.f.clone();
            // run inside this function until the frame changes
            loop {
                st.insts += 1;
                if st.insts >= st.step_limit {
                    let lim = st.step_limit;
                    self.violate(st, "budget", format!("more than {} steps on one path", lim), None);
                    return Err(Stop::Violation);
                }
                if st.insts & 0xfffff == 0 {
                    if let Some(d) = self.deadline {
                        if std::time::Instant::now() > d {
                            return Err(Stop::Inconclusive("time budget exhausted".into()));
                        }
                    }
                    if self.stopped() {
                        return Err(Stop::Inconclusive("stopped after a violation".into()));
                    }
                }
                let b = &f.blocks[st.top.bb as usize];
                let (d, inst) = &b.insts[st.top.ip as usize];
                let d = *d;
                match inst {
                    Inst::Bin(op, t, a, b) => {
                        let (x, y) = (Self::get(&st.top, *a), Self::get(&st.top, *b));
                        let w = self.p.tys[*t as usize].w;
                        let r = if w != 0 {
                            // fast path without cloning
                            if let (Val::I(_), Val::I(_)) = (x, y) {
                                self.bin1(*op, w, x, y)
                            } else {
                                let (x, mut y) = (x.clone(), y.clone());
                                if st.split && matches!(op, BinOp::Shl | BinOp::LShr | BinOp::AShr) {
                                    y = Val::I(self.conc128(st, &y, 128, "shift amount")? as u64);
                                }
                                self.bin1(*op, w, &x, &y)
                            }
                        } else {
                            let (x, y) = (x.clone(), y.clone());
                            self.map2(*t, &x, &y, |s, w, p, q| s.bin1(*op, w, p, q))
                        };
                        Self::set(st, d, r);
                    }
                    Inst::Icmp(p, t, a, b) => {
                        let (x, y) = (Self::get(&st.top, *a), Self::get(&st.top, *b));
                        let w = self.p.tys[*t as usize].w;
                        let r = if w != 0 {
                            if let (Val::I(_), Val::I(_)) = (x, y) {
                                self.icmp1(*p, w, x, y)
                            } else {
                                let (x, y) = (x.clone(), y.clone());
                                let r = self.icmp1(*p, w, &x, &y);
                                self.known(st, r)
                            }
                        } else {
                            let (x, y) = (x.clone(), y.clone());
                            self.map2(*t, &x, &y, |s, w, a, b| s.icmp1(*p, w, a, b))
                        };
                        Self::set(st, d, r);
                    }
                    Inst::Fcmp(p, t, a, b) => {
                        let (x, y) = (Self::get(&st.top, *a).clone(), Self::get(&st.top, *b).clone());
                        let r = self.map2(*t, &x, &y, |s, w, a, b| {
                            let (x, y) = (s.term(a, w), s.term(b, w));
                            let r = s.c.fcmp(*p, x, y);
                            s.val(r)
                        });
                        Self::set(st, d, r);
                    }
                    Inst::Cast(op, ts, td, a) => {
                        let x = Self::get(&st.top, *a);
                        let (sw, dw) = (self.p.tys[*ts as usize].w, self.p.tys[*td as usize].w);
                        let x = x.clone();
                        let r = if *op == CastOp::BitCast {
                            if sw != 0 && dw != 0 {
                                x
                            } else {
                                let b = self.to_bits(&x, *ts);
                                self.from_bits(&b, *td)
                            }
                        } else if sw != 0 {
                            let r = self.cast1(*op, sw, dw, &x);
                            match (op, &r) {
                                (CastOp::FPTrunc, Val::S(t)) => match self.c.n(*t).clone() {
                                    N::Ite(q, a, b) => match self.known(st, Val::S(q)) {
                                        Val::I(1) => self.val(a),
                                        Val::I(_) => self.val(b),
                                        _ => r,
                                    },
                                    _ => r,
                                },
                                _ => r,
                            }
                        } else {
                            let e = self.elem(*td);
                            let dw = self.p.tys[e as usize].w;
                            self.map1(*ts, &x, |s, w, v| s.cast1(*op, w, dw, v))
                        };
                        Self::set(st, d, r);
                    }
                    Inst::FNeg(t, a) => {
                        let x = Self::get(&st.top, *a).clone();
                        let r = self.map1(*t, &x, |s, w, v| s.bin1(BinOp::Xor, w, v, &Prog::mkint(1u128 << (w - 1), w)));
                        Self::set(st, d, r);
                    }
                    Inst::Freeze(_, a) => {
                        let x = Self::get(&st.top, *a).clone();
                        Self::set(st, d, x);
                    }
                    Inst::Select(ct, t, c, a, b) => {
                        let cv = Self::get(&st.top, *c).clone();
                        let r = match &cv {
                            Val::I(x) => Self::get(&st.top, if *x & 1 == 1 { *a } else { *b }).clone(),
                            Val::S(ct) => {
                                if self.has_ptr(*t) {
                                    let b1 = self.decide(st, &cv)?;
                                    Self::get(&st.top, if b1 { *a } else { *b }).clone()
                                } else {
                                    let (x, y) = (Self::get(&st.top, *a).clone(), Self::get(&st.top, *b).clone());
                                    let sb = st.subst.clone();
                                    let known = match self.settled(st, *ct) {
                                        Some(b) => Some(b as u128),
                                        None => None,
                                    };
                                    let ct = self.simp(&sb, *ct);
                                    let known = match (known, self.c.cv(ct)) {
                                        (Some(v), _) | (None, Some(v)) => Some(v),
                                        (None, None) => self.settled(st, ct).map(|b| b as u128),
                                    };
                                    match known {
                                        Some(v) => if v == 1 { x } else { y },
                                        None => self.ite(ct, &x, &y, *t),
                                    }
                                }
                            }
                            Val::A(cs) => {
                                let (x, y) = (Self::get(&st.top, *a).clone(), Self::get(&st.top, *b).clone());
                                let e = self.elem(*t);
                                let _ = ct;
                                match (&x, &y) {
                                    (Val::A(x), Val::A(y)) => {
                                        let mut v = vec![];
                                        for i in 0..cs.len() {
                                            v.push(match &cs[i] {
                                                Val::I(1) => x[i].clone(),
                                                Val::I(_) => y[i].clone(),
                                                Val::S(ct) => self.ite(*ct, &x[i], &y[i], e),
                                                _ => panic!(),
                                            });
                                        }
                                        Val::A(v.into())
                                    }
                                    _ => panic!(),
                                }
                            }
                            _ => panic!("select"),
                        };
                        Self::set(st, d, r);
                    }
                    Inst::Alloca(sz, cnt) => {
                        let n = match cnt {
                            Some(o) => {
                                let v = Self::get(&st.top, *o).clone();
                                self.conc(st, &v, "alloca")?
                            }
                            None => 1,
                        };
                        let a = st.mem.alloc(sz * n, OKind::Stack);
                        st.top.allocas.push(split(a).0);
                        Self::set(st, d, Val::I(a));
                    }
                    Inst::Load(t, p) => {
                        let r = match Self::get(&st.top, *p) {
                            Val::I(a) => {
                                let a = *a;
                                self.load(st, a, *t)?
                            }
                            Val::S(x) => {
                                let x = *x;
                                self.load_sym(st, x, *t)?
                            }
                            _ => panic!("load"),
                        };
                        Self::set(st, d, r);
                    }
                    Inst::Store(t, v, p) => {
                        let a = match Self::get(&st.top, *p) {
                            Val::I(a) => *a,
                            x => {
                                let x = x.clone();
                                self.conc(st, &x, "store address")?
                            }
                        };
                        let v = Self::get(&st.top, *v).clone();
                        self.store(st, a, *t, &v)?;
                    }
                    Inst::Gep(base, off, idx) => {
                        let r = self.gep(st, *base, *off, idx);
                        Self::set(st, d, r);
                    }
                    Inst::Extract(_, a, ix) => {
                        let mut v = Self::get(&st.top, *a);
                        for i in ix {
                            v = match v {
                                Val::A(x) => &x[*i as usize],
                                _ => panic!("extractvalue"),
                            };
                        }
                        let v = v.clone();
                        Self::set(st, d, v);
                    }
                    Inst::Insert(_, a, _, v, ix) => {
                        fn ins(a: &Val, v: Val, ix: &[u32]) -> Val {
                            if ix.is_empty() {
                                return v;
                            }
                            match a {
                                Val::A(x) => {
                                    let mut y = x.to_vec();
                                    let i = ix[0] as usize;
                                    y[i] = ins(&y[i], v, &ix[1..]);
                                    Val::A(y.into())
                                }
                                _ => panic!("insertvalue"),
                            }
                        }
                        let r = ins(Self::get(&st.top, *a), Self::get(&st.top, *v).clone(), ix);
                        Self::set(st, d, r);
                    }
                    Inst::ExtractElem(_, a, i) => {
                        let iv = Self::get(&st.top, *i).clone();
                        let k = self.conc(st, &iv, "vector index")? as usize;
                        let r = match Self::get(&st.top, *a) {
                            Val::A(x) => x[k].clone(),
                            _ => panic!("extractelement"),
                        };
                        Self::set(st, d, r);
                    }
                    Inst::InsertElem(_, a, v, i) => {
                        let iv = Self::get(&st.top, *i).clone();
                        let k = self.conc(st, &iv, "vector index")? as usize;
                        let r = match Self::get(&st.top, *a) {
                            Val::A(x) => {
                                let mut y = x.to_vec();
                                y[k] = Self::get(&st.top, *v).clone();
                                Val::A(y.into())
                            }
                            _ => panic!("insertelement"),
                        };
                        Self::set(st, d, r);
                    }
                    Inst::Shuffle(_, a, b, m) => {
                        let r = match (Self::get(&st.top, *a), Self::get(&st.top, *b)) {
                            (Val::A(x), Val::A(y)) => Val::A(
                                m.iter()
                                    .map(|i| {
                                        if *i < 0 {
                                            x[0].clone()
                                        } else if (*i as usize) < x.len() {
                                            x[*i as usize].clone()
                                        } else {
                                            y[*i as usize - x.len()].clone()
                                        }
                                    })
                                    .collect::<Vec<_>>()
                                    .into(),
                            ),
                            _ => panic!("shuffle"),
                        };
                        Self::set(st, d, r);
                    }
                    Inst::Call { ret, callee, args, normal } => {
                        let target = match callee {
                            Callee::Sym(s) => *s,
                            Callee::Reg(o) => {
                                let v = Self::get(&st.top, *o).clone();
                                let a = self.conc(st, &v, "call target")?;
                                let s = (a >> 32).wrapping_sub(FN_BASE);
                                if a & 0xffff_ffff != 0 || s >= self.p.kinds.len() as u64 {
                                    self.violate(st, "memory", format!("call through invalid pointer {:#x}", a), None);
                                    return Err(Stop::Violation);
                                }
                                s as u32
                            }
                            Callee::Asm(a) => {
                                // a template that is only a comment is an optimisation barrier
                                let a = if a.trim_start().starts_with("/*") && a.trim_end().ends_with("*/") && a.matches("*/").count() == 1 { "" } else { a.as_str() };
                                if a.contains("cpuid") || a.contains("xgetbv") || a.is_empty() {
                                    let r = if a.is_empty() && !args.is_empty() && self.p.tys[*ret as usize].w != 0 {
                                        Self::get(&st.top, args[0].1).clone()
                                    } else {
                                        self.p.zero(*ret)
                                    };
                                    Self::set(st, d, r);
                                    self.after_call(st, *normal);
                                    continue;
                                }
                                return Err(Stop::Inconclusive(format!("inline assembly {:?}", a)));
                            }
                        };
                        match self.p.kinds[target as usize] {
                            SymKind::Func(fi) => {
                                if st.frames.len() > 3000 {
                                    self.violate(st, "stack", "call depth above 3000".into(), None);
                                    return Err(Stop::Violation);
                                }
                                let g = self.p.funcs[fi as usize].clone();
                                let mut regs = vec![Val::I(0); g.nregs as usize];
                                for (i, (r, _)) in g.params.iter().enumerate() {
                                    if i < args.len() {
                                        regs[*r as usize] = Self::get(&st.top, args[i].1).clone();
                                    }
                                }
                                self.funcs_hit[fi as usize] = true;
                                if g.target {
                                    self.blocks_hit.insert((g.id, 0));
                                }
                                let nf = Frame { f: g, bb: 0, ip: 0, regs, allocas: vec![], dest: d, ret_ty: *ret, normal: *normal };
                                let old = std::mem::replace(&mut st.top, nf);
                                st.frames.push(Rc::new(old));
                                break;
                            }
                            SymKind::Builtin(b) => {
                                let bi = self.p.builtins[b as usize].1;
                                let mut av: Vec<Val> = Vec::with_capacity(args.len());
                                for (_, o) in args {
                                    av.push(Self::get(&st.top, *o).clone());
                                }
                                let r = self.builtin(st, bi, b, *ret, args, av)?;
                                Self::set(st, d, r);
                                self.after_call(st, *normal);
                                continue;
                            }
                            _ => return Err(Stop::Inconclusive(format!("call to unknown function {}", self.p.m.syms[target as usize]))),
                        }
                    }
                    Inst::Rmw(op, t, p, v) => {
                        let pv = Self::get(&st.top, *p).clone();
                        let a = self.conc(st, &pv, "address")?;
                        let old = self.load(st, a, *t)?;
                        let x = Self::get(&st.top, *v).clone();
                        let w = self.p.tys[*t as usize].w;
                        let new = match op {
                            RmwOp::Xchg => x,
                            RmwOp::Add => self.bin1(BinOp::Add, w, &old, &x),
                            RmwOp::Sub => self.bin1(BinOp::Sub, w, &old, &x),
                            RmwOp::And => self.bin1(BinOp::And, w, &old, &x),
                            RmwOp::Or => self.bin1(BinOp::Or, w, &old, &x),
                            RmwOp::Xor => self.bin1(BinOp::Xor, w, &old, &x),
                            RmwOp::Nand => {
                                let r = self.bin1(BinOp::And, w, &old, &x);
                                self.bin1(BinOp::Xor, w, &r, &Prog::mkint(!0, w))
                            }
                            RmwOp::UMax | RmwOp::UMin | RmwOp::Max | RmwOp::Min => {
                                let p = match op {
                                    RmwOp::UMax => Pred::Ugt,
                                    RmwOp::UMin => Pred::Ult,
                                    RmwOp::Max => Pred::Sgt,
                                    _ => Pred::Slt,
                                };
                                let c = self.icmp1(p, w, &old, &x);
                                let c = self.term(&c, 1);
                                self.ite(c, &old, &x, *t)
                            }
                        };
                        self.store(st, a, *t, &new)?;
                        Self::set(st, d, old);
                    }
                    Inst::CmpXchg(t, p, e, n) => {
                        let pv = Self::get(&st.top, *p).clone();
                        let a = self.conc(st, &pv, "address")?;
                        let old = self.load(st, a, *t)?;
                        let (ev, nv) = (Self::get(&st.top, *e).clone(), Self::get(&st.top, *n).clone());
                        let w = self.p.tys[*t as usize].w;
                        let eq = self.icmp1(Pred::Eq, w, &old, &ev);
                        let b = self.decide(st, &eq)?;
                        if b {
                            self.store(st, a, *t, &nv)?;
                        }
                        Self::set(st, d, Val::A(vec![old, Val::I(b as u64)].into()));
                    }
                    Inst::Fence => {}
                    Inst::Br(t) => {
                        self.jump(st, *t);
                        continue;
                    }
                    Inst::CondBr(c, a, b) => {
                        let x = match Self::get(&st.top, *c) {
                            Val::I(x) => *x & 1 == 1,
                            v => {
                                let v = v.clone();
                                self.decide(st, &v)?
                            }
                        };
                        self.jump(st, if x { *a } else { *b });
                        continue;
                    }
                    Inst::Switch(t, v, dflt, cases) => {
                        let x = Self::get(&st.top, *v).clone();
                        let to = match &x {
                            Val::S(tm) => self.switch(st, *tm, self.p.tys[*t as usize].w, *dflt, cases)?,
                            v => {
                                let k = Self::wide(v);
                                cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*dflt)
                            }
                        };
                        self.jump(st, to);
                        continue;
                    }
                    Inst::Ret(v) => {
                        let r = v.map(|(_, o)| Self::get(&st.top, o).clone()).unwrap_or(Val::I(0));
                        let al = std::mem::take(&mut st.top.allocas);
                        for id in al {
                            st.mem.free(id);
                        }
                        let (dest, normal) = (st.top.dest, st.top.normal);
                        match st.frames.pop() {
                            None => return Err(Stop::Done),
                            Some(fr) => {
                                st.top = Rc::try_unwrap(fr).unwrap_or_else(|x| (*x).clone());
                                Self::set(st, dest, r);
                                self.after_call(st, normal);
                                break;
                            }
                        }
                    }
                    Inst::Unreachable => {
                        self.violate(st, "unreachable", "reached unreachable code".into(), None);
                        return Err(Stop::Violation);
                    }
                    Inst::LandingPad | Inst::Resume => {
                        return Err(Stop::Inconclusive("landing pad".into()));
                    }
                }
                st.top.ip += 1;
            }
        }
    }

    fn after_call(&mut self, st: &mut State, normal: Option<u32>) {
        match normal {
            Some(b) => self.jump(st, b),
            None => st.top.ip += 1,
        }
    }

    fn gep(&mut self, st: &State, base: Opnd, off: i64, idx: &[(Opnd, u32, u64)]) -> Val {
        let b = Self::get(&st.top, base);
        let mut acc: u64 = off as u64;
        let mut sym: Vec<(T, u32, u64)> = vec![];
        for (o, w, sc) in idx {
            match Self::get(&st.top, *o) {
                Val::I(x) => acc = acc.wrapping_add((sx64(*x, *w) as u64).wrapping_mul(*sc)),
                Val::S(t) => sym.push((*t, *w, *sc)),
                _ => panic!("gep"),
            }
        }
        match b {
            Val::I(x) if sym.is_empty() => Val::I(x.wrapping_add(acc)),
            b => {
                let b = b.clone();
                let mut t = self.term(&b, 64);
                for (s, w, sc) in sym {
                    let x = if w < 64 { self.c.sext(s, 64) } else { s };
                    let k = self.c.konst(sc as u128, 64);
                    let y = self.c.mul(x, k);
                    t = self.c.add(t, y);
                }
                let k = self.c.konst(acc as u128, 64);
                let r = self.c.add(t, k);
                self.val(r)
            }
        }
    }

    fn switch(&mut self, st: &mut State, t: T, w: u32, dflt: u32, cases: &[(u128, u32)]) -> R<u32> {
        let sb = st.subst.clone();
        let t = self.simp(&sb, t);
        let find = |k: u128| cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(dflt);
        if let Some(k) = self.c.cv(t) {
            return Ok(find(k));
        }
        // one condition per distinct target
        let mut targets: Vec<(u32, T)> = vec![];
        let mut any = self.c.ff;
        for (k, b) in cases {
            let kk = self.c.konst(*k, w);
            let e = self.c.eq(t, kk);
            if e == self.c.ff {
                continue;
            }
            any = self.c.or(any, e);
            if *b == dflt {
                continue;
            }
            match targets.iter_mut().find(|x| x.0 == *b) {
                Some(x) => x.1 = self.c.or(x.1, e),
                None => targets.push((*b, e)),
            }
        }
        let mut dc = self.c.tt;
        for (_, c) in &targets {
            let n = self.c.not(*c);
            dc = self.c.and(dc, n);
        }
        targets.push((dflt, dc));
        let cur = find(self.meval(st, t));
        let mut curc = self.c.tt;
        let mut alts = vec![];
        for (b, c) in targets {
            if b == cur {
                curc = c;
                continue;
            }
            if let Some(m) = self.query(st, c)? {
                alts.push((c, m));
            }
        }
        if alts.is_empty() {
            return Ok(cur);
        }
        for (c, m) in alts {
            let mut alt = st.clone();
            alt.model = m;
            alt.forks += 1;
            self.add_pc(&mut alt, c);
            self.forked(st);
            self.work.push(alt);
        }
        self.add_pc(st, curc);
        Ok(cur)
    }

    // ------------------------------------------------------------ built-in functions

    fn alloc_size(&mut self, st: &mut State, v: &Val) -> R<u64> {
        let (sz, bad) = match v {
            Val::I(x) => (*x, if *x > st.lim_single { Some(None) } else { None }),
            Val::S(t) => {
                let sb = st.subst.clone();
                let t = self.simp(&sb, *t);
                match self.c.cv(t) {
                    Some(x) => (x as u64, if x as u64 > st.lim_single { Some(None) } else { None }),
                    None => {
                        let k = self.c.konst(st.lim_single as u128, 64);
                        let over = self.c.ult(k, t);
                        self.cnt.safety += 1;
                        if let Some(m) = self.query(st, over)? {
                            let x = Evaluator::new(m.clone()).eval(&self.c, t) as u64;
                            (x, Some(Some(m)))
                        } else {
                            // an object of the largest feasible size
                            let mut lo = self.meval(st, t) as u64;
                            let mut hi = st.lim_single.min(self.c.t[t as usize].hi as u64);
                            while lo < hi {
                                let mid = lo + (hi - lo + 1) / 2;
                                let k = self.c.konst(mid as u128, 64);
                                let lt = self.c.ult(t, k);
                                let ge = self.c.not(lt);
                                match self.query(st, ge)? {
                                    Some(m) => lo = (Evaluator::new(m).eval(&self.c, t) as u64).max(mid),
                                    None => hi = mid - 1,
                                }
                            }
                            (lo, None)
                        }
                    }
                }
            }
            _ => panic!("alloc size"),
        };
        if let Some(m) = bad {
            self.violate(st, "memory-bound", format!("single allocation above {} bytes", st.lim_single), m);
            if self.verbose {
                eprintln!("alloc {} at {}", sz, self.site(st));
            }
            return Err(Stop::Violation);
        }
        if st.heap + sz > st.lim_total {
            self.violate(st, "memory-bound", format!("live heap above {} bytes", st.lim_total), None);
            return Err(Stop::Violation);
        }
        Ok(sz)
    }
    fn heap_free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let (id, off) = split(a);
        match st.mem.obj(id) {
            Ok(o) if o.kind == OKind::Heap && off == 0 => {
                st.heap = st.heap.saturating_sub(o.data.len() as u64);
                st.mem.free(id);
                Ok(())
            }
            Ok(_) => {
                self.violate(st, "memory", "invalid free".into(), None);
                Err(Stop::Violation)
            }
            Err(e) => Err(self.memfail(st, e, "free", a, 0)),
        }
    }

    fn range_bytes(&mut self, st: &State, a: u64, n: u64, what: &str) -> R<(Vec<u8>, Option<Vec<(T, u8)>>)> {
        match st.mem.bytes(a, n) {
            Ok((d, s)) => Ok((d.to_vec(), s.map(|x| x.to_vec()))),
            Err(e) => Err(self.memfail(st, e, what, a, n)),
        }
    }

    fn compare(&mut self, st: &mut State, av: &[Val], ordered: bool) -> R<Val> {
        let n = self.conc(st, &av[2], "length")?;
        let a = self.conc(st, &av[0], "address")?;
        let b = self.conc(st, &av[1], "address")?;
        let (da, sa) = self.range_bytes(st, a, n, "compare")?;
        let (db, sb) = self.range_bytes(st, b, n, "compare")?;
        let any = |s: &Option<Vec<(T, u8)>>| s.as_ref().map_or(false, |v| v.iter().any(|x| x.0 != 0));
        if !any(&sa) && !any(&sb) {
            let r: i32 = match da.cmp(&db) {
                std::cmp::Ordering::Less => -1,
                std::cmp::Ordering::Equal => 0,
                std::cmp::Ordering::Greater => 1,
            };
            return Ok(Val::I(r as u32 as u64));
        }
        let z: Vec<(T, u8)> = vec![(0, 0); n as usize];
        let (sa, sb) = (sa.unwrap_or_else(|| z.clone()), sb.unwrap_or(z));
        let (zero, one, neg) = (self.c.konst(0, 32), self.c.konst(1, 32), self.c.konst(0xffff_ffff, 32));
        if !ordered {
            let mut r = self.c.tt;
            let mut i = 0;
            while i < n as usize {
                let j = (i + 16).min(n as usize);
                let w = 8 * (j - i) as u32;
                let x = Self::combine(&mut self.c, &da[i..j], &sa[i..j], w);
                let y = Self::combine(&mut self.c, &db[i..j], &sb[i..j], w);
                let (x, y) = (self.term(&x, w), self.term(&y, w));
                let e = self.c.eq(x, y);
                r = self.c.and(r, e);
                i = j;
            }
            let t = self.c.ite(r, zero, one);
            return Ok(self.val(t));
        }
        let mut r = zero;
        for i in (0..n as usize).rev() {
            let x = Self::combine(&mut self.c, &da[i..i + 1], &sa[i..i + 1], 8);
            let y = Self::combine(&mut self.c, &db[i..i + 1], &sb[i..i + 1], 8);
            let (x, y) = (self.term(&x, 8), self.term(&y, 8));
            let e = self.c.eq(x, y);
            let l = self.c.ult(x, y);
            let d = self.c.ite(l, neg, one);
            r = self.c.ite(e, r, d);
        }
        Ok(self.val(r))
    }

    fn new_bytes(&mut self, st: &mut State, n: u64) -> Vec<T> {
        let v0 = st.nvar;
        st.nvar += n as u32;
        st.inputs.push(Input::Sym(v0, n as u32));
        (0..n as u32).map(|i| self.c.var_by_id(v0 + i)).collect()
    }

    fn builtin(&mut self, st: &mut State, b: Builtin, bidx: u32, ret: TyId, args: &[(TyId, Opnd)], av: Vec<Val>) -> R<Val> {
        use Builtin::*;
        let none = Val::I(0);
        let t0 = args.first().map(|a| a.0).unwrap_or(0);
        Ok(match b {
            Nop => none,
            Panic => {
                let name = short_name(&self.p.builtins[bidx as usize].0);
                self.violate(st, "panic", format!("panic via {}", name), None);
                if self.verbose {
                    eprintln!("panic at {}", self.site(st));
                }
                return Err(Stop::Violation);
            }
            Abort => {
                self.violate(st, "abort", "process abort".into(), None);
                return Err(Stop::Violation);
            }
            Malloc => {
                let n = self.alloc_size(st, &av[0])?;
                st.heap += n;
                Val::I(st.mem.alloc(n, OKind::Heap))
            }
            Calloc => {
                let p = self.bin1(BinOp::Mul, 64, &av[0], &av[1]);
                let n = self.alloc_size(st, &p)?;
                st.heap += n;
                Val::I(st.mem.alloc(n, OKind::Heap))
            }
            PosixMemalign => {
                let p = self.conc(st, &av[0], "address")?;
                let n = self.alloc_size(st, &av[2])?;
                st.heap += n;
                let a = st.mem.alloc(n, OKind::Heap);
                self.store_scalar(st, p, 64, &Val::I(a))?;
                Val::I(0)
            }
            Realloc => {
                let p = self.conc(st, &av[0], "address")?;
                let n = self.alloc_size(st, &av[1])?;
                let a = st.mem.alloc(n, OKind::Heap);
                st.heap += n;
                if p != 0 {
                    let old = match st.mem.obj(split(p).0) {
                        Ok(o) => o.data.len() as u64,
                        Err(e) => return Err(self.memfail(st, e, "realloc", p, 0)),
                    };
                    let k = old.min(n);
                    let (d, s) = self.range_bytes(st, p, k, "realloc")?;
                    st.mem.write(a, &d, s.as_deref()).unwrap();
                    self.heap_free(st, p)?;
                }
                Val::I(a)
            }
            Free => {
                let p = self.conc(st, &av[0], "address")?;
                self.heap_free(st, p)?;
                none
            }
            Bcmp => self.compare(st, &av, false)?,
            Memcmp => self.compare(st, &av, true)?,
            Strlen => {
                let p = self.conc(st, &av[0], "address")?;
                let mut n = 0;
                loop {
                    let v = self.load_scalar(st, p + n, 8)?;
                    let z = self.icmp1(Pred::Eq, 8, &v, &Val::I(0));
                    if self.decide(st, &z)? {
                        break;
                    }
                    n += 1;
                }
                Val::I(n)
            }
            // seeds of std's hash maps: fixed bytes (the order of a hash map is one of many)
            GetRandom => {
                let n = self.conc(st, &av[1], "length")?;
                let d = self.conc(st, &av[0], "address")?;
                let x: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(0x9d) ^ 0x5a).collect();
                if let Err(e) = st.mem.write(d, &x, None) {
                    return Err(self.memfail(st, e, "random bytes", d, n));
                }
                Val::I(n)
            }
            Memcpy => {
                let n = self.conc(st, &av[2], "copy length")?;
                let d = self.conc(st, &av[0], "address")?;
                let s = self.conc(st, &av[1], "address")?;
                if n > 0 {
                    let (x, y) = self.range_bytes(st, s, n, "copy source")?;
                    if let Err(e) = st.mem.write(d, &x, y.as_deref()) {
                        return Err(self.memfail(st, e, "copy target", d, n));
                    }
                }
                av[0].clone()
            }
            Memset => {
                let n = self.conc(st, &av[2], "fill length")?;
                let d = self.conc(st, &av[0], "address")?;
                let r = match &av[1] {
                    Val::I(x) => st.mem.write(d, &vec![*x as u8; n as usize], None),
                    v => {
                        let t = self.term(&v.clone(), self.p.tys[args[1].0 as usize].w);
                        let t = self.c.extract(t, 0, 8);
                        st.mem.write(d, &vec![0; n as usize], Some(&vec![(t, 0u8); n as usize]))
                    }
                };
                if let Err(e) = r {
                    return Err(self.memfail(st, e, "fill", d, n));
                }
                av[0].clone()
            }
            Assume => {
                if let Val::I(x) = &av[0] {
                    if x & 1 == 0 {
                        self.violate(st, "undefined", "assumption violated".into(), None);
                        return Err(Stop::Violation);
                    }
                }
                none
            }
            ULt => none,
            UMin | UMax | SMin | SMax => {
                let p = match b {
                    UMin => Pred::Ult,
                    UMax => Pred::Ugt,
                    SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let e = self.elem(t0);
                self.map2(t0, &av[0], &av[1], |s, w, x, y| {
                    let c = s.icmp1(p, w, x, y);
                    match c {
                        Val::I(1) => x.clone(),
                        Val::I(_) => y.clone(),
                        Val::S(c) => s.ite(c, x, y, e),
                        _ => panic!(),
                    }
                })
            }
            Fshl | Fshr => {
                let w = self.p.tys[t0 as usize].w;
                let k = self.conc(st, &av[2], "shift amount")? as u32 % w;
                if k == 0 {
                    return Ok(if b == Fshl { av[0].clone() } else { av[1].clone() });
                }
                let (x, y) = (self.term(&av[0], w), self.term(&av[1], w));
                let r = if b == Fshl {
                    // high w bits of (x:y) << k
                    let lo = self.c.extract(y, w - k, k);
                    let hi = self.c.extract(x, 0, w - k);
                    self.c.cat(vec![lo, hi])
                } else {
                    let lo = self.c.extract(y, k, w - k);
                    let hi = self.c.extract(x, 0, k);
                    self.c.cat(vec![lo, hi])
                };
                self.val(r)
            }
            Cttz | Ctlz | Ctpop => self.map1(t0, &av[0], |s, w, x| match x {
                Val::S(t) => {
                    let t = *t;
                    let r = match b {
                        Ctpop => {
                            let mut acc = s.c.konst(0, w);
                            for i in 0..w {
                                let bit = s.c.extract(t, i, 1);
                                let z = s.c.zext(bit, w);
                                acc = s.c.add(acc, z);
                            }
                            acc
                        }
                        _ => {
                            let mut acc = s.c.konst(w as u128, w);
                            for i in 0..w {
                                // the last assignment wins
                                let (pos, val) = if b == Cttz { (w - 1 - i, w - 1 - i) } else { (i, w - 1 - i) };
                                let bit = s.c.extract(t, pos, 1);
                                let k = s.c.konst(val as u128, w);
                                acc = s.c.ite(bit, k, acc);
                            }
                            acc
                        }
                    };
                    s.val(r)
                }
                v => {
                    let x = Self::wide(v);
                    let r = match b {
                        Ctpop => x.count_ones(),
                        Cttz => x.trailing_zeros().min(w),
                        _ => x.leading_zeros() - (128 - w),
                    };
                    Prog::mkint(r as u128, w)
                }
            }),
            UAddO | USubO | UMulO | SAddO | SSubO | SMulO => {
                let w = self.p.tys[t0 as usize].w;
                let (x, y) = (&av[0], &av[1]);
                if Self::is_conc(x) && Self::is_conc(y) {
                    let (p, q) = (Self::wide(x), Self::wide(y));
                    let (r, o) = match b {
                        UAddO => {
                            let (r, c) = p.overflowing_add(q);
                            (r, c || r > mask(w))
                        }
                        USubO => (p.wrapping_sub(q), p < q),
                        UMulO => {
                            let (r, c) = p.overflowing_mul(q);
                            (r, c || r > mask(w))
                        }
                        _ => {
                            let (p, q) = (sext(p, w), sext(q, w));
                            let (r, c) = match b {
                                SAddO => p.overflowing_add(q),
                                SSubO => p.overflowing_sub(q),
                                _ => p.overflowing_mul(q),
                            };
                            (r as u128, c || sext(r as u128 & mask(w), w) != r)
                        }
                    };
                    return Ok(Val::A(vec![Prog::mkint(r, w), Val::I(o as u64)].into()));
                }
                let (p, q) = (self.term(x, w), self.term(y, w));
                let (r, o) = self.ovf(b, p, q, w)?;
                Val::A(vec![self.val(r), self.val(o)].into())
            }
            UAddSat | USubSat | SAddSat | SSubSat => self.map2(t0, &av[0], &av[1], |s, w, x, y| {
                let (p, q) = (s.term(x, w), s.term(y, w));
                let r = match b {
                    UAddSat => {
                        let r = s.c.add(p, q);
                        let o = s.c.ult(r, p);
                        let m = s.c.konst(!0, w);
                        s.c.ite(o, m, r)
                    }
                    USubSat => {
                        let r = s.c.sub(p, q);
                        let o = s.c.ult(p, q);
                        let m = s.c.konst(0, w);
                        s.c.ite(o, m, r)
                    }
                    _ => {
                        let (pe, qe) = (s.c.sext(p, w + 1), s.c.sext(q, w + 1));
                        let r = if b == SAddSat { s.c.add(pe, qe) } else { s.c.sub(pe, qe) };
                        let (mx, mn) = (s.c.konst(mask(w - 1), w + 1), s.c.konst(!mask(w - 1), w + 1));
                        let gt = s.c.slt(mx, r);
                        let lt = s.c.slt(r, mn);
                        let r1 = s.c.ite(lt, mn, r);
                        let r2 = s.c.ite(gt, mx, r1);
                        s.c.extract(r2, 0, w)
                    }
                };
                s.val(r)
            }),
            Bswap => self.map1(t0, &av[0], |s, w, x| match x {
                Val::S(t) => {
                    let parts: Vec<T> = (0..w / 8).rev().map(|i| s.c.extract(*t, 8 * i, 8)).collect();
                    let r = s.c.cat(parts);
                    s.val(r)
                }
                v => Prog::mkint(Self::wide(v).swap_bytes() >> (128 - w), w),
            }),
            Bitreverse => self.map1(t0, &av[0], |s, w, x| match x {
                Val::S(t) => {
                    let parts: Vec<T> = (0..w).rev().map(|i| s.c.extract(*t, i, 1)).collect();
                    let r = s.c.cat(parts);
                    s.val(r)
                }
                v => Prog::mkint(Self::wide(v).reverse_bits() >> (128 - w), w),
            }),
            UCmp | SCmp => {
                let rw = self.p.tys[ret as usize].w;
                let w = self.p.tys[t0 as usize].w;
                let lp = if b == UCmp { Pred::Ult } else { Pred::Slt };
                let l = self.icmp1(lp, w, &av[0], &av[1]);
                let e = self.icmp1(Pred::Eq, w, &av[0], &av[1]);
                let (l, e) = (self.term(&l, 1), self.term(&e, 1));
                let (neg, zero, one) = (self.c.konst(!0, rw), self.c.konst(0, rw), self.c.konst(1, rw));
                let x = self.c.ite(e, zero, one);
                let r = self.c.ite(l, neg, x);
                self.val(r)
            }
            IsConstant => Val::I(0),
            Expect | Identity => av[0].clone(),
            LoadRelative => {
                let p = self.conc(st, &av[0], "address")?;
                let o = self.conc(st, &av[1], "offset")?;
                let v = self.load_scalar(st, p.wrapping_add(o), 32)?;
                let k = self.conc(st, &v, "relative pointer")?;
                if k >> 24 == crate::prog::REL_TAG {
                    Val::I(p.wrapping_add(self.p.rels.borrow()[k as usize & 0xff_ffff]))
                } else {
                    Val::I(p.wrapping_add(sx64(k, 32) as u64))
                }
            }
            Abs => self.map1(t0, &av[0], |s, w, x| {
                let z = Prog::mkint(0, w);
                let n = s.bin1(BinOp::Sub, w, &z, x);
                let c = s.icmp1(Pred::Slt, w, x, &z);
                match c {
                    Val::I(1) => n,
                    Val::I(_) => x.clone(),
                    Val::S(c) => {
                        let (p, q) = (s.term(&n, w), s.term(x, w));
                        let r = s.c.ite(c, p, q);
                        s.val(r)
                    }
                    _ => panic!(),
                }
            }),
            Fma => {
                let w = self.p.tys[t0 as usize].w;
                let a: Vec<T> = (0..3).map(|i| self.term(&av[i], w)).collect();
                let r = self.c.fp(FOp::Fma, &a, w);
                self.val(r)
            }
            Sqrt => {
                let w = self.p.tys[t0 as usize].w;
                let a = self.term(&av[0], w);
                let r = self.c.fp(FOp::Sqrt, &[a], w);
                self.val(r)
            }
            Fabs => self.map1(t0, &av[0], |s, w, x| s.bin1(BinOp::And, w, x, &Prog::mkint(mask(w - 1), w))),
            FpClass => {
                let m = self.conc(st, &av[1], "class mask")?;
                self.map1(t0, &av[0], |s, w, x| {
                    let fw = if w == 32 { 23 } else if w == 64 { 52 } else { 10 };
                    let x = s.term(x, w);
                    let sign = s.c.extract(x, w - 1, 1);
                    let exp = s.c.extract(x, fw, w - 1 - fw);
                    let man = s.c.extract(x, 0, fw);
                    let quiet = s.c.extract(x, fw - 1, 1);
                    let (e0, e1, m0) = (s.c.konst(0, w - 1 - fw), s.c.konst(mask(w - 1 - fw), w - 1 - fw), s.c.konst(0, fw));
                    let ez = s.c.eq(exp, e0);
                    let eo = s.c.eq(exp, e1);
                    let mz = s.c.eq(man, m0);
                    let t = s.c.konst(1, 1);
                    let n = |s: &mut Self, a: T| s.c.xor(a, t);
                    let (nez, neo, nmz, pos, nq) = (n(s, ez), n(s, eo), n(s, mz), n(s, sign), n(s, quiet));
                    let nan = s.c.and(eo, nmz);
                    let norm = s.c.and(nez, neo);
                    let sub = s.c.and(ez, nmz);
                    let zero = s.c.and(ez, mz);
                    let inf = s.c.and(eo, mz);
                    let cls = [(nan, nq), (nan, quiet), (inf, sign), (norm, sign), (sub, sign), (zero, sign), (zero, pos), (sub, pos), (norm, pos), (inf, pos)];
                    let mut r = s.c.konst(0, 1);
                    for (i, (a, b)) in cls.iter().enumerate() {
                        if m >> i & 1 == 1 {
                            let k = s.c.and(*a, *b);
                            r = s.c.or(r, k);
                        }
                    }
                    s.val(r)
                })
            }
            Copysign => self.map2(t0, &av[0], &av[1], |s, w, x, y| {
                let m = s.bin1(BinOp::And, w, x, &Prog::mkint(mask(w - 1), w));
                let g = s.bin1(BinOp::And, w, y, &Prog::mkint(1u128 << (w - 1), w));
                s.bin1(BinOp::Or, w, &m, &g)
            }),
            FMin | FMax => {
                let w = self.p.tys[t0 as usize].w;
                let (x, y) = (self.term(&av[0], w), self.term(&av[1], w));
                let lt = if b == FMin { self.c.fcmp(4, x, y) } else { self.c.fcmp(2, x, y) };
                let ynan = self.c.fcmp(8, y, y);
                let c = self.c.or(lt, ynan);
                let r = self.c.ite(c, x, y);
                self.val(r)
            }
            FpToSiSat | FpToUiSat => {
                let (sw, dw) = (self.p.tys[t0 as usize].w, self.p.tys[ret as usize].w);
                let t = self.term(&av[0], sw);
                let r = self.c.fp(if b == FpToSiSat { FOp::FpToSiSat } else { FOp::FpToUiSat }, &[t], dw);
                self.val(r)
            }
            ReduceAdd | ReduceOr | ReduceAnd | ReduceXor | ReduceUMax | ReduceUMin => {
                let ew = match self.p.tys[t0 as usize].kind {
                    Kind::Vec(_, _, w) => w,
                    _ => panic!("reduce"),
                };
                let e = self.elem(t0);
                let xs = match &av[0] {
                    Val::A(x) => x.clone(),
                    _ => panic!("reduce"),
                };
                let mut acc = xs[0].clone();
                for x in &xs[1..] {
                    acc = match b {
                        ReduceAdd => self.bin1(BinOp::Add, ew, &acc, x),
                        ReduceOr => self.bin1(BinOp::Or, ew, &acc, x),
                        ReduceAnd => self.bin1(BinOp::And, ew, &acc, x),
                        ReduceXor => self.bin1(BinOp::Xor, ew, &acc, x),
                        _ => {
                            let p = if b == ReduceUMax { Pred::Ugt } else { Pred::Ult };
                            match self.icmp1(p, ew, &acc, x) {
                                Val::I(1) => acc,
                                Val::I(_) => x.clone(),
                                Val::S(c) => self.ite(c, &acc, x, e),
                                _ => panic!(),
                            }
                        }
                    };
                }
                acc
            }
            Pshufb => {
                let (x, m) = match (&av[0], &av[1]) {
                    (Val::A(x), Val::A(m)) => (x.clone(), m.clone()),
                    _ => panic!(),
                };
                let mut out = vec![];
                for i in 0..16 {
                    let k = self.conc(st, &m[i], "shuffle")?;
                    out.push(if k & 0x80 != 0 { Val::I(0) } else { x[(k & 15) as usize].clone() });
                }
                Val::A(out.into())
            }
            Zero => self.p.zero(ret),
            ObjectSize => Prog::mkint(!0, self.p.tys[ret as usize].w),

            VpSym => {
                let p = self.conc(st, &av[0], "address")?;
                let n = self.conc(st, &av[1], "length")?;
                if let Some(sc) = &self.script {
                    let k = st.inputs.len();
                    let mut d = sc.get(k).cloned().unwrap_or_default();
                    d.resize(n as usize, 0);
                    st.inputs.push(Input::Sym(0, 0));
                    if let Err(e) = st.mem.write(p, &d, None) {
                        return Err(self.memfail(st, e, "vp_sym", p, n));
                    }
                    return Ok(none);
                }
                let ts = self.new_bytes(st, n);
                let ov: Vec<(T, u8)> = ts.into_iter().map(|t| (t, 0)).collect();
                if let Err(e) = st.mem.write(p, &vec![0; n as usize], Some(&ov)) {
                    return Err(self.memfail(st, e, "vp_sym", p, n));
                }
                none
            }
            VpChoose => {
                let n = self.conc(st, &av[0], "choices")?;
                if let Some(sc) = &self.script {
                    let k = st.inputs.len();
                    let v = sc.get(k).map(|d| {
                        let mut b = [0u8; 8];
                        b[..d.len().min(8)].copy_from_slice(&d[..d.len().min(8)]);
                        u64::from_le_bytes(b)
                    });
                    st.inputs.push(Input::Choice(0));
                    return Ok(Val::I(v.unwrap_or(0)));
                }
                let v = match st.pending.take() {
                    Some(v) => v,
                    None => {
                        for i in (1..n).rev() {
                            let mut alt = st.clone();
                            alt.pending = Some(i);
                            self.forked(st);
                            self.work.push(alt);
                        }
                        0
                    }
                };
                st.inputs.push(Input::Choice(v));
                Val::I(v)
            }
            VpAssume => {
                let c = self.truth(&av[0], args[0].0);
                match self.c.cv(c) {
                    Some(1) => {}
                    Some(_) => return Err(Stop::Killed),
                    None => {
                        if self.meval(st, c) != 1 {
                            match self.query(st, c)? {
                                Some(m) => st.model = m,
                                None => return Err(Stop::Killed),
                            }
                        }
                        let sb = st.subst.clone();
                        let c = self.simp(&sb, c);
                        self.add_pc(st, c);
                    }
                }
                none
            }
            VpAssert => {
                self.cnt.asserts += 1;
                let id = self.conc(st, &av[1], "id")?;
                let c = self.truth(&av[0], args[0].0);
                let sb = st.subst.clone();
                let c = self.simp(&sb, c);
                let n = self.c.not(c);
                match self.c.cv(c) {
                    Some(1) => self.cnt.asserts_trivial += 1,
                    Some(_) => {
                        self.violate(st, "assert", format!("assertion {}", id), None);
                        return Err(Stop::Violation);
                    }
                    None => {
                        self.cnt.asserts_solver += 1;
                        if let Some(m) = self.query(st, n)? {
                            self.violate(st, "assert", format!("assertion {}", id), Some(m));
                            if self.meval(st, c) != 1 {
                                match self.query(st, c)? {
                                    Some(m) => st.model = m,
                                    None => return Err(Stop::Violation),
                                }
                            }
                            self.add_pc(st, c);
                        }
                    }
                }
                none
            }
            VpCover => {
                let id = self.conc(st, &av[0], "id")?;
                Rc::make_mut(&mut st.covers).insert(id);
                none
            }
            VpConc => {
                let v = self.conc128(st, &av[0], 70000, "concretised value")?;
                Val::I(v as u64)
            }
            VpMemLimit => {
                st.lim_single = self.conc(st, &av[0], "limit")?;
                let tot = self.conc(st, &av[1], "limit")?;
                st.lim_total = tot.saturating_add(st.heap);
                none
            }
            VpStepLimit => {
                let n = self.conc(st, &av[0], "limit")?;
                st.step_limit = if n == 0 { 400_000_000 + st.insts } else { st.insts + n };
                none
            }
            VpSplit => {
                st.split = self.conc(st, &av[0], "flag")? != 0;
                none
            }
            VpTrace => {
                let p = self.conc(st, &av[0], "address")?;
                let n = self.conc(st, &av[1], "length")?;
                let (d, s) = self.range_bytes(st, p, n, "trace")?;
                let tr = Rc::make_mut(&mut st.trace);
                for i in 0..n as usize {
                    let (t, k) = s.as_ref().map(|s| s[i]).unwrap_or((0, 0));
                    tr.push((d[i], t, k));
                }
                none
            }
            VpCase => Val::I(self.case),
            VpTier => Val::I(self.tier),
            VpPrint => {
                let p = self.conc(st, &av[0], "address")?;
                let n = self.conc(st, &av[1], "length")?;
                if self.prints {
                    let (d, s) = self.range_bytes(st, p, n, "print")?;
                    let mut ev = Evaluator::new(st.model.clone());
                    let mut o = vec![];
                    for i in 0..n as usize {
                        match s.as_ref().map(|s| s[i]) {
                            Some((t, k)) if t != 0 => o.push((ev.eval(&self.c, t) >> (8 * k)) as u8),
                            _ => o.push(d[i]),
                        }
                    }
                    eprintln!("print: {}", String::from_utf8_lossy(&o));
                }
                none
            }
            VpIsSym => Val::I(!Self::is_conc(&av[0]) as u64),
            VpSame => none,
            VpFirst => {
                let n = self.conc(st, &av[0], "cases")?;
                match self.discover {
                    Some(_) => {
                        self.discover = Some(n);
                        return Err(Stop::Killed);
                    }
                    None => Val::I(self.case),
                }
            }
            VpMark => {
                let n = self.conc(st, &av[0], "mark")?;
                Rc::make_mut(&mut st.marks).push(n);
                none
            }
        })
    }

    fn truth(&mut self, v: &Val, t: TyId) -> T {
        let w = self.p.tys[t as usize].w;
        let x = self.term(v, w);
        if w == 1 {
            return x;
        }
        let z = self.c.konst(0, w);
        let e = self.c.eq(x, z);
        self.c.not(e)
    }

    fn ovf(&mut self, b: Builtin, p: T, q: T, w: u32) -> R<(T, T)> {
        use Builtin::*;
        let c = &mut self.c;
        Ok(match b {
            UAddO => {
                let r = c.add(p, q);
                let o = c.ult(r, p);
                (r, o)
            }
            USubO => {
                let r = c.sub(p, q);
                let o = c.ult(p, q);
                (r, o)
            }
            UMulO => {
                if 2 * w > 128 {
                    return Err(Stop::Inconclusive("wide multiplication overflow".into()));
                }
                let (pe, qe) = (c.zext(p, 2 * w), c.zext(q, 2 * w));
                let r = c.mul(pe, qe);
                let hi = c.extract(r, w, w);
                let lo = c.mul(p, q);
                let z = c.konst(0, w);
                let e = c.eq(hi, z);
                let o = c.not(e);
                (lo, o)
            }
            SAddO | SSubO => {
                let (pe, qe) = (c.sext(p, w + 1), c.sext(q, w + 1));
                let r = if b == SAddO { c.add(pe, qe) } else { c.sub(pe, qe) };
                let lo = if b == SAddO { c.add(p, q) } else { c.sub(p, q) };
                let (s1, s2) = (c.extract(r, w, 1), c.extract(r, w - 1, 1));
                let e = c.eq(s1, s2);
                let o = c.not(e);
                (lo, o)
            }
            SMulO => {
                if 2 * w > 128 {
                    return Err(Stop::Inconclusive("wide multiplication overflow".into()));
                }
                let (pe, qe) = (c.sext(p, 2 * w), c.sext(q, 2 * w));
                let r = c.mul(pe, qe);
                let lo = c.mul(p, q);
                let le = c.sext(lo, 2 * w);
                let e = c.eq(r, le);
                let o = c.not(e);
                (lo, o)
            }
            _ => unreachable!(),
        })
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
