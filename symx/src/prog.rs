//! Module lowered for execution: resolved constants, layouts, symbol kinds, initial memory.
use crate::ir::*;
use crate::mem::*;
use crate::term::T;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub enum Val {
    I(u64),
    W(Rc<u128>),
    S(T),
    A(Rc<[Val]>),
}

#[derive(Clone, Debug)]
pub enum Kind {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Vec(u32, TyId, u32), // n, elem type, elem width
    Agg(Vec<(TyId, u64)>),
}

pub struct TyI {
    pub kind: Kind,
    pub size: u64,
    pub ssize: u64,
    pub w: u32, // scalar width or 0
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SymKind {
    Func(u32),
    Builtin(u32),
    Global,
    Unknown,
}

pub struct CFunc {
    pub name: String,
    pub short: String,
    pub id: u32,
    pub params: Vec<(u32, TyId)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub consts: Vec<Val>,
    pub target: bool, // function of the crate under test
}

pub struct Prog {
    pub m: Module,
    pub tys: Vec<TyI>,
    pub funcs: Vec<Rc<CFunc>>,
    pub kinds: Vec<SymKind>,
    pub addr: Vec<u64>,
    pub mem: Mem,
    pub builtins: Vec<(String, Builtin)>,
    pub rels: std::cell::RefCell<Vec<u64>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Builtin {
    Nop,
    Panic,
    Abort,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Bcmp,
    Memcmp,
    Strlen,
    GetRandom,
    Memcpy,
    Memset,
    Assume,
    ULt,
    UMin,
    UMax,
    SMin,
    SMax,
    Fshl,
    Fshr,
    Cttz,
    Ctlz,
    Ctpop,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Bswap,
    Bitreverse,
    UCmp,
    SCmp,
    IsConstant,
    Expect,
    LoadRelative,
    Identity,
    Abs,
    Fma,
    Sqrt,
    Fabs,
    Copysign,
    FMin,
    FMax,
    FpToSiSat,
    FpToUiSat,
    ReduceAdd,
    ReduceOr,
    ReduceAnd,
    ReduceXor,
    ReduceUMax,
    ReduceUMin,
    Pshufb,
    FpClass,
    Zero,
    ObjectSize,
    VpSym,
    VpChoose,
    VpAssume,
    VpAssert,
    VpCover,
    VpConc,
    VpMemLimit,
    VpTrace,
    VpCase,
    VpPrint,
    VpTier,
    VpIsSym,
    VpSame,
    VpStepLimit,
    VpSplit,
    VpMark,
    VpFirst,
}

pub const FN_BASE: u64 = 0x4000_0000;

fn builtin(name: &str) -> Option<Builtin> {
    use Builtin::*;
    if let Some(r) = name.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return Some(if p("lifetime") || p("experimental.noalias") || p("dbg") || p("prefetch") || p("x86.sse2.pause") || p("donothing") || p("stacksave") || p("stackrestore") || p("invariant") {
            Nop
        } else if p("memcpy") || p("memmove") {
            Memcpy
        } else if p("memset") {
            Memset
        } else if p("assume") {
            Assume
        } else if p("umin") {
            UMin
        } else if p("umax") {
            UMax
        } else if p("smin") {
            SMin
        } else if p("smax") {
            SMax
        } else if p("fshl") {
            Fshl
        } else if p("fshr") {
            Fshr
        } else if p("cttz") {
            Cttz
        } else if p("ctlz") {
            Ctlz
        } else if p("ctpop") {
            Ctpop
        } else if p("uadd.with") {
            UAddO
        } else if p("usub.with") {
            USubO
        } else if p("umul.with") {
            UMulO
        } else if p("sadd.with") {
            SAddO
        } else if p("ssub.with") {
            SSubO
        } else if p("smul.with") {
            SMulO
        } else if p("uadd.sat") {
            UAddSat
        } else if p("usub.sat") {
            USubSat
        } else if p("sadd.sat") {
            SAddSat
        } else if p("ssub.sat") {
            SSubSat
        } else if p("bswap") {
            Bswap
        } else if p("bitreverse") {
            Bitreverse
        } else if p("ucmp") {
            UCmp
        } else if p("scmp") {
            SCmp
        } else if p("is.constant") {
            IsConstant
        } else if p("expect") || p("launder") || p("strip") || p("threadlocal") || p("ptrmask") {
            if p("threadlocal") || p("launder") || p("strip") || p("expect") { Identity } else { return None }
        } else if p("load.relative") {
            LoadRelative
        } else if p("abs.") {
            Abs
        } else if p("fma.") || p("fmuladd.") {
            Fma
        } else if p("sqrt.") {
            Sqrt
        } else if p("is.fpclass") {
            FpClass
        } else if p("fabs.") {
            Fabs
        } else if p("copysign.") {
            Copysign
        } else if p("minnum.") || p("minimumnum.") {
            FMin
        } else if p("maxnum.") || p("maximumnum.") {
            FMax
        } else if p("fptosi.sat") {
            FpToSiSat
        } else if p("fptoui.sat") {
            FpToUiSat
        } else if p("vector.reduce.add") {
            ReduceAdd
        } else if p("vector.reduce.or") {
            ReduceOr
        } else if p("vector.reduce.and") {
            ReduceAnd
        } else if p("vector.reduce.xor") {
            ReduceXor
        } else if p("vector.reduce.umax") {
            ReduceUMax
        } else if p("vector.reduce.umin") {
            ReduceUMin
        } else if p("x86.ssse3.pshuf.b.128") {
            Pshufb
        } else if p("trap") || p("ubsantrap") {
            Abort
        } else if p("objectsize") {
            ObjectSize
        } else {
            return None;
        });
    }
    Some(match name {
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "bcmp" => Bcmp,
        "memcmp" => Memcmp,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "strlen" => Strlen,
        "getrandom" => GetRandom,
        "abort" | "_exit" | "exit" => Abort,
        "fmaf" => Fma,
        "sqrtf" => Sqrt,
        "vp_sym" => VpSym,
        "vp_choose" => VpChoose,
        "vp_assume" => VpAssume,
        "vp_assert" => VpAssert,
        "vp_cover" => VpCover,
        "vp_concretize" => VpConc,
        "vp_mem_limit" => VpMemLimit,
        "vp_trace" => VpTrace,
        "vp_case" => VpCase,
        "vp_print" => VpPrint,
        "vp_tier" => VpTier,
        "vp_is_sym" => VpIsSym,
        "vp_same" => VpSame,
        "vp_step_limit" => VpStepLimit,
        "vp_split" => VpSplit,
        "vp_mark" => VpMark,
        "vp_first" => VpFirst,
        _ => {
            // the panic machinery itself, not functions that merely mention a panicking type
            let panicky = name.contains("4core9panicking") && !name.contains("14AssertKind")
                || name.contains("18rust_begin_unwind")
                || name.ends_with("rust_begin_unwind")
                || name.contains("18handle_alloc_error")
                || name.contains("3std9panicking")
                || name.contains("17rust_panic_with")
                || name.contains("3std7process5abort")
                || name.contains("___rust_abort")
                || name.ends_with("___rust_alloc_error_handler");
            if panicky {
                return Some(Panic);
            }
            return None;
        }
    })
}

/// Readable path of a v0-mangled symbol: the identifiers, joined.
pub fn short_name(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<&str> = vec![];
    while i < b.len() {
        // skip disambiguators s<base62>_
        if b[i] == b's' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 14 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
                if k == 0 {
                    break;
                }
            }
            if k > 0 && j < b.len() && b[j] == b'_' && j + 1 + k <= b.len() && (j + 1 < b.len() && (b[j + 1].is_ascii_digit() || b[j + 1] == b'_')) {
                j += 1;
            }
            if k > 0 && j + k <= b.len() {
                let id = &n[j..j + k];
                if id.bytes().next().map_or(false, |c| c.is_ascii_alphabetic() || c == b'_') {
                    out.push(id);
                }
                i = j + k;
                continue;
            }
            i = j.max(i + 1);
            continue;
        }
        i += 1;
    }
    out.join("::")
}

pub const REL_TAG: u64 = 0x5A;

impl Prog {
    pub fn new(m: Module) -> Prog {
        let mut tys = vec![];
        for i in 0..m.types.len() {
            let t = i as TyId;
            let kind = match &m.types[i] {
                Ty::Int(w) => Kind::Int(*w),
                Ty::Ptr => Kind::Ptr,
                Ty::F32 => Kind::Float(32),
                Ty::F64 => Kind::Float(64),
                Ty::Vec(n, e) => Kind::Vec(*n, *e, m.width(*e)),
                Ty::Arr(n, e) => {
                    let s = m.size(*e);
                    if *n > 1 << 16 {
                        Kind::Agg(vec![])
                    } else {
                        Kind::Agg((0..*n).map(|k| (*e, k * s)).collect())
                    }
                }
                Ty::Struct(es, _) => Kind::Agg(es.iter().enumerate().map(|(k, e)| (*e, m.field_off(t, k))).collect()),
                _ => Kind::Void,
            };
            let w = match kind {
                Kind::Int(w) => w,
                Kind::Ptr => 64,
                Kind::Float(w) => w,
                _ => 0,
            };
            tys.push(TyI { kind, size: m.size(t), ssize: m.store_size(t), w });
        }
        let mut kinds = vec![SymKind::Unknown; m.syms.len()];
        let mut builtins = vec![];
        let mut addr = vec![0u64; m.syms.len()];
        for (s, n) in m.syms.iter().enumerate() {
            addr[s] = (FN_BASE + s as u64) << 32;
            if let Some(b) = builtin(n) {
                kinds[s] = SymKind::Builtin(builtins.len() as u32);
                builtins.push((n.clone(), b));
            } else if let Some(&f) = m.func_of_sym.get(&(s as u32)) {
                kinds[s] = SymKind::Func(f as u32);
            }
        }
        let mut mem = Mem::new();
        let mut ids = HashMap::new();
        for (gi, g) in m.globals.iter().enumerate() {
            if g.init.is_none() {
                continue;
            }
            let kind = if g.constant { OKind::Const } else { OKind::Global };
            let a = mem.alloc(m.size(g.ty), kind);
            ids.insert(gi, a);
            addr[g.sym as usize] = a;
            kinds[g.sym as usize] = SymKind::Global;
        }
        for (s, c) in &m.aliases {
            if let Const::Global(t, 0) = c {
                kinds[*s as usize] = kinds[*t as usize];
                addr[*s as usize] = addr[*t as usize];
            }
        }
        let mut p = Prog { m, tys, funcs: vec![], kinds, addr, mem, builtins, rels: Default::default() };
        for (gi, g) in p.m.globals.iter().enumerate() {
            if let Some(c) = &g.init {
                let a = ids[&gi];
                let mut buf = vec![0u8; p.m.size(g.ty) as usize];
                p.init(&mut buf, 0, g.ty, c);
                let o = p.mem.get_mut(a).unwrap();
                o.data.copy_from_slice(&buf);
            }
        }
        let mut funcs = vec![];
        for (i, f) in p.m.funcs.iter().enumerate() {
            let consts = f.consts.iter().map(|(t, c)| p.cval(*t, c)).collect();
            let short = short_name(&f.name);
            let target = short.contains("boxcars");
            let f2: &Func = f;
            funcs.push(CFunc { name: f2.name.clone(), short, id: i as u32, params: f2.params.clone(), nregs: f2.nregs, blocks: vec![], consts, target });
        }
        // move the blocks out of the parsed module
        let old = std::mem::take(&mut p.m.funcs);
        for (i, f) in old.into_iter().enumerate() {
            let f = Rc::try_unwrap(f).unwrap_or_else(|_| panic!());
            funcs[i].blocks = f.blocks;
        }
        p.funcs = funcs.into_iter().map(Rc::new).collect();
        p
    }

    fn eval_c(&self, c: &Const) -> u128 {
        match c {
            Const::Int(v) => *v,
            Const::Zero | Const::Undef => 0,
            Const::Global(s, o) => (self.addr[*s as usize].wrapping_add(*o as u64)) as u128,
            Const::Expr(e) => match &**e {
                CExpr::Sub(a, b) => self.eval_c(a).wrapping_sub(self.eval_c(b)),
                CExpr::Add(a, b) => self.eval_c(a).wrapping_add(self.eval_c(b)),
                // entries of relative lookup tables: the 64-bit difference of two objects does not
                // survive the truncation in this address layout, so it is kept on the side
                CExpr::Trunc(a, 32) if matches!(a, Const::Expr(e) if matches!(**e, CExpr::Sub(..))) => {
                    let mut r = self.rels.borrow_mut();
                    r.push(self.eval_c(a) as u64);
                    (REL_TAG << 24) as u128 | (r.len() - 1) as u128
                }
                CExpr::Trunc(a, w) => self.eval_c(a) & mask(*w),
                CExpr::Gep(a, o) => self.eval_c(a).wrapping_add(*o as u128),
            },
            _ => panic!("scalar constant {:?}", c),
        }
    }
    pub fn mkint(v: u128, w: u32) -> Val {
        let v = v & mask(w);
        if w <= 64 { Val::I(v as u64) } else { Val::W(Rc::new(v)) }
    }
    pub fn zero(&self, t: TyId) -> Val {
        let ti = &self.tys[t as usize];
        match &ti.kind {
            Kind::Vec(n, e, _) => {
                let z = self.zero(*e);
                Val::A((0..*n).map(|_| z.clone()).collect::<Vec<_>>().into())
            }
            Kind::Agg(es) => Val::A(es.iter().map(|(t, _)| self.zero(*t)).collect::<Vec<_>>().into()),
            Kind::Void => Val::I(0),
            _ => Self::mkint(0, ti.w),
        }
    }
    fn cval(&self, t: TyId, c: &Const) -> Val {
        let ti = &self.tys[t as usize];
        match c {
            Const::Zero | Const::Undef => self.zero(t),
            Const::Agg(es) => Val::A(es.iter().map(|(t, c)| self.cval(*t, c)).collect::<Vec<_>>().into()),
            Const::Bytes(b) => Val::A(b.iter().map(|x| Val::I(*x as u64)).collect::<Vec<_>>().into()),
            Const::Int(v) if matches!(ti.kind, Kind::Vec(..)) => {
                // splat
                if let Kind::Vec(n, _, w) = ti.kind {
                    Val::A((0..n).map(|_| Self::mkint(*v, w)).collect::<Vec<_>>().into())
                } else {
                    unreachable!()
                }
            }
            _ => {
                if ti.w == 0 {
                    return Val::I(0);
                }
                Self::mkint(self.eval_c(c), ti.w)
            }
        }
    }
    fn init(&self, buf: &mut [u8], off: usize, t: TyId, c: &Const) {
        match c {
            Const::Zero | Const::Undef => {}
            Const::Bytes(b) => buf[off..off + b.len()].copy_from_slice(b),
            Const::Agg(es) => {
                for (i, (et, ec)) in es.iter().enumerate() {
                    let o = self.m.field_off(t, i) as usize;
                    self.init(buf, off + o, *et, ec);
                }
            }
            _ => {
                let n = self.m.store_size(t) as usize;
                let v = self.eval_c(c);
                buf[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
}
