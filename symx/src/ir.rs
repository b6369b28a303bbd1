//! Parser for the subset of textual LLVM IR that rustc emits.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Vec(u32, TyId),
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Label,
    Meta,
    Token,
}

/// A constant as written in the IR (before address assignment).
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Zero,
    Undef,
    Global(u32, i64), // symbol id + byte offset
    Agg(Vec<(TyId, Const)>),
    Bytes(Vec<u8>),
    /// trunc(lhs - rhs) and friends
    Expr(Box<CExpr>),
}
#[derive(Clone, Debug)]
pub enum CExpr {
    Sub(Const, Const),
    Add(Const, Const),
    Trunc(Const, u32),
    Gep(Const, i64),
}

#[derive(Clone, Copy, Debug)]
pub enum Opnd {
    Reg(u32),
    Const(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, BitCast, PtrToInt, IntToPtr, SIToFP, UIToFP, FPToSI, FPToUI, FPTrunc, FPExt }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
/// bits: 1=eq 2=gt 4=lt 8=unordered
pub type FPred = u8;

#[derive(Clone, Debug)]
pub enum Callee {
    Sym(u32),
    Reg(Opnd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum RmwOp { Xchg, Add, Sub, And, Or, Xor, Nand, UMax, UMin, Max, Min }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, TyId, Opnd, Opnd),
    Icmp(Pred, TyId, Opnd, Opnd),
    Fcmp(FPred, TyId, Opnd, Opnd),
    Cast(CastOp, TyId, TyId, Opnd),
    FNeg(TyId, Opnd),
    Freeze(TyId, Opnd),
    Select(TyId, TyId, Opnd, Opnd, Opnd),
    Alloca(u64, Option<Opnd>),
    Load(TyId, Opnd),
    Store(TyId, Opnd, Opnd),
    /// base, constant offset, (index operand, index type width, scale)
    Gep(Opnd, i64, Vec<(Opnd, u32, u64)>),
    Extract(TyId, Opnd, Vec<u32>),
    Insert(TyId, Opnd, TyId, Opnd, Vec<u32>),
    ExtractElem(TyId, Opnd, Opnd),
    InsertElem(TyId, Opnd, Opnd, Opnd),
    Shuffle(TyId, Opnd, Opnd, Vec<i32>),
    Call { ret: TyId, callee: Callee, args: Vec<(TyId, Opnd)>, normal: Option<u32> },
    Rmw(RmwOp, TyId, Opnd, Opnd),
    CmpXchg(TyId, Opnd, Opnd, Opnd),
    Fence,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(TyId, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<(TyId, Opnd)>),
    Unreachable,
    LandingPad,
    Resume,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, TyId, Vec<(Opnd, u32)>)>,
    pub insts: Vec<(u32, Inst)>, // dest reg (u32::MAX none)
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub sym: u32,
    pub params: Vec<(u32, TyId)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub consts: Vec<(TyId, Const)>,
}

pub struct Global {
    pub name: String,
    pub sym: u32,
    pub ty: TyId,
    pub init: Option<Const>,
    pub constant: bool,
}

pub struct Module {
    pub types: Vec<Ty>,
    pub tymap: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
    pub syms: Vec<String>,
    pub symmap: HashMap<String, u32>,
    pub funcs: Vec<Rc<Func>>,
    pub func_of_sym: HashMap<u32, usize>,
    pub globals: Vec<Global>,
    pub aliases: Vec<(u32, Const)>,
    pub raw: Vec<(usize, usize)>, // unused
}

pub const NOREG: u32 = u32::MAX;

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len() as TyId;
        self.types.push(t.clone());
        self.tymap.insert(t, i);
        i
    }
    pub fn sym(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.symmap.get(n) {
            return i;
        }
        let i = self.syms.len() as u32;
        self.syms.push(n.to_string());
        self.symmap.insert(n.to_string(), i);
        i
    }
    pub fn align(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(..) => self.store_size(t).next_power_of_two(),
            Ty::Arr(_, e) => self.align(*e),
            Ty::Struct(es, p) => {
                if *p { 1 } else { es.iter().map(|e| self.align(*e)).max().unwrap_or(1) }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, e) => match self.types[*e as usize] {
                Ty::Int(w) => (*n as u64 * w as u64 + 7) / 8,
                _ => *n as u64 * self.size(*e),
            },
            _ => self.size(t),
        }
    }
    pub fn size(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Struct(es, p) => {
                let mut o = 0u64;
                let mut al = 1;
                for e in es {
                    let a = if *p { 1 } else { self.align(*e) };
                    al = al.max(a);
                    o = (o + a - 1) / a * a + self.size(*e);
                }
                (o + al - 1) / al * al
            }
            Ty::Void | Ty::Label | Ty::Meta | Ty::Token => 0,
            _ => {
                let s = self.store_size(t);
                let a = self.align(t);
                (s + a - 1) / a * a
            }
        }
    }
    pub fn field_off(&self, t: TyId, idx: usize) -> u64 {
        match &self.types[t as usize] {
            Ty::Struct(es, p) => {
                let mut o = 0u64;
                for (i, e) in es.iter().enumerate() {
                    let a = if *p { 1 } else { self.align(*e) };
                    o = (o + a - 1) / a * a;
                    if i == idx {
                        return o;
                    }
                    o += self.size(*e);
                }
                panic!("field")
            }
            Ty::Arr(_, e) => idx as u64 * self.size(*e),
            Ty::Vec(_, e) => idx as u64 * self.size(*e),
            _ => panic!("field_off"),
        }
    }
    pub fn elem_ty(&self, t: TyId, idx: usize) -> TyId {
        match &self.types[t as usize] {
            Ty::Struct(es, _) => es[idx],
            Ty::Arr(_, e) | Ty::Vec(_, e) => *e,
            _ => panic!("elem_ty"),
        }
    }
    /// scalar bit width
    pub fn width(&self, t: TyId) -> u32 {
        match &self.types[t as usize] {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            x => panic!("width of {:?}", x),
        }
    }
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(String),
    Str(&'a [u8]), // raw, with escapes
    Num(&'a str),
    P(u8),
    Meta,
    Attr,
    Dots,
    End,
}

struct Lex<'a> {
    s: &'a [u8],
    p: usize,
    tok: Tok<'a>,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).unwrap(), 16).unwrap());
                i += 3;
            }
        } else {
            v.push(s[i]);
            i += 1;
        }
    }
    v
}

impl<'a> Lex<'a> {
    fn new(s: &'a [u8]) -> Self {
        let mut l = Lex { s, p: 0, tok: Tok::End };
        l.next();
        l
    }
    fn next(&mut self) -> Tok<'a> {
        let t = self.lex();
        std::mem::replace(&mut self.tok, t)
    }
    fn lex(&mut self) -> Tok<'a> {
        let s = self.s;
        while self.p < s.len() && (s[self.p] == b' ' || s[self.p] == b'\t' || s[self.p] == b'\n') {
            self.p += 1;
        }
        if s[self.p.min(s.len())..].starts_with(b"/*") {
            while self.p < s.len() && !s[self.p..].starts_with(b"*/") {
                self.p += 1;
            }
            self.p = (self.p + 2).min(s.len());
            return self.lex();
        }
        if self.p >= s.len() || s[self.p] == b';' {
            if self.p < s.len() {
                // comment to end of line
                while self.p < s.len() && s[self.p] != b'\n' {
                    self.p += 1;
                }
                if self.p < s.len() {
                    return self.lex();
                }
            }
            return Tok::End;
        }
        let c = s[self.p];
        let st = self.p;
        let word = |l: &mut Self| -> &'a str {
            let st = l.p;
            while l.p < s.len() && is_id(s[l.p]) {
                l.p += 1;
            }
            unsafe { std::str::from_utf8_unchecked(&s[st..l.p]) }
        };
        let quoted = |l: &mut Self| -> &'a [u8] {
            l.p += 1;
            let st = l.p;
            while s[l.p] != b'"' {
                l.p += 1;
            }
            let r = &s[st..l.p];
            l.p += 1;
            r
        };
        match c {
            b'%' => {
                self.p += 1;
                if s[self.p] == b'"' {
                    let q = quoted(self);
                    Tok::Local(unsafe { std::str::from_utf8_unchecked(q) })
                } else {
                    Tok::Local(word(self))
                }
            }
            b'@' => {
                self.p += 1;
                if s[self.p] == b'"' {
                    let q = quoted(self);
                    Tok::Global(String::from_utf8_lossy(&unescape(q)).into_owned())
                } else {
                    Tok::Global(word(self).to_string())
                }
            }
            b'!' => {
                self.p += 1;
                if self.p < s.len() && s[self.p] == b'"' {
                    quoted(self);
                } else {
                    word(self);
                }
                Tok::Meta
            }
            b'#' => {
                self.p += 1;
                word(self);
                Tok::Attr
            }
            b'"' => Tok::Str(quoted(self)),
            b'c' if s.get(self.p + 1) == Some(&b'"') => {
                self.p += 1;
                Tok::Str(quoted(self))
            }
            b'.' if s.get(self.p + 1) == Some(&b'.') => {
                self.p += 3;
                Tok::Dots
            }
            b'-' | b'0'..=b'9' => {
                self.p += 1;
                while self.p < s.len() && (is_id(s[self.p]) || s[self.p] == b'+') {
                    self.p += 1;
                }
                Tok::Num(unsafe { std::str::from_utf8_unchecked(&s[st..self.p]) })
            }
            c if is_id(c) => {
                let w = word(self);
                if w.starts_with("f0x") {
                    Tok::Num(w)
                } else {
                    Tok::Word(w)
                }
            }
            _ => {
                self.p += 1;
                Tok::P(c)
            }
        }
    }
    fn isp(&self, c: u8) -> bool {
        self.tok == Tok::P(c)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(&self.tok, Tok::Word(x) if *x == w)
    }
    fn eatp(&mut self, c: u8) -> bool {
        if self.isp(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expp(&mut self, c: u8) {
        if !self.eatp(c) {
            panic!("expected '{}' got {:?} in: {}", c as char, self.tok, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        let a = self.p.saturating_sub(200);
        let b = (self.p + 200).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).into_owned()
    }
    fn skip_parens(&mut self) {
        // current token is '('
        let mut d = 0;
        loop {
            if self.isp(b'(') {
                d += 1;
            }
            if self.isp(b')') {
                d -= 1;
            }
            self.next();
            if d == 0 {
                return;
            }
        }
    }
}

struct P<'m> {
    m: &'m mut Module,
}

fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "sub" | "add" | "splat" | "asm" | "bitcast" | "metadata"
    )
}

impl<'m> P<'m> {
    fn ty(&mut self, l: &mut Lex) -> TyId {
        let t = match l.next() {
            Tok::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "token" => Ty::Token,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} {}", w, l.ctx()))),
                _ => panic!("type {} in {}", w, l.ctx()),
            },
            Tok::Local(n) => {
                return *self.m.named.get(n).unwrap_or_else(|| panic!("named type {}", n));
            }
            Tok::P(b'[') => {
                let n = self.num(l) as u64;
                assert!(l.eatw("x"));
                let e = self.ty(l);
                l.expp(b']');
                Ty::Arr(n, e)
            }
            Tok::P(b'{') => {
                let es = self.tylist(l, b'}');
                Ty::Struct(es, false)
            }
            Tok::P(b'<') => {
                if l.eatp(b'{') {
                    let es = self.tylist(l, b'}');
                    l.expp(b'>');
                    Ty::Struct(es, true)
                } else {
                    let n = self.num(l) as u32;
                    assert!(l.eatw("x"));
                    let e = self.ty(l);
                    l.expp(b'>');
                    Ty::Vec(n, e)
                }
            }
            t => panic!("type token {:?} in {}", t, l.ctx()),
        };
        if t == Ty::Ptr && l.isw("addrspace") {
            l.next();
            l.skip_parens();
        }
        self.m.ty(t)
    }
    fn tylist(&mut self, l: &mut Lex, end: u8) -> Vec<TyId> {
        let mut v = vec![];
        if l.eatp(end) {
            return v;
        }
        loop {
            v.push(self.ty(l));
            if l.eatp(b',') {
                continue;
            }
            l.expp(end);
            return v;
        }
    }
    fn num(&mut self, l: &mut Lex) -> i128 {
        match l.next() {
            Tok::Num(n) => n.parse().unwrap_or_else(|_| panic!("num {}", n)),
            t => panic!("num {:?} in {}", t, l.ctx()),
        }
    }
    fn cnum(&self, t: TyId, n: &str) -> u128 {
        match &self.m.types[t as usize] {
            Ty::Int(w) => {
                let v: i128 = if let Some(h) = n.strip_prefix("u0x") {
                    u128::from_str_radix(h, 16).unwrap() as i128
                } else {
                    n.parse::<i128>().or_else(|_| n.parse::<u128>().map(|x| x as i128)).unwrap_or_else(|_| panic!("int {}", n))
                };
                (v as u128) & mask(*w)
            }
            Ty::F32 => {
                if let Some(h) = n.strip_prefix("f0x") {
                    u128::from_str_radix(h, 16).unwrap()
                } else if let Some(h) = n.strip_prefix("0x") {
                    let d = f64::from_bits(u64::from_str_radix(h, 16).unwrap());
                    (d as f32).to_bits() as u128
                } else {
                    (n.parse::<f64>().unwrap() as f32).to_bits() as u128
                }
            }
            Ty::F64 => {
                if let Some(h) = n.strip_prefix("f0x") {
                    u128::from_str_radix(h, 16).unwrap()
                } else if let Some(h) = n.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).unwrap() as u128
                } else {
                    n.parse::<f64>().unwrap().to_bits() as u128
                }
            }
            x => panic!("number of type {:?}: {}", x, n),
        }
    }
    /// constant value of the given type (anything but a local register)
    fn cval(&mut self, l: &mut Lex, t: TyId) -> Const {
        match l.next() {
            Tok::Num(n) => Const::Int(self.cnum(t, n)),
            Tok::Global(g) => Const::Global(self.m.sym(&g), 0),
            Tok::Str(s) => Const::Bytes(unescape(s)),
            Tok::Word(w) => match w {
                "null" | "zeroinitializer" | "none" => Const::Zero,
                "false" => Const::Int(0),
                "true" => Const::Int(1),
                "undef" | "poison" => Const::Undef,
                "splat" => {
                    l.expp(b'(');
                    let et = self.ty(l);
                    let v = self.cval(l, et);
                    l.expp(b')');
                    let n = match &self.m.types[t as usize] {
                        Ty::Vec(n, _) => *n,
                        _ => panic!("splat"),
                    };
                    Const::Agg((0..n).map(|_| (et, v.clone())).collect())
                }
                "getelementptr" => {
                    while let Tok::Word(_) = l.tok {
                        l.next();
                        if l.isp(b'(') && matches!(l.s.get(l.p), Some(_)) {
                            break;
                        }
                    }
                    // 'inrange(..)' is not expected
                    l.expp(b'(');
                    let mut cur = self.ty(l);
                    l.expp(b',');
                    let pt = self.ty(l);
                    let base = self.cval(l, pt);
                    let mut off = 0i64;
                    let mut first = true;
                    while l.eatp(b',') {
                        let it = self.ty(l);
                        let w = self.m.width(it);
                        let iv = match self.cval(l, it) {
                            Const::Int(v) => sext(v, w) as i64,
                            Const::Zero => 0,
                            x => panic!("gep idx {:?}", x),
                        };
                        if first {
                            off += iv * self.m.size(cur) as i64;
                            first = false;
                        } else {
                            match &self.m.types[cur as usize] {
                                Ty::Struct(..) => {
                                    off += self.m.field_off(cur, iv as usize) as i64;
                                    cur = self.m.elem_ty(cur, iv as usize);
                                }
                                _ => {
                                    cur = self.m.elem_ty(cur, 0);
                                    off += iv * self.m.size(cur) as i64;
                                }
                            }
                        }
                    }
                    l.expp(b')');
                    match base {
                        Const::Global(g, o) => Const::Global(g, o + off),
                        b => Const::Expr(Box::new(CExpr::Gep(b, off))),
                    }
                }
                "ptrtoint" | "inttoptr" | "bitcast" => {
                    l.expp(b'(');
                    let st = self.ty(l);
                    let v = self.cval(l, st);
                    assert!(l.eatw("to"));
                    let dt = self.ty(l);
                    l.expp(b')');
                    if w == "ptrtoint" && self.m.width(dt) < 64 {
                        let w = self.m.width(dt);
                        Const::Expr(Box::new(CExpr::Trunc(v, w)))
                    } else {
                        v
                    }
                }
                "trunc" => {
                    l.expp(b'(');
                    let st = self.ty(l);
                    let v = self.cval(l, st);
                    assert!(l.eatw("to"));
                    let dt = self.ty(l);
                    l.expp(b')');
                    let w = self.m.width(dt);
                    Const::Expr(Box::new(CExpr::Trunc(v, w)))
                }
                "sub" | "add" => {
                    while !l.isp(b'(') {
                        l.next();
                    }
                    l.expp(b'(');
                    let at = self.ty(l);
                    let a = self.cval(l, at);
                    l.expp(b',');
                    let bt = self.ty(l);
                    let b = self.cval(l, bt);
                    l.expp(b')');
                    Const::Expr(Box::new(if w == "sub" { CExpr::Sub(a, b) } else { CExpr::Add(a, b) }))
                }
                _ => panic!("const word {} in {}", w, l.ctx()),
            },
            Tok::P(b'[') => self.cagg(l, b']'),
            Tok::P(b'{') => self.cagg(l, b'}'),
            Tok::P(b'<') => {
                if l.eatp(b'{') {
                    let a = self.cagg(l, b'}');
                    l.expp(b'>');
                    a
                } else {
                    self.cagg(l, b'>')
                }
            }
            t => panic!("const {:?} in {}", t, l.ctx()),
        }
    }
    fn cagg(&mut self, l: &mut Lex, end: u8) -> Const {
        let mut v = vec![];
        if l.eatp(end) {
            return Const::Agg(v);
        }
        loop {
            let t = self.ty(l);
            let c = self.cval(l, t);
            v.push((t, c));
            if l.eatp(b',') {
                continue;
            }
            l.expp(end);
            return Const::Agg(v);
        }
    }
    /// skip parameter attributes
    fn attrs(&mut self, l: &mut Lex) {
        loop {
            match &l.tok {
                Tok::Word(w) if !is_value_word(w) => {
                    let w = *w;
                    l.next();
                    if l.isp(b'(') {
                        l.skip_parens();
                    } else if w == "align" {
                        if let Tok::Num(_) = l.tok {
                            l.next();
                        }
                    }
                }
                Tok::Attr => {
                    l.next();
                }
                Tok::Str(_) => {
                    l.next();
                    if l.eatp(b'=') {
                        l.next();
                    }
                }
                _ => return,
            }
        }
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { !0 } else { (1u128 << w) - 1 }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

struct FnP<'m, 'a> {
    p: P<'m>,
    regs: HashMap<&'a str, u32>,
    labels: HashMap<&'a str, u32>,
    consts: Vec<(TyId, Const)>,
}

impl<'m, 'a> FnP<'m, 'a> {
    fn reg(&mut self, n: &'a str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, n: &'a str) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
    fn konst(&mut self, t: TyId, c: Const) -> Opnd {
        self.consts.push((t, c));
        Opnd::Const(self.consts.len() as u32 - 1)
    }
    fn val(&mut self, l: &mut Lex<'a>, t: TyId) -> Opnd {
        if let Tok::Local(n) = l.tok {
            l.next();
            return Opnd::Reg(self.reg(n));
        }
        if l.isw("metadata") {
            panic!("metadata");
        }
        let c = self.p.cval(l, t);
        self.konst(t, c)
    }
    fn tyval(&mut self, l: &mut Lex<'a>) -> (TyId, Opnd) {
        let t = self.p.ty(l);
        let v = self.val(l, t);
        (t, v)
    }
    fn lab(&mut self, l: &mut Lex<'a>) -> u32 {
        assert!(l.eatw("label"), "label: {}", l.ctx());
        match l.next() {
            Tok::Local(n) => self.label(n),
            t => panic!("label {:?}", t),
        }
    }
    fn call(&mut self, l: &mut Lex<'a>, invoke: bool) -> Option<Inst> {
        // after 'call'/'invoke': [fast-math] [cc] [ret attrs] type callee(args) ...
        loop {
            match &l.tok {
                Tok::Word(w) => {
                    let w = *w;
                    let isty = matches!(w, "void" | "ptr" | "float" | "double" | "token")
                        || (w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) && w.len() > 1);
                    if isty {
                        break;
                    }
                    l.next();
                    if l.isp(b'(') {
                        l.skip_parens();
                    } else if w == "align" {
                        l.next();
                    }
                }
                Tok::Attr => {
                    l.next();
                }
                _ => break,
            }
        }
        let ret = self.p.ty(l);
        // optional function type
        if l.isp(b'(') {
            l.skip_parens();
        }
        let callee = match l.next() {
            Tok::Global(g) => Callee::Sym(self.p.m.sym(&g)),
            Tok::Local(n) => Callee::Reg(Opnd::Reg(self.reg(n))),
            Tok::Word("asm") => {
                while let Tok::Word(_) = l.tok {
                    l.next();
                }
                let a = match l.next() {
                    Tok::Str(s) => String::from_utf8_lossy(s).into_owned(),
                    t => panic!("asm {:?}", t),
                };
                l.expp(b',');
                l.next();
                Callee::Asm(a)
            }
            t => panic!("callee {:?} in {}", t, l.ctx()),
        };
        l.expp(b'(');
        let mut args = vec![];
        let mut meta = false;
        if !l.eatp(b')') {
            loop {
                let t = self.p.ty(l);
                self.p.attrs(l);
                if self.p.m.types[t as usize] == Ty::Meta {
                    meta = true;
                    // skip to , or )
                    let mut d = 0;
                    loop {
                        if d == 0 && (l.isp(b',') || l.isp(b')')) {
                            break;
                        }
                        if l.isp(b'(') || l.isp(b'{') {
                            d += 1;
                        }
                        if l.isp(b')') || l.isp(b'}') {
                            d -= 1;
                        }
                        l.next();
                    }
                } else {
                    let v = self.val(l, t);
                    args.push((t, v));
                }
                if l.eatp(b',') {
                    continue;
                }
                l.expp(b')');
                break;
            }
        }
        let mut normal = None;
        if invoke {
            while !l.isw("to") {
                l.next();
            }
            l.next();
            normal = Some(self.lab(l));
        }
        if meta {
            return None;
        }
        Some(Inst::Call { ret, callee, args, normal })
    }

    fn inst(&mut self, l: &mut Lex<'a>) -> Option<Inst> {
        let mut w = match l.next() {
            Tok::Word(w) => w,
            t => panic!("inst {:?} in {}", t, l.ctx()),
        };
        if matches!(w, "tail" | "musttail" | "notail") {
            w = match l.next() {
                Tok::Word(w) => w,
                t => panic!("{:?}", t),
            };
        }
        let bin = |w: &str| -> Option<BinOp> {
            Some(match w {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "fadd" => BinOp::FAdd,
                "fsub" => BinOp::FSub,
                "fmul" => BinOp::FMul,
                "fdiv" => BinOp::FDiv,
                "frem" => BinOp::FRem,
                _ => return None,
            })
        };
        let cast = |w: &str| -> Option<CastOp> {
            Some(match w {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::ZExt,
                "sext" => CastOp::SExt,
                "bitcast" => CastOp::BitCast,
                "ptrtoint" => CastOp::PtrToInt,
                "ptrtoaddr" => CastOp::PtrToInt,
                "inttoptr" => CastOp::IntToPtr,
                "sitofp" => CastOp::SIToFP,
                "uitofp" => CastOp::UIToFP,
                "fptosi" => CastOp::FPToSI,
                "fptoui" => CastOp::FPToUI,
                "fptrunc" => CastOp::FPTrunc,
                "fpext" => CastOp::FPExt,
                _ => return None,
            })
        };
        let flags = |l: &mut Lex<'a>| {
            while let Tok::Word(f) = l.tok {
                if matches!(f, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "samesign" | "inbounds" | "nusw") {
                    l.next();
                } else {
                    break;
                }
            }
        };
        if let Some(b) = bin(w) {
            flags(l);
            let (t, a) = self.tyval(l);
            l.expp(b',');
            let c = self.val(l, t);
            return Some(Inst::Bin(b, t, a, c));
        }
        if let Some(c) = cast(w) {
            flags(l);
            let (t, a) = self.tyval(l);
            assert!(l.eatw("to"), "cast {}", l.ctx());
            let d = self.p.ty(l);
            return Some(Inst::Cast(c, t, d, a));
        }
        Some(match w {
            "icmp" => {
                flags(l);
                let p = match l.next() {
                    Tok::Word(p) => match p {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => panic!("icmp {}", p),
                    },
                    t => panic!("icmp {:?}", t),
                };
                let (t, a) = self.tyval(l);
                l.expp(b',');
                let b = self.val(l, t);
                Inst::Icmp(p, t, a, b)
            }
            "fcmp" => {
                flags(l);
                let p: FPred = match l.next() {
                    Tok::Word(p) => match p {
                        "false" => 0,
                        "oeq" => 1,
                        "ogt" => 2,
                        "oge" => 3,
                        "olt" => 4,
                        "ole" => 5,
                        "one" => 6,
                        "ord" => 7,
                        "uno" => 8,
                        "ueq" => 9,
                        "ugt" => 10,
                        "uge" => 11,
                        "ult" => 12,
                        "ule" => 13,
                        "une" => 14,
                        "true" => 15,
                        _ => panic!("fcmp {}", p),
                    },
                    t => panic!("fcmp {:?}", t),
                };
                let (t, a) = self.tyval(l);
                l.expp(b',');
                let b = self.val(l, t);
                Inst::Fcmp(p, t, a, b)
            }
            "fneg" => {
                flags(l);
                let (t, a) = self.tyval(l);
                Inst::FNeg(t, a)
            }
            "freeze" => {
                let (t, a) = self.tyval(l);
                Inst::Freeze(t, a)
            }
            "select" => {
                flags(l);
                let (ct, c) = self.tyval(l);
                l.expp(b',');
                let (t, a) = self.tyval(l);
                l.expp(b',');
                let (_, b) = self.tyval(l);
                Inst::Select(ct, t, c, a, b)
            }
            "alloca" => {
                l.eatw("inalloca");
                let t = self.p.ty(l);
                let mut n = None;
                if l.eatp(b',') {
                    if l.isw("align") {
                    } else if !matches!(l.tok, Tok::Meta) {
                        let (_, v) = self.tyval(l);
                        n = Some(v);
                    }
                }
                Inst::Alloca(self.p.m.size(t), n)
            }
            "load" => {
                l.eatw("atomic");
                l.eatw("volatile");
                let t = self.p.ty(l);
                l.expp(b',');
                let (_, a) = self.tyval(l);
                Inst::Load(t, a)
            }
            "store" => {
                l.eatw("atomic");
                l.eatw("volatile");
                let (t, v) = self.tyval(l);
                l.expp(b',');
                let (_, a) = self.tyval(l);
                Inst::Store(t, v, a)
            }
            "getelementptr" => {
                flags(l);
                let mut cur = self.p.ty(l);
                l.expp(b',');
                let (_, base) = self.tyval(l);
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut first = true;
                while l.eatp(b',') {
                    if let Tok::Meta = l.tok {
                        break;
                    }
                    let (it, iv) = self.tyval(l);
                    let w = self.p.m.width(it);
                    let konst = match iv {
                        Opnd::Const(c) => match &self.consts[c as usize].1 {
                            Const::Int(v) => Some(sext(*v, w) as i64),
                            Const::Zero => Some(0),
                            _ => None,
                        },
                        _ => None,
                    };
                    let scale;
                    if first {
                        scale = self.p.m.size(cur);
                        first = false;
                    } else if let Ty::Struct(..) = &self.p.m.types[cur as usize] {
                        let i = konst.unwrap() as usize;
                        off += self.p.m.field_off(cur, i) as i64;
                        cur = self.p.m.elem_ty(cur, i);
                        continue;
                    } else {
                        cur = self.p.m.elem_ty(cur, 0);
                        scale = self.p.m.size(cur);
                    }
                    match konst {
                        Some(k) => off = off.wrapping_add(k.wrapping_mul(scale as i64)),
                        None => dynv.push((iv, w, scale)),
                    }
                }
                Inst::Gep(base, off, dynv)
            }
            "extractvalue" => {
                let (t, a) = self.tyval(l);
                let mut ix = vec![];
                while l.eatp(b',') {
                    if let Tok::Meta = l.tok {
                        break;
                    }
                    ix.push(self.p.num(l) as u32);
                }
                Inst::Extract(t, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyval(l);
                l.expp(b',');
                let (vt, v) = self.tyval(l);
                let mut ix = vec![];
                while l.eatp(b',') {
                    if let Tok::Meta = l.tok {
                        break;
                    }
                    ix.push(self.p.num(l) as u32);
                }
                Inst::Insert(t, a, vt, v, ix)
            }
            "extractelement" => {
                let (t, a) = self.tyval(l);
                l.expp(b',');
                let (_, i) = self.tyval(l);
                Inst::ExtractElem(t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.tyval(l);
                l.expp(b',');
                let (_, v) = self.tyval(l);
                l.expp(b',');
                let (_, i) = self.tyval(l);
                Inst::InsertElem(t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyval(l);
                l.expp(b',');
                let (_, b) = self.tyval(l);
                l.expp(b',');
                let mt = self.p.ty(l);
                let n = match self.p.m.types[mt as usize] {
                    Ty::Vec(n, _) => n,
                    _ => panic!(),
                };
                let mv = match self.p.cval(l, mt) {
                    Const::Zero => vec![0; n as usize],
                    Const::Undef => vec![-1; n as usize],
                    Const::Agg(v) => v
                        .into_iter()
                        .map(|(_, c)| match c {
                            Const::Int(x) => x as u32 as i32,
                            Const::Zero => 0,
                            _ => -1,
                        })
                        .collect(),
                    _ => panic!("mask"),
                };
                Inst::Shuffle(t, a, b, mv)
            }
            "call" => return self.call(l, false),
            "invoke" => return self.call(l, true),
            "atomicrmw" => {
                l.eatw("volatile");
                let op = match l.next() {
                    Tok::Word(w) => match w {
                        "xchg" => RmwOp::Xchg,
                        "add" => RmwOp::Add,
                        "sub" => RmwOp::Sub,
                        "and" => RmwOp::And,
                        "or" => RmwOp::Or,
                        "xor" => RmwOp::Xor,
                        "nand" => RmwOp::Nand,
                        "umax" => RmwOp::UMax,
                        "umin" => RmwOp::UMin,
                        "max" => RmwOp::Max,
                        "min" => RmwOp::Min,
                        _ => panic!("rmw {}", w),
                    },
                    t => panic!("{:?}", t),
                };
                let (_, a) = self.tyval(l);
                l.expp(b',');
                let (t, v) = self.tyval(l);
                Inst::Rmw(op, t, a, v)
            }
            "cmpxchg" => {
                l.eatw("weak");
                l.eatw("volatile");
                let (_, a) = self.tyval(l);
                l.expp(b',');
                let (t, c) = self.tyval(l);
                l.expp(b',');
                let (_, n) = self.tyval(l);
                Inst::CmpXchg(t, a, c, n)
            }
            "fence" => Inst::Fence,
            "br" => {
                if l.isw("label") {
                    Inst::Br(self.lab(l))
                } else {
                    let (_, c) = self.tyval(l);
                    l.expp(b',');
                    let a = self.lab(l);
                    l.expp(b',');
                    let b = self.lab(l);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, c) = self.tyval(l);
                l.expp(b',');
                let d = self.lab(l);
                l.expp(b'[');
                let mut cs = vec![];
                while !l.eatp(b']') {
                    let ct = self.p.ty(l);
                    let v = match self.p.cval(l, ct) {
                        Const::Int(v) => v,
                        Const::Zero => 0,
                        _ => panic!("case"),
                    };
                    l.expp(b',');
                    let b = self.lab(l);
                    cs.push((v, b));
                }
                Inst::Switch(t, c, d, cs)
            }
            "ret" => {
                if l.isw("void") {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.tyval(l)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "landingpad" => Inst::LandingPad,
            "resume" => Inst::Resume,
            _ => panic!("instruction {} in {}", w, l.ctx()),
        })
    }
}

pub fn parse(text: &str) -> Module {
    let mut m = Module {
        types: vec![],
        tymap: HashMap::new(),
        named: HashMap::new(),
        syms: vec![],
        symmap: HashMap::new(),
        funcs: vec![],
        func_of_sym: HashMap::new(),
        globals: vec![],
        aliases: vec![],
        raw: vec![],
    };
    let bytes = text.as_bytes();
    // first pass: split in top-level items
    let mut pos = 0;
    let n = bytes.len();
    let line_end = |p: usize| -> usize { bytes[p..].iter().position(|&c| c == b'\n').map(|x| p + x).unwrap_or(n) };
    let mut fn_items = vec![];
    let mut glob_items = vec![];
    while pos < n {
        let e = line_end(pos);
        let line = &text[pos..e];
        if line.starts_with("define ") {
            let mut q = e + 1;
            let body = q;
            loop {
                let qe = line_end(q);
                if &text[q..qe] == "}" {
                    fn_items.push((pos, e, body, q));
                    pos = qe + 1;
                    break;
                }
                q = qe + 1;
            }
            continue;
        }
        if line.starts_with('@') {
            glob_items.push((pos, e));
        } else if line.starts_with('%') {
            // named type
            let mut l = Lex::new(&bytes[pos..e]);
            let name = match l.next() {
                Tok::Local(n) => n.to_string(),
                _ => panic!(),
            };
            l.expp(b'=');
            assert!(l.eatw("type"));
            if l.isw("opaque") {
                let t = m.ty(Ty::Void);
                m.named.insert(name, t);
            } else {
                let t = P { m: &mut m }.ty(&mut l);
                m.named.insert(name, t);
            }
        }
        pos = e + 1;
    }
    for (a, b) in glob_items {
        let mut l = Lex::new(&bytes[a..b]);
        let name = match l.next() {
            Tok::Global(g) => g,
            _ => panic!(),
        };
        l.expp(b'=');
        let mut external = false;
        let constant;
        let mut alias = false;
        loop {
            match l.next() {
                Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                Tok::Word("global") => {
                    constant = false;
                    break;
                }
                Tok::Word("constant") => {
                    constant = true;
                    break;
                }
                Tok::Word("alias") => {
                    constant = false;
                    alias = true;
                    break;
                }
                Tok::Word(_) => {
                    if l.isp(b'(') {
                        l.skip_parens();
                    }
                }
                t => panic!("global {:?} {}", t, name),
            }
        }
        let sym = m.sym(&name);
        let mut p = P { m: &mut m };
        let ty = p.ty(&mut l);
        if alias {
            if l.isp(b'(') {
                l.skip_parens();
            }
            l.expp(b',');
            let pt = p.ty(&mut l);
            let c = p.cval(&mut l, pt);
            m.aliases.push((sym, c));
            continue;
        }
        let init = if external { None } else { Some(p.cval(&mut l, ty)) };
        m.globals.push(Global { name, sym, ty, init, constant });
    }
    for (a, e, body, end) in fn_items {
        let mut l = Lex::new(&bytes[a..e]);
        // skip to @name; return type is irrelevant here
        let name = loop {
            match l.next() {
                Tok::Global(g) => break g,
                Tok::End => panic!("define"),
                _ => {}
            }
        };
        let sym = m.sym(&name);
        let mut f = FnP { p: P { m: &mut m }, regs: HashMap::new(), labels: HashMap::new(), consts: vec![] };
        l.expp(b'(');
        let mut params = vec![];
        let mut argno = 0;
        let mut argnames: Vec<Option<&str>> = vec![];
        if !l.eatp(b')') {
            loop {
                if l.tok == Tok::Dots {
                    l.next();
                    l.expp(b')');
                    break;
                }
                let t = f.p.ty(&mut l);
                f.p.attrs(&mut l);
                if let Tok::Local(n) = l.tok {
                    l.next();
                    argnames.push(Some(n));
                } else {
                    argnames.push(None);
                }
                let r = match argnames[argno] {
                    Some(n) => f.reg(n),
                    None => panic!("unnamed arg in {}", name),
                };
                argno += 1;
                params.push((r, t));
                if l.eatp(b',') {
                    continue;
                }
                l.expp(b')');
                break;
            }
        }
        // body: line oriented, except switch which spans lines, and landingpad/invoke continuation
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        let mut q = body;
        while q < end {
            let mut qe = line_end(q);
            let line = &bytes[q..qe];
            if line.is_empty() || line[0] == b';' {
                q = qe + 1;
                continue;
            }
            if line[0] != b' ' {
                // label
                let c = if line[0] == b'"' {
                    let k = line[1..].iter().position(|&c| c == b'"').unwrap();
                    &text[q + 1..q + 1 + k]
                } else {
                    let k = line.iter().position(|&c| c == b':').unwrap();
                    &text[q..q + k]
                };
                if let Some(b) = cur.take() {
                    blocks.push(b);
                }
                let id = f.label(c);
                cur = Some((id, Block { phis: vec![], insts: vec![] }));
                q = qe + 1;
                continue;
            }
            let trimmed = text[q..qe].trim_start();
            if trimmed.starts_with(';') || trimmed.starts_with("#dbg") {
                q = qe + 1;
                continue;
            }
            // join continuation lines
            if trimmed.starts_with("switch ") {
                while !text[q..qe].trim_end().ends_with(']') && !text[q..qe].contains("\n  ]") {
                    qe = line_end(qe + 1);
                }
            } else if trimmed.contains("invoke ") {
                qe = line_end(qe + 1);
            } else if trimmed.contains("= landingpad ") {
                // following lines: cleanup / catch / filter
                loop {
                    let nx = qe + 1;
                    let ne = line_end(nx);
                    let s = text[nx..ne].trim_start();
                    if s.starts_with("cleanup") || s.starts_with("catch ") || s.starts_with("filter ") {
                        qe = ne;
                    } else {
                        break;
                    }
                }
            }
            if cur.is_none() {
                // implicit entry label: the next unnamed value number
                let k = argnames.iter().flatten().filter(|n| n.bytes().all(|c| c.is_ascii_digit())).count();
                let id = f.label(Box::leak(k.to_string().into_boxed_str()));
                cur = Some((id, Block { phis: vec![], insts: vec![] }));
            }
            let mut l = Lex::new(&bytes[q..qe]);
            let mut dest = NOREG;
            if let Tok::Local(n) = l.tok {
                l.next();
                l.expp(b'=');
                dest = f.reg(n);
            }
            if l.eatw("phi") {
                while let Tok::Word(w) = l.tok {
                    if matches!(w, "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                        l.next();
                    } else {
                        break;
                    }
                }
                let t = f.p.ty(&mut l);
                let mut inc = vec![];
                loop {
                    l.expp(b'[');
                    let v = f.val(&mut l, t);
                    l.expp(b',');
                    let b = match l.next() {
                        Tok::Local(n) => f.label(n),
                        x => panic!("phi {:?}", x),
                    };
                    l.expp(b']');
                    inc.push((v, b));
                    if !l.eatp(b',') {
                        break;
                    }
                    if let Tok::Meta = l.tok {
                        break;
                    }
                }
                cur.as_mut().unwrap().1.phis.push((dest, t, inc));
            } else if let Some(i) = f.inst(&mut l) {
                cur.as_mut().unwrap().1.insts.push((dest, i));
            }
            q = qe + 1;
        }
        if let Some(b) = cur.take() {
            blocks.push(b);
        }
        let nl = f.labels.len();
        let entry = blocks[0].0;
        let mut bs: Vec<Option<Block>> = (0..nl).map(|_| None).collect();
        for (id, b) in blocks {
            bs[id as usize] = Some(b);
        }
        // entry block must be index 0: swap ids if not
        let nregs = f.regs.len() as u32;
        let consts = f.consts;
        for (l, i) in &f.labels {
            if bs[*i as usize].is_none() {
                panic!("undefined label {} in {}", l, name);
            }
        }
        let mut blocks: Vec<Block> = bs.into_iter().map(|b| b.unwrap()).collect();
        if entry != 0 {
            blocks.swap(0, entry as usize);
            let sw = |x: &mut u32| {
                if *x == 0 {
                    *x = entry
                } else if *x == entry {
                    *x = 0
                }
            };
            for b in &mut blocks {
                for (_, _, inc) in &mut b.phis {
                    for (_, l) in inc {
                        sw(l)
                    }
                }
                for (_, i) in &mut b.insts {
                    match i {
                        Inst::Br(a) => sw(a),
                        Inst::CondBr(_, a, b) => {
                            sw(a);
                            sw(b)
                        }
                        Inst::Switch(_, _, d, cs) => {
                            sw(d);
                            for c in cs {
                                sw(&mut c.1)
                            }
                        }
                        Inst::Call { normal: Some(n), .. } => sw(n),
                        _ => {}
                    }
                }
            }
        }
        let idx = m.funcs.len();
        m.func_of_sym.insert(sym, idx);
        m.funcs.push(Rc::new(Func { name, sym, params, nregs, blocks, consts }));
    }
    m
}
