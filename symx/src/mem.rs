//! Copy-on-write object memory with an optional per-byte symbolic overlay.
use crate::term::T;
use std::rc::Rc;

pub const BASE: u64 = 0x10000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OKind {
    Const,
    Global,
    Heap,
    Stack,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// (term, byte index within the term); term 0 means concrete
    pub sym: Option<Vec<(T, u8)>>,
    pub kind: OKind,
}

const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    pub n: u32,
    empty: Rc<Chunk>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MemErr {
    Null,
    Freed,
    Oob,
    ReadOnly,
}

#[inline]
pub fn split(addr: u64) -> (u32, i64) {
    let id = (addr.wrapping_add(0) >> 32) as u32;
    (id, (addr & 0xffff_ffff) as i64 - BASE as i64)
}

impl Mem {
    pub fn new() -> Mem {
        let empty = Rc::new(vec![None; CH]);
        Mem { chunks: vec![empty.clone()], n: 1, empty }
    }
    pub fn alloc(&mut self, size: u64, kind: OKind) -> u64 {
        let id = self.n;
        self.n += 1;
        let c = id as usize / CH;
        if c >= self.chunks.len() {
            self.chunks.push(self.empty.clone());
        }
        let ch = Rc::make_mut(&mut self.chunks[c]);
        ch[id as usize % CH] = Some(Rc::new(Obj { data: vec![0; size as usize], sym: None, kind }));
        ((id as u64) << 32) + BASE
    }
    pub fn free(&mut self, id: u32) {
        let c = id as usize / CH;
        let ch = Rc::make_mut(&mut self.chunks[c]);
        ch[id as usize % CH] = None;
        if id as usize % CH == CH - 1 || id as usize + CH < self.n as usize {
            if ch.iter().all(|x| x.is_none()) {
                self.chunks[c] = self.empty.clone();
            }
        }
    }
    #[inline]
    pub fn obj(&self, id: u32) -> Result<&Obj, MemErr> {
        match self.chunks.get(id as usize / CH) {
            Some(c) => match &c[id as usize % CH] {
                Some(o) => Ok(o),
                None => Err(if id == 0 || id >= self.n { MemErr::Null } else { MemErr::Freed }),
            },
            None => Err(MemErr::Null),
        }
    }
    #[inline]
    pub fn obj_mut(&mut self, id: u32) -> Result<&mut Obj, MemErr> {
        let n = self.n;
        match self.chunks.get_mut(id as usize / CH) {
            Some(c) => {
                if c[id as usize % CH].is_none() {
                    return Err(if id == 0 || id >= n { MemErr::Null } else { MemErr::Freed });
                }
                let ch = Rc::make_mut(c);
                Ok(Rc::make_mut(ch[id as usize % CH].as_mut().unwrap()))
            }
            None => Err(MemErr::Null),
        }
    }
    pub fn get_mut(&mut self, addr: u64) -> Result<&mut Obj, MemErr> {
        self.obj_mut(split(addr).0)
    }
    #[inline]
    pub fn check(&self, addr: u64, len: u64) -> Result<(u32, usize), MemErr> {
        let (id, off) = split(addr);
        let o = self.obj(id)?;
        if off < 0 || off as u64 + len > o.data.len() as u64 {
            return Err(MemErr::Oob);
        }
        Ok((id, off as usize))
    }
    /// bytes with overlay
    pub fn bytes(&self, addr: u64, len: u64) -> Result<(&[u8], Option<&[(T, u8)]>), MemErr> {
        if len == 0 {
            return Ok((&[], None));
        }
        let (id, off) = self.check(addr, len)?;
        let o = self.obj(id)?;
        let r = off..off + len as usize;
        Ok((&o.data[r.clone()], o.sym.as_ref().map(|s| &s[r])))
    }
    pub fn write(&mut self, addr: u64, data: &[u8], sym: Option<&[(T, u8)]>) -> Result<(), MemErr> {
        if data.is_empty() {
            return Ok(());
        }
        let (id, off) = self.check(addr, data.len() as u64)?;
        let o = self.obj_mut(id)?;
        if o.kind == OKind::Const {
            return Err(MemErr::ReadOnly);
        }
        o.data[off..off + data.len()].copy_from_slice(data);
        match sym {
            Some(s) if s.iter().any(|x| x.0 != 0) => {
                let n = o.data.len();
                let ov = o.sym.get_or_insert_with(|| vec![(0, 0); n]);
                ov[off..off + data.len()].copy_from_slice(s);
            }
            _ => {
                if let Some(ov) = &mut o.sym {
                    ov[off..off + data.len()].fill((0, 0));
                }
            }
        }
        Ok(())
    }
}
