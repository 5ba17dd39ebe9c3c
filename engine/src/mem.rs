//! Copy-on-write object memory with symbolic byte overlays, and log-mode
//! objects for bulk operations at symbolic offsets / of symbolic length.
use crate::expr::*;
use crate::ir::{obj_addr, V};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Func,
    Global,
    Heap,
    Stack,
    Tls,
}
/// A symbolic byte: byte `1` of expression `0` (little endian)
pub type SymB = (E, u8);

#[derive(Clone)]
pub enum Src {
    Bytes(Rc<Vec<ByteV>>),
    Fill(ByteV),
    Snap(Rc<Obj>, V), // contents of another object (at the time of the copy), from this offset
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ByteV {
    C(u8),
    S(SymB),
}
#[derive(Clone)]
pub struct LogEnt {
    pub off: V,
    pub len: V,
    pub src: Src,
}
#[derive(Clone)]
pub enum Base {
    Zero,
    Source(u32),   // uninterpreted byte source
    Snap(Rc<Obj>), // original contents
}
#[derive(Clone)]
pub enum Data {
    B(Vec<u8>, FxMap<u32, SymB>),
    Log(Base, Vec<Rc<LogEnt>>),
}
#[derive(Clone)]
pub struct Obj {
    pub size: V,
    pub align: u64,
    pub kind: Kind,
    pub ro: bool,
    pub data: Data,
}
impl Obj {
    pub fn new(size: u64, align: u64, kind: Kind) -> Obj {
        Obj { size: V::I(size), align, kind, ro: false, data: Data::B(vec![], Default::default()) }
    }
    pub fn get(&self, off: u64) -> ByteV {
        match &self.data {
            Data::B(b, s) => {
                if !s.is_empty() {
                    if let Some(x) = s.get(&(off as u32)) {
                        return ByteV::S(*x);
                    }
                }
                ByteV::C(b.get(off as usize).cloned().unwrap_or(0))
            }
            _ => panic!("get on log object"),
        }
    }
    pub fn set(&mut self, off: u64, v: ByteV) {
        match &mut self.data {
            Data::B(b, s) => match v {
                ByteV::C(x) => {
                    if !s.is_empty() {
                        s.remove(&(off as u32));
                    }
                    let o = off as usize;
                    if o >= b.len() {
                        if x == 0 {
                            return;
                        }
                        b.resize(o + 1, 0);
                    }
                    b[o] = x;
                }
                ByteV::S(x) => {
                    s.insert(off as u32, x);
                }
            },
            _ => panic!("set on log object"),
        }
    }
    pub fn is_log(&self) -> bool {
        matches!(self.data, Data::Log(..))
    }
    pub fn csize(&self) -> Option<u64> {
        match &self.size {
            V::I(x) => Some(*x),
            _ => None,
        }
    }
}

const CH: usize = 64;
type Chunk = Rc<Vec<Option<Rc<Obj>>>>;
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Chunk>,
    pub next: u32,
    pub live: u64,
}
impl Mem {
    pub fn new() -> Mem {
        Mem { chunks: vec![], next: 0, live: 0 }
    }
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH)?.get(id as usize % CH)?.as_ref()
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        let c = Rc::make_mut(c);
        let o = c.get_mut(id as usize % CH)?.as_mut()?;
        Some(Rc::make_mut(o))
    }
    pub fn put(&mut self, id: u32, o: Obj) {
        let ci = id as usize / CH;
        while self.chunks.len() <= ci {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        let c = Rc::make_mut(&mut self.chunks[ci]);
        c[id as usize % CH] = Some(Rc::new(o));
        if id >= self.next {
            self.next = id + 1;
        }
        self.live += 1;
    }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let id = self.next;
        self.put(id, o);
        obj_addr(id)
    }
    pub fn free(&mut self, id: u32) -> bool {
        let ci = id as usize / CH;
        if ci >= self.chunks.len() {
            return false;
        }
        let c = Rc::make_mut(&mut self.chunks[ci]);
        self.live -= 1;
        c[id as usize % CH].take().is_some()
    }
}
