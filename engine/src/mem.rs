//! Object memory: address = object id << 32 | offset. Objects are copy-on-write; addresses are
//! never reused for heap objects, so use after free and out-of-bounds accesses are detected exactly.
use crate::expr::{Ctx, E};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(E),
    A(Rc<Vec<V>>),
}
impl V {
    pub fn e(&self, c: &mut Ctx, w: u32) -> E {
        match self {
            V::C(k) => c.konst(*k, w),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn of(c: &Ctx, e: E) -> V {
        match c.k(e) {
            Some(k) => V::C(k),
            None => V::S(e),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
}

const NOSYM: (E, u8) = (0, 0);
#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<(E, u8)>>,
    pub kind: Kind,
    pub ro: bool,
}
#[derive(Clone)]
pub enum Slot {
    Empty,
    Live(Rc<Obj>),
    Freed(Kind),
    Func(u32),
    Lazy(u32), // global not yet materialised
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    C(u8),
    S(E, u8),
}

const CH: usize = 128;
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Slot>>>,
    next: u32,
    free_stack: Vec<u32>,
    pub heap_live: i64,
    /// freed blocks are handed out again, last freed first, by thread and size class
    pub reuse: bool,
    bins: Rc<HashMap<(usize, u64), Vec<u32>>>,
}
fn class(size: u64) -> u64 {
    (size + 23) / 16
}

pub type R<T> = Result<T, String>;

impl Mem {
    pub fn new() -> Mem {
        let mut m = Mem { chunks: vec![], next: 0, free_stack: vec![], heap_live: 0, reuse: false, bins: Rc::default() };
        m.push(Slot::Empty);
        m
    }
    pub fn push(&mut self, s: Slot) -> u32 {
        let id = self.next;
        self.next += 1;
        if id as usize / CH >= self.chunks.len() {
            self.chunks.push(Rc::new(vec![Slot::Empty; CH]));
        }
        self.set(id, s);
        id
    }
    pub fn set(&mut self, id: u32, s: Slot) {
        Rc::make_mut(&mut self.chunks[id as usize / CH])[id as usize % CH] = s;
    }
    #[inline]
    pub fn slot(&self, id: u32) -> &Slot {
        match self.chunks.get(id as usize / CH) {
            Some(c) => &c[id as usize % CH],
            None => &Slot::Empty,
        }
    }
    pub fn alloc(&mut self, size: u64, kind: Kind) -> u64 {
        let o = Slot::Live(Rc::new(Obj { data: vec![0; size as usize], sym: None, kind, ro: false }));
        let id = if kind == Kind::Stack {
            match self.free_stack.pop() {
                Some(id) => {
                    self.set(id, o);
                    id
                }
                None => self.push(o),
            }
        } else {
            self.heap_live += 1;
            self.push(o)
        };
        (id as u64) << 32
    }
    pub fn malloc(&mut self, size: u64, thread: usize) -> u64 {
        if self.reuse {
            let k = (thread, class(size));
            if self.bins.get(&k).map_or(false, |b| !b.is_empty()) {
                let id = Rc::make_mut(&mut self.bins).get_mut(&k).unwrap().pop().unwrap();
                self.heap_live += 1;
                self.set(id, Slot::Live(Rc::new(Obj { data: vec![0; size as usize], sym: None, kind: Kind::Heap, ro: false })));
                return (id as u64) << 32;
            }
        }
        self.alloc(size, Kind::Heap)
    }
    pub fn free_stack(&mut self, id: u32) {
        self.set(id, Slot::Freed(Kind::Stack));
        self.free_stack.push(id);
    }
    pub fn free(&mut self, addr: u64, thread: usize) -> R<()> {
        let id = (addr >> 32) as u32;
        if addr as u32 != 0 {
            return Err(format!("free of interior pointer {:#x}", addr));
        }
        let size = match self.slot(id) {
            Slot::Live(o) if o.kind == Kind::Heap => o.data.len() as u64,
            Slot::Freed(_) => return Err("double free".into()),
            _ => return Err(format!("free of a non-heap pointer {:#x}", addr)),
        };
        self.heap_live -= 1;
        if self.reuse {
            Rc::make_mut(&mut self.bins).entry((thread, class(size))).or_default().push(id);
        }
        self.set(id, Slot::Freed(Kind::Heap));
        Ok(())
    }
    #[inline]
    pub fn obj(&self, addr: u64, n: u64, write: bool) -> R<&Obj> {
        let id = (addr >> 32) as u32;
        match self.slot(id) {
            Slot::Live(o) => {
                if (addr as u32) as u64 + n > o.data.len() as u64 {
                    return Err(format!("out-of-bounds access: {} byte(s) at offset {} of a {:?} object of {} byte(s)", n, addr as u32, o.kind, o.data.len()));
                }
                if write && o.ro {
                    return Err("write to constant memory".into());
                }
                Ok(o)
            }
            Slot::Freed(k) => Err(format!("use after free ({:?} object, {} byte(s) at offset {})", k, n, addr as u32)),
            Slot::Empty => Err(format!("access through a dangling or null pointer ({:#x})", addr)),
            Slot::Func(_) => Err("data access to a function".into()),
            Slot::Lazy(_) => panic!("global {} not materialised", id),
        }
    }
    fn obj_mut(&mut self, addr: u64, n: u64) -> R<&mut Obj> {
        self.obj(addr, n, true)?;
        let id = (addr >> 32) as usize;
        match &mut Rc::make_mut(&mut self.chunks[id / CH])[id % CH] {
            Slot::Live(o) => Ok(Rc::make_mut(o)),
            _ => unreachable!(),
        }
    }
    /// concrete read of up to 16 bytes, None when some byte is symbolic
    #[inline]
    pub fn read_c(&self, addr: u64, n: u32) -> R<Option<u128>> {
        let o = self.obj(addr, n as u64, false)?;
        let off = addr as u32 as usize;
        if let Some(s) = &o.sym {
            for i in 0..n as usize {
                if s[off + i] != NOSYM {
                    return Ok(None);
                }
            }
        }
        let d = &o.data[off..off + n as usize];
        if n == 8 {
            return Ok(Some(u64::from_le_bytes(d.try_into().unwrap()) as u128));
        }
        let mut r = 0u128;
        for (i, b) in d.iter().enumerate() {
            r |= (*b as u128) << (8 * i);
        }
        Ok(Some(r))
    }
    pub fn read_b(&self, addr: u64, n: u64) -> R<Vec<B>> {
        let o = self.obj(addr, n, false)?;
        let off = addr as u32 as usize;
        let mut v = Vec::with_capacity(n as usize);
        for i in off..off + n as usize {
            v.push(match &o.sym {
                Some(s) if s[i] != NOSYM => B::S(s[i].0, s[i].1),
                _ => B::C(o.data[i]),
            });
        }
        Ok(v)
    }
    pub fn write_c(&mut self, addr: u64, v: u128, n: u32) -> R<()> {
        let o = self.obj_mut(addr, n as u64)?;
        let off = addr as u32 as usize;
        for i in 0..n as usize {
            o.data[off + i] = (v >> (8 * i)) as u8;
        }
        if let Some(s) = &mut o.sym {
            for i in 0..n as usize {
                s[off + i] = NOSYM;
            }
        }
        Ok(())
    }
    pub fn write_b(&mut self, addr: u64, b: &[B]) -> R<()> {
        let o = self.obj_mut(addr, b.len() as u64)?;
        let off = addr as u32 as usize;
        for (i, x) in b.iter().enumerate() {
            match x {
                B::C(c) => {
                    o.data[off + i] = *c;
                    if let Some(s) = &mut o.sym {
                        s[off + i] = NOSYM;
                    }
                }
                B::S(e, k) => {
                    if o.sym.is_none() {
                        o.sym = Some(vec![NOSYM; o.data.len()]);
                    }
                    o.sym.as_mut().unwrap()[off + i] = (*e, *k);
                }
            }
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> R<()> {
        let (plain, data) = {
            let o = self.obj(src, n, false)?;
            let off = src as u32 as usize;
            let d = o.data[off..off + n as usize].to_vec();
            let plain = match &o.sym {
                None => true,
                Some(s) => s[off..off + n as usize].iter().all(|x| *x == NOSYM),
            };
            (plain, d)
        };
        if plain {
            let o = self.obj_mut(dst, n)?;
            let off = dst as u32 as usize;
            o.data[off..off + n as usize].copy_from_slice(&data);
            if let Some(s) = &mut o.sym {
                for x in &mut s[off..off + n as usize] {
                    *x = NOSYM;
                }
            }
            Ok(())
        } else {
            let b = self.read_b(src, n)?;
            self.write_b(dst, &b)
        }
    }
    pub fn size_of(&self, addr: u64) -> Option<u64> {
        match self.slot((addr >> 32) as u32) {
            Slot::Live(o) => Some(o.data.len() as u64),
            _ => None,
        }
    }
}

pub fn byte_e(c: &mut Ctx, b: B) -> E {
    match b {
        B::C(k) => c.konst(k as u128, 8),
        B::S(e, i) => c.extract(e, 8 * i as u32, 8),
    }
}
/// assembles little-endian bytes into a value of `bits` bits
pub fn join(c: &mut Ctx, b: &[B], bits: u32) -> V {
    // whole expression?
    if let B::S(e, 0) = b[0] {
        if c.w(e) == 8 * b.len() as u32 && b.iter().enumerate().all(|(i, x)| *x == B::S(e, i as u8)) {
            let r = c.trunc(e, bits);
            return V::of(c, r);
        }
    }
    // group into runs
    let mut acc: Option<E> = None;
    let mut i = 0;
    while i < b.len() {
        let mut j = i + 1;
        let piece = match b[i] {
            B::C(k0) => {
                let mut k = k0 as u128;
                while j < b.len() {
                    if let B::C(x) = b[j] {
                        k |= (x as u128) << (8 * (j - i));
                        j += 1;
                    } else {
                        break;
                    }
                }
                c.konst(k, 8 * (j - i) as u32)
            }
            B::S(e, s) => {
                while j < b.len() && b[j] == B::S(e, s + (j - i) as u8) {
                    j += 1;
                }
                c.extract(e, 8 * s as u32, 8 * (j - i) as u32)
            }
        };
        acc = Some(match acc {
            None => piece,
            Some(a) => c.concat(piece, a),
        });
        i = j;
    }
    let r = c.trunc(acc.unwrap(), bits);
    V::of(c, r)
}
/// splits a value into little-endian bytes
pub fn split(c: &mut Ctx, v: &V, bits: u32, n: u32) -> Vec<B> {
    match v {
        V::C(k) => (0..n).map(|i| B::C(if i < 16 { (k >> (8 * i)) as u8 } else { 0 })).collect(),
        V::S(e) => {
            let x = if bits < 8 * n { c.zext(*e, 8 * n) } else { *e };
            (0..n)
                .map(|i| {
                    let b = c.extract(x, 8 * i, 8);
                    match c.k(b) {
                        Some(k) => B::C(k as u8),
                        None => B::S(x, i as u8),
                    }
                })
                .collect()
        }
        V::A(_) => panic!("split aggregate"),
    }
}
