//! Byte-addressed memory made of separate objects; copy-on-write between paths.

use crate::expr::E;
use std::rc::Rc;

pub const HEAP_BASE: u64 = 0x1000_0000_0000;
pub const STACK_BASE: u64 = 0x6000_0000_0000;
pub const SLOT: u64 = 24;
pub const THREAD: u64 = 40;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    /// Empty, or one entry per byte: 0 (concrete) or an 8-bit expression.
    pub sym: Vec<E>,
    pub ro: bool,
}

impl Obj {
    pub fn new(size: u64) -> Obj {
        Obj { size, data: vec![0; size as usize], sym: Vec::new(), ro: false }
    }
    #[inline]
    pub fn set_c(&mut self, off: usize, v: u64, n: usize) {
        self.data[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
        if !self.sym.is_empty() {
            for s in &mut self.sym[off..off + n] {
                *s = 0;
            }
        }
    }
    pub fn set_sym(&mut self, off: usize, e: E) {
        if self.sym.is_empty() {
            self.sym = vec![0; self.size as usize];
        }
        self.sym[off] = e;
    }
    #[inline]
    pub fn concrete(&self, off: usize, n: usize) -> bool {
        self.sym.is_empty() || self.sym[off..off + n].iter().all(|&s| s == 0)
    }
}

const CH: usize = 64;

#[derive(Clone)]
pub struct PVec {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
}

impl PVec {
    pub fn new() -> Self {
        PVec { chunks: vec![] }
    }
    #[inline]
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        self.chunks.get(i / CH)?.get(i % CH)?.as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let c = Rc::make_mut(self.chunks.get_mut(i / CH)?);
        c.get_mut(i % CH)?.as_mut().map(Rc::make_mut)
    }
    pub fn set(&mut self, i: usize, o: Option<Rc<Obj>>) {
        while self.chunks.len() <= i / CH {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[i / CH])[i % CH] = o;
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Region {
    Global,
    Heap,
    Stack(u32),
}

#[derive(Clone, Copy, Debug)]
pub struct Loc {
    pub r: Region,
    pub i: usize,
    pub base: u64,
    pub size: u64,
}

#[derive(Clone)]
pub struct Mem {
    pub globals: PVec,
    pub gaddrs: Rc<Vec<u64>>,
    pub heap: PVec,
    pub heap_next: u64,
    pub stacks: Vec<(PVec, u64)>,
}

impl Mem {
    pub fn find(&self, a: u64) -> Option<Loc> {
        if a >= STACK_BASE {
            let t = ((a - STACK_BASE) >> THREAD) as u32;
            let (pv, _) = self.stacks.get(t as usize)?;
            let tb = STACK_BASE + ((t as u64) << THREAD);
            let i = ((a - tb) >> SLOT) as usize;
            let o = pv.get(i)?;
            return Some(Loc { r: Region::Stack(t), i, base: tb + ((i as u64) << SLOT), size: o.size });
        }
        if a >= HEAP_BASE {
            let mut i = ((a - HEAP_BASE) >> SLOT) as usize;
            let mut back = 0;
            loop {
                if let Some(o) = self.heap.get(i) {
                    let base = HEAP_BASE + ((i as u64) << SLOT);
                    if back > 0 && a - base > o.size {
                        return None;
                    }
                    return Some(Loc { r: Region::Heap, i, base, size: o.size });
                }
                if i == 0 || back >= 16 {
                    return None;
                }
                i -= 1;
                back += 1;
            }
        }
        if a >= crate::ir::GLOBAL_BASE && a < crate::ir::FUNC_BASE {
            let i = match self.gaddrs.binary_search(&a) {
                Ok(i) => i,
                Err(0) => return None,
                Err(i) => i - 1,
            };
            let o = self.globals.get(i)?;
            let base = self.gaddrs[i];
            if a - base > o.size {
                return None;
            }
            return Some(Loc { r: Region::Global, i, base, size: o.size });
        }
        None
    }
    #[inline]
    pub fn obj(&self, l: &Loc) -> &Obj {
        match l.r {
            Region::Global => self.globals.get(l.i).unwrap(),
            Region::Heap => self.heap.get(l.i).unwrap(),
            Region::Stack(t) => self.stacks[t as usize].0.get(l.i).unwrap(),
        }
    }
    #[inline]
    pub fn obj_mut(&mut self, l: &Loc) -> &mut Obj {
        match l.r {
            Region::Global => self.globals.get_mut(l.i).unwrap(),
            Region::Heap => self.heap.get_mut(l.i).unwrap(),
            Region::Stack(t) => self.stacks[t as usize].0.get_mut(l.i).unwrap(),
        }
    }
    pub fn alloc_heap(&mut self, size: u64) -> u64 {
        let slots = (size >> SLOT) + 1;
        let i = self.heap_next;
        self.heap_next += slots;
        self.heap.set(i as usize, Some(Rc::new(Obj::new(size))));
        HEAP_BASE + (i << SLOT)
    }
    pub fn free_heap(&mut self, a: u64) -> bool {
        match self.find(a) {
            Some(l) if l.r == Region::Heap && l.base == a => {
                self.heap.set(l.i, None);
                true
            }
            _ => false,
        }
    }
    pub fn alloc_stack(&mut self, t: u32, size: u64) -> u64 {
        let (pv, next) = &mut self.stacks[t as usize];
        let slots = (size >> SLOT) + 1;
        let i = *next;
        *next += slots;
        assert!(*next < 1 << (THREAD - SLOT), "stack overflow");
        pv.set(i as usize, Some(Rc::new(Obj::new(size))));
        STACK_BASE + ((t as u64) << THREAD) + (i << SLOT)
    }
    pub fn pop_stack(&mut self, t: u32, to: u64) {
        let (pv, next) = &mut self.stacks[t as usize];
        while *next > to {
            *next -= 1;
            pv.set(*next as usize, None);
        }
    }
}
