//! Object memory with copy-on-write. An address is (object key << 32) | offset.
use crate::ll::*;
use std::rc::Rc;

pub const HEAP: u32 = 0x1000_0000;
pub const STACK: u32 = 0x2000_0000;
pub const FNS: u32 = 0x4000_0000;

#[derive(Clone)]
pub struct Obj {
    pub base: u32,
    pub ro: bool,
    pub data: Vec<u8>,
    /// per byte: (expression, byte index); expression 0 means the concrete byte counts
    pub sym: Option<Box<Vec<(u32, u8)>>>,
}
impl Obj {
    pub fn new(size: usize, base: u32, fill: u8) -> Obj {
        Obj { base, ro: false, data: vec![fill; size], sym: None }
    }
    #[inline]
    pub fn all_conc(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|x| x.0 == 0),
        }
    }
    #[inline]
    pub fn set_conc(&mut self, off: usize, b: &[u8]) {
        self.data[off..off + b.len()].copy_from_slice(b);
        if let Some(s) = &mut self.sym {
            for x in s[off..off + b.len()].iter_mut() {
                *x = (0, 0);
            }
        }
    }
    pub fn set_sym(&mut self, off: usize, r: u32, idx: u8) {
        let n = self.data.len();
        let s = self.sym.get_or_insert_with(|| Box::new(vec![(0, 0); n]));
        s[off] = (r, idx);
    }
}

const CH: usize = 32;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone, Default)]
pub struct Table {
    chunks: Vec<Option<Rc<Chunk>>>,
}
impl Table {
    #[inline]
    pub fn get(&self, i: u32) -> Option<&Rc<Obj>> {
        let (c, k) = (i as usize / CH, i as usize % CH);
        match self.chunks.get(c) {
            Some(Some(ch)) => ch[k].as_ref(),
            _ => None,
        }
    }
    pub fn slot(&mut self, i: u32) -> &mut Option<Rc<Obj>> {
        let (c, k) = (i as usize / CH, i as usize % CH);
        if c >= self.chunks.len() {
            self.chunks.resize(c + 1, None);
        }
        let ch = self.chunks[c].get_or_insert_with(|| Rc::new(Default::default()));
        &mut Rc::make_mut(ch)[k]
    }
    pub fn truncate_after(&mut self, n: u32) {
        let c = (n as usize).div_ceil(CH) + 4;
        if self.chunks.len() > c {
            self.chunks.truncate(c);
        }
    }
}

#[derive(Clone, Default)]
pub struct Mem {
    pub globs: Table,
    pub heap: Table,
    pub stack: Table,
    pub nheap: u32,
    pub nstack: u32,
    pub heap_bytes: u64,
}

impl Mem {
    pub fn get(&self, key: u32) -> Option<&Rc<Obj>> {
        if key >= FNS {
            None
        } else if key >= STACK {
            self.stack.get(key - STACK)
        } else if key >= HEAP {
            self.heap.get(key - HEAP)
        } else {
            self.globs.get(key)
        }
    }
    pub fn get_mut(&mut self, key: u32) -> Option<&mut Obj> {
        let t = if key >= FNS {
            return None;
        } else if key >= STACK {
            if self.stack.get(key - STACK).is_none() {
                return None;
            }
            self.stack.slot(key - STACK)
        } else if key >= HEAP {
            if self.heap.get(key - HEAP).is_none() {
                return None;
            }
            self.heap.slot(key - HEAP)
        } else {
            if self.globs.get(key).is_none() {
                return None;
            }
            self.globs.slot(key)
        };
        t.as_mut().map(Rc::make_mut)
    }
    pub fn alloc_heap(&mut self, size: u64, align: u64, fill: u8) -> u64 {
        let id = self.nheap;
        self.nheap += 1;
        let base = align.max(16) as u32;
        *self.heap.slot(id) = Some(Rc::new(Obj::new(size as usize, base, fill)));
        self.heap_bytes += size;
        (((HEAP + id) as u64) << 32) | base as u64
    }
    pub fn alloc_stack(&mut self, size: u64, align: u64) -> u64 {
        let id = self.nstack;
        self.nstack += 1;
        let base = align.max(16) as u32;
        *self.stack.slot(id) = Some(Rc::new(Obj::new(size as usize, base, 0xA5)));
        (((STACK + id) as u64) << 32) | base as u64
    }
    pub fn pop_stack(&mut self, to: u32) {
        while self.nstack > to {
            self.nstack -= 1;
            *self.stack.slot(self.nstack) = None;
        }
    }
    pub fn add_glob(&mut self, w: &mut World, cache: &mut std::collections::HashMap<u32, Rc<Obj>>, key: u32) -> bool {
        if key < GLOB_BASE as u32 {
            return false;
        }
        let g = key - GLOB_BASE as u32;
        if g as usize >= w.globs.len() {
            return false;
        }
        if !cache.contains_key(&key) {
            let init = w.glob_init(g);
            let base = w.glob_base(g) as u32;
            let ro = w.globs[g as usize].constant;
            cache.insert(key, Rc::new(Obj { base, ro, data: (*init).clone(), sym: None }));
        }
        *self.globs.slot(key) = Some(cache[&key].clone());
        true
    }
}
