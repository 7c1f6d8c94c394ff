//! Object memory. address = (object id << 32) | offset. Bytes are concrete or byte-wide expressions.
use crate::expr::E;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub bytes: Rc<Vec<u8>>,
    pub sym: Option<Rc<Vec<E>>>,
    pub freed: bool,
    pub ro: bool,
}

impl Obj {
    pub fn new(size: u64, fill: u8) -> Obj {
        Obj { size, bytes: Rc::new(vec![fill; size as usize]), sym: None, freed: false, ro: false }
    }
    #[inline]
    pub fn sym_at(&self, i: u64) -> E {
        match &self.sym {
            None => 0,
            Some(s) => s[i as usize],
        }
    }
    pub fn has_sym(&self, off: u64, n: u64) -> bool {
        match &self.sym {
            None => false,
            Some(s) => s[off as usize..(off + n) as usize].iter().any(|e| *e != 0),
        }
    }
    pub fn set_sym(&mut self, i: u64, e: E) {
        let n = self.size as usize;
        let s = self.sym.get_or_insert_with(|| Rc::new(vec![0; n]));
        Rc::make_mut(s)[i as usize] = e;
    }
    pub fn write(&mut self, off: u64, data: &[u8]) {
        let b = Rc::make_mut(&mut self.bytes);
        b[off as usize..off as usize + data.len()].copy_from_slice(data);
        if self.sym.is_some() && self.has_sym(off, data.len() as u64) {
            let s = Rc::make_mut(self.sym.as_mut().unwrap());
            for e in &mut s[off as usize..off as usize + data.len()] {
                *e = 0;
            }
        }
    }
}

const CH: usize = 32;

/// chunked copy-on-write table
#[derive(Clone, Default)]
pub struct Tab {
    chunks: Vec<Rc<Vec<Obj>>>,
    len: usize,
}
impl Tab {
    pub fn len(&self) -> usize {
        self.len
    }
    #[inline]
    pub fn get(&self, i: usize) -> Option<&Obj> {
        if i >= self.len {
            return None;
        }
        Some(&self.chunks[i / CH][i % CH])
    }
    #[inline]
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        if i >= self.len {
            return None;
        }
        Some(&mut Rc::make_mut(&mut self.chunks[i / CH])[i % CH])
    }
    pub fn push(&mut self, o: Obj) -> usize {
        if self.len % CH == 0 {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(self.chunks.last_mut().unwrap()).push(o);
        self.len += 1;
        self.len - 1
    }
    pub fn truncate(&mut self, n: usize) {
        while self.len > n {
            let c = Rc::make_mut(self.chunks.last_mut().unwrap());
            c.pop();
            self.len -= 1;
            if self.len % CH == 0 {
                self.chunks.pop();
            }
        }
    }
    pub fn same_chunk(&self, o: &Tab, c: usize) -> bool {
        c < self.chunks.len() && c < o.chunks.len() && Rc::ptr_eq(&self.chunks[c], &o.chunks[c])
    }
    pub fn nchunks(&self) -> usize {
        self.chunks.len()
    }
}

pub const HEAP: u64 = 0x1000_0000;
pub const STACK: u64 = 0x4000_0000;
/// stack object ids of thread t start at STACK + t * TSTACK
pub const TSTACK: u64 = 0x0100_0000;

#[derive(Clone, Default)]
pub struct Mem {
    pub glob: Tab, // object id 1 + i
    pub heap: Tab,
    /// stack of the running thread
    pub stack: Tab,
    /// stacks of the other threads (the running thread's entry is empty)
    pub stacks: Vec<Tab>,
    pub cur: u64,
    pub heap_bytes: u64,
}

#[derive(Debug)]
pub enum MemErr {
    Oob(u64, u64),
    Freed(u64),
    ReadOnly(u64),
}

impl Mem {
    #[inline]
    pub fn obj(&self, addr: u64) -> Option<&Obj> {
        let id = addr >> 32;
        if id >= STACK {
            let k = id - STACK;
            if k / TSTACK == self.cur {
                self.stack.get((k % TSTACK) as usize)
            } else {
                self.stacks.get((k / TSTACK) as usize)?.get((k % TSTACK) as usize)
            }
        } else if id >= HEAP {
            self.heap.get((id - HEAP) as usize)
        } else if id >= 1 {
            self.glob.get((id - 1) as usize)
        } else {
            None
        }
    }
    #[inline]
    pub fn obj_mut(&mut self, addr: u64) -> Option<&mut Obj> {
        let id = addr >> 32;
        if id >= STACK {
            let k = id - STACK;
            if k / TSTACK == self.cur {
                self.stack.get_mut((k % TSTACK) as usize)
            } else {
                self.stacks.get_mut((k / TSTACK) as usize)?.get_mut((k % TSTACK) as usize)
            }
        } else if id >= HEAP {
            self.heap.get_mut((id - HEAP) as usize)
        } else if id >= 1 {
            self.glob.get_mut((id - 1) as usize)
        } else {
            None
        }
    }
    #[inline]
    pub fn check(&self, addr: u64, n: u64) -> Result<&Obj, MemErr> {
        let off = addr & 0xffff_ffff;
        match self.obj(addr) {
            Some(o) => {
                if o.freed {
                    Err(MemErr::Freed(addr))
                } else if off + n > o.size {
                    Err(MemErr::Oob(addr, n))
                } else {
                    Ok(o)
                }
            }
            None => Err(MemErr::Oob(addr, n)),
        }
    }
    #[inline]
    pub fn check_mut(&mut self, addr: u64, n: u64) -> Result<&mut Obj, MemErr> {
        let off = addr & 0xffff_ffff;
        match self.obj_mut(addr) {
            Some(o) => {
                if o.freed {
                    Err(MemErr::Freed(addr))
                } else if off + n > o.size {
                    Err(MemErr::Oob(addr, n))
                } else if o.ro {
                    Err(MemErr::ReadOnly(addr))
                } else {
                    Ok(o)
                }
            }
            None => Err(MemErr::Oob(addr, n)),
        }
    }
    pub fn alloc_heap(&mut self, size: u64) -> u64 {
        self.heap_bytes += size;
        let i = self.heap.push(Obj::new(size, 0));
        (HEAP + i as u64) << 32
    }
    pub fn alloc_stack(&mut self, size: u64) -> u64 {
        let i = self.stack.push(Obj::new(size, 0));
        (STACK + self.cur * TSTACK + i as u64) << 32
    }
    /// Make thread `t` the running one.
    pub fn switch(&mut self, t: u64) {
        while self.stacks.len() <= t.max(self.cur) as usize {
            self.stacks.push(Tab::default());
        }
        let cur = self.cur as usize;
        self.stacks[cur] = std::mem::take(&mut self.stack);
        self.stack = std::mem::take(&mut self.stacks[t as usize]);
        self.cur = t;
    }
    pub fn free(&mut self, addr: u64) -> Result<(), MemErr> {
        if addr & 0xffff_ffff != 0 {
            return Err(MemErr::Oob(addr, 0));
        }
        let o = self.obj_mut(addr).ok_or(MemErr::Oob(addr, 0))?;
        if o.freed {
            return Err(MemErr::Freed(addr));
        }
        o.freed = true;
        let sz = o.size;
        o.bytes = Rc::new(vec![]);
        o.sym = None;
        self.heap_bytes = self.heap_bytes.saturating_sub(sz);
        Ok(())
    }
    pub fn read_bytes(&self, addr: u64, n: u64) -> Result<Vec<u8>, MemErr> {
        if n == 0 {
            return Ok(vec![]);
        }
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.check(addr, n)?;
        Ok(o.bytes[off..off + n as usize].to_vec())
    }
}
