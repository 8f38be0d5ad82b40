//! What the allocator has handed out in one execution, and what must hold of it.
use crate::statics;
use mc::{ensure, R};
use std::alloc::{GlobalAlloc, Layout};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Alloc { size: usize, align: usize },
    Zeroed { size: usize, align: usize },
    /// The thread's last block that is still live.
    Realloc { size: usize },
    /// The thread's first block that is still live.
    ReallocFirst { size: usize },
    Dealloc,
    DeallocFirst,
}

#[derive(Clone, Copy)]
pub struct Block {
    pub p: usize,
    pub size: usize,
    pub align: usize,
    pub owner: usize,
    pub tag: u8,
    pub live: bool,
}

/// Blocks of all threads. The threads of an exploration run one at a time.
pub struct Ledger {
    pub blocks: Vec<Block>,
    /// An upper bound on the memory that all requests begun so far need in any order.
    pub asked: usize,
    pub largest: usize,
    pub next_tag: u8,
    pub failures: u64,
}
impl Default for Ledger {
    fn default() -> Self {
        Ledger { blocks: Vec::new(), asked: 0, largest: 0, next_tag: 1, failures: 0 }
    }
}
const MAX_ALIGN: usize = 4096;

fn sparse(n: usize) -> impl Iterator<Item = usize> {
    let head = n.min(40);
    let tail = n.saturating_sub(40).max(head);
    (0..head).chain((head..tail).step_by(509)).chain(tail..n)
}
fn paint(b: &Block) {
    for i in sparse(b.size) {
        unsafe { std::ptr::write_volatile((b.p + i) as *mut u8, b.tag.wrapping_add(i as u8)) };
    }
}
fn painted(b: &Block, n: usize) -> bool {
    sparse(b.size).filter(|&i| i < n).all(|i| unsafe { std::ptr::read_volatile((b.p + i) as *const u8) } == b.tag.wrapping_add(i as u8))
}

impl Ledger {
    pub fn clear(&mut self) {
        // What was handed out was zero at first.
        for b in &self.blocks {
            if statics::get().holds(b.p, b.size) {
                unsafe { std::ptr::write_bytes(b.p as *mut u8, 0, b.size) };
            }
        }
        self.blocks.clear();
        self.asked = 0;
        self.largest = 0;
        self.next_tag = 1;
        self.failures = 0;
        statics::get().restore();
    }
    fn begin(&mut self, size: usize, align: usize) {
        self.asked = self.asked.saturating_add(size).saturating_add(align - 1);
        self.largest = self.largest.max(size);
    }
    fn take(&mut self, p: *mut u8, size: usize, align: usize, owner: usize) -> Result<usize, String> {
        let p = p as usize;
        ensure!(p % align == 0, "a block of {} bytes aligned to {} lies at {:#x}", size, align, p);
        ensure!(statics::get().holds(p, size), "a block of {} bytes at {:#x} lies outside the arena", size, p);
        for b in self.blocks.iter().filter(|b| b.live) {
            ensure!(p + size <= b.p || b.p + b.size <= p, "a block of {} bytes at {:#x} overlaps one of {} bytes at {:#x} that is in use", size, p, b.size, b.p);
        }
        self.next_tag = self.next_tag.wrapping_add(59);
        self.blocks.push(Block { p, size, align, owner, tag: self.next_tag, live: true });
        Ok(self.blocks.len() - 1)
    }
    fn refused(&mut self, size: usize, align: usize) -> R {
        self.failures += 1;
        let arena = statics::get().arena;
        ensure!(
            align > MAX_ALIGN || self.asked > arena,
            "a request of {} bytes aligned to {} is refused although all requests so far need at most {} of {} bytes",
            size,
            align,
            self.asked,
            arena
        );
        Ok(())
    }
    /// A refused request takes nothing.
    fn forget(&mut self, size: usize, align: usize) {
        self.asked = self.asked.saturating_sub(size.saturating_add(align - 1));
    }
    pub fn intact(&self) -> R {
        for b in self.blocks.iter().filter(|b| b.live) {
            ensure!(painted(b, b.size), "a block of {} bytes at {:#x} changes while it is in use", b.size, b.p);
        }
        Ok(())
    }
    fn mine(&self, owner: usize, first: bool) -> Option<usize> {
        let mut it = self.blocks.iter().enumerate().filter(|(_, b)| b.live && b.owner == owner).map(|x| x.0);
        if first {
            it.next()
        } else {
            it.last()
        }
    }
}

impl Ledger {
    pub fn announce(&mut self, size: usize, align: usize) {
        self.begin(size, align);
    }
    /// The block is about to be released.
    pub fn release(&mut self, p: usize) {
        for b in self.blocks.iter_mut().filter(|b| b.p == p) {
            b.live = false;
        }
    }
    /// The answer to a request.
    pub fn received(&mut self, p: *mut u8, size: usize, align: usize, owner: usize, zero: bool) -> R {
        if p.is_null() {
            self.refused(size, align)?;
            self.forget(size, align);
            return Ok(());
        }
        let i = self.take(p, size, align, owner)?;
        if zero {
            ensure!(sparse(size).all(|i| unsafe { std::ptr::read_volatile(p.add(i)) } == 0), "zeroed memory of {} bytes is not zero", size);
        }
        paint(&self.blocks[i]);
        Ok(())
    }
    /// The answer to a reallocation of `b`.
    pub fn moved(&mut self, p: *mut u8, b: Block, size: usize, owner: usize) -> R {
        if p.is_null() {
            self.refused(size, b.align)?;
            self.forget(size, b.align);
            ensure!(painted(&b, b.size), "a refused reallocation changes the block");
            return Ok(());
        }
        self.release(b.p);
        ensure!(statics::get().holds(p as usize, size), "a block of {} bytes at {:p} lies outside the arena", size, p);
        let n = size.min(b.size);
        let ok = sparse(b.size).filter(|&i| i < n).all(|i| unsafe { std::ptr::read_volatile(p.add(i)) } == b.tag.wrapping_add(i as u8));
        ensure!(ok, "reallocation from {} to {} bytes loses contents", b.size, size);
        let j = self.take(p, size, b.align, owner)?;
        paint(&self.blocks[j]);
        Ok(())
    }
}

/// Runs one operation of a thread. `l` is shared: other threads use it during the calls.
///
/// # Safety
/// `l` is valid, and no two threads run at the same time.
pub unsafe fn perform(a: &dyn GlobalAlloc, l: *mut Ledger, owner: usize, op: Op) -> R {
    // References end before each call: other threads run during it.
    let at = || unsafe { &mut *l };
    match op {
        Op::Alloc { size, align } | Op::Zeroed { size, align } => {
            let layout = Layout::from_size_align(size, align).unwrap();
            at().announce(size, align);
            let zero = matches!(op, Op::Zeroed { .. });
            let p = if zero { a.alloc_zeroed(layout) } else { a.alloc(layout) };
            at().received(p, size, align, owner, zero)
        }
        Op::Realloc { size } | Op::ReallocFirst { size } => {
            let Some(i) = at().mine(owner, matches!(op, Op::ReallocFirst { .. })) else { return Ok(()) };
            let b = at().blocks[i];
            at().announce(size, b.align);
            let p = a.realloc(b.p as *mut u8, Layout::from_size_align(b.size, b.align).unwrap(), size);
            at().moved(p, b, size, owner)
        }
        Op::Dealloc | Op::DeallocFirst => {
            let Some(i) = at().mine(owner, op == Op::DeallocFirst) else { return Ok(()) };
            let b = at().blocks[i];
            ensure!(painted(&b, b.size), "a block of {} bytes at {:#x} changes while it is in use", b.size, b.p);
            at().blocks[i].live = false;
            a.dealloc(b.p as *mut u8, Layout::from_size_align(b.size, b.align).unwrap());
            Ok(())
        }
    }
}
