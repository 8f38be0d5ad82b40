//! The static objects of the allocator's module, as the linker placed them: where blocks may lie, and what an execution may
//! change. VERIF_STATICS holds "address:size" pairs, comma-separated (see lib/checks.py); the program is not relocated.
use std::alloc::{GlobalAlloc, Layout};
use std::sync::OnceLock;

pub struct Statics {
    pub ranges: Vec<(usize, usize)>,
    /// What the allocator keeps its books in, and its initial contents.
    saved: Vec<(usize, Vec<u8>)>,
    /// Size of the memory that can be handed out.
    pub arena: usize,
}
const SMALL: usize = 4096;
static S: OnceLock<Statics> = OnceLock::new();

fn bytes(a: usize, n: usize) -> Vec<u8> {
    (a..a + n).map(|p| unsafe { std::ptr::read_volatile(p as *const u8) }).collect()
}

/// To be called before anything uses the allocator.
pub fn init(allocator: &dyn GlobalAlloc) {
    let text = std::env::var("VERIF_STATICS").expect("VERIF_STATICS");
    let ranges: Vec<(usize, usize)> = text
        .split(',')
        .map(|x| {
            let (a, b) = x.split_once(':').expect("address:size");
            (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap())
        })
        .collect();
    let before: Vec<Vec<u8>> = ranges.iter().map(|&(a, n)| bytes(a, n)).collect();
    for size in [1usize, 300, 5000] {
        unsafe { allocator.alloc(Layout::from_size_align(size, 1).unwrap()) };
    }
    let mut saved = Vec::new();
    let mut arena = 0;
    for (&(a, n), b) in ranges.iter().zip(before) {
        if n <= SMALL {
            saved.push((a, b));
            continue;
        }
        // Blocks are not written to by allocation: what changes here are books kept beside the arena.
        let now = bytes(a, n);
        let mut free = 0;
        for w in (0..n).step_by(8) {
            let e = (w + 8).min(n);
            if b[w..e] != now[w..e] || b[w..e].iter().any(|&x| x != 0) {
                saved.push((a + w, b[w..e].to_vec()));
                free = e;
            }
            arena = arena.max(e - free);
        }
    }
    let s = Statics { ranges, saved, arena };
    s.restore();
    assert!(S.set(s).is_ok());
}
pub fn get() -> &'static Statics {
    S.get().expect("statics::init")
}
impl Statics {
    /// Back to the initial state, apart from the memory that was handed out.
    pub fn restore(&self) {
        for (a, b) in &self.saved {
            for (i, &x) in b.iter().enumerate() {
                unsafe { std::ptr::write_volatile((a + i) as *mut u8, x) };
            }
        }
    }
    pub fn holds(&self, p: usize, n: usize) -> bool {
        let inside = self.ranges.iter().any(|&(a, size)| size > SMALL && p >= a && p - a <= size && n <= size - (p - a));
        inside && !self.saved.iter().any(|(a, b)| p < a + b.len() && *a < p + n)
    }
    /// The books.
    pub fn digest(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for (a, b) in &self.saved {
            for i in 0..b.len() {
                h = (h ^ unsafe { std::ptr::read_volatile((a + i) as *const u8) } as u64).wrapping_mul(0x100000001b3);
            }
        }
        h
    }
}
