//! C21: the allocator of the no_std library. All sequences of operations of one thread, and all interleavings of the atomic
//! steps of two and three threads. The allocator is the file itself; its atomics are those below.
use alloc_mc::*;
use mc::*;
use std::alloc::GlobalAlloc;
use std::cell::{Cell, UnsafeCell};
use std::collections::HashSet;

#[path = "/repo/shogi_core_c/src/no_std.rs"]
#[allow(dead_code, unused_imports, static_mut_refs)]
mod no_std;

/// Atomics that let the explorer run other threads before each step.
#[allow(dead_code)]
mod verif_sync {
    #[allow(unused_imports)]
    pub use core::sync::atomic::{compiler_fence, Ordering};
    use std::cell::UnsafeCell;
    use Ordering as O;
    pub fn fence(_: Ordering) {
        crate::point();
    }
    macro_rules! atomic {
        ($name:ident, $t:ty) => {
            #[repr(transparent)]
            pub struct $name(UnsafeCell<$t>);
            unsafe impl Sync for $name {}
            impl $name {
                pub const fn new(v: $t) -> Self {
                    Self(UnsafeCell::new(v))
                }
                fn step<R>(&self, f: impl FnOnce(&mut $t) -> R) -> R {
                    crate::point();
                    unsafe {
                        let mut v = std::ptr::read_volatile(self.0.get());
                        crate::observed(v as u64);
                        let before = v;
                        let r = f(&mut v);
                        std::ptr::write_volatile(self.0.get(), v);
                        crate::stepped(v != before);
                        r
                    }
                }
                pub fn load(&self, _: O) -> $t { self.step(|v| *v) }
                pub fn store(&self, n: $t, _: O) { self.step(|v| *v = n) }
                pub fn swap(&self, n: $t, _: O) -> $t { self.step(|v| core::mem::replace(v, n)) }
                pub fn compare_exchange(&self, old: $t, n: $t, _: O, _: O) -> Result<$t, $t> {
                    self.step(|v| if *v == old { *v = n; Ok(old) } else { Err(*v) })
                }
                /// May fail although the value is the expected one.
                pub fn compare_exchange_weak(&self, old: $t, n: $t, _: O, _: O) -> Result<$t, $t> {
                    self.step(|v| if *v == old { if crate::spurious() { Err(*v) } else { *v = n; Ok(old) } } else { Err(*v) })
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, a: O, b: O, mut f: F) -> Result<$t, $t> {
                    let mut prev = self.load(b);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange_weak(prev, next, a, b) {
                            Ok(x) => return Ok(x),
                            Err(x) => prev = x,
                        }
                    }
                    Err(prev)
                }
                pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, a: O, b: O, f: F) -> Result<$t, $t> { self.fetch_update(a, b, f) }
                pub fn update<F: FnMut($t) -> $t>(&self, a: O, b: O, mut f: F) -> $t { self.fetch_update(a, b, |x| Some(f(x))).unwrap() }
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                pub fn as_ptr(&self) -> *mut $t { self.0.get() }
                pub fn into_inner(self) -> $t { self.0.into_inner() }
            }
        };
    }
    macro_rules! integer {
        ($name:ident, $t:ty) => {
            atomic!($name, $t);
            impl $name {
                pub fn fetch_add(&self, n: $t, _: O) -> $t { self.step(|v| { let o = *v; *v = o.wrapping_add(n); o }) }
                pub fn fetch_sub(&self, n: $t, _: O) -> $t { self.step(|v| { let o = *v; *v = o.wrapping_sub(n); o }) }
                pub fn fetch_and(&self, n: $t, _: O) -> $t { self.step(|v| { let o = *v; *v = o & n; o }) }
                pub fn fetch_or(&self, n: $t, _: O) -> $t { self.step(|v| { let o = *v; *v = o | n; o }) }
                pub fn fetch_xor(&self, n: $t, _: O) -> $t { self.step(|v| { let o = *v; *v = o ^ n; o }) }
                pub fn fetch_nand(&self, n: $t, _: O) -> $t { self.step(|v| { let o = *v; *v = !(o & n); o }) }
                pub fn fetch_max(&self, n: $t, _: O) -> $t { self.step(|v| { let o = *v; *v = o.max(n); o }) }
                pub fn fetch_min(&self, n: $t, _: O) -> $t { self.step(|v| { let o = *v; *v = o.min(n); o }) }
            }
        };
    }
    integer!(AtomicUsize, usize);
    integer!(AtomicIsize, isize);
    integer!(AtomicU8, u8);
    integer!(AtomicU16, u16);
    integer!(AtomicU32, u32);
    integer!(AtomicU64, u64);
    integer!(AtomicI32, i32);
    integer!(AtomicI64, i64);
    atomic!(AtomicBool, bool);
    impl AtomicBool {
        pub fn fetch_or(&self, n: bool, _: O) -> bool { self.step(|v| { let o = *v; *v = o | n; o }) }
        pub fn fetch_and(&self, n: bool, _: O) -> bool { self.step(|v| { let o = *v; *v = o & n; o }) }
        pub fn fetch_xor(&self, n: bool, _: O) -> bool { self.step(|v| { let o = *v; *v = o ^ n; o }) }
    }
    #[repr(transparent)]
    pub struct AtomicPtr<T>(UnsafeCell<*mut T>);
    unsafe impl<T> Sync for AtomicPtr<T> {}
    impl<T> AtomicPtr<T> {
        pub const fn new(v: *mut T) -> Self { Self(UnsafeCell::new(v)) }
        fn step<R>(&self, f: impl FnOnce(&mut *mut T) -> R) -> R {
            crate::point();
            unsafe {
                let before = *self.0.get();
                crate::observed(before as usize as u64);
                let r = f(&mut *self.0.get());
                crate::stepped(*self.0.get() != before);
                r
            }
        }
        pub fn load(&self, _: O) -> *mut T { self.step(|v| *v) }
        pub fn store(&self, n: *mut T, _: O) { self.step(|v| *v = n) }
        pub fn swap(&self, n: *mut T, _: O) -> *mut T { self.step(|v| core::mem::replace(v, n)) }
        pub fn compare_exchange(&self, old: *mut T, n: *mut T, _: O, _: O) -> Result<*mut T, *mut T> {
            self.step(|v| if *v == old { *v = n; Ok(old) } else { Err(*v) })
        }
        pub fn compare_exchange_weak(&self, old: *mut T, n: *mut T, _: O, _: O) -> Result<*mut T, *mut T> {
            self.step(|v| if *v == old { if crate::spurious() { Err(*v) } else { *v = n; Ok(old) } } else { Err(*v) })
        }
        pub fn fetch_update<F: FnMut(*mut T) -> Option<*mut T>>(&self, a: O, b: O, mut f: F) -> Result<*mut T, *mut T> {
            let mut prev = self.load(b);
            while let Some(next) = f(prev) {
                match self.compare_exchange_weak(prev, next, a, b) {
                    Ok(x) => return Ok(x),
                    Err(x) => prev = x,
                }
            }
            Err(prev)
        }
    }
}

fn allocator() -> &'static dyn GlobalAlloc {
    no_std::simple_alloc::verif_allocator()
}

// Threads of an exploration are stacks; only one runs at a time.
std::arch::global_asm!(
    ".globl mc_switch",
    "mc_switch:",
    "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
    "ret",
    ".globl mc_entry",
    "mc_entry:",
    "call {enter}",
    "ud2",
    enter = sym enter,
);
extern "C" {
    fn mc_switch(save: *mut usize, to: usize);
    fn mc_entry();
}
const STACK: usize = 64 * 1024;
struct Thread {
    stack: Vec<u64>,
    sp: usize,
    done: bool,
    program: Vec<Op>,
    /// What its steps have found so far. With the program, this determines where the thread is and all that it holds.
    history: u64,
    /// How many steps of the present operation found the memory as it is now and left it so.
    idle: u64,
    idle_at: u64,
}
/// So many idle steps mean that a thread waits for another one.
const WAITING: u64 = 4;
struct Explorer {
    main_sp: usize,
    current: Option<usize>,
    threads: Vec<Thread>,
    ledger: UnsafeCell<Ledger>,
    failed: Option<String>,
    choices: Vec<(u8, u8)>,
    next: usize,
    spurious_left: u8,
    steps: u64,
    /// The number of changes of memory.
    version: u64,
}
thread_local! {
    static E: Cell<*mut Explorer> = const { Cell::new(std::ptr::null_mut()) };
}
fn explorer() -> Option<&'static mut Explorer> {
    E.with(|e| unsafe { e.get().as_mut() })
}
/// A thread is about to take a step that others can observe.
fn point() {
    if let Some(e) = explorer() {
        if let Some(i) = e.current {
            e.threads[i].history = mix(e.threads[i].history, 1);
            e.steps += 1;
            let save: *mut usize = &mut e.threads[i].sp;
            unsafe { mc_switch(save, e.main_sp) };
        }
    }
}
fn mix(h: u64, x: u64) -> u64 {
    let h = (h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    h ^ h >> 29
}
/// What a step of the present thread finds.
fn observed(x: u64) {
    if let Some(e) = explorer() {
        if let Some(i) = e.current {
            e.threads[i].history = mix(e.threads[i].history, x);
        }
    }
}
/// The present thread has taken a step.
fn stepped(changed: bool) {
    if let Some(e) = explorer() {
        if let Some(i) = e.current {
            e.version += changed as u64;
            let t = &mut e.threads[i];
            t.idle = if changed { 0 } else if t.idle_at == e.version { t.idle + 1 } else { 1 };
            t.idle_at = e.version;
        }
    }
}
fn spurious() -> bool {
    if let Some(e) = explorer() {
        if e.current.is_some() && e.spurious_left > 0 {
            let c = e.choose(2) == 1;
            observed(c as u64);
            if c {
                e.spurious_left -= 1;
            }
            return c;
        }
    }
    false
}
extern "C" fn enter() {
    let e = explorer().unwrap();
    let i = e.current.unwrap();
    let n = e.threads[i].program.len();
    for k in 0..n {
        let op = e.threads[i].program[k];
        e.threads[i].idle = 0;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { perform(allocator(), e.ledger.get(), i, op) }));
        let r = match r {
            Ok(r) => r,
            Err(_) => Err("panics".to_string()),
        };
        if let Err(m) = r {
            e.failed.get_or_insert(format!("thread {}, {:?}: {}", i, op, m));
            break;
        }
    }
    let e = explorer().unwrap();
    e.threads[i].done = true;
    let mut lost = 0usize;
    unsafe { mc_switch(&mut lost, e.main_sp) };
}
impl Explorer {
    fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if self.next == self.choices.len() {
            self.choices.push((0, n as u8));
        }
        let c = self.choices[self.next].0;
        self.next += 1;
        c as usize
    }
    /// One execution, following and extending the choices.
    fn execute(&mut self, before: &[Op], states: &mut HashSet<u64>) -> R {
        self.next = 0;
        self.failed = None;
        self.spurious_left = 1;
        unsafe { (*self.ledger.get()).clear() };
        self.current = None;
        for &op in before {
            unsafe { perform(allocator(), self.ledger.get(), 99, op)? };
        }
        for t in &mut self.threads {
            t.done = false;
            t.history = 0;
            t.idle = 0;
            let top = (t.stack.as_ptr() as usize + STACK) & !15;
            // At the call in mc_entry the stack is aligned.
            let frame = top - 72;
            unsafe {
                let f = frame as *mut usize;
                for k in 0..6 {
                    *f.add(k) = 0;
                }
                *f.add(6) = mc_entry as *const () as usize;
            }
            t.sp = frame;
        }
        let mut last = usize::MAX;
        let begin = self.steps;
        loop {
            // A thread that waits goes on when another one has changed something, or when all wait. The one that ran last comes first.
            let unfinished = (0..self.threads.len()).filter(|&i| !self.threads[i].done).count();
            if unfinished == 0 {
                break;
            }
            let waits = |t: &Thread| t.idle >= WAITING && t.idle_at == self.version;
            let all = self.threads.iter().all(|t| t.done || waits(t));
            let mut ready = [0usize; 4];
            let mut n = 0;
            for i in std::iter::once(last).chain((0..self.threads.len()).filter(|&i| i != last)) {
                if i != usize::MAX && !self.threads[i].done && (all || !waits(&self.threads[i])) {
                    ready[n] = i;
                    n += 1;
                }
            }
            let i = ready[self.choose(n)];
            last = i;
            self.current = Some(i);
            unsafe { mc_switch(&mut self.main_sp, self.threads[i].sp) };
            self.current = None;
            if self.failed.is_some() {
                break;
            }
            let mut h = mix(statics::get().digest(), self.spurious_left as u64);
            for t in &self.threads {
                let idle = if t.idle_at == self.version { t.idle } else { 0 };
                h = mix(h, t.history.wrapping_add(idle)).rotate_left(7).wrapping_add(t.done as u64);
            }
            // From here on everything has been explored already.
            if !states.insert(h) && self.next == self.choices.len() {
                break;
            }
            if self.steps - begin > 20_000 {
                self.failed = Some("the operations do not terminate".to_string());
                break;
            }
        }
        if let Some(f) = self.failed.take() {
            return Err(f);
        }
        unsafe { (*self.ledger.get()).intact() }
    }
    /// To the next execution. False: there is none.
    fn advance(&mut self) -> bool {
        self.choices.truncate(self.next);
        while let Some((c, n)) = self.choices.pop() {
            if c + 1 < n {
                self.choices.push((c + 1, n));
                return true;
            }
        }
        false
    }
}

/// Almost all of the time for this process is used up.
fn late() -> bool {
    static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    START.get_or_init(std::time::Instant::now).elapsed().as_secs() > 500
}
/// All interleavings of these programs.
fn interleavings(before: &[Op], programs: &[Vec<Op>], cx: &mut Cx) -> R {
    if late() {
        cx.outcome("stopped at a limit");
        return Ok(());
    }
    let mut e = Explorer {
        main_sp: 0,
        current: None,
        threads: programs.iter().map(|p| Thread { stack: vec![0; STACK / 8], sp: 0, done: false, program: p.clone(), history: 0, idle: 0, idle_at: 0 }).collect(),
        ledger: UnsafeCell::new(Ledger::default()),
        failed: None,
        choices: Vec::new(),
        next: 0,
        spurious_left: 0,
        steps: 0,
        version: 0,
    };
    E.with(|x| x.set(&mut e));
    let mut states = HashSet::new();
    let mut n = 0u64;
    let r = loop {
        if let Err(m) = e.execute(before, &mut states) {
            break Err(format!("before: {:?}; threads: {:?}; choices {:?}: {}", before, programs, e.choices.iter().map(|c| c.0).collect::<Vec<_>>(), m));
        }
        n += 1;
        if !e.advance() {
            break Ok(());
        }
        // Never on the present code: its threads do not wait for one another.
        if n >= 500_000 || n % 1024 == 0 && late() {
            cx.outcome("stopped at a limit");
            break Ok(());
        }
    };
    E.with(|x| x.set(std::ptr::null_mut()));
    unsafe { (*e.ledger.get()).clear() };
    cx.states += states.len() as u64;
    cx.transitions += e.steps;
    cx.traces += n;
    r
}

/// What each thread may do.
const LIST: [Op; 8] = [
    Op::Alloc { size: 24, align: 8 },
    Op::Alloc { size: 1, align: 1 },
    Op::Alloc { size: 100, align: 4096 },
    Op::Zeroed { size: 16, align: 16 },
    Op::Alloc { size: 60, align: 4 },
    Op::Realloc { size: 40 },
    Op::Dealloc,
    Op::Alloc { size: 3000, align: 2 },
];
fn prefill(i: usize) -> Vec<Op> {
    let arena = statics::get().arena;
    match i {
        0 => vec![],
        // Little is left, and not aligned.
        1 => vec![Op::Alloc { size: 4, align: 4 }, Op::Alloc { size: arena - 104, align: 1 }],
        2 => vec![Op::Alloc { size: arena - 3077, align: 1 }],
        3 => vec![Op::Alloc { size: arena - 8209, align: 1 }],
        _ => vec![Op::Alloc { size: arena, align: 1 }],
    }
}
const FILLS: usize = 5;

fn seq_list() -> Vec<Op> {
    let arena = statics::get().arena;
    let mut v = Vec::new();
    for (size, align) in [
        (1, 1), (2, 1), (3, 2), (7, 8), (8, 8), (24, 16), (1, 4096), (4095, 1), (4096, 4096), (4097, 4096), (40_000, 8), (arena / 2, 1), (arena - 1, 1), (arena, 1), (arena, 4096), (arena + 1, 1),
        (isize::MAX as usize, 1), (isize::MAX as usize - 4095, 4096), (1, 8192), (8, 65_536), (100, 2048),
    ] {
        v.push(Op::Alloc { size, align });
    }
    for (size, align) in [(1, 1), (33, 64), (5000, 8), (arena, 1), (arena - 60_000, 2)] {
        v.push(Op::Zeroed { size, align });
    }
    for size in [1, 24, 5000, 70_000, arena, 200_000] {
        v.push(Op::Realloc { size });
    }
    for size in [2, 4096] {
        v.push(Op::ReallocFirst { size });
    }
    v.push(Op::Dealloc);
    v.push(Op::DeallocFirst);
    v
}

fn main() {
    statics::init(allocator());
    let s = statics::get();
    // Only one process may use one allocator: shards are processes.
    runner::main(|tier| {
        let mut out = Vec::new();
        let list = seq_list();
        let n = list.len() as u64;
        let depth = tier.pick(4u32, 5);
        let l = list.clone();
        out.push(section("sequences", &format!("every sequence of {} of {} operations of one thread, from an empty arena", depth, n), n * n, move |u, cx| {
            let rest = n.pow(depth - 2);
            let mut led = Ledger::default();
            for r in 0..rest {
                let mut ops = vec![l[(u / n) as usize], l[(u % n) as usize]];
                let mut x = r;
                for _ in 2..depth {
                    ops.push(l[(x % n) as usize]);
                    x /= n;
                }
                led.clear();
                for (i, &op) in ops.iter().enumerate() {
                    unsafe { perform(allocator(), &mut led, 0, op) }.and_then(|_| led.intact()).map_err(|e| format!("{:?}: {}", &ops[..=i], e))?;
                    cx.transitions += 1;
                }
                cx.outcomes_add("refused requests", led.failures);
                cx.traces += 1;
                cx.sample(|| format!("{:?}: blocks {:x?}", ops, led.blocks.iter().map(|b| (b.p, b.size)).collect::<Vec<_>>()));
            }
            led.clear();
            cx.states += rest;
            Ok(())
        }));
        out.push(section(
            "single requests",
            "every size from 1 to the arena's and some beyond, by alignments up to 65,536, after nothing, after one byte, and with little left",
            3 * 17,
            move |u, cx| {
                let align = 1usize << (u % 17);
                let mut led = Ledger::default();
                let arena = statics::get().arena;
                let step = tier.pick(7, 1);
                let sizes = (1..600).chain((600..arena + 4).step_by(step)).chain(arena - 5000..arena + 5000).chain((18..63).flat_map(|b| [-1isize, 0, 1, 100].map(|d| ((1isize << b) + d) as usize)));
                for size in sizes {
                    if std::alloc::Layout::from_size_align(size, align).is_err() {
                        continue;
                    }
                    led.clear();
                    let before: &[Op] = match u / 17 {
                        0 => &[],
                        1 => &[Op::Alloc { size: 1, align: 1 }],
                        _ => &[Op::Alloc { size: 70_001, align: 1 }],
                    };
                    let last = [Op::Alloc { size, align }, Op::Alloc { size: 1, align: 1 }, Op::Alloc { size: 64, align: 8 }];
                    for &op in before.iter().chain(&last) {
                        unsafe { perform(allocator(), &mut led, 0, op) }.and_then(|_| led.intact()).map_err(|e| format!("{:?}, {:?}: {}", before, last, e))?;
                        cx.transitions += 1;
                    }
                    cx.states += 1;
                    cx.traces += 1;
                }
                led.clear();
                Ok(())
            },
        ));
        out.push(section(
            "single reallocations and zeroed requests",
            "sizes from 1 to the arena's and some beyond, by alignments up to 65,536: a block of 1, 64 or 5,000 bytes grown or shrunk, or zeroed after one of them",
            6 * 17,
            move |u, cx| {
                let align = 1usize << (u % 17);
                let mut led = Ledger::default();
                let arena = statics::get().arena;
                let step = tier.pick(41, 1);
                let sizes = (1..100).chain((100..arena + 4).step_by(step)).chain(arena - 40..arena + 40).chain((18..63).flat_map(|b| [-1isize, 0, 1, 100].map(|d| ((1isize << b) + d) as usize)));
                let old = [1, 64, 5000][(u / 17 % 3) as usize];
                for size in sizes {
                    if std::alloc::Layout::from_size_align(size, align).is_err() {
                        continue;
                    }
                    led.clear();
                    let then = if u / 17 < 3 { Op::Realloc { size } } else { Op::Zeroed { size, align } };
                    let ops = [Op::Alloc { size: old, align }, then, Op::Alloc { size: 3, align: 1 }, Op::Realloc { size: 9 }];
                    for &op in &ops {
                        unsafe { perform(allocator(), &mut led, 0, op) }.and_then(|_| led.intact()).map_err(|e| format!("{:?}: {}", ops, e))?;
                        cx.transitions += 1;
                    }
                    cx.states += 1;
                    cx.traces += 1;
                }
                led.clear();
                Ok(())
            },
        ));
        out.push(section("down to the last byte", "equal requests until the arena is full and beyond", 300, move |u, cx| {
            let size = (u + 1) as usize;
            let mut led = Ledger::default();
            for align in [1usize, 8, 64] {
                led.clear();
                let mut refused = 0;
                for _ in 0..s.arena / size + 3 {
                    // Blocks are many: the newest is compared with its neighbours only.
                    let before = led.blocks.len();
                    let keep = led.blocks.split_off(before.saturating_sub(12));
                    let all = std::mem::replace(&mut led.blocks, keep);
                    let r = unsafe { perform(allocator(), &mut led, 0, Op::Alloc { size, align }) };
                    let mut all = all;
                    all.append(&mut led.blocks);
                    led.blocks = all;
                    r.map_err(|e| format!("request {} of {} bytes aligned to {}: {}", before, size, align, e))?;
                    refused += (led.blocks.len() == before) as u64;
                    cx.transitions += 1;
                }
                led.intact()?;
                let mut v: Vec<(usize, usize)> = led.blocks.iter().map(|b| (b.p, b.size)).collect();
                v.sort();
                ensure!(v.windows(2).all(|w| w[0].0 + w[0].1 <= w[1].0), "blocks overlap");
                ensure!(refused > 0, "{} requests of {} bytes are met", led.blocks.len(), size);
                if align == 1 {
                    ensure!(led.blocks.len() == s.arena / size, "{} requests of {} bytes are met out of {}", led.blocks.len(), size, s.arena / size);
                }
                cx.states += led.blocks.len() as u64;
                cx.traces += 1;
                cx.outcomes_add("refused requests", refused);
            }
            led.clear();
            Ok(())
        }));
        let k = LIST.len() as u64;
        out.push(section(
            "two threads",
            "every pair of programs of two operations from a list of eight, by five fillings of the arena: every interleaving of their atomic steps, with up to one spurious failure",
            FILLS as u64 * k * k,
            move |u, cx| {
                let before = prefill((u % FILLS as u64) as usize);
                let a = u / FILLS as u64;
                for b in 0..k * k {
                    if b < a {
                        continue;
                    }
                    let p = |x: u64| vec![LIST[(x / k) as usize], LIST[(x % k) as usize]];
                    interleavings(&before, &[p(a), p(b)], cx)?;
                }
                cx.sample(|| format!("{:?} then {:?} with every other program", LIST[(a / k) as usize], LIST[(a % k) as usize]));
                Ok(())
            },
        ));
        let long = tier.pick(3usize, 4);
        out.push(section(
            "two threads, longer",
            &format!("programs of {} operations that repeat or alternate, by five fillings", long),
            FILLS as u64 * k * k,
            move |u, cx| {
                let before = prefill((u % FILLS as u64) as usize);
                let x = u / FILLS as u64;
                let (a, b) = ((x / k) as usize, (x % k) as usize);
                if b < a {
                    return Ok(());
                }
                let p: Vec<Op> = (0..long).map(|i| if i % 2 == 0 { LIST[a] } else { LIST[b] }).collect();
                let q: Vec<Op> = (0..long).map(|i| if i % 2 == 0 { LIST[b] } else { LIST[a] }).collect();
                interleavings(&before, &[p.clone(), p], cx)?;
                interleavings(&before, &[q.clone(), vec![LIST[a]; long]], cx)?;
                interleavings(&before, &[q, vec![LIST[b]; long]], cx)
            },
        ));
        out.push(section(
            "three threads",
            "every three operations, one per thread, and the first thread with each second operation, by five fillings",
            FILLS as u64 * k * k,
            move |u, cx| {
                let before = prefill((u % FILLS as u64) as usize);
                let x = u / FILLS as u64;
                let (a, b) = ((x / k) as usize, (x % k) as usize);
                for c in 0..k as usize {
                    interleavings(&before, &[vec![LIST[a]], vec![LIST[b]], vec![LIST[c]]], cx)?;
                    if b <= c {
                        for d in 0..k as usize {
                            interleavings(&before, &[vec![LIST[a], LIST[d]], vec![LIST[b]], vec![LIST[c]]], cx)?;
                        }
                    }
                }
                Ok(())
            },
        ));
        if tier == Tier::Thorough {
            out.push(section(
                "two threads of three operations",
                "every pair of programs of three operations from six of the list, by five fillings",
                FILLS as u64 * 6 * 6 * 6,
                move |u, cx| {
                    let k = 6;
                    let before = prefill((u % FILLS as u64) as usize);
                    let a = u / FILLS as u64;
                    let p = |x: u64| vec![LIST[(x / k / k) as usize], LIST[(x / k % k) as usize], LIST[(x % k) as usize]];
                    for b in a..k * k * k {
                        interleavings(&before, &[p(a), p(b)], cx)?;
                    }
                    Ok(())
                },
            ));
            out.push(section("four threads", "every four operations, one per thread, by five fillings", FILLS as u64 * k * k, move |u, cx| {
                let before = prefill((u % FILLS as u64) as usize);
                let x = u / FILLS as u64;
                let (a, b) = ((x / k) as usize, (x % k) as usize);
                for c in 0..k as usize {
                    for d in c..k as usize {
                        if a <= b && b <= c {
                            interleavings(&before, &[vec![LIST[a]], vec![LIST[b]], vec![LIST[c]], vec![LIST[d]]], cx)?;
                        }
                    }
                }
                Ok(())
            }));
            out.push(section(
                "three threads of two operations",
                "programs of two operations of three threads, by five fillings",
                FILLS as u64 * k * k,
                move |u, cx| {
                    let before = prefill((u % FILLS as u64) as usize);
                    let x = u / FILLS as u64;
                    let (a, b) = ((x / k) as usize, (x % k) as usize);
                    for c in b..k as usize {
                        interleavings(&before, &[vec![LIST[a], LIST[a]], vec![LIST[b], LIST[c]], vec![LIST[c], LIST[b]]], cx)?;
                    }
                    Ok(())
                },
            ));
        }
        out
    })
}
