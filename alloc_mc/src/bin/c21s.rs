//! C21 on the allocator with the processor's own atomics: another thread runs whole operations after any one machine
//! instruction of an operation, and after all of them.
use alloc_mc::*;
use mc::*;
use std::alloc::GlobalAlloc;
use std::cell::UnsafeCell;
use std::sync::atomic::Ordering::SeqCst;

#[path = "/repo/shogi_core_c/src/no_std.rs"]
#[allow(dead_code, unused_imports, static_mut_refs)]
mod no_std;
mod verif_sync {
    pub use core::sync::atomic::*;
}
fn allocator() -> &'static dyn GlobalAlloc {
    no_std::simple_alloc::verif_allocator()
}
struct Shared(UnsafeCell<Ledger>);
unsafe impl Sync for Shared {}

fn list() -> Vec<Op> {
    vec![
        Op::Alloc { size: 24, align: 8 },
        Op::Alloc { size: 1, align: 1 },
        Op::Alloc { size: 100, align: 4096 },
        Op::Zeroed { size: 16, align: 16 },
        Op::Alloc { size: 60, align: 4 },
        Op::Realloc { size: 40 },
        Op::Dealloc,
    ]
}
fn prefill(i: u64) -> Vec<Op> {
    let arena = statics::get().arena;
    match i {
        0 => vec![],
        1 => vec![Op::Alloc { size: arena - 104, align: 1 }],
        _ => vec![Op::Alloc { size: arena - 8209, align: 1 }],
    }
}

/// Only the calls are stepped: the ledger's work around them must not be interrupted half-way.
struct Call {
    op: Op,
    block: Option<Block>,
    p: *mut u8,
}
fn prepare(l: &mut Ledger, owner: usize, op: Op) -> Option<Call> {
    let block = match op {
        Op::Alloc { .. } | Op::Zeroed { .. } => None,
        _ => Some(*l.blocks.iter().rev().find(|b| b.live && b.owner == owner)?),
    };
    match (op, block) {
        (Op::Alloc { size, align }, _) | (Op::Zeroed { size, align }, _) => l.announce(size, align),
        (Op::Realloc { size }, Some(b)) => l.announce(size, b.align),
        _ => {}
    }
    if op == Op::Dealloc {
        let b = block.unwrap();
        l.release(b.p);
    }
    Some(Call { op, block, p: std::ptr::null_mut() })
}
#[inline(never)]
fn call(c: &mut Call) {
    use std::alloc::Layout;
    let a = allocator();
    unsafe {
        match (c.op, c.block) {
            (Op::Alloc { size, align }, _) => c.p = a.alloc(Layout::from_size_align_unchecked(size, align)),
            (Op::Zeroed { size, align }, _) => c.p = a.alloc_zeroed(Layout::from_size_align_unchecked(size, align)),
            (Op::Realloc { size }, Some(b)) => c.p = a.realloc(b.p as *mut u8, Layout::from_size_align_unchecked(b.size, b.align), size),
            (_, Some(b)) => a.dealloc(b.p as *mut u8, Layout::from_size_align_unchecked(b.size, b.align)),
            _ => {}
        }
    }
}
fn conclude(l: &mut Ledger, owner: usize, c: &Call) -> R {
    match (c.op, c.block) {
        (Op::Alloc { size, align }, _) => l.received(c.p, size, align, owner, false),
        (Op::Zeroed { size, align }, _) => l.received(c.p, size, align, owner, true),
        (Op::Realloc { size }, Some(b)) => l.moved(c.p, b, size, owner),
        _ => Ok(()),
    }
}

fn main() {
    statics::init(allocator());
    step::install();
    runner::main(|tier| {
        let reach = tier.pick(120, 2000);
        let n = list().len() as u64;
        vec![section(
            "preemption at any instruction",
            "every operation with every other run on another thread after each single one of its machine instructions, after each two near one another, and after all of them, by three fillings of the arena",
            n * n * 3,
            move |u, cx| {
                let l = list();
                let (a, b) = (l[(u / 3 / n) as usize], l[(u / 3 % n) as usize]);
                let before = prefill(u % 3);
                let led = Shared(UnsafeCell::new(Ledger::default()));
                let m = step::Meeting::default();
                let fault = std::sync::Mutex::new(None::<String>);
                // How many more operations the other thread may run: it could keep the first from ever finishing.
                let active = std::sync::atomic::AtomicU64::new(0);
                let (led, fault, active) = (&led, &fault, &active);
                let mut result: R = Ok(());
                step::with_partner(
                    &m,
                    move || {
                        let left = active.load(SeqCst);
                        if left == 0 {
                            return;
                        }
                        active.store(left - 1, SeqCst);
                        let l = unsafe { &mut *led.0.get() };
                        if let Some(mut c) = prepare(l, 1, b) {
                            call(&mut c);
                            if let Err(e) = conclude(unsafe { &mut *led.0.get() }, 1, &c) {
                                fault.lock().unwrap().get_or_insert(e);
                            }
                        }
                    },
                    || {
                        let mut once = |k: u64, j: u64| -> Result<u64, String> {
                            let l = unsafe { &mut *led.0.get() };
                            l.clear();
                            for &op in &before {
                                unsafe { perform(allocator(), l, 99, op)? };
                            }
                            // Blocks to reallocate and release.
                            for owner in [0, 1] {
                                if let Op::Realloc { .. } | Op::Dealloc = [a, b][owner] {
                                    unsafe { perform(allocator(), l, owner, Op::Alloc { size: 10, align: 2 })? };
                                }
                            }
                            let Some(mut c) = prepare(l, 0, a) else { return Ok(0) };
                            active.store(300, SeqCst);
                            let s = step::run_twice(&m, k, j, &mut || call(&mut c));
                            active.store(0, SeqCst);
                            let l = unsafe { &mut *led.0.get() };
                            let r = conclude(l, 0, &c).and_then(|_| l.intact());
                            let e = fault.lock().unwrap().take();
                            let r = match e {
                                Some(e) => Err(format!("the other: {}", e)),
                                None => r,
                            };
                            cx.transitions += s.instructions;
                            cx.traces += 1;
                            cx.outcomes_add("preemptions", s.ran);
                            cx.outcomes_add("partner waited for a lock", s.blocked);
                            r.map_err(|e| format!("{:?}, then {:?} with {:?} after instruction {} and {}: {}", before, a, b, k, j, e))?;
                            Ok(s.instructions)
                        };
                        result = (|| {
                            let total = once(u64::MAX - 1, 0)?;
                            for k in 0..total {
                                once(k, 0)?;
                            }
                            for k in 1..total {
                                for j in k + 1..total.min(k + reach) {
                                    once(k, j)?;
                                }
                            }
                            once(u64::MAX, 0)?;
                            Ok(())
                        })();
                    },
                );
                unsafe { (*led.0.get()).clear() };
                cx.states += 1;
                cx.sample(|| format!("{:?} with {:?}", a, b));
                result
            },
        )]
    })
}
