//! Preemption at every machine instruction: an operation runs with the processor's trap flag set, and after each of its
//! instructions a second thread is let run a whole other operation. x86-64 Linux only.
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[repr(C)]
struct SigAction {
    handler: usize,
    flags: u64,
    restorer: usize,
    mask: u64,
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
const SYS_RT_SIGACTION: i64 = 13;
const SIGTRAP: i64 = 5;
const SA_SIGINFO: u64 = 4;
const SA_RESTORER: u64 = 0x0400_0000;
/// Offset of the flags register in ucontext_t.
const EFL: usize = 40 + 17 * 8;

std::arch::global_asm!(".globl mc_step_restore", "mc_step_restore:", "mov rax, 15", "syscall");
extern "C" {
    fn mc_step_restore();
}

/// Where the stepping thread and its partner meet.
pub struct Meeting {
    /// Number of the request; odd: asked, even: done.
    turn: AtomicU64,
    quit: AtomicBool,
    panicked: AtomicBool,
    /// How often the partner waited.
    waits: AtomicU64,
}
impl Default for Meeting {
    fn default() -> Self {
        Meeting { turn: AtomicU64::new(0), quit: AtomicBool::new(false), panicked: AtomicBool::new(false), waits: AtomicU64::new(0) }
    }
}
struct Stepping {
    meeting: *const Meeting,
    /// Let the partner run after this instruction only; `u64::MAX`: after each.
    at: u64,
    /// And after this one.
    also: u64,
    count: u64,
    ran: u64,
    blocked: u64,
}
thread_local! {
    static NOW: AtomicPtr<Stepping> = const { AtomicPtr::new(std::ptr::null_mut()) };
}

impl Meeting {
    /// Called by the stepping thread: the partner runs its operation once. False: it did not finish in time, which means
    /// that it waits for something the stepping thread holds.
    pub fn let_run(&self) -> bool {
        let t = self.turn.load(SeqCst);
        if t & 1 == 1 {
            // Still at the last request.
            return false;
        }
        self.turn.store(t + 1, SeqCst);
        let mut spins = 0u32;
        let mut start = None;
        while self.turn.load(SeqCst) == t + 1 {
            spins += 1;
            if spins % 64 == 0 {
                std::thread::yield_now();
                let s = *start.get_or_insert_with(Instant::now);
                // A partner that waits often, waits for a lock: then short patience suffices.
                let patience = if self.waits.load(SeqCst) < 20 { 50_000 } else { 200 };
                if s.elapsed() > Duration::from_micros(patience) {
                    self.waits.fetch_add(1, SeqCst);
                    return false;
                }
            } else {
                std::hint::spin_loop();
            }
        }
        true
    }
    fn settle(&self) {
        while self.turn.load(SeqCst) & 1 == 1 {
            std::thread::yield_now();
        }
    }
}

extern "C" fn trap(_: i32, _: *mut u8, context: *mut u8) {
    let s = NOW.with(|n| n.load(SeqCst));
    if s.is_null() {
        return;
    }
    let s = unsafe { &mut *s };
    let here = s.count;
    s.count += 1;
    if s.at == u64::MAX || s.at == here || s.also == here {
        if unsafe { (*s.meeting).let_run() } {
            s.ran += 1;
        } else {
            s.blocked += 1;
        }
        if s.at != u64::MAX && here >= s.at.max(s.also) {
            // Nothing more to see: run on at full speed.
            unsafe {
                let f = context.add(EFL) as *mut u64;
                *f &= !0x100;
            }
        }
    }
}

pub fn install() {
    let a = SigAction {
        handler: trap as *const () as usize,
        flags: SA_SIGINFO | SA_RESTORER,
        restorer: mc_step_restore as *const () as usize,
        mask: 0,
    };
    let r = unsafe { syscall(SYS_RT_SIGACTION, SIGTRAP, &a as *const SigAction, 0usize, 8usize) };
    assert_eq!(r, 0, "sigaction");
}

pub struct Stepped {
    /// Instructions executed under the trap flag.
    pub instructions: u64,
    /// Times the partner ran.
    pub ran: u64,
    pub blocked: u64,
}

/// Runs `a`; the partner runs after its instruction `at`, or after each one.
#[inline(never)]
pub fn run(m: &Meeting, at: u64, a: &mut dyn FnMut()) -> Stepped {
    run_twice(m, at, 0, a)
}
/// The partner runs after instruction `at` and after instruction `also`; 0: never.
#[inline(never)]
pub fn run_twice(m: &Meeting, at: u64, also: u64, a: &mut dyn FnMut()) -> Stepped {
    let also = if also == 0 { at } else { also };
    let mut s = Stepping { meeting: m, at, also, count: 0, ran: 0, blocked: 0 };
    NOW.with(|n| n.store(&mut s, SeqCst));
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(a));
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    NOW.with(|n| n.store(std::ptr::null_mut(), SeqCst));
    m.settle();
    if let Err(e) = r {
        std::panic::resume_unwind(e);
    }
    Stepped { instructions: s.count, ran: s.ran, blocked: s.blocked }
}

/// Runs `body` with a partner thread that executes `b` at each request.
pub fn with_partner<B: FnMut() + Send>(m: &Meeting, mut b: B, body: impl FnOnce()) {
    std::thread::scope(|sc| {
        sc.spawn(move || {
            let mut idle = 0u32;
            loop {
                let t = m.turn.load(SeqCst);
                if t & 1 == 1 {
                    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut b)).is_err() {
                        m.panicked.store(true, SeqCst);
                    }
                    m.turn.store(t + 1, SeqCst);
                    idle = 0;
                } else if m.quit.load(SeqCst) {
                    break;
                } else {
                    idle += 1;
                    if idle > 4000 {
                        std::thread::yield_now();
                    } else {
                        std::hint::spin_loop();
                    }
                }
            }
        });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
        m.quit.store(true, SeqCst);
        if let Err(e) = r {
            std::panic::resume_unwind(e);
        }
    });
    assert!(!m.panicked.load(SeqCst), "the partner's operation panicked");
}
