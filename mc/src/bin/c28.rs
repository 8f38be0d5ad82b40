//! C28: positions release exactly what they allocate.
//!
//! A global allocator records every block that library calls allocate and release: each release must be of a live block
//! with the layout it was allocated with; fresh and released memory is filled with patterns; released memory is kept apart
//! until the end of the sequence and must keep its pattern; blocks are surrounded by guard bytes.
use mc::*;
use shogi_core::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::fmt::Write;

const MAX: usize = 1024;
const GUARD: usize = 64;

#[derive(Clone, Copy)]
struct Block {
    p: usize,
    layout: Layout,
}
const NONE: Option<Block> = None;
struct Tracker {
    on: Cell<bool>,
    live: UnsafeCell<[Option<Block>; MAX]>,
    n_live: Cell<usize>,
    dead: UnsafeCell<[Option<Block>; MAX]>,
    n_dead: Cell<usize>,
    error: Cell<Option<&'static str>>,
    allocs: Cell<u64>,
    frees: Cell<u64>,
    fill: Cell<u8>,
}
thread_local! {
    static T: Tracker = const { Tracker {
        on: Cell::new(false),
        live: UnsafeCell::new([NONE; MAX]),
        n_live: Cell::new(0),
        dead: UnsafeCell::new([NONE; MAX]),
        n_dead: Cell::new(0),
        error: Cell::new(None),
        allocs: Cell::new(0),
        frees: Cell::new(0),
        fill: Cell::new(0xa5),
    } };
}
const DEAD: u8 = 0xdd;
const EDGE: u8 = 0x7e;

fn outer(l: Layout) -> (Layout, usize) {
    let front = GUARD.max(l.align());
    (Layout::from_size_align(front + l.size() + GUARD, l.align()).unwrap(), front)
}
impl Tracker {
    fn fail(&self, e: &'static str) {
        if self.error.get().is_none() {
            self.error.set(Some(e));
        }
    }
    unsafe fn get(&self, l: Layout, zero: bool) -> *mut u8 {
        let (o, front) = outer(l);
        let raw = System.alloc(o);
        if raw.is_null() {
            return raw;
        }
        std::ptr::write_bytes(raw, EDGE, o.size());
        let p = raw.add(front);
        std::ptr::write_bytes(p, if zero { 0 } else { self.fill.get() }, l.size());
        if self.n_live.get() == MAX {
            self.fail("too many live blocks");
            return p;
        }
        (*self.live.get())[self.n_live.get()] = Some(Block { p: p as usize, layout: l });
        self.n_live.set(self.n_live.get() + 1);
        self.allocs.set(self.allocs.get() + 1);
        p
    }
    unsafe fn edges(&self, b: Block) {
        let (_, front) = outer(b.layout);
        let p = b.p as *const u8;
        for i in 1..=front {
            if *p.sub(i) != EDGE {
                self.fail("a byte before a block was written");
            }
        }
        for i in 0..GUARD {
            if *p.add(b.layout.size() + i) != EDGE {
                self.fail("a byte after a block was written");
            }
        }
    }
    /// True: the block was one of ours.
    unsafe fn put(&self, p: *mut u8, l: Layout) -> bool {
        let live = &mut *self.live.get();
        let n = self.n_live.get();
        for i in 0..n {
            if let Some(b) = live[i] {
                if b.p == p as usize {
                    if b.layout != l {
                        self.fail("a block was released with another layout than it was allocated with");
                    }
                    self.edges(b);
                    std::ptr::write_bytes(p, DEAD, b.layout.size());
                    live[i] = live[n - 1];
                    self.n_live.set(n - 1);
                    self.frees.set(self.frees.get() + 1);
                    if self.n_dead.get() < MAX {
                        (*self.dead.get())[self.n_dead.get()] = Some(b);
                        self.n_dead.set(self.n_dead.get() + 1);
                    } else {
                        let (o, front) = outer(b.layout);
                        System.dealloc(p.sub(front), o);
                    }
                    return true;
                }
            }
        }
        let dead = &*self.dead.get();
        for b in dead[..self.n_dead.get()].iter().flatten() {
            if b.p == p as usize {
                self.fail("a block was released twice");
                return true;
            }
        }
        false
    }
}
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        T.try_with(|t| if t.on.get() { t.get(l, false) } else { System.alloc(l) }).unwrap_or_else(|_| System.alloc(l))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        T.try_with(|t| if t.on.get() { t.get(l, true) } else { System.alloc_zeroed(l) }).unwrap_or_else(|_| System.alloc_zeroed(l))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let done = T
            .try_with(|t| {
                if (t.n_live.get() > 0 || t.n_dead.get() > 0) && t.put(p, l) {
                    return true;
                }
                if t.on.get() {
                    t.fail("the library released a block it did not allocate");
                    return true;
                }
                false
            })
            .unwrap_or(false);
        if !done {
            System.dealloc(p, l);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
#[global_allocator]
static ALLOC: A = A;

/// A library call, recorded.
fn lib<R>(f: impl FnOnce() -> R) -> R {
    T.with(|t| t.on.set(true));
    let r = f();
    T.with(|t| t.on.set(false));
    r
}
fn live() -> usize {
    T.with(|t| t.n_live.get())
}
fn begin(fill: u8) {
    T.with(|t| {
        t.on.set(false);
        t.error.set(None);
        t.n_live.set(0);
        t.n_dead.set(0);
        t.allocs.set(0);
        t.frees.set(0);
        t.fill.set(fill);
    });
}
fn error() -> R {
    match T.with(|t| t.error.get()) {
        None => Ok(()),
        Some(e) => Err(e.to_string()),
    }
}
/// Everything is gone: nothing may be live, released memory must be as it was left.
fn end() -> R {
    error()?;
    T.with(|t| {
        if t.n_live.get() != 0 {
            return Err(format!("{} blocks leak after {} allocations and {} releases", t.n_live.get(), t.allocs.get(), t.frees.get()));
        }
        let dead = unsafe { &mut *t.dead.get() };
        let n = t.n_dead.get();
        let mut bad = None;
        for b in dead[..n].iter().flatten() {
            unsafe {
                let p = b.p as *mut u8;
                if (0..b.layout.size()).any(|i| *p.add(i) != DEAD) {
                    bad = Some("released memory was written".to_string());
                }
                t.edges(*b);
                let (o, front) = outer(b.layout);
                System.dealloc(p.sub(front), o);
            }
        }
        t.n_dead.set(0);
        match bad {
            Some(e) => Err(e),
            None => Ok(()),
        }
    })?;
    error()
}
/// After a failed sequence: forget what is left.
fn reset() {
    T.with(|t| {
        t.on.set(false);
        t.n_live.set(0);
        t.n_dead.set(0);
        t.error.set(None);
    });
}

/// A sink without memory of its own.
struct Count(usize, u64);
impl Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        for &b in s.as_bytes() {
            self.1 = (self.1 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}

/// What a slot should hold: base (0 opening, 1 opening with ply 77) and how many moves of the line were made.
type Content = (u8, usize);
enum Slot {
    Empty,
    Rust(Position),
    C(*mut Position),
}
impl Slot {
    fn get(&mut self) -> Option<&mut Position> {
        match self {
            Slot::Empty => None,
            Slot::Rust(p) => Some(p),
            Slot::C(p) => Some(unsafe { &mut **p }),
        }
    }
    fn clear(&mut self) {
        match std::mem::replace(self, Slot::Empty) {
            Slot::Empty => {}
            Slot::Rust(p) => lib(|| drop(p)),
            Slot::C(p) => lib(|| unsafe { Position::Position_destruct(p) }),
        }
    }
}

/// A line of moves without end: both rooks step aside and back.
fn line(n: usize) -> Move {
    let t = t();
    let (a, b) = [(16, 25), (64, 55), (25, 16), (55, 64)][n % 4];
    Move::Normal { from: t.sq[a], to: t.sq[b], promote: false }
}

const OPS: [&str; 19] = [
    "0 := startpos",
    "1 := arbitrary position",
    "0 := C startpos",
    "1 := C startpos",
    "destroy 0",
    "destroy 1",
    "1 := clone of 0",
    "0 := clone of 1",
    "1.clone_from(0)",
    "0.clone_from(1)",
    "exchange",
    "move on 0",
    "move on 1",
    "five moves on 0",
    "rejected moves on 0 and 1",
    "queries and text of 0 and 1",
    "owned text of 0",
    "0 := 0 (moved out and back)",
    "game: clone, resolve, compare, drop",
];

struct World {
    slot: [Slot; 2],
    want: [Content; 2],
}
impl World {
    fn advance(&mut self, i: usize, n: usize) -> R {
        for _ in 0..n {
            let k = self.want[i].1;
            if let Some(p) = self.slot[i].get() {
                let ok = lib(|| if k % 3 == 2 { p.make_compact_move(line(k).into()) } else { p.make_move(line(k)).is_some() });
                ensure!(ok, "move {} of the line is rejected", k);
                self.want[i].1 += 1;
            }
        }
        Ok(())
    }
    fn op(&mut self, o: usize) -> R {
        match o {
            0 => {
                let p = lib(Position::startpos);
                self.slot[0].clear();
                self.slot[0] = Slot::Rust(p);
                self.want[0] = (0, 0);
            }
            1 => {
                let p = lib(|| {
                    let mut q = PartialPosition::startpos();
                    let _ = q.ply_set(77);
                    Position::arbitrary_position(q)
                });
                self.slot[1].clear();
                self.slot[1] = Slot::Rust(p);
                self.want[1] = (1, 0);
            }
            2 | 3 => {
                let p = lib(|| Position::Position_startpos());
                self.slot[o - 2].clear();
                self.slot[o - 2] = Slot::C(p);
                self.want[o - 2] = (0, 0);
            }
            4 | 5 => self.slot[o - 4].clear(),
            6 | 7 => {
                let (from, to) = (o - 6, 7 - o);
                if let Some(p) = self.slot[from].get() {
                    let q = lib(|| p.clone());
                    ensure!(q == *p, "a clone is unequal");
                    self.slot[to].clear();
                    self.slot[to] = Slot::Rust(q);
                    self.want[to] = self.want[from];
                }
            }
            8 | 9 => {
                let (a, b) = self.slot.split_at_mut(1);
                let (from, to) = if o == 8 { (&mut a[0], &mut b[0]) } else { (&mut b[0], &mut a[0]) };
                if let (Some(p), Some(q)) = (from.get(), to.get()) {
                    lib(|| q.clone_from(p));
                    self.want[9 - o] = self.want[o - 8];
                }
            }
            10 => {
                self.slot.swap(0, 1);
                self.want.swap(0, 1);
            }
            11 => self.advance(0, 1)?,
            12 => self.advance(1, 1)?,
            13 => self.advance(0, 5)?,
            14 => {
                let t = t();
                for i in 0..2 {
                    if let Some(p) = self.slot[i].get() {
                        let bad = [
                            Move::Normal { from: t.sq[40], to: t.sq[41], promote: false },
                            Move::Drop { piece: t.pc[1].unwrap(), to: t.sq[40] },
                            Move::Drop { piece: t.pc[30].unwrap(), to: t.sq[40] },
                        ];
                        let before = live();
                        for mv in bad {
                            ensure!(lib(|| p.make_move(mv)).is_none() && !lib(|| p.make_compact_move(mv.into())), "{:?} is accepted", mv);
                        }
                        // The list may grow ahead of a rejected move, but nothing may be added to it.
                        ensure!(live() <= before + 1, "rejected moves leave {} blocks", live() - before);
                    }
                }
            }
            15 => {
                for i in 0..2 {
                    if let Some(p) = self.slot[i].get() {
                        let before = live();
                        let mut c = Count(0, 0);
                        lib(|| queries(p, &mut c));
                        ensure!(live() == before, "queries leave {} blocks behind", live() as i64 - before as i64);
                    }
                }
            }
            16 => {
                if let Some(p) = self.slot[0].get() {
                    let before = live();
                    let (a, b, c) = lib(|| {
                        let s = p.to_sfen_owned();
                        let u = p.last_move().map(|m| m.to_usi_owned());
                        let r = (s.len(), u.map_or(0, |x| x.len()), p.inner().to_sfen_owned() == s);
                        drop(s);
                        r
                    });
                    ensure!(a > 20 && b <= 5 && c, "owned text");
                    ensure!(live() == before, "owned text leaves {} blocks behind", live() as i64 - before as i64);
                }
            }
            17 => {
                if matches!(self.slot[0], Slot::Rust(_)) {
                    if let Slot::Rust(p) = std::mem::replace(&mut self.slot[0], Slot::Empty) {
                        let b = lib(|| std::hint::black_box(*std::hint::black_box(Box::new(p))));
                        self.slot[0] = Slot::Rust(b);
                    }
                }
            }
            _ => {
                let before = live();
                lib(|| {
                    let mut g = Game::default();
                    let mut h = g.clone();
                    h.resolve(GameResolution::Draw);
                    let x = g == h;
                    g.clone_from(&h);
                    h.unresolve();
                    std::hint::black_box((x, g.cmp(&h)));
                });
                ensure!(live() == before, "a game leaves {} blocks behind", live() as i64 - before as i64);
            }
        }
        error()
    }
    fn check(&mut self) -> R {
        for i in 0..2 {
            let (base, n) = self.want[i];
            if let Some(p) = self.slot[i].get() {
                ensure!(p.moves().len() == n, "slot {} lists {} moves, expected {}", i, p.moves().len(), n);
                for (k, &m) in p.moves().iter().enumerate() {
                    ensure!(m == line(k), "slot {} lists {:?} as move {}", i, m, k);
                }
                let ply = [1, 77][base as usize];
                ensure!(p.ply() as usize == ply + n && p.initial_position().ply() as usize == ply, "slot {}: ply {} and {}", i, p.ply(), p.initial_position().ply());
                ensure!(p.last_move() == n.checked_sub(1).map(line), "slot {}: last move {:?}", i, p.last_move());
                ensure!(p.piece_at(t().sq[16]).is_some() != (n % 4 == 1 || n % 4 == 2), "slot {}: the rook", i);
            }
        }
        Ok(())
    }
}

#[allow(clippy::unit_arg)]
fn queries(p: &Position, c: &mut Count) {
    let t = t();
    let q = p.inner();
    for c in t.color {
        std::hint::black_box((p.hand_of_a_player(c), p.player_bitboard(c), q.king_position(c)));
    }
    for s in t.sq {
        std::hint::black_box((p.piece_at(s), p.Position_piece_at(s)));
    }
    for x in t.pc.iter().flatten() {
        std::hint::black_box((p.hand(*x), p.piece_bitboard(*x)));
    }
    for k in KIND_LIST {
        std::hint::black_box(q.piece_kind_bitboard(k));
    }
    for s in p.occupied_bitboard() {
        std::hint::black_box(s);
    }
    std::hint::black_box((p.vacant_bitboard(), p.side_to_move(), p.ply(), p.moves().len(), p.last_compact_move()));
    let _ = q.to_sfen(c);
    let mut b = [0u8; 512];
    unsafe {
        p.to_sfen_c(b.as_mut_ptr());
        q.to_sfen_c(b.as_mut_ptr());
    }
    for m in p.moves() {
        let _ = m.to_usi(c);
        let x: CompactMove = (*m).into();
        let _ = x.to_usi(c);
    }
    let _ = [q.hand_of_a_player(Color::Black), q.hand_of_a_player(Color::White)].to_usi(c);
    std::hint::black_box((p.cmp(p), p == p, mc::order::hash_small(p)));
    for s in Square::all() {
        std::hint::black_box(s);
    }
}

/// One sequence from nothing to nothing.
fn sequence(ops: &[usize], fill: u8, cx: &mut Cx) -> R {
    begin(fill);
    let mut w = World { slot: [Slot::Empty, Slot::Empty], want: [(0, 0); 2] };
    let r = (|| {
        for &o in ops {
            w.op(o)?;
            w.check()?;
            cx.transitions += 1;
        }
        w.slot[0].clear();
        w.check()?;
        w.slot[1].clear();
        end()
    })();
    if r.is_err() {
        reset();
        std::mem::forget(w);
    }
    r.map_err(|e: String| format!("after [{}]: {}", ops.iter().map(|&o| OPS[o]).collect::<Vec<_>>().join("; "), e))
}

fn main() {
    runner::main(|tier| {
        let mut out = Vec::new();
        let depth = tier.pick(6usize, 7);
        let n = OPS.len() as u64;
        out.push(section(
            "sequences",
            &format!("two slots, every sequence of {} of {} operations, then both destroyed; fresh memory filled with one of two patterns", depth, n),
            n * n,
            move |u, cx| {
                let mut ops = vec![0usize; depth];
                ops[0] = (u / n) as usize;
                ops[1] = (u % n) as usize;
                let rest = n.pow(depth as u32 - 2);
                for r in 0..rest {
                    let mut x = r;
                    for d in ops.iter_mut().skip(2) {
                        *d = (x % n) as usize;
                        x /= n;
                    }
                    sequence(&ops, if r % 2 == 0 { 0xa5 } else { 0x00 }, cx)?;
                    cx.traces += 1;
                }
                cx.states += rest;
                cx.sample(|| format!("{} then {} then all", OPS[ops[0]], OPS[ops[1]]));
                Ok(())
            },
        ));
        out.push(section(
            "lengths",
            "histories of 0 to 300 moves, and around powers of two to 70,000: cloned, overwritten, destroyed at each length",
            324,
            |u, cx| {
                let n = if u <= 300 { u as usize } else { [511usize, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70_000][(u - 301) as usize] };
                for c in [false, true] {
                    for cloned in 0..4 {
                        begin(0xa5);
                        let mut w = World { slot: [Slot::Empty, Slot::Empty], want: [(0, 0); 2] };
                        let r = (|| {
                            w.op(if c { 2 } else { 0 })?;
                            let mut left = n;
                            while left > 0 {
                                let k = left.min(4096);
                                w.advance(0, k)?;
                                left -= k;
                                // the quarantine is bounded
                                error()?;
                            }
                            match cloned {
                                0 => {}
                                1 => w.op(6)?,
                                2 => {
                                    w.op(3)?;
                                    w.advance(1, n.min(3))?;
                                    w.op(8)?
                                }
                                _ => {
                                    w.op(1)?;
                                    w.advance(1, 7)?;
                                    w.op(9)?
                                }
                            }
                            if n < 60_000 {
                                w.check()?;
                            }
                            w.op(14)?;
                            w.op(15)?;
                            w.slot[0].clear();
                            w.slot[1].clear();
                            end()
                        })();
                        if r.is_err() {
                            reset();
                            std::mem::forget(w);
                        }
                        r.map_err(|e: String| format!("history of {} moves, C {}, variant {}: {}", n, c, cloned, e))?;
                        cx.transitions += n as u64;
                        cx.traces += 1;
                    }
                }
                cx.states += 1;
                Ok(())
            },
        ));
        out.push(section(
            "values without heap",
            "moves on, edits, clones, comparisons and text of positions without history, and all small values: nothing stays allocated",
            roots::roots().len() as u64,
            |u, cx| {
                let m = roots::roots()[u as usize].1.clone();
                let all = &t().moves;
                begin(0xa5);
                let base = lib(|| build(&m));
                ensure!(live() == 0, "building a position leaves {} blocks", live());
                for &(_, mv) in all {
                    let mut c = Count(0, 0);
                    lib(|| {
                        let mut p = base.clone();
                        let _ = p.make_move(mv);
                        let _ = mv.to_usi(&mut c);
                        let x: CompactMove = mv.into();
                        let _ = x.to_usi(&mut c);
                        let _ = p.make_compact_move(x);
                        p.piece_set(t().sq[0], None);
                    });
                    if live() != 0 {
                        let n = live();
                        reset();
                        fail!("{} + {:?} leaves {} blocks", m.show(), mv, n);
                    }
                    cx.transitions += 1;
                }
                let mut c = Count(0, 0);
                lib(|| {
                    let _ = base.to_sfen(&mut c);
                    let s = base.to_sfen_owned();
                    drop(s);
                    for &(_, mv) in all.iter().step_by(97) {
                        drop(mv.to_usi_owned());
                    }
                    let mut g = PartialGame::default();
                    g.resolve(GameResolution::Draw);
                    let h = g.clone();
                    std::hint::black_box(g == h);
                    drop(h);
                });
                let left = live();
                if left != 0 {
                    reset();
                    fail!("text of {} leaves {} blocks", m.show(), left);
                }
                end()?;
                cx.states += 1;
                cx.traces += 1;
                Ok(())
            },
        ));
        // Owned text of everything small.
        let moves = t().moves.len().div_ceil(1000) as u64;
        out.push(section(
            "owned text",
            "the text, as an owned string, of every square, piece, kind, colour, pair of hands (each kind and count, and all kinds), move and compact move: nothing stays allocated",
            moves + 2,
            move |u, cx| {
                begin(0xa5);
                fn one<T: ToUsi + std::fmt::Debug>(x: &T, cx: &mut Cx) -> R {
                    lib(|| drop(x.to_usi_owned()));
                    let left = live();
                    if left != 0 {
                        reset();
                        fail!("to_usi_owned of {:?} leaves {} blocks", x, left);
                    }
                    cx.transitions += 1;
                    error()
                }
                let t = t();
                match u.checked_sub(moves) {
                    None => {
                        for &(_, m) in t.moves.iter().skip(u as usize * 1000).take(1000) {
                            one(&m, cx)?;
                            let x: CompactMove = m.into();
                            one(&x, cx)?;
                        }
                    }
                    Some(0) => {
                        for s in t.sq {
                            one(&s, cx)?;
                        }
                        for x in t.pc.iter().flatten() {
                            one(x, cx)?;
                        }
                        for k in KIND_LIST {
                            one(&k, cx)?;
                        }
                        for c in t.color {
                            one(&c, cx)?;
                        }
                    }
                    _ => {
                        for k in 0..8usize {
                            for n in 0..=255u8 {
                                let mut h = [[0u8; 7]; 2];
                                match k {
                                    7 => h = [[n; 7], [255 - n; 7]],
                                    _ => h[n as usize % 2][k] = n,
                                }
                                let hands = [make_hand(&h[0]), make_hand(&h[1])];
                                one(&hands, cx)?;
                                let mut p = PartialPosition::empty();
                                for c in 0..2 {
                                    *p.hand_of_a_player_mut(t.color[c]) = hands[c];
                                }
                                lib(|| drop(p.to_sfen_owned()));
                                let left = live();
                                if left != 0 {
                                    reset();
                                    fail!("to_sfen_owned of {:?} leaves {} blocks", p, left);
                                }
                            }
                        }
                    }
                }
                end()?;
                cx.states += 1;
                cx.traces += 1;
                Ok(())
            },
        ));
        out
    })
}
