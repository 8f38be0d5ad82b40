//! C20: the C library as its header describes it, against the reference model.
//!
//! The C library (both kinds) is loaded at run time; every call goes through c/shim.c, which a C compiler has compiled
//! against the published header. The directory with the libraries is in VERIF_C20_DIR (see lib/clib.py).
use mc::dl::{dlclose, dlsym, symbol};
use mc::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::{c_char, c_void, CStr};

const LIBS: [&str; 2] = ["std", "nostd"];
const SHIMS: [&str; 3] = ["gcc-O0", "gcc-O2", "clang-O2"];

type Api = *const c_void;
type B = [u64; 2];
type H = [u8; 8];
const DEAD: B = [0xdead_dead_dead_dead; 2];

#[repr(C)]
#[derive(Clone, Copy)]
struct Seen {
    side: u64,
    ply: u64,
    last: u64,
    at: [u8; 81],
    count: [[u8; 16]; 2],
    pad: [u8; 7],
    occupied: B,
    vacant: B,
    player: [B; 2],
    piece: [B; 31],
    kinds: [B; 15],
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Fields {
    side: u64,
    ply: u64,
    last: u64,
    king: [u64; 2],
    present: u64,
    hands: [[u8; 8]; 2],
    board: [u8; 81],
    pad: [u8; 7],
    player: [B; 2],
    piece: [B; 14],
}
fn zeroed<T: Copy>() -> T {
    unsafe { std::mem::zeroed() }
}

macro_rules! shim {
    ($($f:ident: fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        struct Fns { $($f: unsafe extern "C" fn($($a),*) $(-> $r)?,)* }
        impl Fns {
            unsafe fn load(lib: *mut c_void) -> Fns {
                Fns { $($f: std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($a),*) $(-> $r)?>(symbol(lib, stringify!($f)).expect("shim")),)* }
            }
        }
    };
}
shim! {
    shim_api_size: fn() -> usize;
    shim_load: fn(*mut c_void, unsafe extern "C" fn(*mut c_void, *const c_char) -> *mut c_void, *mut c_void) -> *const c_char;
    shim_layout: fn(*mut usize);
    shim_constants: fn(*mut u32);
    shim_fields: fn(*const c_void, *mut Fields);
    s_bb: fn(Api, u32, *mut B, *const B, *mut B);
    s_bb_single: fn(Api, u8, *mut B);
    s_bb_contains: fn(Api, *const B, u8) -> u32;
    s_bb_count: fn(Api, *const B) -> u32;
    s_bb_is_empty: fn(Api, *const B) -> u32;
    s_bb_pop: fn(Api, *mut B) -> u32;
    s_bb_mask: fn(Api, *const B, *mut B);
    s_sq_new: fn(Api, u8, u8) -> u32;
    s_sq_new_rel: fn(Api, u8, u8, u8) -> u32;
    s_sq_from: fn(Api, u8) -> u32;
    s_sq_from_unchecked: fn(Api, u8) -> u32;
    s_sq_get: fn(Api, u32, u8, u8) -> u32;
    s_sq_shift: fn(Api, u8, i8, i8) -> u32;
    s_color_flip: fn(Api, u8) -> u32;
    s_kind: fn(Api, u32, u8) -> u32;
    s_piece_new: fn(Api, u8, u8) -> u32;
    s_piece: fn(Api, u32, u8) -> u32;
    s_mv_normal: fn(Api, u8, u8, u32) -> u32;
    s_mv_drop: fn(Api, u8, u8) -> u32;
    s_mv: fn(Api, u32, u16) -> u32;
    s_hand_new: fn(Api, *mut H);
    s_hand_count: fn(Api, *const H, u8) -> u32;
    s_hand_add: fn(Api, *mut H, u8) -> u32;
    s_hand_remove: fn(Api, *mut H, u8) -> u32;
    s_partial_startpos: fn(Api, *mut c_void);
    s_partial_copy: fn(*mut c_void, *const c_void);
    s_position_startpos: fn(Api) -> *mut c_void;
    s_position_destruct: fn(Api, *mut c_void);
    s_position_inner: fn(Api, *const c_void) -> *const c_void;
    s_position_initial: fn(Api, *const c_void) -> *const c_void;
    s_make: fn(Api, u32, *mut c_void, u16) -> u32;
    s_sfen: fn(Api, u32, *const c_void, *mut u8);
    s_see: fn(Api, u32, *const c_void, *mut Seen);
}
fn dir() -> String {
    std::env::var("VERIF_C20_DIR").expect("VERIF_C20_DIR")
}
unsafe fn open(name: &str) -> Result<*mut c_void, String> {
    dl::open(&dir(), name)
}

/// One library under one shim, with static memory of its own.
struct World {
    name: String,
    kind: usize,
    f: &'static Fns,
    lib: *mut c_void,
    table: Vec<usize>,
    size: usize,
    /// Bytes of positions created since the library was loaded.
    used: usize,
}
impl World {
    fn new(kind: usize, shim: usize) -> Result<World, String> {
        unsafe {
            let f: &'static Fns = Box::leak(Box::new(Fns::load(open(&format!("shim-{}", SHIMS[shim])).unwrap())));
            let mut layout = [0usize; 18];
            (f.shim_layout)(layout.as_mut_ptr());
            let mut w = World {
                name: format!("{} library, {}", LIBS[kind], SHIMS[shim]),
                kind,
                f,
                lib: std::ptr::null_mut(),
                table: vec![0; (f.shim_api_size)().div_ceil(8)],
                size: layout[4],
                used: 0,
            };
            w.reload()?;
            Ok(w)
        }
    }
    fn reload(&mut self) -> R {
        unsafe {
            if !self.lib.is_null() {
                dlclose(self.lib);
            }
            self.lib = open(LIBS[self.kind])?;
            self.used = 0;
            let missing = (self.f.shim_load)(self.table.as_mut_ptr() as *mut c_void, dlsym, self.lib);
            ensure!(missing.is_null(), "the {} library has no {}", LIBS[self.kind], CStr::from_ptr(missing).to_string_lossy());
        }
        Ok(())
    }
    fn api(&self) -> Api {
        self.table.as_ptr() as Api
    }
    fn mask(&self, b: &B) -> u128 {
        let mut m = DEAD;
        unsafe { (self.f.s_bb_mask)(self.api(), b, &mut m) };
        m[0] as u128 | (m[1] as u128) << 64
    }
    /// By union of singletons.
    fn bb(&self, mask: u128) -> B {
        unsafe {
            let mut r = DEAD;
            (self.f.s_bb)(self.api(), 8, std::ptr::null_mut(), std::ptr::null(), &mut r);
            for i in 0..81 {
                if mask >> i & 1 == 1 {
                    let mut s = DEAD;
                    (self.f.s_bb_single)(self.api(), i + 1, &mut s);
                    (self.f.s_bb)(self.api(), 4, &mut r, &s, std::ptr::null_mut());
                }
            }
            r
        }
    }
}
thread_local! {
    static WORLDS: RefCell<HashMap<(usize, usize), World>> = RefCell::new(HashMap::new());
}
fn in_world(kind: usize, shim: usize, f: impl FnOnce(&mut World) -> R) -> R {
    WORLDS.with(|ws| {
        let mut ws = ws.borrow_mut();
        if !ws.contains_key(&(kind, shim)) {
            ws.insert((kind, shim), World::new(kind, shim)?);
        }
        let w = ws.get_mut(&(kind, shim)).unwrap();
        let name = w.name.clone();
        f(w).map_err(|e| format!("{}: {}", name, e))
    })
}
fn every_world(mut f: impl FnMut(&mut World) -> R) -> R {
    for kind in 0..LIBS.len() {
        for shim in 0..SHIMS.len() {
            in_world(kind, shim, &mut f)?;
        }
    }
    Ok(())
}

const EDGE: usize = 256;
/// Memory of a C program: an object between guard bytes, aligned as C would.
struct Mem {
    words: Vec<u64>,
    size: usize,
    fill: u8,
}
impl Mem {
    fn new(size: usize, fill: u8) -> Mem {
        Mem { words: vec![u64::from_ne_bytes([fill; 8]); (size + 2 * EDGE).div_ceil(8)], size, fill }
    }
    fn p(&mut self) -> *mut c_void {
        unsafe { (self.words.as_mut_ptr() as *mut u8).add(EDGE) as *mut c_void }
    }
    fn all(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.words.as_ptr() as *const u8, self.words.len() * 8) }
    }
    fn bytes(&self) -> &[u8] {
        &self.all()[EDGE..EDGE + self.size]
    }
    fn edges(&self, what: &str) -> R {
        let a = self.all();
        for (i, &b) in a.iter().enumerate() {
            if b != self.fill && !(EDGE..EDGE + self.size).contains(&i) {
                fail!("{} writes at offset {} of an object of {} bytes", what, i as isize - EDGE as isize, self.size);
            }
        }
        Ok(())
    }
    fn copy(&self) -> Mem {
        Mem { words: self.words.clone(), size: self.size, fill: self.fill }
    }
}

/// Everything a C program sees of a position.
fn see(w: &World, kind: u32, p: *const c_void, m: &M) -> R {
    let mut s: Seen = zeroed();
    unsafe { (w.f.s_see)(w.api(), kind, p, &mut s) };
    let what = ["PartialPosition", "Position"][kind as usize];
    same!(s.side, m.side as u64 + 1, "{}: side to move", what);
    same!(s.ply, m.ply as u64, "{}: ply", what);
    same!(s.last, m.last.map_or(0, move_number) as u64, "{}: last move", what);
    let mut set = [0u128; 31];
    let mut kinds = [0u128; 15];
    let mut player = [0u128; 2];
    let mut occupied = 0;
    for i in 0..81 {
        let b = m.board[i];
        same!(s.at[i], b, "{}: piece at {}", what, square_text(i as u8));
        if b != 0 {
            set[b as usize] |= 1 << i;
            kinds[kind_of(b) as usize] |= 1 << i;
            player[side_of(b) as usize] |= 1 << i;
            occupied |= 1u128 << i;
        }
    }
    for c in 0..2 {
        for k in 1..=14 {
            let n = if k <= 7 { m.hands[c][k - 1] } else { 0 };
            same!(s.count[c][k], n, "{}: kind {} in the hand of {}", what, k, c);
            let x = k + 16 * c;
            ensure!(w.mask(&s.piece[x]) == set[x], "{}: set of {}: {}, expected {}", what, piece_text(x as u8), show_mask(w.mask(&s.piece[x])), show_mask(set[x]));
        }
        ensure!(w.mask(&s.player[c]) == player[c], "{}: set of player {}: {}, expected {}", what, c, show_mask(w.mask(&s.player[c])), show_mask(player[c]));
    }
    for k in 1..=14 {
        ensure!(w.mask(&s.kinds[k]) == kinds[k], "{}: set of kind {}: {}, expected {}", what, k, show_mask(w.mask(&s.kinds[k])), show_mask(kinds[k]));
    }
    let full = (1u128 << 81) - 1;
    ensure!(w.mask(&s.occupied) == occupied, "{}: occupied set {}", what, show_mask(w.mask(&s.occupied)));
    ensure!(w.mask(&s.vacant) == full & !occupied, "{}: vacant set {}", what, show_mask(w.mask(&s.vacant)));
    Ok(())
}
/// The public fields of the structure.
fn fields(w: &World, p: *const c_void, m: &M) -> R {
    let mut f: Fields = zeroed();
    unsafe { (w.f.shim_fields)(p, &mut f) };
    let has = |bit: u64| f.present & bit != 0;
    ensure!(!has(1) || f.side == m.side as u64 + 1, "field side is {}, expected {}", f.side, m.side + 1);
    ensure!(!has(2) || f.ply == m.ply as u64, "field ply is {}, expected {}", f.ply, m.ply);
    let last = m.last.map_or(0, move_number) as u64;
    ensure!(!has(4) || f.last == last, "field last_move is {}, expected {}", f.last, last);
    ensure!(!has(128) || f.board[..] == m.board[..], "field board is {:?}, expected {:?}", f.board, m.board);
    for c in 0..2u8 {
        let kings = m.squares_of(make_piece(8, c));
        let k = f.king[c as usize];
        ensure!(!has(8) || if kings == 0 { k == 0 } else { k >= 1 && k <= 81 && kings >> (k - 1) & 1 == 1 }, "field king_square[{}] is {}", c, k);
        let h: H = f.hands[c as usize];
        for k in 1..=7u8 {
            let n = unsafe { (w.f.s_hand_count)(w.api(), &h, k) };
            ensure!(!has(16) || n == m.hands[c as usize][k as usize - 1] as u32, "field hands[{}], kind {}: {}", c, k, n);
        }
        let mut mine = 0;
        for k in 1..=14u8 {
            mine |= m.squares_of(make_piece(k, c));
        }
        ensure!(!has(32) || w.mask(&f.player[c as usize]) == mine, "field player_bb[{}]", c);
    }
    for k in 1..=14u8 {
        ensure!(!has(64) || w.mask(&f.piece[k as usize - 1]) == m.squares_of(k) | m.squares_of(k + 16), "field piece_bb[{}]", k - 1);
    }
    Ok(())
}
/// At most 139 bytes may be written, the text and its end exactly.
fn sfen(w: &World, kind: u32, p: *const c_void, m: &M) -> R {
    let want = m.sfen();
    let mut b = Mem::new(want.len() + 1, 0xee);
    unsafe { (w.f.s_sfen)(w.api(), kind, p, b.p() as *mut u8) };
    let got = b.bytes();
    ensure!(&got[..want.len()] == want.as_bytes() && got[want.len()] == 0, "text: {:?}, expected {:?} and a zero byte", String::from_utf8_lossy(got), want);
    b.edges("to_sfen_c")
}
fn compact(mv: Mv) -> u16 {
    move_number(mv)
}

/// Every move from this state, through the C interface.
fn every_move(w: &World, base: &mut Mem, m: &M, cx: &mut Cx) -> R {
    let (f, a) = (w.f, w.api());
    unsafe {
        let before = base.copy();
        for &(mv, _) in &t().moves {
            let mut n = m.clone();
            let ok = n.make_move(mv) == Verdict::Accepted;
            let got = (f.s_make)(a, 0, base.p(), compact(mv));
            ensure!(got == ok as u32, "{} at {}: {}, expected {}", show_move(mv), m.show(), got, ok);
            if ok {
                let r = see(w, 0, base.p(), &n).and_then(|_| fields(w, base.p(), &n)).and_then(|_| sfen(w, 0, base.p(), &n));
                r.map_err(|e| format!("{} at {}: {}", show_move(mv), m.show(), e))?;
                base.edges("PartialPosition_make_compact_move")?;
                let mut saved = before.copy();
                (f.s_partial_copy)(base.p(), saved.p());
                cx.outcome("accepted");
            } else {
                // Padding may change, what the program sees may not.
                if base.all() != before.all() {
                    base.edges("PartialPosition_make_compact_move")?;
                    let r = see(w, 0, base.p(), m).and_then(|_| fields(w, base.p(), m)).and_then(|_| sfen(w, 0, base.p(), m));
                    r.map_err(|e| format!("{}, rejected at {}: {}", show_move(mv), m.show(), e))?;
                }
                cx.outcome("rejected");
            }
            cx.transitions += 1;
        }
    }
    Ok(())
}

struct Game {
    w: *mut World,
    p: *mut c_void,
}
impl Game {
    fn new(w: &mut World) -> Result<Game, String> {
        // The arena of 128 KiB is never given back.
        if w.kind == 1 && w.used > 60_000 {
            w.reload()?;
        }
        w.used += 2 * w.size + 128;
        let p = unsafe { (w.f.s_position_startpos)(w.api()) };
        ensure!(!p.is_null() && p as usize % 8 == 0, "Position_startpos returns {:?}", p);
        Ok(Game { w, p })
    }
    fn w(&self) -> &World {
        unsafe { &*self.w }
    }
    fn make(&self, mv: u16) -> u32 {
        unsafe { (self.w().f.s_make)(self.w().api(), 1, self.p, mv) }
    }
    fn see(&self, initial: &M, m: &M) -> R {
        let w = self.w();
        see(w, 1, self.p, m)?;
        sfen(w, 1, self.p, m)?;
        unsafe {
            let i = (w.f.s_position_inner)(w.api(), self.p);
            see(w, 0, i, m)?;
            fields(w, i, m)?;
            let i = (w.f.s_position_initial)(w.api(), self.p);
            see(w, 0, i, initial)?;
            fields(w, i, initial)
        }
    }
    fn end(self) {
        unsafe { (self.w().f.s_position_destruct)(self.w().api(), self.p) };
    }
}

/// A long game that visits captures, drops and promotions: rooks and bishops take everything, then everything is dropped.
fn rich_game(n: usize) -> Vec<Mv> {
    let mut m = M::startpos();
    let mut out: Vec<Mv> = Vec::new();
    let all = &t().moves;
    let mut at = 0usize;
    for i in 0..n {
        // The next acceptable move at a stride; captures first, then promotions, then drops, in turn.
        let want = i % 4;
        let mut found = None;
        for j in 0..all.len() {
            let mv = all[(at + j * 7919) % all.len()].0;
            if m.verdict(mv) != Verdict::Accepted {
                continue;
            }
            let good = match (want, mv) {
                (0, Mv::Normal { to, promote, .. }) => m.board[to as usize] != 0 && !promote,
                (1, Mv::Normal { promote, .. }) => promote,
                (2, Mv::Drop { .. }) => true,
                (3, Mv::Normal { to, .. }) => m.board[to as usize] == 0,
                _ => false,
            };
            if found.is_none() || good {
                found = Some(mv);
                if good {
                    break;
                }
            }
        }
        let mv = found.unwrap();
        m.make_move(mv);
        out.push(mv);
        at = (at + 1013) % all.len();
    }
    out
}

fn main() {
    runner::main(|tier| {
        let mut out = Vec::new();
        out.push(section("layout and constants", "sizes, alignments and constants of the header against the library's", 1, |_, cx| {
            use shogi_core::*;
            use std::mem::{align_of, size_of};
            every_world(|w| {
                let mut got = [0usize; 18];
                unsafe { (w.f.shim_layout)(got.as_mut_ptr()) };
                let want = [
                    size_of::<Bitboard>(),
                    align_of::<Bitboard>(),
                    size_of::<Hand>(),
                    align_of::<Hand>(),
                    size_of::<PartialPosition>(),
                    align_of::<PartialPosition>(),
                    1, 1, 1, 1, 2, 1, 1, 1, 1, 1, 2, 1,
                ];
                same!(got, want, "sizes and alignments seen by C");
                let mut c = [0u32; 33];
                unsafe { (w.f.shim_constants)(c.as_mut_ptr()) };
                let mut want = vec![2, 15, 81, 31, 7, 1, 2, 1, 2, 3, 4, 5];
                want.extend(1..=7);
                want.extend(1..=14);
                same!(c[..], want[..], "constants seen by C");
                cx.states += 1;
                cx.transitions += 51;
                cx.traces += 1;
                Ok(())
            })
        }));
        out.push(section("squares", "every square and every byte; every pair of bytes as file and rank; every shift by every pair of bytes", 256, |u, cx| {
            every_world(|w| {
                let (f, a) = (w.f, w.api());
                let b = u as u8;
                let on = (1..=81).contains(&b);
                unsafe {
                    same!((f.s_sq_from)(a, b), if on { b as u32 } else { 0 }, "Square_from_u8({})", b);
                    for r in 0..=255u8 {
                        let ok = (1..=9).contains(&b) && (1..=9).contains(&r);
                        let want = if ok { 9 * (b as u32 - 1) + r as u32 } else { 0 };
                        same!((f.s_sq_new)(a, b, r), want, "Square_new({}, {})", b, r);
                        same!((f.s_sq_new_rel)(a, b, r, 1), want, "Square_new_relative({}, {}, Black)", b, r);
                        same!((f.s_sq_new_rel)(a, b, r, 2), if ok { 82 - want } else { 0 }, "Square_new_relative({}, {}, White)", b, r);
                    }
                    cx.transitions += 769;
                    if on {
                        let (file, rank) = (file_of(b - 1) as u32, rank_of(b - 1) as u32);
                        same!((f.s_sq_from_unchecked)(a, b), b as u32, "Square_from_u8_unchecked({})", b);
                        for (what, c, want) in [
                            (0, 1, file),
                            (1, 1, rank),
                            (2, 1, b as u32),
                            (3, 1, 82 - b as u32),
                            (4, 1, file),
                            (5, 1, rank),
                            (4, 2, 10 - file),
                            (5, 2, 10 - rank),
                        ] {
                            same!((f.s_sq_get)(a, what, b, c), want, "query {} of square {} for {}", what, b, c);
                        }
                        for df in -128..=127i32 {
                            for dr in -128..=127i32 {
                                let (x, y) = (file as i32 + df, rank as i32 + dr);
                                let want = if (1..=9).contains(&x) && (1..=9).contains(&y) { 9 * (x - 1) + y } else { 0 };
                                let got = (f.s_sq_shift)(a, b, df as i8, dr as i8);
                                ensure!(got == want as u32, "Square_shift({}, {}, {}): {}, expected {}", b, df, dr, got, want);
                            }
                        }
                        cx.transitions += 65_545;
                        cx.states += 1;
                    }
                }
                cx.traces += 1;
                Ok(())
            })
        }));
        out.push(section("pieces, kinds, colours, moves", "every value of each type, every move", 1, |_, cx| {
            every_world(|w| {
                let (f, a) = (w.f, w.api());
                unsafe {
                    for c in [1u8, 2] {
                        same!((f.s_color_flip)(a, c), 3 - c as u32, "Color_flip({})", c);
                    }
                    for b in 0..=255u8 {
                        let on = (1..=14).contains(&b);
                        same!((f.s_kind)(a, 0, b), if on { b as u32 } else { 0 }, "PieceKind_from_u8({})", b);
                        if on {
                            same!((f.s_kind)(a, 1, b), b as u32, "PieceKind_from_u8_unchecked({})", b);
                            same!((f.s_kind)(a, 2, b), promote_kind(b).unwrap_or(0) as u32, "PieceKind_promote({})", b);
                            same!((f.s_kind)(a, 3, b), unpromote_kind(b).unwrap_or(0) as u32, "PieceKind_unpromote({})", b);
                            same!((f.s_kind)(a, 4, b), (b <= 7) as u32, "Hand_is_hand_piece({})", b);
                            for c in [1u8, 2] {
                                let x = make_piece(b, c - 1);
                                same!((f.s_piece_new)(a, b, c), x as u32, "Piece_new({}, {})", b, c);
                                same!((f.s_piece)(a, 0, x), c as u32, "Piece_color({})", x);
                                same!((f.s_piece)(a, 1, x), b as u32, "Piece_piece_kind({})", x);
                                same!((f.s_piece)(a, 2, x), promote_kind(b).map_or(0, |k| make_piece(k, c - 1)) as u32, "Piece_promote({})", x);
                                same!((f.s_piece)(a, 3, x), unpromote_kind(b).map_or(0, |k| make_piece(k, c - 1)) as u32, "Piece_unpromote({})", x);
                            }
                        }
                        if (1..=5).contains(&b) {
                            same!((f.s_kind)(a, 5, b), b as u32, "GameResolution_from_u8_unchecked({})", b);
                        }
                        if (1..=7).contains(&b) {
                            same!((f.s_kind)(a, 6, b), b as u32, "IllegalMoveKind_from_u8_unchecked({})", b);
                        }
                    }
                    for &(mv, _) in &t().moves {
                        let n = compact(mv);
                        let (got, from, to, drop, pro) = match mv {
                            Mv::Normal { from, to, promote } => ((f.s_mv_normal)(a, from + 1, to + 1, promote as u32), from + 1, to + 1, 0, promote as u32),
                            Mv::Drop { piece, to } => ((f.s_mv_drop)(a, piece, to + 1), 0, to + 1, 1, 0),
                        };
                        same!(got, n as u32, "construction of {}", show_move(mv));
                        same!((f.s_mv)(a, 0, n), from as u32, "CompactMove_from({})", show_move(mv));
                        same!((f.s_mv)(a, 1, n), to as u32, "CompactMove_to({})", show_move(mv));
                        same!((f.s_mv)(a, 2, n), drop, "CompactMove_is_drop({})", show_move(mv));
                        same!((f.s_mv)(a, 3, n), pro, "CompactMove_is_promoting({})", show_move(mv));
                        cx.states += 1;
                    }
                }
                cx.transitions += 5 * 15_390 + 500;
                cx.traces += 1;
                Ok(())
            })
        }));
        out.push(section("hands", "additions and removals of every kind at every count of each kind, with every other kind present", 7, |u, cx| {
            every_world(|w| {
                let (f, a) = (w.f, w.api());
                unsafe {
                    let k = u as u8 + 1;
                    let mut h = Mem::new(8, 0xaa);
                    (f.s_hand_new)(a, h.p() as *mut H);
                    let mut m = [0u32; 15];
                    for other in 0..5u32 {
                        // up to the limit and back down, the other kinds changing meanwhile
                        for step in 0..520i32 {
                            let add = step < 260;
                            let ok = if add { (f.s_hand_add)(a, h.p() as *mut H, k) } else { (f.s_hand_remove)(a, h.p() as *mut H, k) };
                            // above 255 the count wraps, or the call refuses: both leave a valid hand
                            let before = m[k as usize];
                            if add && before == 255 {
                                let now = (f.s_hand_count)(a, h.p() as *const H, k);
                                ensure!(if ok == 1 { now == 0 } else { now == 255 }, "Hand_add at 255 answers {} and leaves {}", ok, now);
                                m[k as usize] = now;
                                if ok == 1 {
                                    let _ = (f.s_hand_remove)(a, h.p() as *mut H, k);
                                    m[k as usize] = (f.s_hand_count)(a, h.p() as *const H, k);
                                }
                            } else {
                                same!(ok, (add || before > 0) as u32, "Hand_{} of kind {} at {}", if add { "add" } else { "remove" }, k, before);
                                if ok == 1 {
                                    m[k as usize] = if add { before + 1 } else { before - 1 };
                                }
                            }
                            for x in 1..=14u8 {
                                let n = (f.s_hand_count)(a, h.p() as *const H, x);
                                ensure!(n == m[x as usize], "Hand_count of kind {} is {}, expected {}", x, n, m[x as usize]);
                                if x >= 8 {
                                    let before = h.bytes().to_vec();
                                    let r = ((f.s_hand_add)(a, h.p() as *mut H, x), (f.s_hand_remove)(a, h.p() as *mut H, x));
                                    ensure!(r == (0, 0) && h.bytes() == &before[..], "kind {} cannot be in hand: {:?}", x, r);
                                }
                            }
                            h.edges("Hand_add or Hand_remove")?;
                            cx.transitions += 15;
                            if step % 7 == other as i32 {
                                let x = (k + 1 + (step % 6) as u8 - 1) % 7 + 1;
                                if x != k && m[x as usize] < 250 {
                                    same!((f.s_hand_add)(a, h.p() as *mut H, x), 1, "Hand_add");
                                    m[x as usize] += 1;
                                }
                            }
                        }
                        cx.states += 256;
                    }
                }
                cx.traces += 1;
                Ok(())
            })
        }));
        let family = std::sync::Arc::new(vals::pair_masks());
        let fam = family.clone();
        let n = family.len() as u64;
        out.push(section("sets", "every pair of a family of sets: the three operations, in both forms; each set alone: complement, turned board, count, emptiness, popping to the end", n, move |u, cx| {
            let full = (1u128 << 81) - 1;
            every_world(|w| {
                let (f, a) = (w.f, w.api());
                let x = fam[u as usize];
                let bx = w.bb(x);
                let turn = |m: u128| (0..81).fold(0u128, |r, i| r | (m >> i & 1) << (80 - i));
                unsafe {
                    same!(w.mask(&bx), x, "union of singletons");
                    same!((f.s_bb_count)(a, &bx), x.count_ones(), "Bitboard_count of {}", show_mask(x));
                    same!((f.s_bb_is_empty)(a, &bx), (x == 0) as u32, "Bitboard_is_empty of {}", show_mask(x));
                    for (op, want) in [(6, full & !x), (7, turn(x)), (8, 0)] {
                        let mut r = DEAD;
                        let mut arg = bx;
                        (f.s_bb)(a, op, &mut arg, std::ptr::null(), &mut r);
                        same!(w.mask(&r), want, "operation {} on {}", op, show_mask(x));
                        same!((f.s_bb_count)(a, &r), want.count_ones(), "count after operation {} on {}", op, show_mask(x));
                        same!((f.s_bb_is_empty)(a, &r), (want == 0) as u32, "emptiness after operation {} on {}", op, show_mask(x));
                        // The complement of the complement and the turned turned board are equal objects.
                        if op < 8 {
                            let mut s = DEAD;
                            (f.s_bb)(a, op, &mut r, std::ptr::null(), &mut s);
                            same!(s, bx, "operation {} twice on {}", op, show_mask(x));
                        }
                    }
                    let mut left = x;
                    let mut m = Mem::new(16, 0x55);
                    *(m.p() as *mut B) = bx;
                    loop {
                        let got = (f.s_bb_pop)(a, m.p() as *mut B);
                        // Which member it is is not specified.
                        let member = got >= 1 && got <= 81 && left >> (got - 1) & 1 == 1;
                        ensure!(if left == 0 { got == 0 } else { member }, "Bitboard_pop of {}: got {}", show_mask(left), got);
                        if got > 0 {
                            left &= !(1 << (got - 1));
                        }
                        same!(w.mask(&*(m.p() as *const B)), left, "what Bitboard_pop leaves");
                        if got == 0 {
                            break;
                        }
                    }
                    m.edges("Bitboard_pop")?;
                    cx.transitions += 90;
                    let mut m = Mem::new(16, 0x33);
                    for &y in fam.iter() {
                        let by = cached(w, y);
                        for (op, want) in [(0u32, x & y), (1, x | y), (2, x ^ y)] {
                            let mut r = DEAD;
                            let mut arg = bx;
                            (f.s_bb)(a, op, &mut arg, &by, &mut r);
                            ensure!(w.mask(&r) == want, "operation {} on {} and {}: {}", op, show_mask(x), show_mask(y), show_mask(w.mask(&r)));
                            ensure!(arg == bx, "operation {} changes its operand", op);
                            *(m.p() as *mut B) = bx;
                            (f.s_bb)(a, op + 3, m.p() as *mut B, &by, std::ptr::null_mut());
                            ensure!(*(m.p() as *const B) == r, "operation {} in place on {} and {}", op, show_mask(x), show_mask(y));
                        }
                        cx.transitions += 6;
                    }
                    m.edges("an assignment")?;
                }
                cx.states += 1;
                cx.traces += 1;
                Ok(())
            })
        }));
        // every move at every state of a family: plain structures
        let states: Vec<M> = {
            let mut v = vec![M::startpos()];
            let g = rich_game(tier.pick(120, 400));
            let mut m = M::startpos();
            for mv in g {
                m.make_move(mv);
                v.push(m.clone());
            }
            v
        };
        let states = std::sync::Arc::new(states);
        let s2 = states.clone();
        let game = std::sync::Arc::new(rich_game(tier.pick(120, 400)));
        let g2 = game.clone();
        out.push(section(
            "structures",
            "PartialPosition in memory of the C program, with guard bytes, over two patterns of prior contents: every move at every state of a long varied game",
            states.len() as u64 * 6,
            move |u, cx| {
                let (i, k) = ((u / 6) as usize, (u % 6) as usize);
                in_world(k % 2, k / 2, |w| {
                    let (f, a) = (w.f, w.api());
                    let mut base = Mem::new(w.size, if i % 2 == 0 { 0x00 } else { 0xff });
                    let mut m = M::startpos();
                    unsafe {
                        (f.s_partial_startpos)(a, base.p());
                        base.edges("PartialPosition_startpos")?;
                        see(w, 0, base.p(), &m)?;
                        fields(w, base.p(), &m)?;
                        for &mv in &g2[..i] {
                            same!((f.s_make)(a, 0, base.p(), compact(mv)), 1, "{} at {}", show_move(mv), m.show());
                            m.make_move(mv);
                        }
                        ensure!(m == s2[i], "the game");
                        base.edges("PartialPosition_make_compact_move")?;
                        see(w, 0, base.p(), &m)?;
                        fields(w, base.p(), &m)?;
                        sfen(w, 0, base.p(), &m)?;
                        every_move(w, &mut base, &m, cx)?;
                        cx.sample(|| format!("{}: every move at {}", w.name, m.show()));
                        cx.states += 1;
                        cx.traces += 1;
                    }
                    Ok(())
                })
            },
        ));
        let roots = roots::roots();
        out.push(section(
            "structures given to C",
            "positions that Rust code has made, copied into memory of the C program: seen, and every move",
            roots.len() as u64 * 12,
            move |u, cx| {
                let (i, k) = ((u / 12) as usize, (u % 6) as usize);
                in_world(k % 2, k / 2, |w| {
                    let m = &roots[i].1;
                    let q = build(m);
                    let mut base = Mem::new(w.size, if u % 12 < 6 { 0x00 } else { 0xff });
                    same!(w.size, std::mem::size_of_val(&q), "size of PartialPosition");
                    unsafe { std::ptr::copy_nonoverlapping(&q as *const _ as *const u8, base.p() as *mut u8, w.size) };
                    see(w, 0, base.p(), m)?;
                    fields(w, base.p(), m)?;
                    sfen(w, 0, base.p(), m)?;
                    every_move(w, &mut base, m, cx)?;
                    cx.states += 1;
                    cx.traces += 1;
                    Ok(())
                })
            },
        ));
        // two moves deep with histories
        let firsts: Vec<Mv> = t().moves.iter().map(|x| x.0).filter(|&m| M::startpos().verdict(m) == Verdict::Accepted).collect();
        let stride = tier.pick(23usize, 3);
        out.push(section(
            "games",
            "Position: every acceptable first move, then acceptable second and third moves at a stride, with rejected ones between; seen at every step",
            firsts.len() as u64,
            move |u, cx| {
                let first = firsts[u as usize];
                let k = (u % 6) as usize;
                in_world(k % 2, k / 2, |w| {
                    let root = M::startpos();
                    let mut m1 = root.clone();
                    m1.make_move(first);
                    let seconds: Vec<Mv> = t().moves.iter().map(|x| x.0).filter(|&m| m1.verdict(m) == Verdict::Accepted).skip(u as usize % stride).step_by(stride).collect();
                    for (n, &second) in seconds.iter().enumerate() {
                        let g = Game::new(w)?;
                        let mut m = root.clone();
                        let run = (|| {
                            for (d, mv) in [Some(first), Some(second), None].into_iter().enumerate() {
                                // rejected moves change nothing
                                for j in 0..3usize {
                                    let bad = t().moves[(n * 131 + d * 977 + j * 4051) % 15390].0;
                                    if m.verdict(bad) != Verdict::Accepted {
                                        same!(g.make(compact(bad)), 0, "{} at {}", show_move(bad), m.show());
                                        cx.transitions += 1;
                                    }
                                }
                                let mv = match mv {
                                    Some(x) => x,
                                    None => {
                                        let mut j = n * 7 + 1;
                                        while m.verdict(t().moves[j % 15390].0) != Verdict::Accepted {
                                            j += 1;
                                        }
                                        t().moves[j % 15390].0
                                    }
                                };
                                same!(g.make(compact(mv)), 1, "{} at {}", show_move(mv), m.show());
                                m.make_move(mv);
                                cx.transitions += 1;
                                g.see(&root, &m).map_err(|e| format!("after {}: {}", m.show(), e))?;
                            }
                            Ok(())
                        })();
                        g.end();
                        run?;
                        cx.states += 3;
                        cx.traces += 1;
                        cx.sample(|| format!("{}: {} after two moves", w.name, m.show()));
                    }
                    Ok(())
                })
            },
        ));
        let g3 = game.clone();
        let long = tier.pick(3000usize, 9000);
        out.push(section(
            "long games",
            "several positions at once, moves taken in turn, up to thousands of moves; varied games; destroyed in every order",
            6 * 6,
            move |u, cx| {
                let (k, order) = ((u % 6) as usize, (u / 6) as usize);
                in_world(k % 2, k / 2, |w| {
                    let root = M::startpos();
                    if w.kind == 1 {
                        w.reload()?;
                    }
                    let mut games: Vec<Option<(Game, M, usize)>> = Vec::new();
                    for i in 0..3 {
                        let g = Game::new(w)?;
                        g.see(&root, &root)?;
                        games.push(Some((g, root.clone(), i * 17)));
                    }
                    for i in 0..g3.len() {
                        for j in 0..3 {
                            if let Some((g, m, lag)) = &mut games[(i + j) % 3] {
                                if i < *lag {
                                    continue;
                                }
                                let mv = g3[i - *lag];
                                same!(g.make(compact(mv)), 1, "{} at {}", show_move(mv), m.show());
                                m.make_move(mv);
                                g.see(&root, m)?;
                                cx.transitions += 1;
                            }
                        }
                    }
                    let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order];
                    for (n, &i) in perm.iter().enumerate() {
                        let (g, m, _) = games[i].take().unwrap();
                        g.see(&root, &m)?;
                        g.end();
                        for other in games.iter().flatten() {
                            other.0.see(&root, &other.1)?;
                        }
                        // a new one takes its place at once
                        if n == 0 {
                            let g = Game::new(w)?;
                            g.see(&root, &root)?;
                            g.end();
                        }
                    }
                    // one long game of rook moves
                    if w.kind == 1 {
                        w.reload()?;
                    }
                    let g = Game::new(w)?;
                    let mut m = root.clone();
                    for i in 0..long {
                        let (a, b) = [(16, 25), (64, 55), (25, 16), (55, 64)][i % 4];
                        let mv = Mv::Normal { from: a, to: b, promote: false };
                        same!(g.make(compact(mv)), 1, "move {} of a long game", i);
                        m.make_move(mv);
                        if i.is_power_of_two() || i % 97 == 0 {
                            g.see(&root, &m)?;
                        }
                        cx.transitions += 1;
                    }
                    g.see(&root, &m)?;
                    g.end();
                    if w.kind == 1 {
                        w.reload()?;
                    }
                    cx.states += 4 * g3.len() as u64;
                    cx.traces += 4;
                    Ok(())
                })
            },
        ));
        out.push(section("linked programs", "an ordinary C program linked with each library prints what it computes", 2, |u, cx| {
            let exe = format!("{}/program-{}", dir(), LIBS[u as usize]);
            let o = std::process::Command::new(&exe).output().map_err(|e| format!("{}: {}", exe, e))?;
            ensure!(o.status.success(), "the program linked with the {} library ends with {}", LIBS[u as usize], o.status);
            let got = String::from_utf8_lossy(&o.stdout).into_owned();
            let mut lines = got.lines();
            let mut expect = |want: String| -> R {
                let l = lines.next().unwrap_or("nothing");
                ensure!(l == want, "the program linked with the {} library prints {:?}, expected {:?}", LIBS[u as usize], l, want);
                cx.transitions += 1;
                Ok(())
            };
            let root = M::startpos();
            expect(root.sfen())?;
            let mut number = 0;
            for &(mv, _) in &t().moves {
                let mut m = root.clone();
                let ok = m.make_move(mv) == Verdict::Accepted;
                if ok {
                    expect(format!("{} {}", move_number(mv), m.sfen()))?;
                    number += 1;
                    if number % 16 == 0 {
                        let mut h = 0xcbf29ce484222325u64;
                        let mut n = 0;
                        for &(second, _) in &t().moves {
                            let mut m2 = m.clone();
                            if m2.make_move(second) == Verdict::Accepted {
                                n += 1;
                                for &b in m2.sfen().as_bytes() {
                                    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                                }
                            }
                        }
                        expect(format!("{} replies {:016x}", n, h))?;
                    }
                }
            }
            let all = &t().moves;
            let mut m = root.clone();
            for i in 0..40usize {
                for j in 0..all.len() {
                    if m.make_move(all[(j * 7919 + i * 1013) % all.len()].0) == Verdict::Accepted {
                        expect(m.sfen())?;
                        break;
                    }
                }
            }
            expect("end".into())?;
            cx.states += number;
            cx.traces += 1;
            Ok(())
        }));
        out
    })
}

thread_local! {
    static SETS: RefCell<HashMap<(usize, u128), B>> = RefCell::new(HashMap::new());
}
fn cached(w: &World, y: u128) -> B {
    SETS.with(|s| *s.borrow_mut().entry((w.kind, y)).or_insert_with(|| w.bb(y)))
}
