//! C29: one fixed workload of all parts of the crate, natively and in an interpreter for targets of other word sizes and byte
//! orders. Each unit prints a digest of all answers; the digests of all targets must agree (lib/targets.py).
//! `--dump SECTION UNIT` prints the answers.
#![allow(deprecated)]
use shogi_core::c_compat::*;
use shogi_core::*;
use std::fmt::Write;

struct Out {
    h: u64,
    n: u64,
    states: u64,
    dump: bool,
}
impl Out {
    fn put(&mut self, what: &'static str, v: u64) {
        self.n += 1;
        self.h = (self.h ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
        if self.dump {
            println!("{} {} {:#x}", self.n, what, v);
        }
    }
    fn text(&mut self, what: &'static str, s: &str) {
        let mut h = 0xcbf29ce484222325u64;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        if self.dump {
            println!("{} {} text {:?}", self.n, what, s);
        }
        self.put(what, h);
    }
    fn wide(&mut self, what: &'static str, v: u128) {
        self.put(what, v as u64);
        self.put(what, (v >> 64) as u64);
    }
    fn sq(&mut self, what: &'static str, s: Option<Square>) {
        self.put(what, s.map_or(0, |s| s.index() as u64));
    }
    fn kind(&mut self, what: &'static str, k: Option<PieceKind>) {
        self.put(what, k.map_or(0, |k| k as u64));
    }
    fn pc(&mut self, what: &'static str, p: Option<Piece>) {
        self.put(what, p.map_or(0, |p| p.as_u8() as u64));
    }
    fn bb(&mut self, what: &'static str, b: Bitboard) {
        self.wide(what, b.to_u128());
    }
    fn mv(&mut self, what: &'static str, m: Option<Move>) {
        self.put(
            what,
            match m {
                None => 0,
                Some(Move::Normal { from, to, promote }) => 1 + ((from.index() as u64) << 8 | (to.index() as u64) << 16 | (promote as u64) << 24),
                Some(Move::Drop { piece, to }) => 2 + ((piece.as_u8() as u64) << 8 | (to.index() as u64) << 16),
            },
        );
    }
    fn compact(&mut self, what: &'static str, c: Option<CompactMove>) {
        match c {
            None => self.put(what, 0),
            Some(c) => {
                self.sq(what, c.from());
                self.sq(what, Some(c.to()));
                self.put(what, c.is_drop() as u64 | (c.is_promoting() as u64) << 1 | 4);
                self.mv(what, Some(c.into()));
            }
        }
    }
    fn hand(&mut self, what: &'static str, h: Hand) {
        let mut x = 0;
        for k in Hand::all_hand_pieces() {
            x = x << 8 | h.count(k).map_or(7, |c| c as u64);
        }
        self.put(what, x);
    }
}
/// Takes `1` writes, keeps what it took.
struct Sink(usize, String);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0 == 0 {
            return Err(std::fmt::Error);
        }
        self.0 -= 1;
        self.1.push_str(s);
        Ok(())
    }
}
fn usi<T: ToUsi>(o: &mut Out, what: &'static str, x: &T) {
    let mut s = String::new();
    let ok = x.to_usi(&mut s).is_ok();
    o.put(what, ok as u64);
    o.text(what, &s);
    let mut k = Sink(1, String::new());
    let ok = x.to_usi(&mut k).is_ok();
    assert!(s.starts_with(&k.1) && ok == (k.1.len() == s.len()));
}
fn squares() -> Vec<Square> {
    (0..81).map(|i| Square::new(i / 9 + 1, i % 9 + 1).unwrap()).collect()
}
fn pieces() -> Vec<Piece> {
    let mut v = Vec::new();
    for k in PieceKind::all() {
        for c in Color::all() {
            v.push(Piece::new(k, c));
        }
    }
    v
}
fn compact(m: Move) -> CompactMove {
    match m {
        Move::Normal { from, to, promote } => CompactMove::normal(from, to, promote),
        Move::Drop { piece, to } => CompactMove::drop(piece, to),
    }
}

/// Sets a position from its text.
fn position(sfen: &str) -> PartialPosition {
    let mut p = PartialPosition::empty();
    let f: Vec<&str> = sfen.split(' ').collect();
    let letter = |c: char| {
        let k = match c.to_ascii_uppercase() {
            'P' => PieceKind::Pawn,
            'L' => PieceKind::Lance,
            'N' => PieceKind::Knight,
            'S' => PieceKind::Silver,
            'G' => PieceKind::Gold,
            'B' => PieceKind::Bishop,
            'R' => PieceKind::Rook,
            _ => PieceKind::King,
        };
        (k, if c.is_ascii_uppercase() { Color::Black } else { Color::White })
    };
    for (r, row) in f[0].split('/').enumerate() {
        let mut file = 9u8;
        let mut plus = false;
        for c in row.chars() {
            if let Some(d) = c.to_digit(10) {
                file -= d as u8;
            } else if c == '+' {
                plus = true;
            } else {
                let (k, col) = letter(c);
                let pc = Piece::new(k, col);
                let pc = if plus { pc.promote().unwrap_or(pc) } else { pc };
                plus = false;
                p.piece_set(Square::new(file, r as u8 + 1).unwrap(), Some(pc));
                file -= 1;
            }
        }
    }
    if f[1] == "w" {
        p.side_to_move_set(Color::White);
    }
    let mut n = 0;
    for c in f[2].chars() {
        if let Some(d) = c.to_digit(10) {
            n = n * 10 + d;
        } else if c != '-' {
            let (k, col) = letter(c);
            for _ in 0..n.max(1) {
                let h = p.hand_of_a_player_mut(col);
                *h = h.added(k).unwrap();
            }
            n = 0;
        }
    }
    let ok = p.ply_set(f[3].parse().unwrap());
    assert!(ok);
    p
}
const ROOTS: [&str; 8] = [
    "lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1",
    "l3k1+Rnl/1+P1sg4/p1np1p1pp/2p3p2/1s2P4/P1PP1G+b1P/1P1SK1P2/5+l3/LN1g3N1 b BGSN3Pr2p 87",
    "+P+L+N+S+B+R2k/9/+p+l+n+s+b+r3/9/9/9/+P+P+P+p+p+p3/9/8K w RBGSNLPrbgsnlp 120",
    "4k4/9/9/9/9/9/9/9/4K4 w RB2G2S2N2L9Prb2g2s2n2l9p 300",
    "lnsg1gsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSG1GSNL b - 1",
    "kKkKkKkKk/PpPpPpPpP/LlLlLlLlL/NnNnNnNnN/SsSsSsSsS/GgGgGgGgG/BbBbBbBbB/RrRrRrRrR/+P+p+P+p+P+p+P+p+P b P18L255Np10l99n100 65534",
    "9/9/9/9/9/9/9/9/9 w - 65535",
    "k1K6/9/P1p6/9/4+B4/3P1p3/9/L1N1l1n2/S1G1R1b1s b 18P4g 9",
];

/// The same as `moves()[i]`.
fn nth_move(i: usize) -> Move {
    let sq = |i: usize| Square::from_u8(i as u8 + 1).unwrap();
    match i.checked_sub(2 * 81 * 81) {
        None => Move::Normal { from: sq(i / 162), to: sq(i / 2 % 81), promote: i % 2 == 1 },
        Some(i) => {
            let kind = PieceKind::from_u8((i / 162) as u8 + 1).unwrap();
            Move::Drop { piece: Piece::new(kind, if i / 81 % 2 == 0 { Color::Black } else { Color::White }), to: sq(i % 81) }
        }
    }
}
const MOVES: usize = 2 * 81 * 81 + 28 * 81;

/// What a change can touch.
fn show(o: &mut Out, p: &PartialPosition) {
    o.put("side", p.side_to_move() as u64);
    o.put("ply", p.ply() as u64);
    for c in Color::all() {
        o.hand("hand", p.hand_of_a_player(c));
        o.bb("player", p.player_bitboard(c));
        o.sq("king", p.king_position(c));
    }
    o.bb("occupied", p.occupied_bitboard());
    o.bb("vacant", p.vacant_bitboard());
    o.mv("last", p.last_move());
    o.compact("last compact", p.last_compact_move());
    for k in PieceKind::all() {
        o.bb("kind", p.piece_kind_bitboard(k));
    }
    o.states += 1;
}
fn show_all(o: &mut Out, p: &PartialPosition) {
    show(o, p);
    for s in squares() {
        o.pc("at", p.piece_at(s));
    }
    for q in pieces() {
        o.bb("piece", p.piece_bitboard(q));
        o.put("hand of", p.hand(q).map_or(999, |c| c as u64));
    }
    text(o, p);
}
fn text(o: &mut Out, p: &PartialPosition) {
    let s = p.to_sfen_owned();
    o.text("sfen", &s);
    let mut b = vec![0x55u8; s.len() + 4];
    unsafe { p.to_sfen_c(b.as_mut_ptr()) };
    assert!(b == [s.as_bytes(), &[0, 0x55, 0x55, 0x55]].concat(), "the C form");
    for n in [0, 1, 17] {
        let mut k = Sink(n, String::new());
        let ok = p.to_sfen(&mut k).is_ok();
        assert!(s.starts_with(&k.1) && ok == (k.1.len() == s.len()));
    }
}
/// Equality, order and hashing of some values among each other. What a hash is may depend on the target, but not that equal
/// values have equal ones.
fn laws<T: Ord + std::hash::Hash>(o: &mut Out, v: &[T]) {
    struct H(u64);
    impl std::hash::Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let h: Vec<u64> = v
        .iter()
        .map(|x| {
            let mut h = H(7);
            x.hash(&mut h);
            h.0
        })
        .collect();
    for (i, a) in v.iter().enumerate() {
        for (j, b) in v.iter().enumerate() {
            let c = Ord::cmp(a, b);
            o.put("cmp", (c as i8 + 1) as u64);
            o.put("lt", (a < b) as u64 | ((a <= b) as u64) << 1);
            assert!(a.partial_cmp(b) == Some(c) && (a == b) == c.is_eq() && (a != b || h[i] == h[j]));
        }
    }
    o.states += v.len() as u64;
}

/// How much is done: fewer values in the quick tier.
static THOROUGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn every(quick: usize, thorough: usize) -> usize {
    if THOROUGH.load(std::sync::atomic::Ordering::Relaxed) {
        thorough
    } else {
        quick
    }
}

fn s_numbers(u: u64, o: &mut Out) {
    for a in (u * 16) as u8..=(u * 16 + 15) as u8 {
        o.sq("from_u8", Square::from_u8(a));
        o.sq("Square_from_u8", Square::Square_from_u8(a).into());
        o.kind("kind", PieceKind::from_u8(a));
        o.kind("PieceKind_from_u8", PieceKind::PieceKind_from_u8(a).into());
        o.put("illegal", IllegalMoveKind::from_u8(a).map_or(0, |k| k as u64));
        let option: OptionSquare = Square::from_u8(a).into();
        o.sq("option", option.into());
        for b in (0..=255u8).filter(|b| *b < 12 || *b > 250 || [29, 30, 31, 127, 128, 129].contains(b)) {
            o.sq("new", Square::new(a, b));
            for c in Color::all() {
                o.sq("relative", Square::new_relative(a, b, c));
            }
        }
    }
    o.states += 16;
}
fn s_squares(u: u64, o: &mut Out) {
    let s = squares()[u as usize];
    for x in [s.file(), s.rank(), s.index()] {
        o.put("coordinates", x as u64);
    }
    o.sq("flip", Some(s.flip()));
    for c in Color::all() {
        o.put("relative", (s.relative_file(c) as u64) << 8 | s.relative_rank(c) as u64);
    }
    let deltas: Vec<i8> = (-128..=127i8).filter(|d| d.unsigned_abs() < 11 || d.unsigned_abs() > 125 || [28, 29, 57, 114, -28, -29, -57, -114].contains(d)).collect();
    for &a in &deltas {
        for &b in deltas.iter().step_by(if a.unsigned_abs() < 10 { 1 } else { 5 }) {
            o.sq("shift", s.shift(a, b));
        }
    }
    o.put("array", s.array_index() as u64);
    o.sq("all", Square::all().nth(u as usize));
    usi(o, "usi", &s);
    o.states += 1;
}
fn s_pieces(_: u64, o: &mut Out) {
    for c in Color::all() {
        o.put("flip", c.flip() as u64);
        o.put("array", c.array_index() as u64);
        usi(o, "usi", &c);
    }
    for k in PieceKind::all() {
        o.kind("promote", k.promote());
        o.kind("unpromote", k.unpromote());
        o.kind("promote", k.PieceKind_promote().into());
        o.put("hand kind", Hand::is_hand_piece(k) as u64);
        usi(o, "usi", &k);
        o.put("array", k.array_index() as u64);
        o.put("some", PieceKind::option_array_index(Some(k)) as u64);
    }
    for p in pieces() {
        o.pc("self", Some(p));
        o.kind("kind", Some(p.piece_kind()));
        o.put("colour", p.color() as u64);
        o.pc("promote", p.promote());
        o.pc("unpromote", p.unpromote());
        o.pc("promote", p.Piece_promote().into());
        o.put("array", p.array_index() as u64);
        usi(o, "usi", &p);
        o.states += 1;
    }
    for p in Piece::all() {
        o.pc("all", Some(p));
    }
    for n in [Piece::NUM, PieceKind::NUM, PieceKind::OPTION_NUM, Square::NUM, Color::NUM, PieceKind::option_array_index(None)] {
        o.put("number", n as u64);
    }
    laws(o, &pieces());
    laws(o, &PieceKind::all());
    laws(o, &Color::all());
    laws(o, &squares());
    for n in 1..=4 {
        let r = unsafe { GameResolution::from_u8_unchecked(n) };
        let option: OptionGameResolution = Some(r).into();
        o.put("resolution", Option::<GameResolution>::from(option).map_or(0, |r| r as u64));
        let mut g = PartialGame::default();
        g.resolve(r);
        o.put("resolution", g.resolution().map_or(0, |r| r as u64));
        o.put("equal", (g == PartialGame::default()) as u64);
        show(o, g.position());
        g.unresolve();
        o.put("equal", (g == PartialGame::default()) as u64);
    }
}
/// Every move in both forms.
fn s_moves(u: u64, o: &mut Out) {
    let v: Vec<Move> = (0..MOVES).skip(u as usize).step_by(128 * every(3, 1)).map(nth_move).collect();
    for (i, &m) in v.iter().enumerate() {
        let c = compact(m);
        o.compact("compact", Some(c));
        let d: CompactMove = m.into();
        o.put("equal", (c == d) as u64);
        o.sq("from", m.from());
        o.sq("to", Some(m.to()));
        o.put("flags", m.is_drop() as u64 | (m.is_promoting() as u64) << 1);
        let option: OptionCompactMove = Some(c).into();
        o.mv("option", Option::<CompactMove>::from(option).map(|c| c.into()));
        if i % every(2, 1) == 0 {
            usi(o, "usi", &m);
            usi(o, "usi", &c);
        }
        // The two bytes, as a C program sees them.
        let n: u16 = unsafe { std::mem::transmute(c) };
        o.put("number", n as u64);
        o.states += 1;
    }
    let few: Vec<Move> = v.into_iter().step_by(9).collect();
    laws(o, &few);
    laws(o, &few.iter().map(|m| compact(*m)).collect::<Vec<_>>());
}
fn family() -> Vec<u128> {
    let mut v = vec![0, (1 << 81) - 1];
    for i in 0..81 {
        v.push(1 << i);
        v.push((1 << i) - 1);
        for j in [i - 1, i - 9, i - 31, i - 32, 0, 31, 62, 63] {
            if (0..81).contains(&j) && j != i {
                v.push(1 << i | 1 << j);
            }
        }
    }
    for p in [1u128, 0x101, 0x155, 0x0aa, 0x1ff, 0x0f8, 0x100] {
        for f in 0..9 {
            v.push(p << (9 * f));
        }
        v.push((0..9).fold(0, |m, f| m | p << (9 * f)));
    }
    for step in 2..12 {
        v.push((1..81).step_by(step).fold(0, |m, i| m | 1 << i));
    }
    v
}
fn set(m: u128) -> Bitboard {
    let mut b = Bitboard::empty();
    let mut left = m;
    while left != 0 {
        b |= Square::from_u8(left.trailing_zeros() as u8 + 1).unwrap();
        left &= left - 1;
    }
    b
}
fn s_sets(u: u64, o: &mut Out) {
    let sq = squares();
    let f: Vec<u128> = family().into_iter().skip(u as usize).step_by(48).collect();
    for &m in f.iter().step_by(every(2, 1)) {
        let b = set(m);
        o.bb("set", b);
        o.put("count", b.count() as u64);
        o.put("empty", b.is_empty() as u64);
        o.bb("flip", b.flip());
        o.bb("not", !b);
        o.wide("raw", unsafe { Bitboard::from_u128_unchecked(b.to_u128()) }.to_u128());
        for &s in &sq {
            o.put("contains", b.contains(s) as u64);
        }
        for d in 0..=9u8 {
            unsafe {
                o.bb("up", b.shift_up(d));
                o.bb("down", b.shift_down(d));
                o.bb("left", b.shift_left(d));
                o.bb("right", b.shift_right(d));
                if d > 0 {
                    let p = b.get_file_unchecked(d);
                    o.put("file", p as u64);
                    o.bb("file", Bitboard::from_file_unchecked(d, p));
                }
            }
        }
        let s = b.swap_bytes();
        o.wide("swapped", s.to_u128());
        o.bb("and back", s.swap_bytes());
        o.wide("raw", unsafe { ByteSwappedBitboard::from_u128_unchecked(s.to_u128()) }.to_u128());
        let mut c = b;
        let mut n = 0;
        while let Some(s) = c.pop() {
            n += 1;
            // Which one comes first is not said.
            assert!(b.contains(s) && !c.contains(s) && c.count() == b.count() - n);
        }
        let h = b.size_hint();
        assert!(h.0 <= b.count() as usize && h.1.map_or(true, |h| h >= b.count() as usize));
        o.put("sum", { b }.map(|s| s.index() as u64).sum());
        o.put("number", { b }.count() as u64);
        o.put("last", { b }.last().is_some() as u64);
        o.states += 1;
    }
    let all: Vec<Bitboard> = f.iter().map(|m| set(*m)).collect();
    for &a in all.iter().step_by(every(4, 1)) {
        for &b in all.iter() {
            for v in [a & b, a | b, a ^ b, a.andnot(b), a.and(b), a.or(b), a.xor(b)] {
                o.bb("operator", v);
            }
            let (x, y) = (a.swap_bytes(), b.swap_bytes());
            o.wide("swapped and", x.and(y).to_u128());
            o.wide("swapped or", x.or(y).to_u128());
            o.wide("swapped xor", x.xor(y).to_u128());
            o.wide("swapped andnot", x.andnot(y).to_u128());
        }
    }
    let few = all.iter().step_by(every(3, 1));
    laws(o, &few.clone().copied().collect::<Vec<_>>());
    laws(o, &few.map(|m| m.swap_bytes()).collect::<Vec<_>>());
}
fn s_hands(u: u64, o: &mut Out) {
    let k = PieceKind::all()[u as usize];
    let other = PieceKind::all()[(u as usize * 3 + 1) % 7];
    let mut h = Hand::new().added(other).unwrap();
    for n in 0..300 {
        o.hand("hand", h);
        o.put("added", h.added(k).is_some() as u64);
        o.put("removed", h.removed(k).is_some() as u64);
        o.put("count", h.count(k).map_or(999, |c| c as u64));
        if n % every(7, 1) == 0 {
            usi(o, "usi", &[h, Hand::new()]);
            usi(o, "usi", &[Hand::new(), h]);
        }
        o.put("add", h.Hand_add(k) as u64);
        o.states += 1;
    }
    for _ in 0..60 {
        o.put("remove", h.Hand_remove(k) as u64);
        o.hand("hand", h);
    }
}
/// Two kinds with counts around every limit.
fn s_hand_pairs(u: u64, o: &mut Out) {
    let k: Vec<PieceKind> = Hand::all_hand_pieces().collect();
    let (a, b) = (k[u as usize / 7], k[u as usize % 7]);
    let stops = [0u32, 1, 2, 10, 127, 128, 255];
    let columns: Vec<Hand> = stops.iter().map(|n| (0..*n).fold(Hand::new(), |h: Hand, _| h.added(b).unwrap())).collect();
    let mut v = Vec::new();
    for &n in &stops {
        for &h in &columns {
            let mut h = h;
            for _ in 0..n.min(12) {
                h = h.added(a).unwrap();
            }
            o.hand("hand", h);
            let mut s = String::new();
            o.put("usi", [h, columns[1]].to_usi(&mut s).is_ok() as u64);
            o.text("usi", &s);
            v.push(h);
        }
    }
    laws(o, &v.into_iter().step_by(every(2, 1)).collect::<Vec<_>>());
}
/// Edits: every piece in the place of every piece, kings above all.
fn s_edits(u: u64, o: &mut Out) {
    let mut p = position(ROOTS[u as usize / 27]);
    let start = p.clone();
    for s in squares().into_iter().skip(u as usize % 27 + 27 * (u as usize % every(3, 1))).step_by(every(81, 27)) {
        for x in pieces().into_iter().map(Some).chain([None, start.piece_at(s)]) {
            p.piece_set(s, x);
            show(o, &p);
            o.put("equal", (p == start) as u64);
        }
        for c in Color::all() {
            p.side_to_move_set(c);
            *p.hand_of_a_player_mut(c) = start.hand_of_a_player(c.flip());
        }
        show_all(o, &p);
    }
}
fn s_make(u: u64, o: &mut Out) {
    let p = position(ROOTS[u as usize / 16]);
    let mut seen = vec![p.clone()];
    for i in (u as usize % 16 + 16 * (u as usize / 16 % every(12, 1))..MOVES).step_by(16 * every(12, 1)) {
        let m = nth_move(i);
        let mut q = p.clone();
        let ok = q.make_move(m).is_some();
        o.put("make", ok as u64);
        if ok {
            show(o, &q);
            if i % 5 == 0 {
                text(o, &q);
            }
        }
        let mut r = p.clone();
        o.put("make compact", r.make_compact_move(compact(m)) as u64);
        o.put("same", (r == q) as u64);
        if ok && seen.len() < every(3, 8) {
            seen.push(q);
        }
    }
    laws(o, &seen);
}
fn alphabet() -> Vec<Move> {
    let s = squares();
    let n = |a: usize, b: usize, promote| Move::Normal { from: s[a], to: s[b], promote };
    let d = |k, c, to: usize| Move::Drop { piece: Piece::new(k, c), to: s[to] };
    vec![
        n(60, 59, false), n(60, 59, true), n(15, 1, true), n(24, 23, false), n(20, 21, false), n(40, 44, false), n(72, 74, true), n(1, 10, false), n(64, 8, true),
        d(PieceKind::Pawn, Color::Black, 40), d(PieceKind::Pawn, Color::White, 41), d(PieceKind::Rook, Color::Black, 63), d(PieceKind::Gold, Color::White, 0),
    ]
}
/// All sequences of three moves of an alphabet, on positions with history.
fn s_histories(u: u64, o: &mut Out) {
    let a = alphabet();
    let n = a.len() as u64;
    let root = position(ROOTS[(u / n) as usize]);
    let start = if u / n == 0 { Position::startpos() } else { Position::arbitrary_position(root.clone()) };
    let mut seen = vec![start.clone()];
    for x in (u % every(13, 1) as u64..n * n).step_by(every(13, 1)) {
        let mut p = start.clone();
        for m in [a[(u % n) as usize], a[(x % n) as usize], a[(x / n) as usize]] {
            o.put("make", p.make_move(m).is_some() as u64);
            o.put("make compact", p.make_compact_move(compact(m)) as u64);
        }
        for m in p.moves() {
            o.mv("moves", Some(*m));
        }
        o.mv("last", p.last_move());
        o.put("equal", (p == start) as u64);
        o.put("initial", (*p.initial_position() == root) as u64);
        if seen.len() < every(3, 8) && x % 3 == 0 {
            show(o, p.inner());
            o.text("sfen", &p.to_sfen_owned());
            let mut g = Game::default();
            o.put("game", (*g.position() == p) as u64);
            g.resolve(unsafe { GameResolution::from_u8_unchecked(1 + (x % 4) as u8) });
            o.put("resolution", g.resolution().map_or(0, |r| r as u64));
            g.unresolve();
            o.put("resolution", g.resolution().map_or(0, |r| r as u64));
            seen.push(p.clone());
        }
    }
    laws(o, &seen);
}
/// A long game.
fn s_long(u: u64, o: &mut Out) {
    let mut h = Position::arbitrary_position(position(ROOTS[u as usize / 2]));
    let mut at = u as usize * 31;
    let mut early = h.clone();
    for ply in 0..every(64, 700) {
        let mut tries = 0;
        let m = loop {
            let m = nth_move(at % MOVES);
            if h.make_move(m).is_some() {
                break m;
            }
            o.put("refused", at as u64);
            tries += 1;
            if tries > 1000 {
                // Something that is there moves to where nothing is.
                let own = h.player_bitboard(h.side_to_move()).map(|s| s.index()).min().and_then(|n| Square::from_u8(n));
                let free = h.vacant_bitboard().map(|s| s.index()).max().and_then(|n| Square::from_u8(n));
                match (own, free) {
                    (Some(from), Some(to)) if h.make_move(Move::Normal { from, to, promote: false }).is_some() => break Move::Normal { from, to, promote: false },
                    _ => return,
                }
            }
            at += 277;
        };
        o.mv("made", Some(m));
        show(o, h.inner());
        at += 1 + ply % 5 * 1001;
        if ply % 32 == 31 {
            let c = h.clone();
            o.put("clone", (c == h) as u64 | ((c.moves() == h.moves()) as u64) << 1 | (c.moves().starts_with(early.moves()) as u64) << 2);
            early.clone_from(&h);
            o.put("clone_from", (early == c) as u64 | ((early.inner() == c.inner()) as u64) << 1);
            o.text("text", &h.to_sfen_owned());
        }
    }
    let mut again = Position::arbitrary_position(h.initial_position().clone());
    for m in h.moves() {
        o.put("replay", again.make_compact_move(compact(*m)) as u64);
    }
    o.put("replayed", (again == h) as u64);
    laws(o, &[h, again, early, Position::startpos()]);
}
fn s_texts(u: u64, o: &mut Out) {
    let mut p = position(ROOTS[u as usize % 8]);
    show_all(o, &p);
    let special = (0..=16).flat_map(|b| [(1u32 << b) - 1, 1 << b]).chain([9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001, 65534]);
    let mut v: Vec<u32> = special.filter(|n| (1..65536).contains(n)).chain((1..65536).step_by(every(1999, 97))).collect();
    v.sort();
    for n in v.into_iter().skip(u as usize / 8).step_by(4) {
        o.put("ply", p.ply_set(n as u16) as u64);
        o.text("sfen", &p.to_sfen_owned());
    }
    o.put("ply", p.ply_set(0) as u64);
    o.put("ply", p.ply() as u64);
}
mod legal {
    use super::*;
    pub struct Checker(pub PositionStatus);
    impl LegalityChecker for Checker {
        fn status(&self, _: &Position) -> PositionStatus {
            self.0
        }
        fn status_partial(&self, _: &PartialPosition) -> PositionStatus {
            PositionStatus::InProgress
        }
        fn is_legal_partial(&self, p: &PartialPosition, m: Move) -> Result<(), IllegalMoveKind> {
            p.clone().make_move(m).ok_or(IllegalMoveKind::IncorrectMove)
        }
        fn is_legal_partial_lite(&self, p: &PartialPosition, m: Move) -> bool {
            p.clone().make_move(m).is_some()
        }
        fn all_legal_moves_partial(&self, p: &PartialPosition) -> Vec<Move> {
            alphabet().into_iter().filter(|m| p.clone().make_move(*m).is_some()).collect()
        }
        fn normal_from_candidates(&self, p: &PartialPosition, _: Square) -> Bitboard {
            p.occupied_bitboard()
        }
        fn normal_to_candidates(&self, p: &PartialPosition, _: Square, _: Piece) -> Bitboard {
            p.occupied_bitboard()
        }
        fn drop_candidates(&self, p: &PartialPosition, _: Piece) -> Bitboard {
            p.vacant_bitboard()
        }
    }
}
fn s_legality(u: u64, o: &mut Out) {
    use PositionStatus::*;
    for st in [BlackWins, WhiteWins, Draw, InProgress, Invalid] {
        let c = legal::Checker(st);
        let start = Position::arbitrary_position(position(ROOTS[u as usize]));
        for m in alphabet() {
            let mut p = start.clone();
            o.put("is_legal", c.is_legal(&p, m).map_or_else(|k| k as u64, |_| 0));
            o.put("lite", c.is_legal_lite(&p, m) as u64);
            o.put("number", c.all_legal_moves(&p).len() as u64);
            o.put("make", c.make_move(&mut p, m).map_or_else(|k| k as u64, |_| 0));
            o.mv("last", p.last_move());
        }
        o.states += 1;
    }
}

/// What is compared: as many units as it has.
type Section = (&'static str, u64, fn(u64, &mut Out));
fn sections() -> Vec<Section> {
    let n = ROOTS.len() as u64;
    vec![
        ("numbers", 16, s_numbers),
        ("squares", 81, s_squares),
        ("small types", 1, s_pieces),
        ("moves", 128, s_moves),
        ("sets", 48, s_sets),
        ("hands", 14, s_hands),
        ("pairs of counts", 49, s_hand_pairs),
        ("edits", 27 * n, s_edits),
        ("making moves", 16 * n, s_make),
        ("histories", n * alphabet().len() as u64, s_histories),
        ("long games", 2 * n, s_long),
        ("texts", 4 * n, s_texts),
        ("legality", n, s_legality),
    ]
}
/// A panic is an answer like any other.
fn run(f: fn(u64, &mut Out), u: u64, dump: bool) -> Out {
    let mut o = Out { h: 1, n: 0, states: 0, dump };
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(u, &mut o))).is_err() {
        if dump {
            println!("a panic");
        }
        o.h ^= 0xdead;
    }
    o
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let after = |name: &str| args.iter().position(|a| a == name).map(|i| i + 1);
    if args.iter().any(|a| a == "--thorough") {
        THOROUGH.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    if let Some(i) = after("--dump") {
        for (name, _, f) in sections() {
            if name == args[i] {
                run(f, args[i + 1].parse().unwrap(), true);
            }
        }
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let (k, n): (usize, usize) = after("--shard").map_or((0, 1), |i| (args[i].parse().unwrap(), args[i + 1].parse().unwrap()));
    let only = after("--only").map(|i| (args[i].clone(), args[i + 1].parse::<u64>().unwrap()));
    let mut at = 0;
    for (name, units, f) in sections() {
        for u in 0..units {
            at += 1;
            if only.as_ref().map_or(at % n != k, |o| o.0 != name || o.1 != u) {
                continue;
            }
            // The name first: the process may die in the unit.
            print!("{}\t{}\t", name, u);
            use std::io::Write;
            std::io::stdout().flush().unwrap();
            let o = run(f, u, false);
            println!("{:016x}\t{}\t{}", o.h, o.n, o.states);
        }
    }
}
