//! C26: one fixed exhaustive workload, built in every configuration. Each unit of it prints a digest of all answers; the
//! digests of all configurations that have the unit must agree (lib/checks.py). `--dump SECTION UNIT` prints the answers.
#![allow(deprecated)]
use shogi_core::c_compat::*;
use shogi_core::*;
use std::fmt::Write;

struct Out {
    h: u64,
    n: u64,
    states: u64,
    dump: bool,
}
impl Out {
    fn put(&mut self, what: &'static str, v: u64) {
        self.n += 1;
        self.h = (self.h ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
        if self.dump {
            println!("{} {} {:#x}", self.n, what, v);
        }
    }
    fn text(&mut self, what: &'static str, s: &str) {
        let mut h = 0xcbf29ce484222325u64;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        if self.dump {
            println!("{} {} text {:?}", self.n, what, s);
        }
        self.put(what, h);
    }
    fn wide(&mut self, what: &'static str, v: u128) {
        self.put(what, v as u64);
        self.put(what, (v >> 64) as u64);
    }
    fn sq(&mut self, what: &'static str, s: Option<Square>) {
        self.put(what, s.map_or(0, |s| s.index() as u64));
    }
    fn kind(&mut self, what: &'static str, k: Option<PieceKind>) {
        self.put(what, k.map_or(0, |k| k as u64));
    }
    fn pc(&mut self, what: &'static str, p: Option<Piece>) {
        self.put(what, p.map_or(0, |p| p.as_u8() as u64));
    }
    fn bb(&mut self, what: &'static str, b: Bitboard) {
        self.wide(what, b.to_u128());
    }
    fn mv(&mut self, what: &'static str, m: Option<Move>) {
        self.put(
            what,
            match m {
                None => 0,
                Some(Move::Normal { from, to, promote }) => 1 + ((from.index() as u64) << 8 | (to.index() as u64) << 16 | (promote as u64) << 24),
                Some(Move::Drop { piece, to }) => 2 + ((piece.as_u8() as u64) << 8 | (to.index() as u64) << 16),
            },
        );
    }
    fn compact(&mut self, what: &'static str, c: Option<CompactMove>) {
        match c {
            None => self.put(what, 0),
            Some(c) => {
                self.sq(what, c.from());
                self.sq(what, Some(c.to()));
                self.put(what, c.is_drop() as u64 | (c.is_promoting() as u64) << 1 | 4);
                self.mv(what, Some(c.into()));
            }
        }
    }
    fn hand(&mut self, what: &'static str, h: Hand) {
        let mut x = 0;
        for k in Hand::all_hand_pieces() {
            x = x << 8 | h.count(k).map_or(7, |c| c as u64);
        }
        self.put(what, x);
    }
}
/// Takes `1` writes, keeps what it took.
struct Sink(usize, String);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0 == 0 {
            return Err(std::fmt::Error);
        }
        self.0 -= 1;
        self.1.push_str(s);
        Ok(())
    }
}
fn usi<T: ToUsi>(o: &mut Out, what: &'static str, x: &T) {
    let mut s = String::new();
    let ok = x.to_usi(&mut s).is_ok();
    o.put(what, ok as u64);
    o.text(what, &s);
    #[cfg(feature = "alloc")]
    assert!(x.to_usi_owned() == s, "owned text");
    for n in 0..3 {
        let mut k = Sink(n, String::new());
        let ok = x.to_usi(&mut k).is_ok();
        o.put(what, ok as u64);
        // How much arrives depends on how the text is cut into pieces, but not that it is a beginning.
        assert!(s.starts_with(&k.1));
    }
}
fn squares() -> Vec<Square> {
    (0..81).map(|i| Square::new(i / 9 + 1, i % 9 + 1).unwrap()).collect()
}
fn pieces() -> Vec<Piece> {
    let mut v = Vec::new();
    for k in PieceKind::all() {
        for c in Color::all() {
            v.push(Piece::new(k, c));
        }
    }
    v
}
fn moves() -> Vec<Move> {
    let s = squares();
    let mut v = Vec::new();
    for &from in &s {
        for &to in &s {
            for promote in [false, true] {
                v.push(Move::Normal { from, to, promote });
            }
        }
    }
    for piece in pieces() {
        for &to in &s {
            v.push(Move::Drop { piece, to });
        }
    }
    v
}
fn compact(m: Move) -> CompactMove {
    match m {
        Move::Normal { from, to, promote } => CompactMove::normal(from, to, promote),
        Move::Drop { piece, to } => CompactMove::drop(piece, to),
    }
}

/// Sets a position from its text.
fn position(sfen: &str) -> PartialPosition {
    let mut p = PartialPosition::empty();
    let f: Vec<&str> = sfen.split(' ').collect();
    let letter = |c: char| {
        let k = match c.to_ascii_uppercase() {
            'P' => PieceKind::Pawn,
            'L' => PieceKind::Lance,
            'N' => PieceKind::Knight,
            'S' => PieceKind::Silver,
            'G' => PieceKind::Gold,
            'B' => PieceKind::Bishop,
            'R' => PieceKind::Rook,
            _ => PieceKind::King,
        };
        (k, if c.is_ascii_uppercase() { Color::Black } else { Color::White })
    };
    for (r, row) in f[0].split('/').enumerate() {
        let mut file = 9u8;
        let mut plus = false;
        for c in row.chars() {
            if let Some(d) = c.to_digit(10) {
                file -= d as u8;
            } else if c == '+' {
                plus = true;
            } else {
                let (k, col) = letter(c);
                let pc = Piece::new(k, col);
                let pc = if plus { pc.promote().unwrap_or(pc) } else { pc };
                plus = false;
                p.piece_set(Square::new(file, r as u8 + 1).unwrap(), Some(pc));
                file -= 1;
            }
        }
    }
    if f[1] == "w" {
        p.side_to_move_set(Color::White);
    }
    let mut n = 0;
    for c in f[2].chars() {
        if let Some(d) = c.to_digit(10) {
            n = n * 10 + d;
        } else if c != '-' {
            let (k, col) = letter(c);
            for _ in 0..n.max(1) {
                let h = p.hand_of_a_player_mut(col);
                *h = h.added(k).unwrap();
            }
            n = 0;
        }
    }
    let ok = p.ply_set(f[3].parse().unwrap());
    assert!(ok);
    p
}
const ROOTS: [&str; 8] = [
    "lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1",
    "l3k1+Rnl/1+P1sg4/p1np1p1pp/2p3p2/1s2P4/P1PP1G+b1P/1P1SK1P2/5+l3/LN1g3N1 b BGSN3Pr2p 87",
    "+P+L+N+S+B+R2k/9/+p+l+n+s+b+r3/9/9/9/+P+P+P+p+p+p3/9/8K w RBGSNLPrbgsnlp 120",
    "4k4/9/9/9/9/9/9/9/4K4 w RB2G2S2N2L9Prb2g2s2n2l9p 300",
    "lnsg1gsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSG1GSNL b - 1",
    "kKkKkKkKk/PpPpPpPpP/LlLlLlLlL/NnNnNnNnN/SsSsSsSsS/GgGgGgGgG/BbBbBbBbB/RrRrRrRrR/+P+p+P+p+P+p+P+p+P b P18L255Np10l99n100 65534",
    "9/9/9/9/9/9/9/9/9 w - 65535",
    "k1K6/9/P1p6/9/4+B4/3P1p3/9/L1N1l1n2/S1G1R1b1s b 18P4g 9",
];

fn show(o: &mut Out, p: &PartialPosition) {
    o.put("side", p.side_to_move() as u64);
    o.put("ply", p.ply() as u64);
    for c in Color::all() {
        o.hand("hand", p.hand_of_a_player(c));
        o.bb("player", p.player_bitboard(c));
        o.sq("king", p.king_position(c));
    }
    o.bb("occupied", p.occupied_bitboard());
    o.bb("vacant", p.vacant_bitboard());
    for s in squares() {
        o.pc("at", p.piece_at(s));
    }
    o.mv("last", p.last_move());
    o.compact("last compact", p.last_compact_move());
    o.states += 1;
}
fn show_all(o: &mut Out, p: &PartialPosition) {
    show(o, p);
    for k in PieceKind::all() {
        o.bb("kind", p.piece_kind_bitboard(k));
    }
    for q in pieces() {
        o.bb("piece", p.piece_bitboard(q));
        o.put("hand of", p.hand(q).map_or(999, |c| c as u64));
    }
    let mut s = String::new();
    let ok = p.to_sfen(&mut s).is_ok();
    o.put("sfen", ok as u64);
    o.text("sfen", &s);
    let mut b = vec![0x55u8; s.len() + 8];
    unsafe { p.to_sfen_c(b.as_mut_ptr()) };
    for x in b {
        o.put("c text", x as u64);
    }
    #[cfg(feature = "alloc")]
    assert!(p.to_sfen_owned() == s, "owned text");
    for n in [0, 1, 2, 9, 17, 30] {
        let mut k = Sink(n, String::new());
        let ok = p.to_sfen(&mut k).is_ok();
        assert!(s.starts_with(&k.1) && ok == (k.1.len() == s.len()));
    }
}

/// What is compared: as many units as it has.
type Section = (&'static str, u64, fn(u64, &mut Out));

fn s_numbers(u: u64, o: &mut Out) {
    let a = u as u8;
    o.sq("from_u8", Square::from_u8(a));
    o.sq("Square_from_u8", Square::Square_from_u8(a).into());
    o.kind("kind", PieceKind::from_u8(a));
    o.kind("PieceKind_from_u8", PieceKind::PieceKind_from_u8(a).into());
    o.put("illegal", IllegalMoveKind::from_u8(a).map_or(0, |k| k as u64));
    for b in 0..=255u8 {
        o.sq("new", Square::new(a, b));
        o.sq("Square_new", Square::Square_new(a, b).into());
        for c in Color::all() {
            o.sq("relative", Square::new_relative(a, b, c));
            o.sq("Square_new_relative", Square::Square_new_relative(a, b, c).into());
        }
    }
    o.states += 1;
}
fn s_squares(u: u64, o: &mut Out) {
    let s = squares()[u as usize];
    for x in [s.file(), s.rank(), s.index()] {
        o.put("coordinates", x as u64);
    }
    o.sq("flip", Some(s.flip()));
    for c in Color::all() {
        o.put("relative", (s.relative_file(c) as u64) << 8 | s.relative_rank(c) as u64);
    }
    for a in -128..=127i8 {
        for b in (-128..=127i8).step_by(if a.unsigned_abs() < 12 { 1 } else { 5 }) {
            o.sq("shift", s.shift(a, b));
        }
    }
    o.put("array", s.array_index() as u64);
    usi(o, "usi", &s);
    o.states += 1;
}
fn s_pieces(_: u64, o: &mut Out) {
    for c in Color::all() {
        o.put("flip", c.flip() as u64);
        o.put("array", c.array_index() as u64);
        usi(o, "usi", &c);
    }
    for k in PieceKind::all() {
        o.kind("promote", k.promote());
        o.kind("unpromote", k.unpromote());
        o.kind("promote", k.PieceKind_promote().into());
        o.put("hand kind", Hand::is_hand_piece(k) as u64);
        usi(o, "usi", &k);
        o.put("array", k.array_index() as u64);
        #[cfg(feature = "experimental")]
        assert!(PieceKind::option_array_index(Some(k)) < PieceKind::OPTION_NUM);
    }
    for p in pieces() {
        o.pc("self", Some(p));
        o.kind("kind", Some(p.piece_kind()));
        o.put("colour", p.color() as u64);
        o.pc("promote", p.promote());
        o.pc("unpromote", p.unpromote());
        o.pc("promote", p.Piece_promote().into());
        usi(o, "usi", &p);
        o.states += 1;
    }
    for p in [Piece::B_P, Piece::W_P, Piece::B_K, Piece::W_PR] {
        o.pc("constant", Some(p));
    }
    for s in [Square::SQ_1A, Square::SQ_9I, Square::SQ_5E, Square::SQ_8B] {
        o.sq("constant", Some(s));
    }
    for s in Square::all() {
        o.sq("all", Some(s));
    }
}
#[cfg(feature = "experimental")]
fn s_experimental(_: u64, o: &mut Out) {
    for p in Piece::all() {
        o.pc("all", Some(p));
        o.put("array", p.array_index() as u64);
    }
    o.put("number", Piece::NUM as u64);
    o.put("number", PieceKind::OPTION_NUM as u64);
    o.put("none", PieceKind::option_array_index(None) as u64);
    for k in PieceKind::all() {
        o.put("some", PieceKind::option_array_index(Some(k)) as u64);
    }
    o.states += 1;
}
fn s_moves(u: u64, o: &mut Out) {
    for &m in moves().iter().skip(u as usize).step_by(32) {
        let c = compact(m);
        o.mv("move", Some(m));
        o.compact("compact", Some(c));
        o.compact("into", Some(m.into()));
        o.sq("from", m.from());
        o.sq("to", Some(m.to()));
        o.put("flags", m.is_drop() as u64 | (m.is_promoting() as u64) << 1);
        let oc: OptionCompactMove = Some(c).into();
        o.compact("option", oc.into());
        usi(o, "usi", &m);
        usi(o, "usi", &c);
        o.states += 1;
    }
}
fn family() -> Vec<u128> {
    let mut v = vec![0, (1 << 81) - 1];
    for i in 0..81 {
        v.push(1 << i);
        v.push((1 << i) - 1);
        for j in (0..i).step_by(3) {
            v.push(1 << i | 1 << j);
        }
    }
    for p in 0..512u128 {
        for f in [0, 3, 6, 7, 8] {
            v.push(p << (9 * f));
        }
        let mut all = 0;
        for f in 0..9 {
            all |= p << (9 * f);
        }
        v.push(all);
    }
    for step in 2..20 {
        for off in 0..step {
            v.push((off..81).step_by(step).fold(0, |m, i| m | 1 << i));
        }
    }
    v
}
fn set(m: u128) -> Bitboard {
    let mut b = Bitboard::empty();
    for (i, s) in squares().into_iter().enumerate() {
        if m >> i & 1 == 1 {
            b |= s;
        }
    }
    b
}
fn s_sets(u: u64, o: &mut Out) {
    let f = family();
    let sq = squares();
    for &m in f.iter().skip(u as usize).step_by(64) {
        let b = set(m);
        o.bb("set", b);
        o.put("count", b.count() as u64);
        o.put("empty", b.is_empty() as u64);
        o.bb("flip", b.flip());
        o.bb("not", !b);
        for &s in sq.iter().step_by(7) {
            o.put("contains", b.contains(s) as u64);
        }
        for d in 0..=9u8 {
            unsafe {
                o.bb("up", b.shift_up(d));
                o.bb("down", b.shift_down(d));
                o.bb("left", b.shift_left(d));
                o.bb("right", b.shift_right(d));
                if d > 0 {
                    let p = b.get_file_unchecked(d);
                    o.put("file", p as u64);
                    o.bb("file", Bitboard::from_file_unchecked(d, p));
                }
            }
        }
        o.wide("swapped", b.swap_bytes().to_u128());
        o.bb("and back", b.swap_bytes().swap_bytes());
        let mut c = b;
        while let Some(s) = c.pop() {
            o.sq("pop", Some(s));
        }
        o.put("hint", b.size_hint().0 as u64);
        o.sq("nth", { b }.nth(3));
        for &m2 in f.iter().skip((u as usize * 7) % 61).step_by(211) {
            let c = set(m2);
            o.bb("and", b & c);
            o.bb("or", b | c);
            o.bb("xor", b ^ c);
            o.bb("andnot", b.andnot(c));
            let (x, y) = (b.swap_bytes(), c.swap_bytes());
            o.wide("swapped and", x.and(y).to_u128());
            o.wide("swapped or", x.or(y).to_u128());
            o.wide("swapped xor", x.xor(y).to_u128());
            o.wide("swapped andnot", x.andnot(y).to_u128());
            o.put("equal", (b == c) as u64);
        }
        o.states += 1;
    }
}
fn s_hands(u: u64, o: &mut Out) {
    let k = PieceKind::all()[u as usize];
    let mut h = Hand::new();
    for _ in 0..300 {
        o.hand("hand", h);
        o.put("added", h.added(k).is_some() as u64);
        o.put("removed", h.removed(k).is_some() as u64);
        o.put("count", h.count(k).map_or(999, |c| c as u64));
        o.put("count", h.Hand_count(k) as u64);
        o.put("add", h.Hand_add(k) as u64);
        usi(o, "usi", &[h, Hand::new()]);
        usi(o, "usi", &[Hand::new(), h]);
        o.states += 1;
    }
    for _ in 0..300 {
        o.put("remove", h.Hand_remove(k) as u64);
        o.hand("hand", h);
    }
}
/// Two kinds with counts around every limit; the same hand made in two ways.
fn s_hand_pairs(u: u64, o: &mut Out) {
    let k: Vec<PieceKind> = Hand::all_hand_pieces().collect();
    let (a, b) = (k[u as usize / 7], k[u as usize % 7]);
    let stops = [0u32, 1, 2, 9, 10, 18, 19, 99, 100, 127, 128, 200, 254, 255];
    let mut columns = vec![Hand::new()];
    for n in 1..=255 {
        let h: Hand = columns[n - 1];
        columns.push(h.added(b).unwrap());
    }
    let mut h = Hand::new();
    for n in 0..=255u32 {
        if stops.contains(&n) {
            for &m in &stops {
                let mut g = h;
                for _ in 0..m {
                    o.put("add", g.Hand_add(b) as u64);
                }
                let mut f = columns[m as usize];
                for _ in 0..n {
                    o.put("add", f.Hand_add(a) as u64);
                }
                o.put("equal", (f == g) as u64);
                for k in &k {
                    let (x, y) = (g.added(*k), g.removed(*k));
                    o.put("count", g.count(*k).map_or(999, |c| c as u64));
                    o.hand("added", x.unwrap());
                    o.put("back", (x.unwrap().removed(*k) == Some(g)) as u64);
                    o.put("removed", y.is_some() as u64);
                    if let Some(y) = y {
                        o.hand("removed", y);
                        o.put("back", (y.added(*k) == Some(g)) as u64);
                    }
                    o.put("fails", g.removed(PieceKind::King).is_some() as u64);
                }
                let mut s = String::new();
                o.put("usi", [g, f].to_usi(&mut s).is_ok() as u64);
                o.text("usi", &s);
                o.states += 1;
            }
        }
        o.put("add", h.Hand_add(a) as u64);
    }
}
/// Edits: every piece in the place of every piece, kings above all.
fn s_edits(u: u64, o: &mut Out) {
    let mut p = position(ROOTS[u as usize]);
    let start = p.clone();
    let mut contents: Vec<Option<Piece>> = pieces().into_iter().map(Some).collect();
    contents.push(None);
    for (i, &s) in squares().iter().enumerate() {
        for &x in &contents {
            p.piece_set(s, x);
            show(o, &p);
            o.put("equal", (p == start) as u64);
        }
        for &x in &[Some(Piece::B_K), Some(Piece::W_K), start.piece_at(s)] {
            p.piece_set(squares()[(i * 7 + 3) % 81], x);
            p.piece_set(s, x);
            show(o, &p);
            for c in Color::all() {
                p.side_to_move_set(c);
                *p.hand_of_a_player_mut(c) = start.hand_of_a_player(c.flip());
            }
        }
        show_all(o, &p);
    }
}
/// The next accepted move from there on, if there is one.
fn accepted(p: &PartialPosition, all: &[Move], at: &mut usize, step: usize) -> Option<Move> {
    for _ in 0..=all.len() {
        let m = all[*at % all.len()];
        if p.clone().make_move(m).is_some() {
            return Some(m);
        }
        *at += step;
    }
    None
}
/// A long game.
fn s_long(u: u64, o: &mut Out) {
    let all = moves();
    let mut p = position(ROOTS[u as usize / 2]);
    let mut at = u as usize * 31;
    for ply in 0..700 {
        let m = match accepted(&p, &all, &mut at, if u % 2 == 0 { 1 } else { 277 }) {
            None => return,
            Some(m) => m,
        };
        let mut q = p.clone();
        o.put("make", q.make_move(m).is_some() as u64);
        o.put("compact", p.make_compact_move(compact(m)) as u64);
        o.put("same", (p == q) as u64);
        show(o, &p);
        at += 1 + ply % 5 * 1001;
        if ply % 16 == 0 {
            show_all(o, &p);
        }
    }
}
#[cfg(feature = "alloc")]
fn s_long_histories(u: u64, o: &mut Out) {
    let all = moves();
    let mut h = Position::arbitrary_position(position(ROOTS[u as usize / 2]));
    let mut early = h.clone();
    let mut at = u as usize * 31;
    let mut shuttle = Vec::new();
    for ply in 0..700 {
        // At the end of the game the same moves over and over.
        let m = match shuttle.get(ply % 4).filter(|_| ply >= 500) {
            Some(m) => *m,
            None => match accepted(h.inner(), &all, &mut at, if u % 2 == 0 { 1 } else { 277 }) {
                None => return,
                Some(m) => m,
            },
        };
        o.put("make", if ply % 3 == 0 { h.make_compact_move(compact(m)) } else { h.make_move(m).is_some() } as u64);
        o.put("again", h.make_move(m).is_some() as u64);
        show(o, h.inner());
        o.put("number", h.moves().len() as u64);
        o.mv("recorded", h.moves().last().copied());
        at += 1 + ply % 5 * 1001;
        if ply == 499 {
            for from in squares() {
                for to in squares() {
                    let mut g = h.clone();
                    let there = Move::Normal { from, to, promote: false };
                    if shuttle.is_empty() && g.piece_at(to).is_none() && g.make_move(there).is_some() {
                        for (a, b) in squares().into_iter().flat_map(|a| squares().into_iter().map(move |b| (a, b))) {
                            if shuttle.is_empty() && b != from && g.piece_at(b).is_none() && g.make_move(Move::Normal { from: a, to: b, promote: false }).is_some() {
                                let m = |from, to| Move::Normal { from, to, promote: false };
                                shuttle = vec![there, m(a, b), m(to, from), m(b, a)];
                            }
                        }
                    }
                }
            }
            o.put("shuttle", shuttle.len() as u64);
        }
        if ply % 64 == 63 || ply == 699 {
            let c = h.clone();
            o.put("clone", (c == h) as u64 | ((c.moves() == h.moves()) as u64) << 1 | (c.moves().starts_with(early.moves()) as u64) << 2);
            early.clone_from(&h);
            o.put("clone_from", (early == c) as u64 | ((early.inner() == c.inner()) as u64) << 1);
            let mut again = Position::arbitrary_position(h.initial_position().clone());
            for m in h.moves() {
                o.mv("recorded", Some(*m));
                o.put("replay", again.make_compact_move(compact(*m)) as u64);
            }
            o.put("replayed", (again == h) as u64);
            o.text("text", &h.to_sfen_owned());
        }
    }
}
/// The operators on sets in all their forms.
fn s_operators(u: u64, o: &mut Out) {
    let f: Vec<Bitboard> = family().into_iter().skip(u as usize).step_by(97).map(set).collect();
    for &a in &f {
        for &b in &f {
            let (mut x, mut y, mut z) = (a, a, a);
            x &= b;
            y |= b;
            z ^= b;
            for v in [x, y, z, a & b, a | b, a ^ b, &a & &b, a | &b, &a ^ b, a.and(b), a.or(b), a.xor(b), !a, !(a & b)] {
                o.bb("operator", v);
                o.put("count", v.count() as u64);
            }
            o.put("equal", (x == y) as u64 | ((y == z) as u64) << 1);
        }
        for &s in squares().iter().step_by(4) {
            let mut x = a;
            x |= s;
            o.bb("with", x);
            x ^= s;
            o.bb("without", x);
            x &= s;
            o.bb("only", x);
        }
        let all: Vec<Square> = a.collect();
        o.put("members", all.len() as u64);
        o.put("sum", { a }.fold(7, |x, s| x * 3 % 1_000_003 + s.index() as u64));
        o.sq("last", { a }.last());
        o.put("number", { a }.count() as u64);
        o.states += 1;
    }
}
fn s_make(u: u64, o: &mut Out) {
    let p = position(ROOTS[u as usize / 16]);
    for (i, m) in moves().into_iter().enumerate().skip(u as usize % 16).step_by(16) {
        let mut q = p.clone();
        let ok = q.make_move(m).is_some();
        o.put("make", ok as u64);
        if ok {
            show(o, &q);
            if i % 5 == 0 {
                show_all(o, &q);
            }
        } else {
            o.put("unchanged", (p == q) as u64);
        }
        let mut q = p.clone();
        o.put("make compact", q.make_compact_move(compact(m)) as u64);
        o.put("differs", (p == q) as u64);
    }
    show_all(o, &p);
}
fn alphabet() -> Vec<Move> {
    let s = squares();
    let n = |a: usize, b: usize, promote| Move::Normal { from: s[a], to: s[b], promote };
    let d = |k, c, to: usize| Move::Drop { piece: Piece::new(k, c), to: s[to] };
    vec![
        n(60, 59, false), n(60, 59, true), n(15, 1, true), n(24, 23, false), n(20, 21, false), n(40, 44, false), n(72, 74, true), n(1, 10, false), n(64, 8, true),
        d(PieceKind::Pawn, Color::Black, 40), d(PieceKind::Pawn, Color::White, 41), d(PieceKind::Rook, Color::Black, 63), d(PieceKind::Gold, Color::White, 0),
    ]
}
fn s_sequences(u: u64, o: &mut Out) {
    let a = alphabet();
    let n = a.len() as u64;
    let p = position(ROOTS[(u / n) as usize]);
    for x in 0..n * n * 4 {
        let mut q = p.clone();
        o.put("first", q.make_move(a[(u % n) as usize]).is_some() as u64);
        o.put("second", q.make_move(a[(x % n) as usize]).is_some() as u64);
        // In between, what no move does.
        match x / n / n {
            0 => {}
            1 => q.side_to_move_set(q.side_to_move().flip()),
            2 => q.piece_set(Square::SQ_5E, Some(Piece::W_K)),
            _ => {
                let h = q.hand_of_a_player_mut(Color::White);
                o.put("add", h.Hand_add(PieceKind::Pawn) as u64);
                o.put("ply", q.ply_set(0) as u64);
                o.put("ply", q.ply_set(65535) as u64);
            }
        }
        o.put("third", q.make_move(a[(x / n % n) as usize]).is_some() as u64);
        if x % 3 == 0 {
            show(o, &q);
        }
        o.put("equal", (p == q) as u64);
    }
}
fn s_texts(u: u64, o: &mut Out) {
    let mut p = position(ROOTS[u as usize]);
    for n in (1..=65535u32).step_by(if u == 0 { 7 } else { 997 }) {
        o.put("ply", p.ply_set(n as u16) as u64);
        show_all(o, &p);
    }
}
#[cfg(feature = "alloc")]
fn s_histories(u: u64, o: &mut Out) {
    let a = alphabet();
    let n = a.len() as u64;
    let root = position(ROOTS[(u / n) as usize]);
    let start = if u / n == 0 { Position::startpos() } else { Position::arbitrary_position(root.clone()) };
    o.put("default", (Position::default() == start) as u64);
    for x in 0..n * n {
        let mut p = start.clone();
        for m in [a[(u % n) as usize], a[(x % n) as usize], a[(x / n) as usize]] {
            o.put("make", p.make_move(m).is_some() as u64);
            o.put("make compact", p.make_compact_move(compact(m)) as u64);
        }
        for m in p.moves() {
            o.mv("moves", Some(*m));
        }
        o.mv("last", p.last_move());
        o.put("equal", (p == start) as u64);
        o.put("initial", (*p.initial_position() == root) as u64);
        if x % 9 == 0 {
            show(o, p.inner());
            o.text("sfen", &p.to_sfen_owned());
            let mut g = Game::default();
            o.put("game", (*g.position() == p) as u64);
            g.resolve(unsafe { GameResolution::from_u8_unchecked(1 + (x % 4) as u8) });
            o.put("resolution", g.resolution().map_or(0, |r| r as u64));
            g.unresolve();
            o.put("resolution", g.resolution().map_or(0, |r| r as u64));
        }
    }
}
fn s_games(_: u64, o: &mut Out) {
    for i in 1..=4 {
        let mut g = PartialGame::default();
        show(o, g.position());
        g.resolve(unsafe { GameResolution::from_u8_unchecked(i) });
        o.put("resolution", g.resolution().map_or(0, |r| r as u64));
        o.put("equal", (g == PartialGame::default()) as u64);
        g.unresolve();
        o.put("resolution", g.resolution().map_or(0, |r| r as u64));
        o.put("equal", (g == PartialGame::default()) as u64);
    }
}
#[cfg(feature = "alloc")]
mod legal {
    use super::*;
    pub struct Checker(pub PositionStatus);
    impl LegalityChecker for Checker {
        fn status(&self, _: &Position) -> PositionStatus {
            self.0
        }
        fn status_partial(&self, _: &PartialPosition) -> PositionStatus {
            PositionStatus::InProgress
        }
        fn is_legal_partial(&self, p: &PartialPosition, m: Move) -> Result<(), IllegalMoveKind> {
            p.clone().make_move(m).ok_or(IllegalMoveKind::IncorrectMove)
        }
        fn is_legal_partial_lite(&self, p: &PartialPosition, m: Move) -> bool {
            p.clone().make_move(m).is_some()
        }
        fn all_legal_moves_partial(&self, p: &PartialPosition) -> Vec<Move> {
            alphabet().into_iter().filter(|m| p.clone().make_move(*m).is_some()).collect()
        }
        fn normal_from_candidates(&self, p: &PartialPosition, _: Square) -> Bitboard {
            p.occupied_bitboard()
        }
        fn normal_to_candidates(&self, p: &PartialPosition, _: Square, _: Piece) -> Bitboard {
            p.occupied_bitboard()
        }
        fn drop_candidates(&self, p: &PartialPosition, _: Piece) -> Bitboard {
            p.vacant_bitboard()
        }
    }
}
#[cfg(feature = "alloc")]
fn s_legality(u: u64, o: &mut Out) {
    use PositionStatus::*;
    for st in [BlackWins, WhiteWins, Draw, InProgress, Invalid] {
        let c = legal::Checker(st);
        let start = Position::arbitrary_position(position(ROOTS[u as usize]));
        for m in alphabet() {
            let mut p = start.clone();
            o.put("is_legal", c.is_legal(&p, m).map_or_else(|k| k as u64, |_| 0));
            o.put("lite", c.is_legal_lite(&p, m) as u64);
            o.put("number", c.all_legal_moves(&p).len() as u64);
            o.put("make", c.make_move(&mut p, m).map_or_else(|k| k as u64, |_| 0));
            show(o, p.inner());
        }
    }
}
#[cfg(feature = "hash")]
mod hashing {
    use super::*;
    use std::hash::{Hash, Hasher};
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    fn of<T: Hash>(o: &mut Out, x: &T) {
        let mut h = H(7);
        x.hash(&mut h);
        o.put("hash", h.0);
    }
    pub fn s_hash(u: u64, o: &mut Out) {
        let p = position(ROOTS[u as usize]);
        of(o, &p);
        for m in moves().into_iter().step_by(3) {
            let mut q = p.clone();
            if q.make_move(m).is_some() {
                of(o, &q);
            }
            of(o, &m);
            of(o, &compact(m));
            o.states += 1;
        }
        for s in squares() {
            of(o, &s);
            of(o, &Bitboard::single(s));
            of(o, &Bitboard::single(s).swap_bytes());
        }
        for p in pieces() {
            of(o, &p);
            of(o, &p.piece_kind());
            of(o, &p.color());
        }
        of(o, &PartialGame::default());
    }
    #[cfg(feature = "alloc")]
    pub fn s_hash_alloc(u: u64, o: &mut Out) {
        let mut p = Position::arbitrary_position(position(ROOTS[u as usize]));
        of(o, &p);
        of(o, &Game::default());
        for m in alphabet() {
            o.put("make", p.make_move(m).is_some() as u64);
            of(o, &p);
            of(o, &p.initial_position().clone());
            o.states += 1;
        }
    }
}
#[cfg(feature = "ord")]
mod ordering {
    use super::*;
    fn of<T: Ord>(o: &mut Out, v: &[T]) {
        for a in v {
            for b in v {
                o.put("cmp", (Ord::cmp(a, b) as i8 + 1) as u64);
                o.put("lt", PartialOrd::lt(a, b) as u64);
                assert!(PartialOrd::partial_cmp(a, b) == Some(Ord::cmp(a, b)));
            }
        }
        o.states += v.len() as u64;
    }
    pub fn s_ord(u: u64, o: &mut Out) {
        match u {
            0 => of(o, &squares()),
            1 => of(o, &pieces()),
            2 => of(o, &PieceKind::all()),
            3 => of(o, &Color::all()),
            4 => of(o, &moves().into_iter().step_by(61).collect::<Vec<_>>()),
            5 => of(o, &moves().into_iter().step_by(67).map(compact).collect::<Vec<_>>()),
            6 => of(o, &family().into_iter().step_by(19).map(set).collect::<Vec<_>>()),
            7 => of(o, &family().into_iter().step_by(23).map(|m| set(m).swap_bytes()).collect::<Vec<_>>()),
            _ => {
                let p = position(ROOTS[u as usize - 8]);
                let mut v = vec![p.clone()];
                for m in moves().into_iter().step_by(11) {
                    let mut q = p.clone();
                    if q.make_move(m).is_some() {
                        v.push(q);
                    }
                }
                v.truncate(120);
                of(o, &v);
            }
        }
    }
    #[cfg(feature = "alloc")]
    pub fn s_ord_alloc(u: u64, o: &mut Out) {
        let p = Position::arbitrary_position(position(ROOTS[u as usize]));
        let mut v = vec![p.clone()];
        for a in alphabet() {
            for b in alphabet() {
                let mut q = p.clone();
                if q.make_move(a).is_some() {
                    v.push(q.clone());
                }
                if q.make_move(b).is_some() {
                    v.push(q);
                }
            }
        }
        v.truncate(100);
        of(o, &v);
    }
}

#[allow(clippy::vec_init_then_push)]
fn sections() -> Vec<Section> {
    let n = ROOTS.len() as u64;
    let a = alphabet().len() as u64;
    let mut v: Vec<Section> = vec![
        ("numbers", 256, s_numbers),
        ("squares", 81, s_squares),
        ("pieces", 1, s_pieces),
        ("moves", 32, s_moves),
        ("sets of squares", 64, s_sets),
        ("hands", 14, s_hands),
        ("pairs of counts", 49, s_hand_pairs),
        ("edits", n, s_edits),
        ("long games", 2 * n, s_long),
        ("operators", 16, s_operators),
        ("making moves", 16 * n, s_make),
        ("sequences", n * a, s_sequences),
        ("texts", n, s_texts),
        ("records", 1, s_games),
    ];
    #[cfg(feature = "experimental")]
    v.push(("experimental", 1, s_experimental));
    #[cfg(feature = "alloc")]
    {
        v.push(("histories", n * a, s_histories));
        v.push(("legality", n, s_legality));
        v.push(("long histories", 2 * n, s_long_histories));
    }
    #[cfg(feature = "hash")]
    v.push(("hashing", n, hashing::s_hash));
    #[cfg(all(feature = "hash", feature = "alloc"))]
    v.push(("hashing histories", n, hashing::s_hash_alloc));
    #[cfg(feature = "ord")]
    v.push(("ordering", 8 + n, ordering::s_ord));
    #[cfg(all(feature = "ord", feature = "alloc"))]
    v.push(("ordering histories", n, ordering::s_ord_alloc));
    v
}
/// No unit may panic in one configuration only: a panic is an answer like any other.
fn run(f: fn(u64, &mut Out), u: u64, dump: bool) -> Out {
    let mut o = Out { h: 1, n: 0, states: 0, dump };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(u, &mut o)));
    if r.is_err() {
        if dump {
            println!("a panic");
        }
        o.h ^= 0xdead;
    }
    o
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if let Some(i) = args.iter().position(|a| a == "--dump") {
        for (name, _, f) in sections() {
            if name == args[i + 1] {
                run(f, args[i + 2].parse().unwrap(), true);
            }
        }
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    for (name, units, f) in sections() {
        for u in 0..units {
            // The name first: the process may die in the unit.
            print!("{}\t{}\t", name, u);
            use std::io::Write;
            std::io::stdout().flush().unwrap();
            let o = run(f, u, false);
            println!("{:016x}\t{}\t{}", o.h, o.n, o.states);
        }
    }
}
