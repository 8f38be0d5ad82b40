//! C27: values do not interfere with each other.
use mc::order::hashes;
use mc::*;
use shogi_core::*;
use std::fmt::Write;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};

// ---------------------------------------------------------------------------------------------------------------------
// Actors: one object each, with operations on it. What an actor shows must depend on its own operations only.

#[derive(Clone, PartialEq)]
enum Actor {
    Partial(PartialPosition),
    Full(Position),
    Hands(Hand, Hand),
    Board(Bitboard, u64),
    Game(Game),
    Iter(BitboardIter),
}
/// A partly consumed iteration: what it gave so far and the iterator itself.
#[derive(Clone)]
struct BitboardIter(Bitboard, Vec<Square>);
impl PartialEq for BitboardIter {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0 && self.1 == o.1
    }
}

const OPS: usize = 7;

impl Actor {
    fn start(i: usize) -> Actor {
        let t = t();
        match i {
            0 => Actor::Partial(PartialPosition::startpos()),
            1 => Actor::Partial(build(&roots::roots()[3].1)),
            2 => Actor::Full(Position::startpos()),
            3 => Actor::Full(Position::arbitrary_position(build(&roots::roots()[2].1))),
            4 => Actor::Hands(make_hand(&[3, 0, 0, 2, 0, 1, 0]), make_hand(&[0, 1, 0, 0, 0, 0, 255])),
            5 => Actor::Board(Bitboard::single(t.sq[62]) | Bitboard::single(t.sq[63]) | Bitboard::single(t.sq[0]), 0),
            6 => Actor::Game(Game::default()),
            _ => Actor::Iter(BitboardIter(PartialPosition::startpos().occupied_bitboard(), vec![])),
        }
    }
    const KINDS: usize = 8;
    /// The n-th accepted move of a position, by its own verdict.
    fn accepted(p: &PartialPosition, n: usize) -> Option<Move> {
        let mut k = 0;
        for &(_, mv) in &t().moves {
            if p.clone().make_move(mv).is_some() {
                if k == n {
                    return Some(mv);
                }
                k += 1;
            }
        }
        None
    }
    fn op(&mut self, o: usize) {
        let t = t();
        let moves = [
            Move::Normal { from: t.sq[60], to: t.sq[59], promote: false },
            Move::Normal { from: t.sq[20], to: t.sq[21], promote: false },
            Move::Normal { from: t.sq[70], to: t.sq[10], promote: true },
            Move::Drop { piece: t.pc[1].unwrap(), to: t.sq[40] },
        ];
        match self {
            Actor::Partial(p) => match o {
                0..=3 => {
                    p.make_move(moves[o]);
                }
                4 => p.piece_set(t.sq[63], t.pc[8]),
                5 => {
                    let c = p.side_to_move();
                    if let Some(h) = p.hand_of_a_player(c).added(PieceKind::Pawn) {
                        *p.hand_of_a_player_mut(c) = h;
                    }
                }
                _ => {
                    let _ = p.ply_set(p.ply().wrapping_mul(7) | 1);
                    p.side_to_move_set(p.side_to_move().flip());
                }
            },
            Actor::Full(p) => match o {
                0..=3 => {
                    p.make_compact_move(moves[o].into());
                }
                4 => {
                    let _ = p.make_move(moves[2]);
                }
                5 => *p = Position::arbitrary_position(p.inner().clone()),
                _ => {
                    if let Some(mv) = p.last_move() {
                        let _ = p.make_move(mv);
                    }
                }
            },
            Actor::Hands(a, b) => match o {
                0 => {
                    *a = a.added(PieceKind::Pawn).unwrap();
                }
                1 => {
                    b.Hand_add(PieceKind::Rook);
                }
                2 => {
                    a.Hand_remove(PieceKind::Silver);
                }
                3 => {
                    if let Some(h) = b.removed(PieceKind::Lance) {
                        *b = h;
                    }
                }
                4 => {
                    a.Hand_add(PieceKind::King);
                }
                5 => std::mem::swap(a, b),
                _ => *a = *b,
            },
            Actor::Board(b, seen) => match o {
                0 => {
                    if let Some(s) = b.pop() {
                        *seen = *seen * 83 + s.index() as u64;
                    }
                }
                1 => *b = b.flip(),
                2 => *b = unsafe { b.shift_left(1) },
                3 => *b |= Bitboard::single(t.sq[(*seen % 81) as usize]),
                4 => *b = !*b,
                5 => *b ^= unsafe { Bitboard::from_file_unchecked(7, 0x155) },
                _ => *seen = *seen * 83 + b.into_iter().map(|s| s.index() as u64).sum::<u64>(),
            },
            Actor::Game(g) => match o {
                0 => g.resolve(GameResolution::BlackWins),
                1 => g.resolve(GameResolution::Aborted),
                2 => g.unresolve(),
                3 => *g = g.clone(),
                4 => *g = Game::default(),
                5 => g.resolve(GameResolution::Draw),
                _ => {
                    let h = g.clone();
                    g.unresolve();
                    g.clone_from(&h);
                }
            },
            Actor::Iter(b) => match o {
                0 | 1 => {
                    if let Some(s) = b.0.next() {
                        b.1.push(s);
                    }
                }
                2 => b.1.extend(b.0.clone().take(2)),
                3 => b.1.extend(b.0.by_ref().nth(1)),
                4 => b.1.extend(b.0.last()),
                5 => b.0 |= Bitboard::single(t.sq[(b.1.len() * 5) % 81]),
                _ => b.1.clear(),
            },
        }
    }
    /// Everything it shows.
    fn show(&self) -> Vec<u8> {
        let t = t();
        let mut o = String::new();
        match self {
            Actor::Partial(p) => show_position(p, &mut o),
            Actor::Full(p) => {
                show_position(p, &mut o);
                let _ = write!(o, "{:?}", p.moves());
                o.push_str(&p.initial_position().to_sfen_owned());
                o.push_str(&format!("{:?}", p.initial_position().last_move()));
                o.push_str(&format!("{:?}", hashes(p).1));
            }
            Actor::Hands(a, b) => {
                for k in 1..=14 {
                    let _ = write!(o, "{:?} {:?};", a.count(t.kind[k]), b.Hand_count(t.kind[k]));
                }
                o.push_str(&[*a, *b].to_usi_owned());
                let _ = write!(o, "{:?} {:?} {:?} {:?}", a.cmp(b), a == b, hashes(a).1, hashes(b).1);
            }
            Actor::Board(b, seen) => {
                let _ = write!(o, "{:x} {} {} {} {:?}", b.to_u128(), b.count(), b.is_empty(), seen, hashes(b).1);
                for s in *b {
                    let _ = write!(o, "{:?}", s);
                }
                let _ = write!(o, "{:?}", b.swap_bytes());
            }
            Actor::Game(g) => {
                show_position(g.position(), &mut o);
                let _ = write!(o, "{:?} {:?} {:?}", g.resolution(), g.Game_resolution(), hashes(g).1);
            }
            Actor::Iter(b) => {
                let _ = write!(o, "{:?} {:?} {:?}", b.1, b.0.size_hint(), b.0.collect::<Vec<_>>());
            }
        }
        o.into_bytes()
    }
}
fn show_position<V: View>(p: &V, o: &mut String) {
    let t = t();
    o.push_str(&p.v_sfen());
    let _ = write!(o, " {:?} {:?} {:?} {}", p.v_last(), p.v_last_compact(), p.v_side(), p.v_ply());
    for s in t.sq {
        let _ = write!(o, "{}", piece_num(p.v_at(s)));
    }
    for c in t.color {
        let _ = write!(o, "{:?} {:x} {:?}", p.v_hand_of(c), p.v_player(c).to_u128(), p.v_partial().king_position(c));
    }
    for x in t.pc.iter().flatten() {
        let _ = write!(o, "{:?}{:x}", p.v_hand(*x), p.v_piece(*x).to_u128());
    }
    for k in KIND_LIST {
        let _ = write!(o, "{:x}", p.v_partial().piece_kind_bitboard(k).to_u128());
    }
    let _ = write!(o, "{:x}{:x}{:?}", p.v_occupied().to_u128(), p.v_vacant().to_u128(), hashes(p.v_partial()).1);
}

fn seqs(n: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|s| (0..OPS).map(move |o| [s.clone(), vec![o]].concat())).collect();
    }
    v
}
/// All ways to interleave n and m steps; true: the first actor's.
fn merges(n: usize, m: usize) -> Vec<Vec<bool>> {
    if n == 0 {
        return vec![vec![false; m]];
    }
    if m == 0 {
        return vec![vec![true; n]];
    }
    let mut v: Vec<Vec<bool>> = Vec::new();
    for x in merges(n - 1, m) {
        v.push([vec![true], x].concat());
    }
    for x in merges(n, m - 1) {
        v.push([vec![false], x].concat());
    }
    v
}
/// What an actor shows after each prefix of its operations, alone.
fn solo(kind: usize, ops: &[usize]) -> Vec<Vec<u8>> {
    let mut a = Actor::start(kind);
    let mut v = vec![a.show()];
    for &o in ops {
        a.op(o);
        v.push(a.show());
    }
    v
}
fn cut(v: &[u8]) -> String {
    String::from_utf8_lossy(v).chars().take(300).collect()
}

// ---------------------------------------------------------------------------------------------------------------------
// Operations for preemption: each works on its own objects and gives bytes.

type Job = Box<dyn Fn(&mut Buf) + Send + Sync>;
fn job(f: impl Fn(&mut Buf) + 'static) -> Job {
    let f = runner::AnyThread(f);
    Box::new(move |o| (f.get())(o))
}
/// Output without allocation.
struct Buf {
    b: [u8; 2048],
    n: usize,
}
impl Buf {
    fn new() -> Buf {
        Buf { b: [0; 2048], n: 0 }
    }
    fn num(&mut self, x: u128) {
        for i in 0..16 {
            self.byte((x >> (8 * i)) as u8);
        }
    }
    fn byte(&mut self, x: u8) {
        if self.n < self.b.len() {
            self.b[self.n] = x;
            self.n += 1;
        }
    }
    fn got(&self) -> &[u8] {
        &self.b[..self.n]
    }
}
impl Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &x in s.as_bytes() {
            self.byte(x);
        }
        Ok(())
    }
}
/// A hasher that only mixes; no allocation.
struct Mix(u64);
impl std::hash::Hasher for Mix {
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3).rotate_left(5);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
fn mix<T: std::hash::Hash>(x: &T) -> u128 {
    let mut h = Mix(7);
    x.hash(&mut h);
    h.0 as u128
}
struct Yes;
impl LegalityChecker for Yes {
    fn status(&self, _: &Position) -> PositionStatus {
        PositionStatus::InProgress
    }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus {
        PositionStatus::InProgress
    }
    fn is_legal_partial(&self, p: &PartialPosition, mv: Move) -> Result<(), IllegalMoveKind> {
        p.clone().make_move(mv).ok_or(IllegalMoveKind::IncorrectMove)
    }
    fn is_legal_partial_lite(&self, p: &PartialPosition, mv: Move) -> bool {
        self.is_legal_partial(p, mv).is_ok()
    }
    fn all_legal_moves_partial(&self, _: &PartialPosition) -> Vec<Move> {
        Vec::new()
    }
    fn normal_from_candidates(&self, _: &PartialPosition, from: Square) -> Bitboard {
        Bitboard::single(from)
    }
    fn normal_to_candidates(&self, _: &PartialPosition, to: Square, _: Piece) -> Bitboard {
        Bitboard::single(to)
    }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
}

/// A few queries that tell most changes, cheaply.
fn brief(p: &PartialPosition, o: &mut Buf) {
    o.num(p.occupied_bitboard().to_u128());
    o.num(p.player_bitboard(Color::White).to_u128());
    o.num(p.hand(Piece::B_P).unwrap_or(99) as u128);
    o.num(p.ply() as u128);
    o.byte(p.side_to_move() as u8);
    o.byte(piece_num(p.piece_at(Square::SQ_2B)));
    o.num(p.king_position(Color::Black).map_or(0, |s| s.index()) as u128);
}

/// The operations, in two variants that work on different data.
fn jobs(variant: usize) -> Vec<(&'static str, Job)> {
    let t = t();
    let rs = roots::roots();
    let pos = Arc::new(build(&rs[[0, 3][variant]].1));
    let other = Arc::new(build(&rs[[8, 2][variant]].1));
    let acc = |p: &PartialPosition, n: usize| Actor::accepted(p, n).unwrap();
    let m1 = acc(&pos, [5, 40][variant]);
    let cap = t
        .moves
        .iter()
        .map(|x| x.1)
        .find(|&mv| match mv {
            Move::Normal { to, promote, .. } => promote && other.piece_at(to).is_some() && (*other).clone().make_move(mv).is_some(),
            _ => false,
        })
        .unwrap_or_else(|| acc(&other, 3));
    let bad = Move::Drop { piece: t.pc[[30, 8][variant]].unwrap(), to: t.sq[[3, 77][variant]] };
    let mut full = Position::arbitrary_position((*pos).clone());
    assert!(full.make_move(m1).is_some());
    let full = Arc::new(full);
    let bb = [pos.occupied_bitboard(), other.vacant_bitboard()][variant];
    let sq = t.sq[[17, 63][variant]];
    let pc = t.pc[[5, 28][variant]].unwrap();
    let hand = make_hand(&[[9, 4, 0, 1, 2, 0, 1], [0, 0, 12, 255, 0, 2, 0]][variant]);
    let mut v: Vec<(&'static str, Job)> = Vec::new();
    let p = pos.clone();
    v.push(("make_move", job(move |o| {
        let mut q = (*p).clone();
        o.byte(q.make_move(m1).is_some() as u8);
        brief(&q, o);
    })));
    let p = other.clone();
    v.push(("make_compact_move, capture", job(move |o| {
        let mut q = (*p).clone();
        o.byte(q.make_compact_move(cap.into()) as u8);
        brief(&q, o);
    })));
    let p = pos.clone();
    v.push(("make_move, rejected", job(move |o| {
        let mut q = (*p).clone();
        o.byte(q.make_move(bad).is_some() as u8);
        o.byte((q == *p) as u8);
    })));
    let p = other.clone();
    v.push(("edits", job(move |o| {
        let mut q = (*p).clone();
        q.piece_set(sq, Some(pc));
        q.piece_set(sq, None);
        q.piece_set(sq.flip(), Some(Piece::W_K));
        q.side_to_move_set(Color::White);
        o.byte(q.ply_set(1234) as u8);
        *q.hand_of_a_player_mut(Color::Black) = hand;
        brief(&q, o);
    })));
    let p = pos.clone();
    v.push(("sfen", job(move |o| {
        let _ = p.to_sfen(o);
    })));
    let p = pos.clone();
    v.push(("sfen in C", job(move |o| {
        let mut b = [0u8; 400];
        unsafe { p.to_sfen_c(b.as_mut_ptr()) };
        o.byte(b.iter().position(|&x| x == 0).unwrap_or(0) as u8);
        for x in b {
            o.byte(x);
        }
    })));
    let p = pos.clone();
    v.push(("owned sfen", job(move |o| {
        let _ = o.write_str(&p.to_sfen_owned());
    })));
    v.push(("usi", job(move |o| {
        let _ = m1.to_usi(o);
        let _ = cap.to_usi(o);
        if let Some(s) = CompactMove::normal(sq, sq.flip(), true).from() {
            let _ = s.to_usi(o);
        }
        let _ = CompactMove::drop(pc, sq).to_usi(o);
        let _ = pc.to_usi(o);
        let _ = sq.to_usi(o);
        let _ = pc.piece_kind().to_usi(o);
        let _ = pc.color().to_usi(o);
        let _ = [hand, Hand::new()].to_usi(o);
    })));
    v.push(("bitboard enumeration", job(move |o| {
        let mut b = bb;
        while let Some(s) = b.pop() {
            o.byte(s.index());
        }
        for s in bb.into_iter().skip(3) {
            o.byte(s.index());
        }
        o.byte(bb.count());
    })));
    v.push(("bitboard algebra", job(move |o| {
        let x = bb & !Bitboard::single(sq) | unsafe { Bitboard::from_file_unchecked(3, 0x1e7) };
        o.num((x ^ bb.flip()).to_u128());
        for n in [1u8, 4, 9] {
            unsafe {
                o.num(bb.shift_left(n).to_u128());
                o.num(bb.shift_right(n).to_u128());
                o.num(bb.shift_up(n).to_u128());
                o.num(bb.shift_down(n).to_u128());
            }
        }
        o.byte(bb.contains(sq) as u8);
        o.num(bb.swap_bytes().or(x.swap_bytes()).swap_bytes().to_u128());
    })));
    v.push(("hands", job(move |o| {
        let mut h = hand;
        for k in KIND_LIST {
            o.byte(h.Hand_add(k) as u8);
            o.byte(h.count(k).unwrap_or(77));
            if let Some(g) = h.removed(k).and_then(|g| g.removed(k)) {
                h = g;
            }
        }
        for k in Hand::all_hand_pieces() {
            o.byte(h.Hand_count(k));
        }
    })));
    let (p, q) = (pos.clone(), other.clone());
    v.push(("comparison and hash", job(move |o| {
        o.byte((*p == *q) as u8);
        o.byte(p.cmp(&q) as u8);
        o.num(mix(&*p));
        o.num(mix(&cap));
        o.byte(m1.cmp(&cap) as u8);
    })));
    let p = full.clone();
    v.push(("position with history", job(move |o| {
        let mut q = (*p).clone();
        for k in 0..3 {
            o.byte(q.make_move(m1).is_some() as u8);
            if let Some(mv) = q.moves().get(k) {
                o.byte(q.make_compact_move((*mv).into()) as u8);
            }
        }
        brief(q.inner(), o);
        brief(q.initial_position(), o);
        o.byte(q.moves().len() as u8);
        o.num(mix(&q));
    })));
    v.push(("squares and pieces", job(move |o| {
        for d in [-3i8, 1, 8] {
            o.byte(sq.shift(d, -d).map_or(0, |s| s.index()));
            o.byte(sq.shift(0, d).map_or(0, |s| s.index()));
        }
        o.byte(Square::new_relative(3, 4, Color::White).map_or(0, |s| s.index()));
        o.byte(sq.flip().relative_rank(Color::White));
        o.byte(pc.promote().map_or(0, |x| x.as_u8()));
        o.byte(pc.unpromote().map_or(0, |x| x.as_u8()));
        for (i, x) in Piece::all().iter().enumerate() {
            o.byte(x.as_u8() ^ i as u8);
        }
        o.byte(Square::all().map(|s| s.index()).fold(0, |a, b| a.wrapping_mul(3) ^ b));
    })));
    v.push(("game", job(move |o| {
        let mut g = PartialGame::default();
        g.resolve([GameResolution::Draw, GameResolution::Aborted][variant]);
        o.byte(g.resolution().map_or(0, |r| r as u8));
        brief(g.position(), o);
        g.unresolve();
        o.byte((g == PartialGame::default()) as u8);
    })));
    let p = full.clone();
    v.push(("through a checker", job(move |o| {
        let mut q = (*p).clone();
        let mv = q.last_move().unwrap();
        o.byte(Yes.make_move(&mut q, mv).is_ok() as u8);
        o.byte(Yes.is_legal_lite(&q, mv) as u8);
        o.byte(Yes.make_move(&mut q, m1).is_ok() as u8);
        brief(q.inner(), o);
    })));
    v
}

// ---------------------------------------------------------------------------------------------------------------------
// One object, asked on two threads.

struct Shared(std::sync::atomic::AtomicPtr<Position>);
impl Shared {
    /// A new position with history, never asked (0) or asked between its moves (1).
    fn renew(&self, how: u64, asked: &[(&'static str, Query)]) {
        let t = t();
        let mut p = Position::startpos();
        for (i, (a, b)) in [(60, 59), (20, 21), (70, 10)].into_iter().enumerate() {
            if how == 1 {
                for q in asked {
                    (q.1)(&p, &mut Buf::new());
                }
            }
            let mv = Move::Normal { from: t.sq[a], to: t.sq[b], promote: false };
            assert!(if i == 1 { p.make_compact_move(mv.into()) } else { p.make_move(mv).is_some() }, "move {}", i);
        }
        let old = self.0.swap(Box::into_raw(Box::new(p)), SeqCst);
        if !old.is_null() {
            drop(unsafe { Box::from_raw(old) });
        }
    }
    fn get(&self) -> &Position {
        unsafe { &*self.0.load(SeqCst) }
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        let old = self.0.swap(std::ptr::null_mut(), SeqCst);
        if !old.is_null() {
            drop(unsafe { Box::from_raw(old) });
        }
    }
}
type Query = fn(&Position, &mut Buf);
fn queries() -> Vec<(&'static str, Query)> {
    fn bits(o: &mut Buf, b: Bitboard) {
        o.num(b.to_u128());
    }
    vec![
        ("vacant squares", |p, o| bits(o, p.vacant_bitboard())),
        ("vacant squares of the inner position", |p, o| bits(o, p.inner().vacant_bitboard())),
        ("occupied squares", |p, o| bits(o, p.occupied_bitboard())),
        ("pieces of a player", |p, o| {
            bits(o, p.player_bitboard(Color::White));
            bits(o, p.inner().player_bitboard(Color::Black));
        }),
        ("pieces of a kind", |p, o| {
            bits(o, p.piece_bitboard(Piece::B_P));
            bits(o, p.inner().piece_bitboard(Piece::W_R));
            bits(o, p.inner().piece_kind_bitboard(PieceKind::Pawn));
        }),
        ("squares", |p, o| {
            for s in [Square::SQ_2B, Square::SQ_7F, Square::SQ_8H] {
                o.byte(piece_num(p.piece_at(s)));
                o.byte(piece_num(p.inner().piece_at(s)));
            }
        }),
        ("hands", |p, o| {
            o.byte(p.hand(Piece::B_P).unwrap_or(99));
            o.byte(p.hand_of_a_player(Color::Black).count(PieceKind::Bishop).unwrap_or(99));
            o.byte(p.inner().hand(Piece::B_B).unwrap_or(99));
        }),
        ("kings", |p, o| {
            for c in [Color::Black, Color::White] {
                o.byte(p.inner().king_position(c).map_or(0, |s| s.index()));
            }
        }),
        ("moves", |p, o| {
            for m in p.moves() {
                let _ = m.to_usi(o);
            }
            o.byte(p.moves().len() as u8);
        }),
        ("last move", |p, o| {
            for m in [p.last_move(), p.inner().last_move()].into_iter().flatten() {
                let _ = m.to_usi(o);
            }
            if let Some(m) = p.last_compact_move() {
                let _ = m.to_usi(o);
            }
        }),
        ("turn and number", |p, o| {
            o.byte(p.side_to_move() as u8);
            o.byte(p.inner().side_to_move() as u8);
            o.byte(p.ply() as u8);
            o.byte(p.inner().ply() as u8);
        }),
        ("text", |p, o| {
            let _ = p.inner().to_sfen(o);
        }),
        ("text for C", |p, o| {
            let mut b = [0u8; 400];
            unsafe { p.to_sfen_c(b.as_mut_ptr()) };
            for x in b.iter().take_while(|&&x| x != 0) {
                o.byte(*x);
            }
        }),
        ("text of the initial position", |p, o| {
            let _ = p.initial_position().to_sfen(o);
        }),
        ("hash", |p, o| o.num(mix(p))),
        ("hash of the inner position", |p, o| o.num(mix(p.inner()))),
        ("comparison", |p, o| {
            o.byte(p.cmp(p) as u8);
            o.byte(p.inner().cmp(p.initial_position()) as u8);
            o.byte((p.inner() == p.initial_position()) as u8);
        }),
        ("copy", |p, o| {
            let q = p.clone();
            o.byte(q.moves().len() as u8);
            bits(o, q.vacant_bitboard());
            o.byte((q == *p) as u8);
        }),
        ("continuation", |p, o| {
            let mut q = p.inner().clone();
            o.byte(q.make_move(Move::Drop { piece: Piece::W_B, to: Square::SQ_5E }).is_some() as u8);
            o.byte(q.make_move(Move::Normal { from: Square::SQ_3A, to: Square::SQ_2B, promote: false }).is_some() as u8);
            brief(&q, o);
        }),
    ]
}

/// At most four preempted pairs at once: each keeps two processors busy.
struct Gate(Mutex<usize>, Condvar);
impl Gate {
    fn pass<A>(&self, f: impl FnOnce() -> A) -> A {
        let mut n = self.0.lock().unwrap();
        while *n == 0 {
            n = self.1.wait(n).unwrap();
        }
        *n -= 1;
        drop(n);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        *self.0.lock().unwrap() += 1;
        self.1.notify_one();
        match r {
            Ok(x) => x,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
}

/// `a` is preempted by `b`: after each instruction (`None`), or once per run, after each of the given instructions that it
/// has. Returns its number of instructions.
fn preempt(a: &Job, b: &Job, at: Option<(u64, u64, u64)>, want_a: &[u8], want_b: &[u8], cx: &mut Cx) -> Result<u64, String> {
    preempt_after(&|| (), a, b, at, want_a, want_b, cx)
}
/// The same; something is done before each run.
fn preempt_after(
    prepare: &dyn Fn(),
    a: &Job,
    b: &Job,
    at: Option<(u64, u64, u64)>,
    want_a: &[u8],
    want_b: &[u8],
    cx: &mut Cx,
) -> Result<u64, String> {
    let m = step::Meeting::default();
    let bad: Mutex<Option<Vec<u8>>> = Mutex::new(None);
    let mut ob = Buf::new();
    let mut result = Ok(0);
    step::with_partner(
        &m,
        || {
            ob.n = 0;
            b(&mut ob);
            if ob.got() != want_b {
                bad.lock().unwrap().get_or_insert_with(|| ob.got().to_vec());
            }
        },
        || {
            // The partner's first run makes its thread's memory arena.
            prepare();
            m.let_run();
            let mut once = |k: u64| -> Result<u64, String> {
                let mut out = Buf::new();
                prepare();
                let s = step::run(&m, k, &mut || {
                    out.n = 0;
                    a(&mut out);
                });
                if out.got() != want_a {
                    fail!("preempted at {}, it gives {:?} in place of {:?}", k, out.got(), want_a);
                }
                if let Some(x) = bad.lock().unwrap().take() {
                    fail!("run during it ({}), the other gives {:?} in place of {:?}", k, x, want_b);
                }
                out.n = 0;
                a(&mut out);
                if out.got() != want_a {
                    fail!("after it was preempted at {}, it gives {:?} in place of {:?}", k, out.got(), want_a);
                }
                out.n = 0;
                b(&mut out);
                if out.got() != want_b {
                    fail!("after one was preempted at {}, the other gives {:?} in place of {:?}", k, out.got(), want_b);
                }
                cx.transitions += s.instructions;
                cx.traces += s.ran;
                cx.outcomes_add("preemptions", s.ran);
                cx.outcomes_add("partner waited for a lock", s.blocked);
                Ok(s.instructions)
            };
            result = (|| match at {
                None => once(u64::MAX),
                Some((from, step, limit)) => {
                    let total = once(u64::MAX - 1)?;
                    let mut k = from;
                    while k < total.min(limit) {
                        once(k)?;
                        k += step;
                    }
                    Ok(total)
                }
            })();
        },
    );
    result
}

// ---------------------------------------------------------------------------------------------------------------------
/// A sink that runs something at each call before it takes the text.
struct Reentrant<'a> {
    got: Vec<u8>,
    at: Option<usize>,
    calls: usize,
    f: &'a mut dyn FnMut(),
}
impl Write for Reentrant<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.at.map_or(true, |n| n == self.calls) {
            (self.f)();
        }
        self.calls += 1;
        self.got.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
/// A hasher that runs something at each call.
struct ReentrantHasher<'a> {
    got: Vec<u8>,
    f: &'a mut dyn FnMut(),
}
impl std::hash::Hasher for ReentrantHasher<'_> {
    fn write(&mut self, b: &[u8]) {
        (self.f)();
        self.got.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
type Texter = (&'static str, Box<dyn Fn(&mut Reentrant)>);
fn texter(f: impl Fn(&mut Reentrant) + 'static) -> Box<dyn Fn(&mut Reentrant)> {
    Box::new(f)
}
fn texters() -> Vec<Texter> {
    let t = t();
    let mut v: Vec<Texter> = Vec::new();
    for (name, m) in roots::roots() {
        let p = build(&m);
        v.push((name, texter(move |s| {
            let _ = p.to_sfen(s);
        })));
        let h = [make_hand(&m.hands[0]), make_hand(&m.hands[1])];
        v.push(("hands", texter(move |s| {
            let _ = h.to_usi(s);
        })));
    }
    for n in [7, 4000, 13000, 14500, 15000] {
        let mv = t.moves[n].1;
        v.push(("move", texter(move |s| {
            let _ = mv.to_usi(s);
        })));
        let c: CompactMove = mv.into();
        v.push(("compact move", texter(move |s| {
            let _ = c.to_usi(s);
        })));
    }
    for n in [1usize, 14, 24, 30] {
        let pc = t.pc[n].unwrap();
        v.push(("piece", texter(move |s| {
            let _ = pc.to_usi(s);
        })));
    }
    v
}

fn main() {
    runner::main(|tier| {
        let mut out = Vec::new();

        // Every call of the first few millions: first, as what is counted here would be spent elsewhere.
        let list = Arc::new((jobs(0), jobs(1)));
        let n = list.0.len() as u64;
        let l = list.clone();
        let calls = tier.pick(1u64 << 21, 1 << 24);
        out.push(section("many calls", &format!("each operation {} times, each time the same", calls), n, move |u, cx| {
            let (name, a) = &l.0[u as usize];
            let mut first = Buf::new();
            a(&mut first);
            let mut o = Buf::new();
            for i in 1..calls {
                o.n = 0;
                a(&mut o);
                if o.got() != first.got() {
                    fail!("{}, call {}: gives {:?} in place of {:?}", name, i, o.got(), first.got());
                }
            }
            cx.transitions += calls;
            cx.traces += 1;
            cx.states += 1;
            Ok(())
        }));

        // Interleavings at the level of operations.
        let depth = tier.pick(2usize, 3);
        out.push(section(
            "interleavings",
            &format!("two objects of 8 kinds, all sequences of {} of 7 operations on each, all interleavings: each shows after every step what it shows alone; copies taken before and after each step keep", depth),
            (Actor::KINDS * Actor::KINDS) as u64,
            move |u, cx| {
                let (ka, kb) = (u as usize / Actor::KINDS, u as usize % Actor::KINDS);
                let all = seqs(depth);
                let sa: Vec<_> = all.iter().map(|s| solo(ka, s)).collect();
                let sb: Vec<_> = all.iter().map(|s| solo(kb, s)).collect();
                let ways = merges(depth, depth);
                for (i, x) in all.iter().enumerate() {
                    for (j, y) in all.iter().enumerate() {
                        for w in &ways {
                            let mut a = Actor::start(ka);
                            let mut b = Actor::start(kb);
                            let (a0, b0) = (a.clone(), b.clone());
                            let (mut na, mut nb) = (0, 0);
                            for &first in w {
                                if first {
                                    a.op(x[na]);
                                    na += 1;
                                } else {
                                    b.op(y[nb]);
                                    nb += 1;
                                }
                                let (ga, gb) = (a.show(), b.show());
                                if ga != sa[i][na] || gb != sb[j][nb] {
                                    let (g, e) = if ga != sa[i][na] { (ga, &sa[i][na]) } else { (gb, &sb[j][nb]) };
                                    fail!("objects {} and {}, operations {:?} and {:?}, order {:?}, after {} and {}: shows {} and alone {}", ka, kb, x, y, w, na, nb, cut(&g), cut(e));
                                }
                                cx.transitions += 1;
                            }
                            if a0.show() != sa[i][0] || b0.show() != sb[j][0] {
                                fail!("objects {} and {}, operations {:?} and {:?}, order {:?}: a copy taken before changed", ka, kb, x, y, w);
                            }
                            cx.traces += 1;
                        }
                        cx.states += 1;
                    }
                }
                cx.sample(|| format!("objects {} and {}: {} sequences each, {} orders", ka, kb, all.len(), ways.len()));
                Ok(())
            },
        ));

        // The same on two threads.
        out.push(section(
            "interleavings on threads",
            "as above with each object on a thread of its own, all interleavings of two operations each, handed over at every operation",
            (Actor::KINDS * Actor::KINDS) as u64,
            move |u, cx| {
                let (ka, kb) = (u as usize / Actor::KINDS, u as usize % Actor::KINDS);
                let all = seqs(2);
                // turn: whose step it is, as an index into the schedule
                for w in merges(2, 2) {
                    let turn = AtomicUsize::new(0);
                    // Both threads go through all pairs of sequences with this schedule.
                    let run = |kind: usize, me: bool| -> Vec<Vec<Vec<u8>>> {
                        let mut res = Vec::new();
                        let mut round = 0;
                        for x in &all {
                            for y in &all {
                                let ops = if me { x } else { y };
                                let mut a = Actor::start(kind);
                                let mut shown = Vec::new();
                                let mut n = 0;
                                for (i, &first) in w.iter().enumerate() {
                                    if first != me {
                                        continue;
                                    }
                                    while turn.load(SeqCst) != round * w.len() + i {
                                        std::thread::yield_now();
                                    }
                                    a.op(ops[n]);
                                    n += 1;
                                    shown.push(a.show());
                                    turn.fetch_add(1, SeqCst);
                                }
                                res.push(shown);
                                round += 1;
                            }
                        }
                        res
                    };
                    let (ra, rb) = std::thread::scope(|s| {
                        let h = s.spawn(|| run(ka, true));
                        let rb = run(kb, false);
                        (h.join().unwrap(), rb)
                    });
                    let mut k = 0;
                    for x in &all {
                        for y in &all {
                            if ra[k][..] != solo(ka, x)[1..] || rb[k][..] != solo(kb, y)[1..] {
                                fail!("objects {} and {} on two threads, operations {:?} and {:?}, order {:?}: not what each shows alone", ka, kb, x, y, w);
                            }
                            k += 1;
                            cx.transitions += 4;
                            cx.traces += 1;
                        }
                    }
                    cx.states += k as u64;
                }
                Ok(())
            },
        ));

        // Text output into sinks that do other things in between.
        out.push(section(
            "reentrant output",
            "each text into a sink that, at each call or at one call, makes moves on other positions and produces other text; hashing likewise",
            texters().len() as u64,
            move |u, cx| {
                let list = texters();
                let plain: Vec<Vec<u8>> = list
                    .iter()
                    .map(|x| {
                        let mut nothing = || {};
                        let mut s = Reentrant { got: vec![], at: None, calls: 0, f: &mut nothing };
                        (x.1)(&mut s);
                        s.got
                    })
                    .collect();
                let me = &list[u as usize];
                let calls = {
                    let mut nothing = || {};
                    let mut s = Reentrant { got: vec![], at: None, calls: 0, f: &mut nothing };
                    (me.1)(&mut s);
                    s.calls
                };
                for (j, other) in list.iter().enumerate() {
                    for at in std::iter::once(None).chain((0..calls).map(Some)) {
                        let mut p = PartialPosition::startpos();
                        let mut wrong = None;
                        let mut f = || {
                            let mv = Actor::accepted(&p, 3).unwrap();
                            p.make_move(mv);
                            let mut nothing = || {};
                            let mut s = Reentrant { got: vec![], at: None, calls: 0, f: &mut nothing };
                            (other.1)(&mut s);
                            if s.got != plain[j] {
                                wrong = Some(s.got);
                            }
                        };
                        let mut s = Reentrant { got: vec![], at, calls: 0, f: &mut f };
                        (me.1)(&mut s);
                        let got = s.got;
                        if got != plain[u as usize] {
                            fail!("text of {} with text of {} in between ({:?}) is {:?}, alone {:?}", me.0, other.0, at, cut(&got), cut(&plain[u as usize]));
                        }
                        if let Some(w) = wrong {
                            fail!("text of {} within text of {} ({:?}) is {:?}, alone {:?}", other.0, me.0, at, cut(&w), cut(&plain[j]));
                        }
                        cx.transitions += calls as u64;
                        cx.traces += 1;
                    }
                }
                // hashing
                for (_, m) in roots::roots() {
                    let p = build(&m);
                    let plain = hashes(&p).0;
                    for (_, n) in roots::roots() {
                        let q = build(&n);
                        let want = hashes(&q).0;
                        let mut wrong = false;
                        let mut f = || wrong |= hashes(&q).0 != want;
                        let mut h = ReentrantHasher { got: vec![], f: &mut f };
                        std::hash::Hash::hash(&p, &mut h);
                        let mut nothing = || {};
                        let mut h2 = ReentrantHasher { got: vec![], f: &mut nothing };
                        std::hash::Hash::hash(&p, &mut h2);
                        ensure!(h.got == h2.got, "the hash of {} changes when another is computed in between", m.show());
                        let _ = &plain;
                        ensure!(!wrong, "the hash of {} changes when computed during another", n.show());
                        cx.transitions += 1;
                    }
                }
                cx.states += 1;
                Ok(())
            },
        ));

        // Repetition.
        out.push(section("repetition", "each pair of operations of the list below: the first, the second, the first again; ten times each", 2, move |u, cx| {
            let js = jobs(u as usize);
            let others = jobs(1 - u as usize);
            for (na, a) in &js {
                let mut first = Buf::new();
                a(&mut first);
                for (nb, b) in js.iter().chain(&others) {
                    for _ in 0..10 {
                        let mut o = Buf::new();
                        b(&mut o);
                        let mut again = Buf::new();
                        a(&mut again);
                        if again.got() != first.got() {
                            fail!("{} gives something else after {}", na, nb);
                        }
                        cx.transitions += 2;
                    }
                    cx.traces += 1;
                }
                cx.states += 1;
            }
            Ok(())
        }));

        // Preemption at every instruction.
        step::install();
        let gate = Arc::new(Gate(Mutex::new(4), Condvar::new()));
        let (l, g) = (list.clone(), gate.clone());
        out.push(section(
            "preemption at every instruction",
            "each operation with another running on another thread after each of its machine instructions: both give what they give alone",
            n * n * 2,
            move |u, cx| {
                let (i, j) = ((u / 2 / n) as usize, (u / 2 % n) as usize);
                let ((na, a), (nb, b)) = if u % 2 == 0 { (&l.0[i], &l.1[j]) } else { (&l.1[i], &l.0[j]) };
                let (mut wa, mut wb) = (Buf::new(), Buf::new());
                a(&mut wa);
                b(&mut wb);
                let k = g
                    .pass(|| preempt(a, b, None, wa.got(), wb.got(), cx))
                    .map_err(|e| format!("{} with {} at every instruction: {}", na, nb, e))?;
                cx.states += k;
                cx.sample(|| format!("{} ({} instructions) with {}", na, k, nb));
                Ok(())
            },
        ));
        let (l, g) = (list.clone(), gate.clone());
        let (same_kind, cross) = tier.pick((600u64, 40u64), (u64::MAX, 1200));
        let parts = 8;
        out.push(section(
            "one preemption",
            &format!("each operation preempted once, at each of its first {} instructions in turn, by the same kind of operation on other data, and at each of its first {} by each other operation", if same_kind == u64::MAX { "(all)".into() } else { same_kind.to_string() }, cross),
            n * n * parts,
            move |u, cx| {
                let part = u % parts;
                let (i, j) = ((u / parts / n) as usize, (u / parts % n) as usize);
                let ((na, a), (nb, b)) = if (i + j) % 2 == 0 { (&l.0[i], &l.1[j]) } else { (&l.1[i], &l.0[j]) };
                let (mut wa, mut wb) = (Buf::new(), Buf::new());
                a(&mut wa);
                b(&mut wb);
                let limit = if i == j { same_kind } else { cross };
                let before = cx.traces;
                g.pass(|| preempt(a, b, Some((part, parts, limit)), wa.got(), wb.got(), cx))
                    .map_err(|e| format!("{} preempted by {}: {}", na, nb, e))?;
                cx.states += cx.traces - before;
                Ok(())
            },
        ));
        // One object.
        let n = queries().len() as u64;
        let g = gate.clone();
        let (same, cross) = tier.pick((400u64, 120u64), (4000, 600));
        out.push(section(
            "one object on two threads",
            &format!("one position with history, new or asked between its moves: each query preempted at each of its first {} instructions by the same query, and at each of its first {} by each other, on another thread: both give what they give alone, then and afterwards", same, cross),
            n * n * 2,
            move |u, cx| {
                #[allow(unused_imports)]
                use runner::NotShareable;
                if !<runner::Shareable<Position>>::YES {
                    cx.outcome("positions cannot be shared between threads in this version");
                    return Ok(());
                }
                let (i, j, how) = ((u / 2 / n) as usize, (u / 2 % n) as usize, u % 2);
                let all = queries();
                let (na, nb) = (all[i].0, all[j].0);
                let shared = Arc::new(Shared(Default::default()));
                let make = |k: usize| -> Job {
                    let f = all[k].1;
                    let s = shared.clone();
                    Box::new(move |o| f(s.get(), o))
                };
                let (a, b) = (make(i), make(j));
                let (mut wa, mut wb) = (Buf::new(), Buf::new());
                shared.renew(how, &all);
                a(&mut wa);
                shared.renew(how, &all);
                b(&mut wb);
                let limit = if i == j { same } else { cross };
                let before = cx.traces;
                g.pass(|| preempt_after(&|| shared.renew(how, &all), &a, &b, Some((0, 1, limit)), wa.got(), wb.got(), cx))
                    .map_err(|e| format!("{} preempted by {} on the same position: {}", na, nb, e))?;
                cx.states += cx.traces - before;
                Ok(())
            },
        ));
        out
    })
}
