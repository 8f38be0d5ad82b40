//! C24: safe calls never panic, overflow, hang or have undefined behaviour.
//!
//! Every public function is called with every argument of its small types, and positions are driven through sequences of
//! every operation, including those no game contains. Whatever comes back must be a value of its type. The builds watch the
//! calls: assertions, overflow checks and the standard library's precondition checks; an address sanitizer; Miri, which
//! interprets the code and checks every access, every value and every reference (there the explored space is smaller).
#![allow(deprecated)]
use mc::*;
use shogi_core::c_compat::*;
use shogi_core::*;
use std::cell::Cell;
use std::fmt::Write;
use std::mem::MaybeUninit;

const MIRI: bool = cfg!(miri);

// Values: each must have one of its type's representations, all of which are one byte or two.
fn byte<T: Copy>(x: T) -> u8 {
    assert_eq!(std::mem::size_of::<T>(), 1);
    let x = std::hint::black_box(x);
    unsafe { std::ptr::read_volatile(&x as *const T as *const u8) }
}
fn v_sq(s: Square) -> R {
    let b = byte(s);
    ensure!((1..=81).contains(&b), "a square has the representation {}", b);
    Ok(())
}
fn v_kind(k: PieceKind) -> R {
    let b = byte(k);
    ensure!((1..=14).contains(&b), "a piece kind has the representation {}", b);
    Ok(())
}
fn v_pc(p: Piece) -> R {
    let b = byte(p);
    ensure!((1..=14).contains(&b) || (17..=30).contains(&b), "a piece has the representation {}", b);
    Ok(())
}
fn v_color(c: Color) -> R {
    let b = byte(c);
    ensure!(b == 1 || b == 2, "a colour has the representation {}", b);
    Ok(())
}
fn v_bool(x: bool) -> R {
    ensure!(byte(x) <= 1, "a truth value has the representation {}", byte(x));
    Ok(())
}
fn v_move(m: Move) -> R {
    match m {
        Move::Normal { from, to, promote } => {
            v_sq(from)?;
            v_sq(to)?;
            v_bool(promote)
        }
        Move::Drop { piece, to } => {
            v_pc(piece)?;
            v_sq(to)
        }
    }
}
fn v_compact(c: CompactMove) -> R {
    v_sq(c.to())?;
    v_bool(c.is_promoting())?;
    if c.is_drop() {
        ensure!(c.from().is_none(), "a drop has a source");
    } else {
        v_sq(c.from().ok_or("no source")?)?;
    }
    v_move(<Move as From<CompactMove>>::from(c))
}
fn v_bb(b: Bitboard) -> R {
    // Nothing but members: bits that no square has, or else (whatever the representation is) the set rebuilt.
    static KNOWN: std::sync::OnceLock<u128> = std::sync::OnceLock::new();
    let known = KNOWN.get_or_init(|| t().sq.iter().fold(0, |x, &s| x | Bitboard::single(s).to_u128()));
    let raw = b.to_u128();
    ensure!(raw & !known == 0 || b == mask_bb(bb_mask(b)), "a set of squares has the representation {:#x}, with more than its members", raw);
    Ok(())
}
fn opt<T>(x: Option<T>, f: impl Fn(T) -> R) -> R {
    match x {
        Some(x) => f(x),
        None => Ok(()),
    }
}
fn v_hand(h: Hand) -> R {
    for k in t().kind[1..].iter() {
        let c = h.count(*k);
        ensure!(c.is_some() == Hand::is_hand_piece(*k), "Hand::count({:?}) is {:?}", k, c);
        std::hint::black_box(h.Hand_count(*k));
    }
    Ok(())
}

/// A sink that refuses after some calls.
struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            std::hint::black_box(b);
        }
        if self.0 == 0 {
            return Err(std::fmt::Error);
        }
        self.0 -= 1;
        Ok(())
    }
}
/// Hashes what it is given; enough to read it.
#[derive(Default)]
struct Reader(u64);
impl std::hash::Hasher for Reader {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
}
fn hash<T: std::hash::Hash>(x: &T) {
    let mut r = Reader::default();
    x.hash(&mut r);
    std::hint::black_box(r.0);
}

fn all_squares() -> [Square; 81] {
    t().sq
}
/// Numbers that stand for all of a byte's when all would be too many.
fn bytes() -> Vec<u8> {
    if MIRI {
        vec![0, 1, 2, 8, 9, 10, 81, 127, 128, 247, 248, 255]
    } else {
        (0..=255).collect()
    }
}
fn some_squares() -> Vec<Square> {
    let s = all_squares();
    if MIRI {
        [0, 40, 63, 80].iter().map(|&i| s[i]).collect()
    } else {
        s.to_vec()
    }
}

fn squares(u: u64, cx: &mut Cx) -> R {
    let s = all_squares()[u as usize];
    v_sq(s)?;
    v_sq(s.flip())?;
    ensure!((1..=9).contains(&s.file()) && (1..=9).contains(&s.rank()) && (1..=81).contains(&s.index()) && s.array_index() < Square::NUM, "coordinates of {:?}", s);
    for c in Color::all() {
        ensure!((1..=9).contains(&s.relative_file(c)) && (1..=9).contains(&s.relative_rank(c)), "relative coordinates of {:?}", s);
    }
    for a in bytes() {
        for b in bytes() {
            opt(s.shift(a as i8, b as i8), v_sq)?;
            opt(s.Square_shift(a as i8, b as i8).into(), v_sq)?;
            cx.transitions += 2;
        }
    }
    hash(&s);
    for n in 0..4 {
        std::hint::black_box(s.to_usi(&mut Sink(n)).is_ok());
    }
    for &o in &some_squares() {
        std::hint::black_box((s.cmp(&o), s == o, s.partial_cmp(&o)));
        for promote in [false, true] {
            let m = Move::Normal { from: s, to: o, promote };
            let c = CompactMove::normal(s, o, promote);
            moves(m, c)?;
            cx.transitions += 20;
        }
    }
    for p in Piece::all() {
        if MIRI && (p.array_index() + s.array_index()) % 7 != 0 {
            continue;
        }
        moves(Move::Drop { piece: p, to: s }, CompactMove::drop(p, s))?;
        cx.transitions += 20;
    }
    opt(Some(s), v_sq)?;
    let o: OptionSquare = Some(s).into();
    hash(&o);
    opt(Option::<Square>::from(o), v_sq)?;
    let o: OptionSquare = None.into();
    ensure!(Option::<Square>::from(o).is_none(), "an absent square is present");
    unsafe {
        v_sq(Square::from_u8_unchecked(s.index()))?;
        v_sq(Square::Square_from_u8_unchecked(s.index()))?;
    }
    cx.states += 1;
    Ok(())
}
fn moves(m: Move, c: CompactMove) -> R {
    v_move(m)?;
    v_compact(c)?;
    v_compact(m.into())?;
    opt(m.from(), v_sq)?;
    v_sq(m.to())?;
    v_bool(m.is_drop())?;
    v_bool(m.is_promoting())?;
    opt(c.CompactMove_from().into(), v_sq)?;
    let o: OptionCompactMove = Some(c).into();
    opt(Option::<CompactMove>::from(o), v_compact)?;
    let n: OptionCompactMove = None.into();
    ensure!(Option::<CompactMove>::from(n).is_none(), "an absent move is present");
    hash(&m);
    hash(&c);
    hash(&o);
    std::hint::black_box((m.cmp(&<Move as From<CompactMove>>::from(c)), c.cmp(&m.into()), o.cmp(&n), o == n, m == <Move as From<CompactMove>>::from(c)));
    for n in 0..6 {
        std::hint::black_box((m.to_usi(&mut Sink(n)).is_ok(), c.to_usi(&mut Sink(n)).is_ok()));
    }
    std::hint::black_box((m.to_usi_owned().len(), c.to_usi_owned().len()));
    if !MIRI {
        std::hint::black_box(format!("{:?}{:?}{:?}", m, c, o).len());
    }
    Ok(())
}
/// Everything that takes numbers, kinds, pieces and colours.
fn numbers(u: u64, cx: &mut Cx) -> R {
    let a = u as u8;
    opt(Square::from_u8(a), v_sq)?;
    opt(Square::Square_from_u8(a).into(), v_sq)?;
    opt(PieceKind::from_u8(a), v_kind)?;
    opt(PieceKind::PieceKind_from_u8(a).into(), v_kind)?;
    opt(IllegalMoveKind::from_u8(a), |k| {
        ensure!((1..=7).contains(&byte(k)), "a kind of illegality has the representation {}", byte(k));
        Ok(())
    })?;
    unsafe {
        if PieceKind::from_u8(a).is_some() {
            v_kind(PieceKind::from_u8_unchecked(a))?;
            v_kind(PieceKind::PieceKind_from_u8_unchecked(a))?;
        }
        if IllegalMoveKind::from_u8(a).is_some() {
            let k = IllegalMoveKind::from_u8_unchecked(a);
            hash(&k);
            let r: ResultUnitIllegalMoveKind = Some(k).into();
            hash(&r);
            let _ = std::hint::black_box((Option::<IllegalMoveKind>::from(r), Result::<(), IllegalMoveKind>::from(r)));
            let r: ResultUnitIllegalMoveKind = Err(k).into();
            std::hint::black_box((r == Ok(()).into(), r.cmp(&None.into()), format!("{:?}{:?}", r, k).len()));
        }
        if (1..=4).contains(&a) {
            let k = GameResolution::from_u8_unchecked(a);
            ensure!(byte(k) == a, "a resolution has the representation {}", byte(k));
            hash(&k);
            let o: OptionGameResolution = Some(k).into();
            hash(&o);
            std::hint::black_box((Option::<GameResolution>::from(o), o == None.into(), o.cmp(&None.into()), k.cmp(&k)));
            let mut g = Game::default();
            g.resolve(k);
            std::hint::black_box((g.resolution(), g.Game_resolution(), g.clone() == g, g.cmp(&Game::default())));
            hash(&g);
            g.unresolve();
            std::hint::black_box(g.position().ply());
            let mut g = PartialGame::default();
            g.resolve(k);
            std::hint::black_box((g.resolution(), g.PartialGame_resolution(), g.clone() == g, g.cmp(&PartialGame::default())));
            hash(&g);
            g.unresolve();
            std::hint::black_box(g.position().ply());
        }
    }
    for b in bytes() {
        opt(Square::new(a, b), v_sq)?;
        opt(Square::Square_new(a, b).into(), v_sq)?;
        for c in Color::all() {
            opt(Square::new_relative(a, b, c), v_sq)?;
            opt(Square::Square_new_relative(a, b, c).into(), v_sq)?;
        }
        cx.transitions += 6;
    }
    cx.states += 1;
    Ok(())
}
fn small(_: u64, cx: &mut Cx) -> R {
    for c in Color::all() {
        v_color(c)?;
        v_color(c.flip())?;
        ensure!(c.array_index() < 2, "Color::array_index");
        hash(&c);
        for n in 0..3 {
            std::hint::black_box(c.to_usi(&mut Sink(n)).is_ok());
        }
        for k in PieceKind::all() {
            v_pc(Piece::new(k, c))?;
            v_pc(Piece::Piece_new(k, c))?;
        }
    }
    ensure!(PieceKind::option_array_index(None) <= PieceKind::NUM, "PieceKind::option_array_index");
    for k in PieceKind::all() {
        v_kind(k)?;
        opt(k.promote(), v_kind)?;
        opt(k.unpromote(), v_kind)?;
        opt(k.PieceKind_promote().into(), v_kind)?;
        opt(k.PieceKind_unpromote().into(), v_kind)?;
        let o: OptionPieceKind = Some(k).into();
        hash(&o);
        opt(Option::<PieceKind>::from(o), v_kind)?;
        hash(&k);
        ensure!(k.array_index() < PieceKind::NUM && PieceKind::option_array_index(Some(k)) <= PieceKind::NUM, "PieceKind::array_index");
        v_bool(Hand::is_hand_piece(k))?;
        v_bool(Hand::Hand_is_hand_piece(k))?;
        for n in 0..3 {
            std::hint::black_box(k.to_usi(&mut Sink(n)).is_ok());
        }
        for l in PieceKind::all() {
            std::hint::black_box((k.cmp(&l), k == l));
        }
        cx.transitions += 20;
    }
    for p in Piece::all() {
        v_pc(p)?;
        v_kind(p.piece_kind())?;
        v_color(p.color())?;
        v_kind(p.to_parts().0)?;
        v_color(p.to_parts().1)?;
        opt(p.promote(), v_pc)?;
        opt(p.unpromote(), v_pc)?;
        opt(p.Piece_promote().into(), v_pc)?;
        opt(p.Piece_unpromote().into(), v_pc)?;
        let o: OptionPiece = Some(p).into();
        hash(&o);
        opt(Option::<Piece>::from(o), v_pc)?;
        hash(&p);
        ensure!(p.array_index() < Piece::NUM, "Piece::array_index");
        std::hint::black_box(p.as_u8());
        for n in 0..3 {
            std::hint::black_box(p.to_usi(&mut Sink(n)).is_ok());
        }
        for q in Piece::all() {
            std::hint::black_box((p.cmp(&q), p == q));
        }
        cx.transitions += 20;
    }
    for k in Hand::all_hand_pieces() {
        v_kind(k)?;
    }
    for s in Square::all() {
        v_sq(s)?;
    }
    // Iterators asked for more than there is.
    for n in [0usize, 1, 6, 7, 8, 80, 81, 82, usize::MAX] {
        opt(Square::all().nth(n), v_sq)?;
        opt(Hand::all_hand_pieces().nth(n), v_kind)?;
        let mut it = Square::all();
        for _ in 0..n.min(100) {
            opt(it.next(), v_sq)?;
        }
        std::hint::black_box(it.size_hint());
        opt(it.last(), v_sq)?;
        cx.transitions += 4;
    }
    cx.states += 44;
    Ok(())
}

fn bitboard(b: Bitboard) -> R {
    v_bb(b)?;
    ensure!(b.count() <= 81, "a set has {} members", b.count());
    v_bool(b.is_empty())?;
    v_bb(b.flip())?;
    v_bb(!b)?;
    v_bb(!&b)?;
    v_bb(unsafe { Bitboard::from_u128_unchecked(b.to_u128()) })?;
    for f in 1..=9 {
        unsafe {
            let p = b.get_file_unchecked(f);
            ensure!(p < 512, "file {} of a set is {:#x}", f, p);
            v_bb(Bitboard::from_file_unchecked(f, p))?;
        }
    }
    for d in 0..=9 {
        unsafe {
            v_bb(b.shift_up(d))?;
            v_bb(b.shift_down(d))?;
            v_bb(b.shift_left(d))?;
            v_bb(b.shift_right(d))?;
        }
    }
    let s = b.swap_bytes();
    v_bb(s.swap_bytes())?;
    v_bb(unsafe { ByteSwappedBitboard::from_u128_unchecked(s.to_u128()) }.swap_bytes())?;
    hash(&b);
    hash(&s);
    let mut c = b;
    for _ in 0..83 {
        match c.pop() {
            Some(x) => v_sq(x)?,
            None => break,
        }
    }
    let mut c = b;
    for _ in 0..83 {
        std::hint::black_box(c.size_hint());
        match Option::<Square>::from(c.Bitboard_pop()) {
            Some(x) => v_sq(x)?,
            None => break,
        }
    }
    for n in [0usize, 1, 40, 80, 81, 1000] {
        let mut c = b;
        opt(c.nth(n), v_sq)?;
        opt(c.next(), v_sq)?;
        v_bb(c)?;
    }
    opt(b.last(), v_sq)?;
    opt(Iterator::min(b), v_sq)?;
    std::hint::black_box(b.fold(0u32, |a, x| a + x.index() as u32));
    std::hint::black_box(Iterator::count(b));
    Ok(())
}
fn two(a: Bitboard, b: Bitboard) -> R {
    for c in [a & b, a | b, a ^ b, &a & b, a | &b, &a ^ &b, a.or(b), a.and(b), a.xor(b), a.andnot(b), Bitboard::Bitboard_bitand(a, b), Bitboard::Bitboard_bitor(a, b), Bitboard::Bitboard_bitxor(a, b)] {
        v_bb(c)?;
    }
    let (x, y) = (a.swap_bytes(), b.swap_bytes());
    for c in [x.or(y), x.and(y), x.xor(y), x.andnot(y)] {
        v_bb(c.swap_bytes())?;
    }
    let mut c = a;
    c &= b;
    c |= &b;
    c ^= b;
    Bitboard::Bitboard_bitand_assign(&mut c, a);
    Bitboard::Bitboard_bitor_assign(&mut c, a);
    Bitboard::Bitboard_bitxor_assign(&mut c, a);
    v_bb(c)?;
    std::hint::black_box((Ord::cmp(&a, &b), a == b, x.cmp(&y), x == y));
    Ok(())
}
fn hands(u: u64, cx: &mut Cx) -> R {
    let k = t().kind[u as usize + 1];
    let mut h = Hand::new();
    for i in 0..300 {
        if MIRI && (5..250).contains(&i) && i % 50 != 0 {
            v_bool(h.Hand_add(k))?;
            continue;
        }
        v_hand(h)?;
        opt(h.added(k), v_hand)?;
        opt(h.removed(k), v_hand)?;
        if i % 5 == 0 {
            for l in t().kind[1..].iter() {
                opt(h.added(*l), v_hand)?;
                opt(h.removed(*l), v_hand)?;
            }
        }
        v_bool(h.Hand_add(k))?;
        cx.transitions += 3;
        for n in [0, 1, 2, 3, 60] {
            std::hint::black_box([h, h].to_usi(&mut Sink(n)).is_ok());
        }
        hash(&h);
    }
    for _ in 0..300 {
        v_bool(h.Hand_remove(k))?;
        cx.transitions += 1;
    }
    v_hand(h)?;
    cx.states += 300;
    Ok(())
}

fn look(p: &PartialPosition, cx: &mut Cx) -> R {
    v_color(p.side_to_move())?;
    std::hint::black_box(p.ply());
    for c in Color::all() {
        v_hand(p.hand_of_a_player(c))?;
        v_bb(p.player_bitboard(c))?;
        opt(p.king_position(c), v_sq)?;
    }
    v_bb(p.occupied_bitboard())?;
    v_bb(p.vacant_bitboard())?;
    for s in all_squares() {
        opt(p.piece_at(s), v_pc)?;
        opt(p.PartialPosition_piece_at(s).into(), v_pc)?;
    }
    for q in t().pc.iter().flatten() {
        v_bb(p.piece_bitboard(*q))?;
        std::hint::black_box(p.hand(*q));
    }
    for k in &t().kind[1..] {
        v_bb(p.piece_kind_bitboard(*k))?;
    }
    opt(p.last_move(), v_move)?;
    opt(p.last_compact_move(), v_compact)?;
    opt(p.PartialPosition_last_compact_move().into(), v_compact)?;
    cx.transitions += 160;
    Ok(())
}
fn show(p: &PartialPosition, cx: &mut Cx) -> R {
    let s = p.to_sfen_owned();
    ensure!(s.is_ascii() && s.len() < 1000, "SFEN is {:?}", s);
    // No room for a byte more than the text and its end.
    let mut buf = vec![0xa5u8; s.len() + 1].into_boxed_slice();
    unsafe { p.to_sfen_c(buf.as_mut_ptr()) };
    ensure!(buf.contains(&0), "the C string does not end");
    for n in 0..if MIRI { 6 } else { 40 } {
        std::hint::black_box(p.to_sfen(&mut Sink(n)).is_ok());
    }
    hash(p);
    if !MIRI {
        std::hint::black_box(format!("{:?}", p).len());
    }
    cx.transitions += 9;
    Ok(())
}
/// What a user may do to a position, games or not.
#[derive(Clone, Copy, Debug)]
enum Do {
    Move(Mv),
    Set(u8, u8),
    Side(u8),
    Ply(u16),
    Give(u8, u8),
    Take(u8, u8),
}
fn apply(p: &mut PartialPosition, d: Do) -> R {
    let t = t();
    match d {
        Do::Move(m) => {
            let mut q = p.clone();
            let a = p.make_move(to_move(m)).is_some();
            v_bool(q.make_compact_move(to_compact(m)))?;
            std::hint::black_box(a);
        }
        Do::Set(s, x) => p.piece_set(t.sq[s as usize], t.pc[x as usize]),
        Do::Side(c) => p.side_to_move_set(t.color[c as usize]),
        Do::Ply(n) => v_bool(p.ply_set(n))?,
        Do::Give(c, k) => {
            let h = p.hand_of_a_player_mut(t.color[c as usize]);
            if let Some(x) = h.added(t.kind[k as usize]) {
                *h = x;
            }
        }
        Do::Take(c, k) => {
            v_bool(p.hand_of_a_player_mut(t.color[c as usize]).Hand_remove(t.kind[k as usize]))?;
        }
    }
    Ok(())
}
/// Operations with something for every branch: kings, the last rank, promotion, captures, drops, limits.
fn steps() -> Vec<Do> {
    let n = |from, to, promote| Do::Move(Mv::Normal { from, to, promote });
    let d = |piece, to| Do::Move(Mv::Drop { piece, to });
    let mut v = vec![
        n(60, 59, false), n(60, 59, true), n(15, 1, true), n(0, 80, false), n(80, 0, true), n(8, 0, true), n(72, 8, false), n(24, 24, false),
        n(40, 44, false), n(36, 44, true), n(64, 63, true), n(70, 71, false),
        d(1, 40), d(17, 41), d(7, 63), d(8, 40), d(9, 41), d(24, 0), d(30, 80), d(23, 62), d(3, 0), d(18, 8),
        Do::Set(40, 8), Do::Set(40, 24), Do::Set(41, 8), Do::Set(0, 14), Do::Set(80, 30), Do::Set(63, 24), Do::Set(62, 0), Do::Set(36, 0), Do::Set(44, 0), Do::Set(36, 9), Do::Set(71, 17),
        Do::Side(0), Do::Side(1), Do::Ply(0), Do::Ply(1), Do::Ply(9), Do::Ply(65534), Do::Ply(65535),
        Do::Give(0, 1), Do::Give(1, 7), Do::Give(1, 8), Do::Give(0, 14), Do::Take(0, 1), Do::Take(1, 7), Do::Take(0, 9),
    ];
    if MIRI {
        v = v.into_iter().step_by(3).collect();
    }
    v
}
fn position_roots() -> Vec<(&'static str, M)> {
    let mut r = roots::roots();
    if MIRI {
        r.retain(|x| ["start", "middle game", "crowded", "huge hands"].contains(&x.0));
    }
    r
}
fn sequences(u: u64, depth: u32, cx: &mut Cx) -> R {
    let r = position_roots();
    let s = steps();
    let n = s.len() as u64;
    let (name, root) = &r[(u / n) as usize];
    let first = s[(u % n) as usize];
    let start = build(root);
    for x in 0..n.pow(depth - 1) {
        let mut p = start.clone();
        let mut done = vec![first];
        apply(&mut p, first)?;
        let mut y = x;
        for _ in 1..depth {
            let d = s[(y % n) as usize];
            y /= n;
            done.push(d);
            apply(&mut p, d)?;
            cx.transitions += 1;
        }
        if MIRI && x % 8 != u % 8 {
            continue;
        }
        look(&p, cx).map_err(|e| format!("from {} by {:?}: {}", name, done, e))?;
        if x % 64 == 0 {
            show(&p, cx).map_err(|e| format!("from {} by {:?}: {}", name, done, e))?;
            std::hint::black_box((p == start, p.cmp(&start)));
        }
        cx.traces += 1;
    }
    cx.states += n.pow(depth - 1);
    cx.sample(|| format!("from {}, {:?} and {} further operations", name, first, depth - 1));
    Ok(())
}
fn every_move(u: u64, cx: &mut Cx) -> R {
    let r = position_roots();
    let (_, root) = &r[u as usize];
    let p = build(root);
    let all = t().moves.len();
    for i in (0..all).step_by(if MIRI { 61 } else { 1 }) {
        let (mv, m) = t().moves[i];
        let mut q = p.clone();
        if q.make_move(m).is_some() {
            look(&q, cx)?;
            if i % 7 == 0 || MIRI {
                show(&q, cx)?;
            }
        }
        let mut q = p.clone();
        v_bool(q.make_compact_move(to_compact(mv)))?;
        cx.transitions += 2;
        cx.traces += 1;
    }
    look(&p, cx)?;
    show(&p, cx)?;
    cx.states += 1;
    Ok(())
}
fn every_piece(u: u64, cx: &mut Cx) -> R {
    let r = position_roots();
    let (_, root) = &r[u as usize];
    for s in 0..81 {
        for x in 0..31u8 {
            if x != 0 && t().pc[x as usize].is_none() || MIRI && (s as u64 * 31 + x as u64 + u) % 53 != 0 {
                continue;
            }
            let mut p = build(root);
            p.piece_set(t().sq[s], t().pc[x as usize]);
            look(&p, cx)?;
            p.piece_set(t().sq[80 - s], t().pc[x as usize]);
            p.piece_set(t().sq[s], None);
            look(&p, cx)?;
            cx.transitions += 3;
            cx.states += 2;
            show(&p, cx)?;
        }
    }
    Ok(())
}
fn texts(u: u64, cx: &mut Cx) -> R {
    // Ply numbers around every change of length, and the longest text there is.
    let mut m = M::empty();
    let v = all_pieces();
    for i in 0..81 {
        m.board[i] = match u % 4 {
            0 => 9 + 16 * (i as u8 % 2),
            1 => v[i % 28],
            2 => 0,
            _ => if i % 2 == 0 { 30 } else { 0 },
        };
    }
    m.hands = match u / 4 % 3 {
        0 => [[0; 7]; 2],
        1 => [[255; 7]; 2],
        _ => [[9, 10, 11, 99, 100, 101, 1], [1, 2, 9, 10, 19, 20, 200]],
    };
    let plies: Vec<u16> = if MIRI { vec![1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65535] } else { (1..=65535).collect() };
    let mut p = build(&m);
    for n in plies {
        v_bool(p.ply_set(n))?;
        if !MIRI && u > 0 && n % 251 != 0 && n < 65000 {
            continue;
        }
        show(&p, cx)?;
        cx.states += 1;
    }
    Ok(())
}
fn histories(u: u64, cx: &mut Cx) -> R {
    let starts = [Position::startpos(), Position::default(), Position::arbitrary_position(PartialPosition::empty()), Position::arbitrary_position(build(&roots::roots()[8].1))];
    let mut p = starts[u as usize % 4].clone();
    let s = steps();
    for (i, d) in s.iter().enumerate() {
        if let Do::Move(m) = d {
            let mut q = p.clone();
            std::hint::black_box(q.make_move(to_move(*m)).is_some());
            v_bool(p.make_compact_move(to_compact(*m)))?;
            std::hint::black_box((p == q, p.cmp(&q)));
        }
        if let Do::Set(a, b) = d {
            p.piece_set(t().sq[*a as usize], t().pc[*b as usize]);
        }
        for m in p.moves() {
            v_move(*m)?;
        }
        look(p.inner(), cx)?;
        look(p.initial_position(), cx)?;
        opt(p.last_move(), v_move)?;
        opt(p.last_compact_move(), v_compact)?;
        opt(p.Position_last_compact_move().into(), v_compact)?;
        for x in all_squares() {
            opt(p.piece_at(x), v_pc)?;
            opt(p.Position_piece_at(x).into(), v_pc)?;
        }
        for c in Color::all() {
            v_hand(p.hand_of_a_player(c))?;
            v_bb(p.player_bitboard(c))?;
            let h = p.hand_of_a_player_mut(c);
            v_bool(h.Hand_add(PieceKind::Pawn))?;
        }
        for q in Piece::all() {
            v_bb(p.piece_bitboard(q))?;
            std::hint::black_box(p.hand(q));
        }
        v_bb(p.occupied_bitboard())?;
        v_bb(p.vacant_bitboard())?;
        if i % 8 == 0 {
            hash(&p);
            let mut buf = vec![0u8; p.to_sfen_owned().len() + 1].into_boxed_slice();
            unsafe { p.to_sfen_c(buf.as_mut_ptr()) };
        }
        cx.transitions += 20;
    }
    // A long game: there and back. On a stack as small as a thread may have.
    let n = if MIRI { 60 } else { 66_000 };
    let long = move || -> R {
        let mut p = Position::startpos();
        let there = [(16, 25), (64, 55), (25, 16), (55, 64)];
        for i in 0..n {
            let (a, b) = there[i % 4];
            let mv = Mv::Normal { from: a, to: b, promote: false };
            let ok = if i % 8 < 4 { p.make_move(to_move(mv)).is_some() } else { p.make_compact_move(to_compact(mv)) };
            ensure!(ok, "move {} of a long game rejected", i);
            if i % 1000 == 0 {
                std::hint::black_box(p.moves().len());
            }
        }
        ensure!(p.moves().len() == n, "{} moves", p.moves().len());
        for m in p.moves() {
            v_move(*m)?;
        }
        let mut q = p.clone();
        hash(&q);
        q.clone_from(&p);
        std::hint::black_box((p == q, p.cmp(&q), p.partial_cmp(&q), p.ply(), p.to_sfen_owned().len(), format!("{:?}", p).len()));
        drop(p);
        let mut cx = Cx::default();
        look(q.inner(), &mut cx)?;
        look(q.initial_position(), &mut cx)
    };
    std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, long).unwrap().join()).unwrap_or(Err("a long game: a panic".into()))?;
    cx.transitions += n as u64;
    unsafe {
        let x = Position::Position_startpos();
        v_bool((*x).make_compact_move(CompactMove::normal(t().sq[24], t().sq[23], false)))?;
        Position::Position_destruct(x);
        let mut b = MaybeUninit::<PartialPosition>::uninit();
        PartialPosition::PartialPosition_startpos(&mut b);
        look(b.assume_init_ref(), cx)?;
    }
    cx.traces += 1;
    Ok(())
}
/// Copies of copies: all sequences of operations on a position with a history of `n` moves and on copies of it.
fn copies(n: u64, depth: usize, cx: &mut Cx) -> R {
    let there = [(16, 25), (64, 55), (25, 16), (55, 64)];
    let mv = |i: usize| {
        let (a, b) = there[i % 4];
        to_move(Mv::Normal { from: a, to: b, promote: false })
    };
    let game = |n: usize| {
        let mut p = Position::startpos();
        for i in 0..n {
            std::hint::black_box(p.make_move(mv(i)).is_some());
        }
        p
    };
    let (root, other) = (game(n as usize), game(n as usize / 2 + 3));
    const OPS: usize = 7;
    for word in 0..OPS.pow(depth as u32) {
        let mut p = root.clone();
        let mut q = other.clone();
        let mut w = word;
        for _ in 0..depth {
            match w % OPS {
                0 => p = p.clone(),
                1 => q.clone_from(&p),
                2 => p.clone_from(&q),
                3 => v_bool(p.make_move(mv(p.moves().len())).is_some())?,
                4 => std::mem::swap(&mut p, &mut q),
                5 => q = std::mem::take(&mut p),
                _ => {
                    let r = p.clone();
                    std::hint::black_box((r == q, hash(&r)));
                    p = r;
                }
            }
            w /= OPS;
        }
        for x in [&p, &q] {
            for m in x.moves() {
                v_move(*m)?;
            }
            opt(x.last_move(), v_move)?;
        }
        std::hint::black_box((p == q, p.cmp(&q)));
        cx.transitions += depth as u64;
        cx.traces += 1;
    }
    cx.states += 1;
    Ok(())
}
struct Checker(Cell<u32>);
impl LegalityChecker for Checker {
    fn status(&self, _: &Position) -> PositionStatus {
        self.0.set(self.0.get() + 1);
        [PositionStatus::InProgress, PositionStatus::Draw, PositionStatus::BlackWins][self.0.get() as usize % 3]
    }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus {
        PositionStatus::InProgress
    }
    fn is_legal_partial(&self, p: &PartialPosition, m: Move) -> Result<(), IllegalMoveKind> {
        match p.clone().make_move(m) {
            Some(()) => Ok(()),
            None => Err(IllegalMoveKind::IncorrectMove),
        }
    }
    fn is_legal_partial_lite(&self, p: &PartialPosition, m: Move) -> bool {
        p.clone().make_move(m).is_some()
    }
    fn all_legal_moves_partial(&self, p: &PartialPosition) -> Vec<Move> {
        p.last_move().into_iter().collect()
    }
    fn normal_from_candidates(&self, p: &PartialPosition, _: Square) -> Bitboard {
        p.occupied_bitboard()
    }
    fn normal_to_candidates(&self, p: &PartialPosition, _: Square, _: Piece) -> Bitboard {
        p.occupied_bitboard()
    }
    fn drop_candidates(&self, p: &PartialPosition, _: Piece) -> Bitboard {
        p.vacant_bitboard()
    }
}
fn legality(_: u64, cx: &mut Cx) -> R {
    let c = Checker(Cell::new(0));
    for (_, m) in t().moves.iter().step_by(if MIRI { 601 } else { 1 }) {
        for _ in 0..3 {
            let mut p = Position::startpos();
            let _ = std::hint::black_box((c.is_legal(&p, *m), c.is_legal_lite(&p, *m), c.all_legal_moves(&p).len()));
            let _ = std::hint::black_box(c.make_move(&mut p, *m));
            cx.transitions += 4;
        }
    }
    cx.states += 1;
    Ok(())
}
/// Shared for reading, and each thread with its own copies: data races would be undefined behaviour.
fn threads(_: u64, cx: &mut Cx) -> R {
    use runner::NotShareable;
    if !<runner::Shareable<Position>>::YES {
        cx.outcome("positions cannot be shared between threads in this version");
        return Ok(());
    }
    let p = runner::AnyThread(Position::arbitrary_position(build(&roots::roots()[2].1)));
    let n = if MIRI { 2 } else { 8 };
    let mut counts = Vec::new();
    std::thread::scope(|s| {
        let mut hs = Vec::new();
        for i in 0..n {
            let p = &p;
            hs.push(s.spawn(move || -> Result<u64, String> {
                let p = p.get();
                let mut cx = Cx::default();
                look(p.inner(), &mut cx)?;
                show(p.inner(), &mut cx)?;
                let mut q = p.clone();
                for d in steps() {
                    if let Do::Move(m) = d {
                        std::hint::black_box(q.make_move(to_move(m)).is_some());
                    }
                }
                let mut b = p.occupied_bitboard();
                while let Some(x) = b.pop() {
                    std::hint::black_box(x.to_usi_owned());
                }
                let mut h = Hand::new();
                for k in Hand::all_hand_pieces() {
                    v_bool(h.Hand_add(k))?;
                }
                hash(&q);
                std::hint::black_box((q == *p, [h, h].to_usi_owned(), i));
                Ok(cx.transitions)
            }));
        }
        for h in hs {
            counts.push(h.join().unwrap_or(Err("a thread panicked".into())));
        }
    });
    for c in counts {
        cx.transitions += c?;
    }
    cx.traces += n;
    Ok(())
}

fn main() {
    runner::main(|tier| {
        let mut s = Vec::new();
        s.push(section("small types", "colours, kinds, pieces, iterators over them: every function with every argument", 1, small));
        s.push(section("numbers", "every number and every pair of numbers to every conversion", 256, numbers));
        s.push(section("squares and moves", "every square: every function, every shift; every move in both forms", 81, squares));
        let masks: Vec<u128> = if MIRI { vals::pair_masks().into_iter().step_by(16).collect() } else { vals::masks(Tier::Quick) };
        let count = masks.len() as u64;
        let per = if MIRI { 8 } else { 256 };
        let m = masks.clone();
        s.push(section("sets of squares", "each set of the family: every function with every argument it allows", count.div_ceil(per), move |u, cx| {
            for &x in m.iter().skip((u * per) as usize).take(per as usize) {
                bitboard(mask_bb(x)).map_err(|e| format!("{}: {}", show_mask(x), e))?;
                cx.states += 1;
                cx.transitions += 170;
            }
            Ok(())
        }));
        let pairs: Vec<u128> = if MIRI { masks.into_iter().step_by(3).collect() } else { vals::pair_masks() };
        s.push(section("two sets", "all pairs from the family: every operator", pairs.len() as u64, move |u, cx| {
            let a = mask_bb(pairs[u as usize]);
            for &y in &pairs {
                two(a, mask_bb(y))?;
                cx.transitions += 26;
            }
            cx.states += pairs.len() as u64;
            Ok(())
        }));
        s.push(section("hands", "additions beyond the limit and removals below zero of each kind", 14, hands));
        let roots_n = position_roots().len() as u64;
        let n = steps().len() as u64;
        let depth = if MIRI { 2 } else { tier.pick(4, 5) };
        s.push(section("position sequences", &format!("all sequences of {} of {} operations, games or not, from {} positions; then every query", depth, n, roots_n), roots_n * n, move |u, cx| {
            sequences(u, depth, cx)
        }));
        s.push(section("every move", "every move in both forms from each position", roots_n, every_move));
        s.push(section("every piece", "every piece set on every square", roots_n, every_piece));
        s.push(section("texts", "ply numbers, hands and boards of every length", 12, texts));
        s.push(section("histories", "positions with history: operations, copies, a game of 66,000 moves, allocation for C", 4, histories));
        let depth = if MIRI { 2 } else { tier.pick(5, 6) };
        s.push(section("copies", &format!("games of every length up to {}: all sequences of {} of 7 operations on copies of them", if MIRI { 13 } else { 48 }, depth), if MIRI { 14 } else { 49 }, move |n, cx| copies(n, depth, cx)));
        s.push(section("legality", "provided operations with a checker that changes its mind", 1, legality));
        s.push(section("threads", "values shared for reading and copied by several threads", 1, threads));
        s
    })
}
