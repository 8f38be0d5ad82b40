//! Between the model's numbers and shogi_core's types, through the public interface only.
use crate::model::*;
use shogi_core::*;
use std::sync::LazyLock;

pub struct Tables {
    pub sq: [Square; 81],
    /// by piece number; index 0 and the gaps are None
    pub pc: [Option<Piece>; 31],
    pub kind: [PieceKind; 15],
    pub single: [Bitboard; 81],
    pub color: [Color; 2],
    pub moves: Vec<(Mv, Move)>,
}

pub const KIND_LIST: [PieceKind; 14] = [
    PieceKind::Pawn,
    PieceKind::Lance,
    PieceKind::Knight,
    PieceKind::Silver,
    PieceKind::Gold,
    PieceKind::Bishop,
    PieceKind::Rook,
    PieceKind::King,
    PieceKind::ProPawn,
    PieceKind::ProLance,
    PieceKind::ProKnight,
    PieceKind::ProSilver,
    PieceKind::ProBishop,
    PieceKind::ProRook,
];

static T: LazyLock<Tables> = LazyLock::new(|| {
    let sq: [Square; 81] = core::array::from_fn(|i| {
        Square::new(i as u8 / 9 + 1, i as u8 % 9 + 1).expect("Square::new rejects a square of the board")
    });
    let color = [Color::Black, Color::White];
    let mut kind = [PieceKind::Pawn; 15];
    for k in KINDS {
        kind[k as usize] = KIND_LIST[k as usize - 1];
    }
    let pc = core::array::from_fn(|i| {
        if (1..=14).contains(&i) {
            Some(Piece::new(kind[i], Color::Black))
        } else if (17..=30).contains(&i) {
            Some(Piece::new(kind[i - 16], Color::White))
        } else {
            None
        }
    });
    let mut t = Tables {
        sq,
        pc,
        kind,
        single: core::array::from_fn(|i| Bitboard::single(sq[i])),
        color,
        moves: Vec::new(),
    };
    t.moves = all_moves().into_iter().map(|m| (m, to_move_with(&t, m))).collect();
    t
});

pub fn t() -> &'static Tables {
    &T
}

fn to_move_with(t: &Tables, m: Mv) -> Move {
    match m {
        Mv::Normal { from, to, promote } => Move::Normal {
            from: t.sq[from as usize],
            to: t.sq[to as usize],
            promote,
        },
        Mv::Drop { piece, to } => Move::Drop {
            piece: t.pc[piece as usize].unwrap(),
            to: t.sq[to as usize],
        },
    }
}

pub fn to_move(m: Mv) -> Move {
    to_move_with(t(), m)
}
pub fn to_compact(m: Mv) -> CompactMove {
    match m {
        Mv::Normal { from, to, promote } => CompactMove::normal(t().sq[from as usize], t().sq[to as usize], promote),
        Mv::Drop { piece, to } => CompactMove::drop(t().pc[piece as usize].unwrap(), t().sq[to as usize]),
    }
}

pub fn sq_num(s: Square) -> u8 {
    9 * (s.file() - 1) + s.rank() - 1
}
pub fn color_num(c: Color) -> u8 {
    match c {
        Color::Black => 0,
        Color::White => 1,
    }
}
pub fn kind_num(k: PieceKind) -> u8 {
    KIND_LIST.iter().position(|&x| x == k).unwrap() as u8 + 1
}
pub fn piece_num(p: Option<Piece>) -> u8 {
    match p {
        None => 0,
        Some(p) => make_piece(kind_num(p.piece_kind()), color_num(p.color())),
    }
}
pub fn mv_num(m: Move) -> Mv {
    match m {
        Move::Normal { from, to, promote } => Mv::Normal {
            from: sq_num(from),
            to: sq_num(to),
            promote,
        },
        Move::Drop { piece, to } => Mv::Drop {
            piece: piece_num(Some(piece)),
            to: sq_num(to),
        },
    }
}

/// The hand with these counts, by additions.
pub fn make_hand(counts: &[u8; 7]) -> Hand {
    let mut h = Hand::new();
    for k in 1..=7u8 {
        for _ in 0..counts[k as usize - 1] {
            h = h.added(t().kind[k as usize]).expect("Hand::added rejects a hand kind");
        }
    }
    h
}

/// A position with the model's board, hands, turn and ply. The last move cannot be set.
pub fn build(m: &M) -> PartialPosition {
    let mut p = PartialPosition::empty();
    for i in 0..81 {
        if m.board[i] != 0 {
            p.piece_set(t().sq[i], t().pc[m.board[i] as usize]);
        }
    }
    for c in 0..2 {
        if m.hands[c] != [0; 7] {
            *p.hand_of_a_player_mut(t().color[c]) = make_hand(&m.hands[c]);
        }
    }
    p.side_to_move_set(t().color[m.side as usize]);
    if m.ply != 1 {
        assert!(p.ply_set(m.ply), "ply_set({}) failed", m.ply);
    }
    p
}

/// What both position types show.
pub trait View: Clone {
    fn v_side(&self) -> Color;
    fn v_ply(&self) -> u16;
    fn v_hand_of(&self, c: Color) -> Hand;
    fn v_hand(&self, p: Piece) -> Option<u8>;
    fn v_at(&self, s: Square) -> Option<Piece>;
    fn v_last(&self) -> Option<Move>;
    fn v_last_compact(&self) -> Option<CompactMove>;
    fn v_occupied(&self) -> Bitboard;
    fn v_vacant(&self) -> Bitboard;
    fn v_player(&self, c: Color) -> Bitboard;
    fn v_piece(&self, p: Piece) -> Bitboard;
    fn v_sfen(&self) -> String;
    fn v_make(&mut self, m: Move) -> bool;
    fn v_make_compact(&mut self, m: CompactMove) -> bool;
    fn v_partial(&self) -> &PartialPosition;
}
macro_rules! view {
    ($t:ty, $p:ident => $partial:expr) => {
        impl View for $t {
            fn v_side(&self) -> Color { self.side_to_move() }
            fn v_ply(&self) -> u16 { self.ply() }
            fn v_hand_of(&self, c: Color) -> Hand { self.hand_of_a_player(c) }
            fn v_hand(&self, p: Piece) -> Option<u8> { self.hand(p) }
            fn v_at(&self, s: Square) -> Option<Piece> { self.piece_at(s) }
            fn v_last(&self) -> Option<Move> { self.last_move() }
            fn v_last_compact(&self) -> Option<CompactMove> { self.last_compact_move() }
            fn v_occupied(&self) -> Bitboard { self.occupied_bitboard() }
            fn v_vacant(&self) -> Bitboard { self.vacant_bitboard() }
            fn v_player(&self, c: Color) -> Bitboard { self.player_bitboard(c) }
            fn v_piece(&self, p: Piece) -> Bitboard { self.piece_bitboard(p) }
            fn v_sfen(&self) -> String { self.to_sfen_owned() }
            fn v_make(&mut self, m: Move) -> bool { self.make_move(m).is_some() }
            fn v_make_compact(&mut self, m: CompactMove) -> bool { self.make_compact_move(m) }
            fn v_partial(&self) -> &PartialPosition { let $p = self; $partial }
        }
    };
}
view!(PartialPosition, p => p);
view!(Position, p => p.inner());

/// Board, hands, turn, ply and last move against the model.
#[inline]
pub fn core_same<V: View>(p: &V, m: &M) -> bool {
    let t = t();
    if p.v_side() != t.color[m.side as usize] || p.v_ply() != m.ply {
        return false;
    }
    for i in 0..81 {
        if p.v_at(t.sq[i]) != t.pc[m.board[i] as usize] {
            return false;
        }
    }
    for c in 0..2 {
        let h = p.v_hand_of(t.color[c]);
        for k in 1..=7 {
            if h.count(t.kind[k]) != Some(m.hands[c][k - 1]) {
                return false;
            }
        }
    }
    match (p.v_last(), m.last) {
        (None, None) => true,
        (Some(a), Some(b)) => a == to_move(b),
        _ => false,
    }
}

/// The first difference between what the position shows and the model.
pub fn core_diff<V: View>(p: &V, m: &M) -> Option<String> {
    if core_same(p, m) {
        return None;
    }
    let t = t();
    if p.v_side() != t.color[m.side as usize] {
        return Some(format!("side to move is {:?}, expected {:?}", p.v_side(), t.color[m.side as usize]));
    }
    if p.v_ply() != m.ply {
        return Some(format!("ply is {}, expected {}", p.v_ply(), m.ply));
    }
    for i in 0..81 {
        if p.v_at(t.sq[i]) != t.pc[m.board[i] as usize] {
            return Some(format!(
                "square {} holds {:?}, expected {:?}",
                square_text(i as u8),
                p.v_at(t.sq[i]),
                t.pc[m.board[i] as usize]
            ));
        }
    }
    for c in 0..2 {
        let h = p.v_hand_of(t.color[c]);
        for k in 1..=7 {
            if h.count(t.kind[k]) != Some(m.hands[c][k - 1]) {
                return Some(format!(
                    "{:?} has {:?} {:?} in hand, expected {}",
                    t.color[c],
                    h.count(t.kind[k]),
                    t.kind[k],
                    m.hands[c][k - 1]
                ));
            }
        }
    }
    Some(format!("last move is {:?}, expected {:?}", p.v_last(), m.last.map(to_move)))
}

/// The same, and the queries that can be derived from it cheaply: hand(piece) and the compact last move.
pub fn core_diff_full<V: View>(p: &V, m: &M) -> Option<String> {
    if let Some(d) = core_diff(p, m) {
        return Some(d);
    }
    let t = t();
    for pc in all_pieces() {
        let k = kind_of(pc);
        let expected = if k <= 7 {
            Some(m.hands[side_of(pc) as usize][k as usize - 1])
        } else {
            None
        };
        let got = p.v_hand(t.pc[pc as usize].unwrap());
        if got != expected {
            return Some(format!("hand({}) is {:?}, expected {:?}", piece_text(pc), got, expected));
        }
    }
    let expected = m.last.map(to_compact);
    if p.v_last_compact() != expected {
        return Some(format!("last compact move is {:?}, expected {:?}", p.v_last_compact(), expected));
    }
    None
}

/// All derived piece sets and king squares against the model.
pub fn derived_diff<V: View>(p: &V, m: &M) -> Option<String> {
    let t = t();
    let mut player = [Bitboard::empty(); 2];
    let mut kind = [Bitboard::empty(); 15];
    let mut piece = [Bitboard::empty(); 31];
    let mut occ = Bitboard::empty();
    let mut vac = Bitboard::empty();
    for i in 0..81 {
        let b = m.board[i];
        if b == 0 {
            vac = vac | t.single[i];
        } else {
            occ = occ | t.single[i];
            player[side_of(b) as usize] = player[side_of(b) as usize] | t.single[i];
            kind[kind_of(b) as usize] = kind[kind_of(b) as usize] | t.single[i];
            piece[b as usize] = piece[b as usize] | t.single[i];
        }
    }
    if p.v_occupied() != occ {
        return Some(format!("occupied set is {}, expected {}", show_bb(p.v_occupied()), show_bb(occ)));
    }
    if p.v_vacant() != vac {
        return Some(format!("vacant set is {}, expected {}", show_bb(p.v_vacant()), show_bb(vac)));
    }
    for c in 0..2 {
        if p.v_player(t.color[c]) != player[c] {
            return Some(format!(
                "set of {:?} is {}, expected {}",
                t.color[c],
                show_bb(p.v_player(t.color[c])),
                show_bb(player[c])
            ));
        }
    }
    for k in 1..=14 {
        let got = p.v_partial().piece_kind_bitboard(t.kind[k]);
        if got != kind[k] {
            return Some(format!("set of {:?} is {}, expected {}", t.kind[k], show_bb(got), show_bb(kind[k])));
        }
        for c in 0..2 {
            let n = k + 16 * c;
            let got = p.v_piece(t.pc[n].unwrap());
            if got != piece[n] {
                return Some(format!(
                    "set of {} is {}, expected {}",
                    piece_text(n as u8),
                    show_bb(got),
                    show_bb(piece[n])
                ));
            }
        }
    }
    for c in 0..2u8 {
        let k = make_piece(8, c);
        let set = m.squares_of(k);
        match p.v_partial().king_position(t.color[c as usize]) {
            None => {
                if set != 0 {
                    return Some(format!("no {} reported, but there is one on the board", piece_text(k)));
                }
            }
            Some(s) => {
                if set >> sq_num(s) & 1 == 0 {
                    return Some(format!("{} reported on {:?}, where the board has none", piece_text(k), s));
                }
            }
        }
    }
    None
}

/// Everything: core, derived, text.
pub fn all_diff<V: View>(p: &V, m: &M) -> Option<String> {
    if let Some(d) = core_diff_full(p, m) {
        return Some(d);
    }
    if let Some(d) = derived_diff(p, m) {
        return Some(d);
    }
    let s = p.v_sfen();
    if s != m.sfen() {
        return Some(format!("SFEN is {:?}, expected {:?}", s, m.sfen()));
    }
    None
}

/// The members of a bitboard by membership tests.
pub fn bb_mask(b: Bitboard) -> u128 {
    let t = t();
    let mut r = 0;
    for i in 0..81 {
        if b.contains(t.sq[i]) {
            r |= 1u128 << i;
        }
    }
    r
}
/// The bitboard with these members, by union of singletons.
pub fn mask_bb(mask: u128) -> Bitboard {
    let t = t();
    let mut r = Bitboard::empty();
    let mut m = mask;
    while m != 0 {
        let i = m.trailing_zeros();
        r = r | t.single[i as usize];
        m &= m - 1;
    }
    r
}
pub fn show_bb(b: Bitboard) -> String {
    format!("{} raw {:#x}", show_mask(bb_mask(b)), b.to_u128())
}
pub fn show_mask(m: u128) -> String {
    let v: Vec<String> = (0..81u8).filter(|&i| m >> i & 1 == 1).map(square_text).collect();
    format!("{{{}}}", v.join(" "))
}

/// A position with history against its initial position, its moves and its current position.
pub fn history_diff(p: &Position, initial: &M, history: &[Mv], m: &M) -> Option<String> {
    if p.moves().len() != history.len() {
        return Some(format!("{} moves are listed, expected {}", p.moves().len(), history.len()));
    }
    for (i, (a, &b)) in p.moves().iter().zip(history).enumerate() {
        if *a != to_move(b) {
            return Some(format!("move {} is listed as {:?}, expected {}", i, a, show_move(b)));
        }
    }
    if let Some(d) = core_diff_full(p.initial_position(), initial) {
        return Some(format!("initial position: {}", d));
    }
    if let Some(d) = core_diff_full(p, m) {
        return Some(d);
    }
    if let Some(d) = core_diff(p.inner(), m) {
        return Some(format!("inner position: {}", d));
    }
    None
}

/// Every query of a position with history against the same query of its current position, and the C forms.
pub fn delegation_diff(p: &Position) -> Option<String> {
    let t = t();
    let q = p.inner();
    macro_rules! eq {
        ($a:expr, $b:expr, $n:expr) => {
            let (a, b) = ($a, $b);
            if !(a == b) {
                return Some(format!("{} is {:?}, the current position has {:?}", $n, a, b));
            }
        };
    }
    eq!(p.side_to_move(), q.side_to_move(), "side_to_move");
    eq!(p.ply(), q.ply(), "ply");
    eq!(p.last_move(), q.last_move(), "last_move");
    eq!(p.last_compact_move(), q.last_compact_move(), "last_compact_move");
    eq!(p.Position_last_compact_move(), q.PartialPosition_last_compact_move(), "Position_last_compact_move");
    eq!(Option::<CompactMove>::from(p.Position_last_compact_move()), q.last_compact_move(), "Position_last_compact_move");
    eq!(p.occupied_bitboard(), q.occupied_bitboard(), "occupied_bitboard");
    eq!(p.vacant_bitboard(), q.vacant_bitboard(), "vacant_bitboard");
    for c in t.color {
        eq!(p.hand_of_a_player(c), q.hand_of_a_player(c), "hand_of_a_player");
        eq!(p.player_bitboard(c), q.player_bitboard(c), "player_bitboard");
    }
    for x in t.pc.iter().flatten() {
        eq!(p.hand(*x), q.hand(*x), "hand");
        eq!(p.piece_bitboard(*x), q.piece_bitboard(*x), "piece_bitboard");
    }
    for s in t.sq {
        eq!(p.piece_at(s), q.piece_at(s), "piece_at");
        eq!(Option::<Piece>::from(p.Position_piece_at(s)), q.piece_at(s), "Position_piece_at");
    }
    eq!(p.to_sfen_owned(), q.to_sfen_owned(), "to_sfen_owned");
    eq!(c_text(|b| unsafe { p.to_sfen_c(b) }), c_text(|b| unsafe { q.to_sfen_c(b) }), "to_sfen_c");
    None
}
/// What a function that writes C text into a buffer writes, up to its NUL.
pub fn c_text(f: impl Fn(*mut u8)) -> Result<String, String> {
    let mut buf = [0x7fu8; 400];
    f(buf.as_mut_ptr());
    let n = buf.iter().position(|&b| b == 0).ok_or("no NUL byte written")?;
    String::from_utf8(buf[..n].to_vec()).map_err(|_| "not UTF-8".to_string())
}
