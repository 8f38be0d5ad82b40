//! The reference model: a mailbox board, two arrays of counts, and the rules written out. Nothing here uses shogi_core.
//!
//! Squares are 0..81 = 9 * (file - 1) + (rank - 1). Pieces are 0 (none), kind (black), kind + 16 (white), where kinds are
//! 1 pawn, 2 lance, 3 knight, 4 silver, 5 gold, 6 bishop, 7 rook, 8 king, 9.. promoted pawn, lance, knight, silver,
//! bishop, rook.

pub const KINDS: std::ops::RangeInclusive<u8> = 1..=14;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Mv {
    Normal { from: u8, to: u8, promote: bool },
    Drop { piece: u8, to: u8 },
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct M {
    /// 0 black, 1 white
    pub side: u8,
    pub ply: u16,
    /// hands[side][kind - 1]
    pub hands: [[u8; 7]; 2],
    pub board: [u8; 81],
    pub last: Option<Mv>,
}

pub fn side_of(piece: u8) -> u8 {
    if piece >= 17 {
        1
    } else {
        0
    }
}
pub fn kind_of(piece: u8) -> u8 {
    if piece >= 17 {
        piece - 16
    } else {
        piece
    }
}
pub fn make_piece(kind: u8, side: u8) -> u8 {
    kind + 16 * side
}
/// All 28 pieces.
pub fn all_pieces() -> Vec<u8> {
    (1..=14).chain(17..=30).collect()
}
pub fn promote_kind(kind: u8) -> Option<u8> {
    match kind {
        1 => Some(9),
        2 => Some(10),
        3 => Some(11),
        4 => Some(12),
        6 => Some(13),
        7 => Some(14),
        _ => None,
    }
}
pub fn unpromote_kind(kind: u8) -> Option<u8> {
    match kind {
        9 => Some(1),
        10 => Some(2),
        11 => Some(3),
        12 => Some(4),
        13 => Some(6),
        14 => Some(7),
        _ => None,
    }
}
/// The kind a captured piece has in hand. None: it cannot be captured.
pub fn captured_kind(kind: u8) -> Option<u8> {
    if kind == 8 {
        return None;
    }
    Some(unpromote_kind(kind).unwrap_or(kind))
}
pub fn letter(kind: u8) -> &'static str {
    match kind {
        1 => "P",
        2 => "L",
        3 => "N",
        4 => "S",
        5 => "G",
        6 => "B",
        7 => "R",
        8 => "K",
        9 => "+P",
        10 => "+L",
        11 => "+N",
        12 => "+S",
        13 => "+B",
        14 => "+R",
        _ => unreachable!(),
    }
}
pub fn piece_text(piece: u8) -> String {
    let l = letter(kind_of(piece));
    if side_of(piece) == 0 {
        l.to_string()
    } else {
        l.to_lowercase()
    }
}
pub fn file_of(sq: u8) -> u8 {
    sq / 9 + 1
}
pub fn rank_of(sq: u8) -> u8 {
    sq % 9 + 1
}
pub fn square_text(sq: u8) -> String {
    format!("{}{}", file_of(sq), (b'a' + rank_of(sq) - 1) as char)
}
pub fn move_text(m: Mv) -> String {
    match m {
        Mv::Normal { from, to, promote } => format!(
            "{}{}{}",
            square_text(from),
            square_text(to),
            if promote { "+" } else { "" }
        ),
        Mv::Drop { piece, to } => format!("{}*{}", letter(kind_of(piece)), square_text(to)),
    }
}
/// A move with the colour of a dropped piece, for messages.
pub fn show_move(m: Mv) -> String {
    match m {
        Mv::Normal { .. } => move_text(m),
        Mv::Drop { piece, to } => format!("{}*{}", piece_text(piece), square_text(to)),
    }
}
pub fn move_number(m: Mv) -> u16 {
    match m {
        Mv::Normal { from, to, promote } => {
            (if promote { 32768 } else { 0 }) + (from as u16 + 1) * 256 + (to as u16 + 1)
        }
        Mv::Drop { piece, to } => piece as u16 * 256 + 128 + (to as u16 + 1),
    }
}
/// All 13,122 + 2,268 moves.
pub fn all_moves() -> Vec<Mv> {
    let mut v = Vec::new();
    for from in 0..81 {
        for to in 0..81 {
            for promote in [false, true] {
                v.push(Mv::Normal { from, to, promote });
            }
        }
    }
    for piece in all_pieces() {
        for to in 0..81 {
            v.push(Mv::Drop { piece, to });
        }
    }
    v
}
pub fn hands_text(h: &[[u8; 7]; 2]) -> String {
    let mut s = String::new();
    for side in 0..2 {
        for kind in [7u8, 6, 5, 4, 3, 2, 1] {
            let n = h[side][kind as usize - 1];
            if n >= 2 {
                s.push_str(&n.to_string());
            }
            if n >= 1 {
                s.push_str(&piece_text(make_piece(kind, side as u8)));
            }
        }
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}

/// Why the rules reject a move.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Verdict {
    Accepted,
    NoPiece,
    NotMine,
    CannotPromote,
    OwnPieceThere,
    KingCapture,
    DropNotMine,
    DropPromoted,
    DropOccupied,
    DropNotInHand,
}
impl Verdict {
    pub fn name(self) -> &'static str {
        match self {
            Verdict::Accepted => "accepted",
            Verdict::NoPiece => "rejected: origin vacant",
            Verdict::NotMine => "rejected: not the mover's piece",
            Verdict::CannotPromote => "rejected: cannot promote",
            Verdict::OwnPieceThere => "rejected: own piece on the destination",
            Verdict::KingCapture => "rejected: king capture",
            Verdict::DropNotMine => "rejected: drop of the other player's piece",
            Verdict::DropPromoted => "rejected: drop of a promoted piece",
            Verdict::DropOccupied => "rejected: drop on an occupied square",
            Verdict::DropNotInHand => "rejected: not in hand",
        }
    }
}

impl M {
    pub fn empty() -> M {
        M {
            side: 0,
            ply: 1,
            hands: [[0; 7]; 2],
            board: [0; 81],
            last: None,
        }
    }
    pub fn startpos() -> M {
        // Written as a diagram, ninth file on the left.
        let rows = [
            "lnsgkgsnl",
            ".r.....b.",
            "ppppppppp",
            ".........",
            ".........",
            ".........",
            "PPPPPPPPP",
            ".B.....R.",
            "LNSGKGSNL",
        ];
        let mut m = M::empty();
        for (r, row) in rows.iter().enumerate() {
            for (c, ch) in row.chars().enumerate() {
                if ch == '.' {
                    continue;
                }
                let file = 9 - c;
                let kind = "PLNSGBRK".find(ch.to_ascii_uppercase()).unwrap() as u8 + 1;
                let side = if ch.is_ascii_lowercase() { 1 } else { 0 };
                m.board[9 * (file - 1) + r] = make_piece(kind, side);
            }
        }
        m
    }
    pub fn verdict(&self, mv: Mv) -> Verdict {
        match mv {
            Mv::Normal { from, to, promote } => {
                let p = self.board[from as usize];
                if p == 0 {
                    return Verdict::NoPiece;
                }
                if side_of(p) != self.side {
                    return Verdict::NotMine;
                }
                if promote && promote_kind(kind_of(p)).is_none() {
                    return Verdict::CannotPromote;
                }
                let t = self.board[to as usize];
                if t != 0 && side_of(t) == self.side {
                    return Verdict::OwnPieceThere;
                }
                if t != 0 && captured_kind(kind_of(t)).is_none() {
                    return Verdict::KingCapture;
                }
                Verdict::Accepted
            }
            Mv::Drop { piece, to } => {
                if side_of(piece) != self.side {
                    return Verdict::DropNotMine;
                }
                if kind_of(piece) > 8 {
                    return Verdict::DropPromoted;
                }
                if self.board[to as usize] != 0 {
                    return Verdict::DropOccupied;
                }
                let k = kind_of(piece);
                if k == 8 || self.hands[self.side as usize][k as usize - 1] == 0 {
                    return Verdict::DropNotInHand;
                }
                Verdict::Accepted
            }
        }
    }
    /// Applies the move if the rules accept it.
    pub fn make_move(&mut self, mv: Mv) -> Verdict {
        let v = self.verdict(mv);
        if v != Verdict::Accepted {
            return v;
        }
        let me = self.side as usize;
        match mv {
            Mv::Normal { from, to, promote } => {
                let p = self.board[from as usize];
                let t = self.board[to as usize];
                if t != 0 {
                    let k = captured_kind(kind_of(t)).unwrap() as usize - 1;
                    self.hands[me][k] = ((self.hands[me][k] as u32 + 1) % 256) as u8;
                }
                self.board[from as usize] = 0;
                self.board[to as usize] = if promote {
                    make_piece(promote_kind(kind_of(p)).unwrap(), self.side)
                } else {
                    p
                };
            }
            Mv::Drop { piece, to } => {
                self.hands[me][kind_of(piece) as usize - 1] -= 1;
                self.board[to as usize] = piece;
            }
        }
        self.side = 1 - self.side;
        self.ply = ((self.ply as u32 + 1) % 65536) as u16;
        self.last = Some(mv);
        v
    }
    pub fn sfen(&self) -> String {
        let mut s = String::new();
        for rank in 1..=9u8 {
            if rank > 1 {
                s.push('/');
            }
            let mut run = 0;
            for file in (1..=9u8).rev() {
                let p = self.board[9 * (file as usize - 1) + rank as usize - 1];
                if p == 0 {
                    run += 1;
                    continue;
                }
                if run > 0 {
                    s.push_str(&run.to_string());
                }
                run = 0;
                s.push_str(&piece_text(p));
            }
            if run > 0 {
                s.push_str(&run.to_string());
            }
        }
        s.push_str(if self.side == 0 { " b " } else { " w " });
        s.push_str(&hands_text(&self.hands));
        s.push(' ');
        s.push_str(&self.ply.to_string());
        s
    }
    /// Squares holding exactly this piece, as a set of bits.
    pub fn squares_of(&self, piece: u8) -> u128 {
        let mut r = 0;
        for i in 0..81 {
            if self.board[i] == piece {
                r |= 1u128 << i;
            }
        }
        r
    }
    pub fn show(&self) -> String {
        let last = match self.last {
            None => "none".to_string(),
            Some(m) => show_move(m),
        };
        format!("[{}] last={}", self.sfen(), last)
    }
}

/// Reads SFEN back (independent of `M::sfen`): board, turn, hands, ply.
pub fn parse_sfen(s: &str) -> Option<M> {
    let parts: Vec<&str> = s.split(' ').collect();
    if parts.len() != 4 {
        return None;
    }
    let mut m = M::empty();
    let kind = |c: char| "PLNSGBRK".find(c.to_ascii_uppercase()).map(|i| i as u8 + 1);
    let rows: Vec<&str> = parts[0].split('/').collect();
    if rows.len() != 9 {
        return None;
    }
    for (r, row) in rows.iter().enumerate() {
        let mut file = 9i32;
        let mut plus = false;
        let mut digit_before = false;
        for c in row.chars() {
            if let Some(d) = c.to_digit(10) {
                if plus || digit_before || d == 0 {
                    return None;
                }
                digit_before = true;
                file -= d as i32;
                continue;
            }
            digit_before = false;
            if c == '+' {
                if plus {
                    return None;
                }
                plus = true;
                continue;
            }
            let mut k = kind(c)?;
            if plus {
                k = promote_kind(k)?;
            }
            plus = false;
            if file < 1 {
                return None;
            }
            m.board[9 * (file as usize - 1) + r] = make_piece(k, c.is_ascii_lowercase() as u8);
            file -= 1;
        }
        if file != 0 || plus {
            return None;
        }
    }
    m.side = match parts[1] {
        "b" => 0,
        "w" => 1,
        _ => return None,
    };
    if parts[2] != "-" {
        let mut n = String::new();
        for c in parts[2].chars() {
            if c.is_ascii_digit() {
                n.push(c);
                continue;
            }
            let k = kind(c)?;
            if k == 8 {
                return None;
            }
            let count: u32 = if n.is_empty() { 1 } else { n.parse().ok()? };
            let h = &mut m.hands[c.is_ascii_lowercase() as usize][k as usize - 1];
            if *h != 0 || count > 255 || count == 0 {
                return None;
            }
            *h = count as u8;
            n.clear();
        }
        if !n.is_empty() {
            return None;
        }
    }
    if parts[3].len() > 1 && parts[3].starts_with('0') {
        return None;
    }
    m.ply = parts[3].parse().ok()?;
    Some(m)
}
