//! C23: conversions from numbers and C option types are exact.
use mc::*;
use shogi_core::c_compat::*;
use shogi_core::*;
use std::fmt::Debug;
use std::mem::{align_of, size_of};

/// The bytes of a value as a number, little end first.
fn number<T>(x: &T) -> u64 {
    let mut n = 0;
    for i in 0..size_of::<T>() {
        n |= (unsafe { *(x as *const T as *const u8).add(i) } as u64) << (8 * i);
    }
    n
}
/// The value with this representation, which must be valid for the type.
unsafe fn value<T: Copy>(n: u64) -> T {
    let b = n.to_le_bytes();
    std::ptr::read_unaligned(b.as_ptr() as *const T)
}

/// A type, its option, and the C form of its option.
fn option<T, O>(name: &str, list: &[(T, u64)], default: Option<O>, cx: &mut Cx) -> R
where
    T: Copy + Debug + PartialEq,
    O: Copy + Debug + PartialEq + From<Option<T>>,
    Option<T>: From<O>,
{
    ensure!(size_of::<T>() == size_of::<O>() && align_of::<T>() == align_of::<O>(), "{}: layouts of the value and its C option differ", name);
    ensure!(size_of::<Option<T>>() == size_of::<T>(), "{}: the option takes {} bytes", name, size_of::<Option<T>>());
    let all: Vec<(Option<T>, u64)> = std::iter::once((None, 0)).chain(list.iter().map(|&(x, n)| (Some(x), n))).collect();
    for &(x, n) in &all {
        if let Some(y) = x {
            same!(number(&y), n, "{}: representation of {:?}", name, y);
        }
        let c: O = x.into();
        same!(number(&c), n, "{}: representation of the C form of {:?}", name, x);
        let back: Option<T> = c.into();
        same!(back, x, "{}: {:?} to the C form and back", name, x);
        // a C program's value
        let d: O = unsafe { value(n) };
        same!(Option::<T>::from(d), x, "{}: C form with representation {}", name, n);
        same!(O::from(Option::<T>::from(d)), d, "{}: C form {} to the option and back", name, n);
        same!(d, c, "{}: C form with representation {}", name, n);
        cx.states += 1;
        cx.transitions += 5;
    }
    // No two are mixed up.
    if all.len() < 1000 {
        for &(x, n) in &all {
            for &(y, m) in &all {
                ensure!((x == y) == (n == m), "{}: {:?} == {:?} is {}", name, x, y, x == y);
                ensure!((O::from(x) == O::from(y)) == (n == m), "{}: C forms of {:?} and {:?}: equality", name, x, y);
                cx.transitions += 2;
            }
        }
    }
    if let Some(d) = default {
        same!(number(&d), 0, "{}: representation of the default", name);
        same!(d, O::from(None), "{}: default", name);
        same!(Option::<T>::from(d), None, "{}: default as an option", name);
    }
    cx.traces += 1;
    Ok(())
}

const RES: [(GameResolution, u64); 5] = [
    (GameResolution::BlackWins, 1),
    (GameResolution::WhiteWins, 2),
    (GameResolution::Draw, 3),
    (GameResolution::Rematch, 4),
    (GameResolution::Aborted, 5),
];
const ILL: [(IllegalMoveKind, u64); 7] = [
    (IllegalMoveKind::TwoPawns, 1),
    (IllegalMoveKind::IgnoredCheck, 2),
    (IllegalMoveKind::DropPawnMate, 3),
    (IllegalMoveKind::DropStuck, 4),
    (IllegalMoveKind::NormalStuck, 5),
    (IllegalMoveKind::GameFinished, 6),
    (IllegalMoveKind::IncorrectMove, 7),
];

fn main() {
    runner::main(|_| {
        let mut out = Vec::new();
        out.push(section("numbers", "every byte through every checked conversion, valid ones through the unchecked ones, in all orders of two", 256, |u, cx| {
            let t = t();
            let b = u as u8;
            // each byte after each other byte: no conversion remembers anything
            for before in 0..=255u8 {
                let _ = (Square::from_u8(before), PieceKind::from_u8(before), IllegalMoveKind::from_u8(before));
                let square = if (1..=81).contains(&b) { Some(t.sq[b as usize - 1]) } else { None };
                same!(Square::from_u8(b), square, "Square::from_u8({})", b);
                same!(Option::<Square>::from(Square::Square_from_u8(b)), square, "Square_from_u8({})", b);
                same!(number(&Square::Square_from_u8(b)), if square.is_some() { b as u64 } else { 0 }, "Square_from_u8({})", b);
                let kind = if (1..=14).contains(&b) { Some(KIND_LIST[b as usize - 1]) } else { None };
                same!(PieceKind::from_u8(b), kind, "PieceKind::from_u8({})", b);
                same!(Option::<PieceKind>::from(PieceKind::PieceKind_from_u8(b)), kind, "PieceKind_from_u8({})", b);
                same!(number(&PieceKind::PieceKind_from_u8(b)), if kind.is_some() { b as u64 } else { 0 }, "PieceKind_from_u8({})", b);
                let ill = ILL.iter().find(|x| x.1 == b as u64).map(|x| x.0);
                same!(IllegalMoveKind::from_u8(b), ill, "IllegalMoveKind::from_u8({})", b);
                unsafe {
                    if let Some(s) = square {
                        same!(Square::from_u8_unchecked(b), s, "Square::from_u8_unchecked({})", b);
                        same!(Square::Square_from_u8_unchecked(b), s, "Square_from_u8_unchecked({})", b);
                        same!(s.index(), b, "index of the square with number {}", b);
                        same!(s.array_index(), b as usize - 1, "array index of the square with number {}", b);
                        same!((s.file(), s.rank()), ((b - 1) / 9 + 1, (b - 1) % 9 + 1), "file and rank of the square with number {}", b);
                    }
                    if let Some(k) = kind {
                        same!(PieceKind::from_u8_unchecked(b), k, "PieceKind::from_u8_unchecked({})", b);
                        same!(PieceKind::PieceKind_from_u8_unchecked(b), k, "PieceKind_from_u8_unchecked({})", b);
                        same!(k as u8, b, "{:?} as u8", k);
                    }
                    if let Some(i) = ill {
                        same!(IllegalMoveKind::from_u8_unchecked(b), i, "IllegalMoveKind::from_u8_unchecked({})", b);
                        same!(i as u8, b, "{:?} as u8", i);
                    }
                    if (1..=5).contains(&b) {
                        same!(GameResolution::from_u8_unchecked(b), RES[b as usize - 1].0, "GameResolution::from_u8_unchecked({})", b);
                        same!(RES[b as usize - 1].0 as u8, b, "{:?} as u8", RES[b as usize - 1].0);
                    }
                }
                cx.transitions += 5;
            }
            cx.states += 1;
            cx.traces += 1;
            cx.sample(|| format!("byte {}: Square {:?}, PieceKind {:?}, IllegalMoveKind {:?}", b, Square::from_u8(b), PieceKind::from_u8(b), IllegalMoveKind::from_u8(b)));
            Ok(())
        }));
        out.push(section("options", "every value of every type that has a C option, and absence: all conversions, representations, sizes, defaults", 1, |_, cx| {
            let t = t();
            let sq: Vec<(Square, u64)> = t.sq.iter().enumerate().map(|(i, &s)| (s, i as u64 + 1)).collect();
            option::<Square, OptionSquare>("OptionSquare", &sq, None, cx)?;
            let pc: Vec<(Piece, u64)> = all_pieces().iter().map(|&n| (t.pc[n as usize].unwrap(), n as u64)).collect();
            option::<Piece, OptionPiece>("OptionPiece", &pc, None, cx)?;
            let kinds: Vec<(PieceKind, u64)> = KIND_LIST.iter().enumerate().map(|(i, &k)| (k, i as u64 + 1)).collect();
            option::<PieceKind, OptionPieceKind>("OptionPieceKind", &kinds, None, cx)?;
            let mv: Vec<(CompactMove, u64)> = t.moves.iter().map(|&(m, _)| (to_compact(m), move_number(m) as u64)).collect();
            option::<CompactMove, OptionCompactMove>("OptionCompactMove", &mv, Some(OptionCompactMove::default()), cx)?;
            let mv: Vec<(CompactMove, u64)> = t.moves.iter().map(|&(m, i)| (i.into(), move_number(m) as u64)).collect();
            option::<CompactMove, OptionCompactMove>("OptionCompactMove", &mv, None, cx)?;
            option::<GameResolution, OptionGameResolution>("OptionGameResolution", &RES, Some(OptionGameResolution::default()), cx)?;
            option::<IllegalMoveKind, ResultUnitIllegalMoveKind>("ResultUnitIllegalMoveKind", &ILL, Some(ResultUnitIllegalMoveKind::default()), cx)?;
            Ok(())
        }));
        out.push(section("results", "every result of a legality question through its C form", 1, |_, cx| {
            let all: Vec<(Result<(), IllegalMoveKind>, u64)> = std::iter::once((Ok(()), 0)).chain(ILL.iter().map(|&(k, n)| (Err(k), n))).collect();
            for &(r, n) in &all {
                let c = ResultUnitIllegalMoveKind::from(r);
                same!(number(&c), n, "representation of the C form of {:?}", r);
                same!(Result::<(), IllegalMoveKind>::from(c), r, "{:?} to the C form and back", r);
                same!(Option::<IllegalMoveKind>::from(c), r.err(), "{:?} to the C form and to an option", r);
                same!(ResultUnitIllegalMoveKind::from(r.err()), c, "C form of {:?} as an option", r);
                let d: ResultUnitIllegalMoveKind = unsafe { value(n) };
                same!(Result::<(), IllegalMoveKind>::from(d), r, "C form with representation {}", n);
                for &(r2, n2) in &all {
                    ensure!((ResultUnitIllegalMoveKind::from(r2) == c) == (n == n2), "C forms of {:?} and {:?}: equality", r, r2);
                }
                cx.states += 1;
                cx.transitions += 13;
            }
            same!(Result::<(), IllegalMoveKind>::from(ResultUnitIllegalMoveKind::default()), Ok(()), "default");
            cx.traces += 1;
            Ok(())
        }));
        out.push(section("representations", "the documented discriminants and sizes", 1, |_, cx| {
            let t = t();
            for (c, n) in [(Color::Black, 1u64), (Color::White, 2)] {
                same!(c as u8 as u64, n, "{:?} as u8", c);
                same!(number(&c), n, "representation of {:?}", c);
                same!(c.array_index() as u64, n - 1, "array index of {:?}", c);
            }
            for (s, n) in [
                (PositionStatus::BlackWins, 1u64),
                (PositionStatus::WhiteWins, 2),
                (PositionStatus::Draw, 3),
                (PositionStatus::InProgress, 4),
                (PositionStatus::Invalid, 5),
            ] {
                same!(s as u64, n, "{:?} as a number", s);
            }
            for pc in all_pieces() {
                let p = t.pc[pc as usize].unwrap();
                same!(p.as_u8(), pc, "as_u8 of {}", piece_text(pc));
                same!(number(&p), pc as u64, "representation of {}", piece_text(pc));
                cx.states += 1;
            }
            for (name, size, expected) in [
                ("Color", size_of::<Color>(), 1),
                ("Option<Color>", size_of::<Option<Color>>(), 1),
                ("Square", size_of::<Square>(), 1),
                ("Option<Square>", size_of::<Option<Square>>(), 1),
                ("PieceKind", size_of::<PieceKind>(), 1),
                ("Option<PieceKind>", size_of::<Option<PieceKind>>(), 1),
                ("Piece", size_of::<Piece>(), 1),
                ("Option<Piece>", size_of::<Option<Piece>>(), 1),
                ("GameResolution", size_of::<GameResolution>(), 1),
                ("Option<GameResolution>", size_of::<Option<GameResolution>>(), 1),
                ("IllegalMoveKind", size_of::<IllegalMoveKind>(), 1),
                ("Result<(), IllegalMoveKind>", size_of::<Result<(), IllegalMoveKind>>(), 1),
                ("CompactMove", size_of::<CompactMove>(), 2),
                ("Option<CompactMove>", size_of::<Option<CompactMove>>(), 2),
                ("OptionCompactMove", size_of::<OptionCompactMove>(), 2),
                ("Hand", size_of::<Hand>(), 8),
                ("Bitboard", size_of::<Bitboard>(), 16),
                ("ByteSwappedBitboard", size_of::<ByteSwappedBitboard>(), 16),
            ] {
                ensure!(size == expected, "{} takes {} bytes, documented {}", name, size, expected);
                cx.transitions += 1;
            }
            cx.traces += 1;
            Ok(())
        }));
        out
    })
}
