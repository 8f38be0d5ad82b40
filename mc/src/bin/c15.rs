//! C15: piece and piece-kind algebra.
use mc::*;
use shogi_core::c_compat::*;
use shogi_core::*;

fn constants() -> Vec<(&'static str, Piece, Piece)> {
    macro_rules! list {
        ($($n:ident)*) => { vec![$((stringify!($n), Piece::$n, consts::piece::$n)),*] };
    }
    list!(
        B_P B_L B_N B_S B_G B_B B_R B_K B_PP B_PL B_PN B_PS B_PB B_PR
        W_P W_L W_N W_S W_G W_B W_R W_K W_PP W_PL W_PN W_PS W_PB W_PR
    )
}
fn is(p: Piece, kind: u8, c: u8, what: &dyn Fn() -> String) -> R {
    let t = t();
    let n = make_piece(kind, c);
    let (k, col) = (t.kind[kind as usize], t.color[c as usize]);
    if p.piece_kind() != k || p.color() != col || p.to_parts() != (k, col) || p.as_u8() != n || p != Piece::new(k, col) || p.array_index() != n as usize - 1 {
        fail!(
            "{}: kind {:?}, colour {:?}, parts {:?}, number {}, array index {}; expected {:?} {:?} number {}",
            what(), p.piece_kind(), p.color(), p.to_parts(), p.as_u8(), p.array_index(), k, col, n
        );
    }
    Ok(())
}
fn opt(p: Option<Piece>, kind: Option<u8>, c: u8, what: &dyn Fn() -> String) -> R {
    match (p, kind) {
        (None, None) => Ok(()),
        (Some(p), Some(k)) => is(p, k, c, what),
        (a, b) => fail!("{}: {:?}, expected kind number {:?}", what(), a, b),
    }
}

fn main() {
    runner::main(|tier| {
        let mut s = Vec::new();
        s.push(section("pieces", "all 28: construction, decomposition, numbers, promotion and unpromotion, constants, enumeration", 1, |_, cx| {
            let t = t();
            for c in 0..2u8 {
                for k in KINDS {
                    let name = || piece_text(make_piece(k, c));
                    let p = Piece::new(t.kind[k as usize], t.color[c as usize]);
                    is(p, k, c, &name)?;
                    is(Piece::Piece_new(t.kind[k as usize], t.color[c as usize]), k, c, &name)?;
                    const CONST: Piece = Piece::new(PieceKind::ProRook, Color::White);
                    is(CONST, 14, 1, &|| "constant +r".to_string())?;
                    opt(p.promote(), promote_kind(k), c, &|| format!("{} promoted", name()))?;
                    opt(p.unpromote(), unpromote_kind(k), c, &|| format!("{} unpromoted", name()))?;
                    opt(p.Piece_promote().into(), promote_kind(k), c, &|| format!("{} promoted (C)", name()))?;
                    opt(p.Piece_unpromote().into(), unpromote_kind(k), c, &|| format!("{} unpromoted (C)", name()))?;
                    if let Some(q) = p.promote() {
                        ensure!(q.unpromote() == Some(p), "{} promoted and unpromoted is {:?}", name(), q.unpromote());
                    }
                    if let Some(q) = p.unpromote() {
                        ensure!(q.promote() == Some(p), "{} unpromoted and promoted is {:?}", name(), q.promote());
                    }
                    same!(p.promote().map(|x| x.piece_kind()), p.piece_kind().promote(), "kind of {} promoted", name());
                    same!(p.unpromote().map(|x| x.piece_kind()), p.piece_kind().unpromote(), "kind of {} unpromoted", name());
                    is(Option::<Piece>::from(OptionPiece::from(Some(p))).ok_or("lost")?, k, c, &name)?;
                    cx.states += 1;
                    cx.transitions += 10;
                }
            }
            ensure!(constants().len() == 28, "28 constants");
            for (i, (name, a, b)) in constants().into_iter().enumerate() {
                let (k, c) = (i as u8 % 14 + 1, i as u8 / 14);
                is(a, k, c, &|| format!("Piece::{}", name))?;
                is(b, k, c, &|| format!("consts::piece::{}", name))?;
                cx.transitions += 2;
            }
            let all = Piece::all();
            ensure!(all.len() == 28, "all() has {} pieces", all.len());
            for p in all_pieces() {
                let n = all.iter().filter(|&&x| x == t.pc[p as usize].unwrap()).count();
                ensure!(n == 1, "all() has {} {} times", piece_text(p), n);
            }
            ensure!(Piece::NUM == 31, "Piece::NUM is {}", Piece::NUM);
            ensure!(all.iter().all(|p| p.array_index() < Piece::NUM), "an array index is not below Piece::NUM");
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("kinds", "all 14 kinds and all 256 numbers: conversion, promotion, array indices, enumeration; colours", 1, |_, cx| {
            let t = t();
            for k in KINDS {
                let kind = t.kind[k as usize];
                same!(kind as u8, k, "number of {:?}", kind);
                same!(kind.array_index(), k as usize - 1, "array index of {:?}", kind);
                same!(PieceKind::option_array_index(Some(kind)), k as usize, "optional array index of {:?}", kind);
                let pk = promote_kind(k).map(|x| t.kind[x as usize]);
                let uk = unpromote_kind(k).map(|x| t.kind[x as usize]);
                same!(kind.promote(), pk, "{:?} promoted", kind);
                same!(kind.unpromote(), uk, "{:?} unpromoted", kind);
                same!(kind.PieceKind_promote(), OptionPieceKind::from(pk), "{:?} promoted (C)", kind);
                same!(kind.PieceKind_unpromote(), OptionPieceKind::from(uk), "{:?} unpromoted (C)", kind);
                same!(kind.promote().is_some(), [1, 2, 3, 4, 6, 7].contains(&k), "{:?} promotes", kind);
                same!(kind.unpromote().is_some(), k >= 9, "{:?} unpromotes", kind);
                cx.states += 1;
                cx.transitions += 9;
            }
            same!(PieceKind::option_array_index(None), 0, "optional array index of none");
            same!((PieceKind::NUM, PieceKind::OPTION_NUM), (14, 15), "numbers of kinds");
            for n in 0..=255u8 {
                let want = if (1..=14).contains(&n) { Some(t.kind[n as usize]) } else { None };
                same!(PieceKind::from_u8(n), want, "kind number {}", n);
                same!(PieceKind::PieceKind_from_u8(n), OptionPieceKind::from(want), "kind number {} (C)", n);
                if want.is_some() {
                    same!(unsafe { PieceKind::from_u8_unchecked(n) }, t.kind[n as usize], "kind number {} unchecked", n);
                    same!(unsafe { PieceKind::PieceKind_from_u8_unchecked(n) }, t.kind[n as usize], "kind number {} unchecked (C)", n);
                }
                cx.transitions += 4;
            }
            let all = PieceKind::all();
            for k in KINDS {
                ensure!(all.iter().filter(|&&x| x == t.kind[k as usize]).count() == 1, "all() and {:?}", t.kind[k as usize]);
            }
            for (i, c) in [Color::Black, Color::White].into_iter().enumerate() {
                same!(c.array_index(), i, "array index of {:?}", c);
                same!(c as u8, i as u8 + 1, "number of {:?}", c);
                same!(c.flip(), t.color[1 - i], "{:?} flipped", c);
                same!(c.flip().flip(), c, "{:?} flipped twice", c);
                ensure!(Color::all().iter().filter(|&&x| x == c).count() == 1, "all() and {:?}", c);
            }
            same!(Color::NUM, 2, "number of colours");
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("sequences", "all sequences of promotion, unpromotion, colour change and rebuilding to a depth from each piece", 28, move |u, cx| {
            fn go(p: Piece, k: u8, c: u8, depth: usize, path: &mut String, cx: &mut Cx) -> R {
                is(p, k, c, &|| format!("after {}", path))?;
                cx.transitions += 1;
                if depth == 0 {
                    cx.traces += 1;
                    return Ok(());
                }
                for (n, r, k2, c2) in [
                    ("promote ", p.promote(), promote_kind(k), c),
                    ("unpromote ", p.unpromote(), unpromote_kind(k), c),
                    ("C promote ", p.Piece_promote().into(), promote_kind(k), c),
                    ("other colour ", Some(Piece::new(p.piece_kind(), p.color().flip())), Some(k), 1 - c),
                    ("through parts ", { let (a, b) = p.to_parts(); Some(Piece::Piece_new(a, b)) }, Some(k), c),
                ] {
                    let len = path.len();
                    path.push_str(n);
                    opt(r, k2, c2, &|| format!("after {}", path))?;
                    if let (Some(q), Some(k2)) = (r, k2) {
                        go(q, k2, c2, depth - 1, path, cx)?;
                    }
                    path.truncate(len);
                }
                Ok(())
            }
            let p = all_pieces()[u as usize];
            cx.states += 1;
            let mut path = piece_text(p) + " ";
            go(t().pc[p as usize].unwrap(), kind_of(p), side_of(p), tier.pick(8, 10), &mut path, cx)
        }));
        s
    });
}
