//! C09: the compact move form is a lossless encoding of moves.
use mc::*;
use shogi_core::c_compat::*;
use shogi_core::*;
use std::collections::HashMap;

/// The two bytes of a compact move: it is a transparent wrapper of a 16-bit number.
fn number(c: CompactMove) -> u16 {
    assert_eq!(std::mem::size_of::<CompactMove>(), 2);
    unsafe { std::mem::transmute::<CompactMove, u16>(c) }
}
fn opt_number(c: OptionCompactMove) -> u16 {
    assert_eq!(std::mem::size_of::<OptionCompactMove>(), 2);
    unsafe { std::mem::transmute::<OptionCompactMove, u16>(c) }
}
fn queries(m: Mv, im: Move, c: CompactMove) -> R {
    let t = t();
    let (from, to, promote, drop) = match m {
        Mv::Normal { from, to, promote } => (Some(t.sq[from as usize]), t.sq[to as usize], promote, false),
        Mv::Drop { to, .. } => (None, t.sq[to as usize], false, true),
    };
    let name = show_move(m);
    same!(Move::from(im), from, "origin of {}", name);
    same!(im.to(), to, "destination of {}", name);
    same!(im.is_promoting(), promote, "promotion of {}", name);
    same!(im.is_drop(), drop, "drop of {}", name);
    same!(CompactMove::from(c), from, "origin of compact {}", name);
    same!(Option::<Square>::from(c.CompactMove_from()), from, "C origin of compact {}", name);
    same!(c.CompactMove_from(), OptionSquare::from(from), "C origin of compact {}", name);
    same!(c.to(), to, "destination of compact {}", name);
    same!(c.is_promoting(), promote, "promotion of compact {}", name);
    same!(c.is_drop(), drop, "drop of compact {}", name);
    same!(number(c), move_number(m), "number of {}", name);
    ensure!(number(c) != 0, "{} is encoded as zero", name);
    let back: Move = c.into();
    same!(back, im, "{} decoded", name);
    let again: CompactMove = back.into();
    same!(again, c, "{} encoded again", name);
    let o = OptionCompactMove::from(Some(c));
    same!(opt_number(o), move_number(m), "number of optional {}", name);
    same!(Option::<CompactMove>::from(o), Some(c), "optional {}", name);
    ensure!(o != OptionCompactMove::from(None), "optional {} equals none", name);
    Ok(())
}

fn main() {
    runner::main(|_| {
        let mut s = Vec::new();
        s.push(section("moves", "all 15390 moves: encoding, decoding, queries, constructors, optional form", 81, |u, cx| {
            let t = t();
            for (m, im) in t.moves.iter().skip(u as usize).step_by(81) {
                let converted: CompactMove = (*im).into();
                queries(*m, *im, converted)?;
                let constructed = match *m {
                    Mv::Normal { from, to, promote } => CompactMove::normal(t.sq[from as usize], t.sq[to as usize], promote),
                    Mv::Drop { piece, to } => CompactMove::drop(t.pc[piece as usize].unwrap(), t.sq[to as usize]),
                };
                queries(*m, *im, constructed)?;
                same!(constructed, converted, "constructed and converted {}", show_move(*m));
                // by number
                let made: OptionCompactMove = unsafe { std::mem::transmute::<u16, OptionCompactMove>(move_number(*m)) };
                match Option::<CompactMove>::from(made) {
                    None => fail!("the number {} of {} is read as none", move_number(*m), show_move(*m)),
                    Some(c) => queries(*m, *im, c)?,
                }
                cx.states += 1;
                cx.transitions += 45;
            }
            cx.sample(|| { let x = &t.moves[u as usize]; format!("{} is number {}", show_move(x.0), move_number(x.0)) });
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("distinct", "different moves have different numbers; none is zero; the optional form of none", 1, |_, cx| {
            let mut seen: HashMap<u16, Mv> = HashMap::new();
            for (m, im) in &t().moves {
                let c: CompactMove = (*im).into();
                if let Some(o) = seen.insert(number(c), *m) {
                    fail!("{} and {} have the same number {}", show_move(o), show_move(*m), number(c));
                }
                cx.transitions += 1;
            }
            same!(opt_number(OptionCompactMove::from(None)), 0, "number of no move");
            same!(opt_number(OptionCompactMove::default()), 0, "number of the default");
            same!(Option::<CompactMove>::from(OptionCompactMove::from(None)), None, "no move");
            same!(Option::<CompactMove>::from(OptionCompactMove::default()), None, "the default");
            cx.states += 1;
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("through a position", "every move that some position accepts is reported as the last move in both forms", 81, |u, cx| {
            let t = t();
            for (m, im) in t.moves.iter().skip(u as usize).step_by(81) {
                for who in 0..28usize {
                    let mut p = PartialPosition::empty();
                    let mut model = M::empty();
                    let pc = all_pieces()[who];
                    match *m {
                        Mv::Normal { from, .. } => {
                            p.piece_set(t.sq[from as usize], t.pc[pc as usize]);
                            model.board[from as usize] = pc;
                            model.side = side_of(pc);
                        }
                        Mv::Drop { piece, .. } => {
                            if who > 0 || kind_of(piece) > 7 {
                                continue;
                            }
                            model.side = side_of(piece);
                            model.hands[model.side as usize][kind_of(piece) as usize - 1] = 1;
                            *p.hand_of_a_player_mut(t.color[model.side as usize]) = make_hand(&model.hands[model.side as usize]);
                        }
                    }
                    p.side_to_move_set(t.color[model.side as usize]);
                    if model.verdict(*m) != Verdict::Accepted {
                        continue;
                    }
                    let mut q = p.clone();
                    let c: CompactMove = (*im).into();
                    ensure!(p.make_move(*im).is_some(), "{} rejected", show_move(*m));
                    ensure!(q.make_compact_move(c), "compact {} rejected", show_move(*m));
                    for x in [&p, &q] {
                        same!(x.last_move(), Some(*im), "last move after {}", show_move(*m));
                        same!(x.last_compact_move(), Some(c), "last compact move after {}", show_move(*m));
                        same!(opt_number(x.PartialPosition_last_compact_move()), move_number(*m), "C last move after {}", show_move(*m));
                    }
                    cx.states += 1;
                    cx.transitions += 2;
                    cx.traces += 2;
                }
            }
            Ok(())
        }));
        s
    });
}
