//! C02: a rejected operation changes nothing.
use mc::*;
use shogi_core::*;
use std::sync::Arc;

/// A base position that has a last move: built, then one move made.
fn with_last(mut m: M, mv: Mv) -> (M, PartialPosition) {
    let mut p = build(&m);
    assert!(p.make_move(to_move(mv)).is_some(), "{} + {} rejected", m.show(), show_move(mv));
    assert_eq!(m.make_move(mv), Verdict::Accepted);
    (m, p)
}
fn backgrounds() -> Vec<(M, PartialPosition)> {
    let mut some = M::empty();
    some.hands = [[1, 2, 3, 4, 1, 2, 1], [2, 1, 4, 3, 2, 1, 2]];
    some.ply = 100;
    some.board[1] = 8;
    some.board[79] = 24;
    some.board[62] = 7;
    some.board[63] = 23;
    let crowded = roots::roots().into_iter().find(|r| r.0 == "crowded").unwrap().1;
    let cap = t().moves.iter().map(|x| x.0).find(|&mv| crowded.verdict(mv) == Verdict::Accepted).unwrap();
    vec![
        with_last(some, Mv::Normal { from: 62, to: 63, promote: true }),
        with_last(crowded, cap),
    ]
}

/// The move is rejected by the rules: run it in every form and look for any change.
fn rejected(p: &PartialPosition, m: &M, mv: Mv, text: bool, cx: &mut Cx) -> R {
    let mut q = p.clone();
    for form in 0..2 {
        let ok = if form == 0 { q.make_move(to_move(mv)).is_some() } else { q.make_compact_move(to_compact(mv)) };
        cx.transitions += 1;
        if ok {
            // The verdict is C01's business, but a move that is not rejected must not be skipped silently.
            fail!("{} + {} is accepted, the rules reject it", m.show(), show_move(mv));
        }
        let d = core_diff_full(&q, m).or_else(|| derived_diff(&q, m));
        if let Some(d) = d {
            fail!("{} + rejected {} (form {}): {}", m.show(), show_move(mv), form, d);
        }
        if q.king_position(Color::Black) != p.king_position(Color::Black)
            || q.king_position(Color::White) != p.king_position(Color::White)
        {
            fail!("{} + rejected {}: a king square changed", m.show(), show_move(mv));
        }
        if !(q == *p) {
            fail!("{} + rejected {}: the position is not equal to what it was", m.show(), show_move(mv));
        }
    }
    if text && q.to_sfen_owned() != m.sfen() {
        fail!("{} + rejected {}: SFEN is now {:?}", m.show(), show_move(mv), q.to_sfen_owned());
    }
    cx.traces += 1;
    Ok(())
}

fn unchanged(q: &Position, p: &Position, m: &M, history: &[Mv], initial: &M, what: &str) -> R {
    if let Some(d) = core_diff_full(q, m).or_else(|| derived_diff(q, m)) {
        fail!("{}: {}", what, d);
    }
    if q.moves().len() != history.len() || q.moves().iter().zip(history).any(|(a, &b)| *a != to_move(b)) {
        fail!("{}: the recorded moves are {:?}, expected {:?}", what, q.moves(), history);
    }
    if let Some(d) = core_diff(q.initial_position(), initial) {
        fail!("{}: the initial position changed: {}", what, d);
    }
    ensure!(q == p, "{}: the position is not equal to what it was", what);
    Ok(())
}

fn main() {
    runner::main(|tier| {
        let mut v = Vec::new();
        let bgs = Arc::new(backgrounds());
        let b = bgs.clone();
        v.push(section(
            "one-step-normal",
            "each origin and destination x each piece on the origin x each occupant of the destination x promotion x turn, kept when the rules reject the move",
            81 * 81,
            move |u, cx| {
                let (from, to) = ((u / 81) as u8, (u % 81) as u8);
                let t = t();
                for (bi, (bg, bp)) in b.iter().enumerate() {
                    for piece in std::iter::once(0).chain(all_pieces()) {
                        for target in std::iter::once(0).chain(all_pieces()) {
                            if from == to && target != piece {
                                continue;
                            }
                            let mut m = bg.clone();
                            let mut p = bp.clone();
                            m.board[to as usize] = target;
                            p.piece_set(t.sq[to as usize], t.pc[target as usize]);
                            m.board[from as usize] = piece;
                            p.piece_set(t.sq[from as usize], t.pc[piece as usize]);
                            let k = (u as usize + piece as usize + target as usize + bi) % 2;
                            // Both turns on the sparse board, alternating on the crowded one.
                            for side in 0..2u8 {
                                if bi == 1 && side as usize != k {
                                    continue;
                                }
                                m.side = side;
                                p.side_to_move_set(t.color[side as usize]);
                                cx.states += 1;
                                for promote in [false, true] {
                                    let mv = Mv::Normal { from, to, promote };
                                    let verdict = m.verdict(mv);
                                    if verdict != Verdict::Accepted {
                                        cx.outcome(verdict.name());
                                        rejected(&p, &m, mv, false, cx)?;
                                    }
                                }
                            }
                        }
                    }
                }
                cx.sample(|| format!("all rejected moves from {} to {}", square_text(from), square_text(to)));
                Ok(())
            },
        ));
        let b = bgs.clone();
        v.push(section(
            "one-step-drop",
            "each dropped piece x each square x each occupant x turn x hand count 0, 1, 2, 18, 255, kept when rejected",
            81,
            move |u, cx| {
                let to = u as u8;
                let t = t();
                for (bg, bp) in b.iter() {
                    for piece in all_pieces() {
                        for n in [0u8, 1, 2, 18, 255] {
                            let mut m = bg.clone();
                            let mut p = bp.clone();
                            for c in 0..2 {
                                let k = kind_of(piece);
                                if k <= 7 {
                                    m.hands[c][k as usize - 1] = if c == side_of(piece) as usize { n } else { 1 };
                                }
                                *p.hand_of_a_player_mut(t.color[c]) = make_hand(&m.hands[c]);
                            }
                            for occ in std::iter::once(0).chain(all_pieces()) {
                                for side in 0..2u8 {
                                    m.board[to as usize] = occ;
                                    p.piece_set(t.sq[to as usize], t.pc[occ as usize]);
                                    m.side = side;
                                    p.side_to_move_set(t.color[side as usize]);
                                    cx.states += 1;
                                    let mv = Mv::Drop { piece, to };
                                    let verdict = m.verdict(mv);
                                    if verdict != Verdict::Accepted {
                                        cx.outcome(verdict.name());
                                        rejected(&p, &m, mv, true, cx)?;
                                    }
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        ));
        let roots = Arc::new(roots::roots());
        let r = roots.clone();
        let firsts = tier.pick(40, 4000);
        v.push(section(
            "history",
            "positions with 0, 1 and 2 recorded moves from each root: all 15,390 moves in both representations, kept when rejected, also twice in a row and followed by an accepted move",
            roots.len() as u64 * firsts,
            move |u, cx| {
                let m0 = &r[(u / firsts) as usize].1;
                let w = u % firsts;
                let accepted: Vec<Mv> = t().moves.iter().map(|x| x.0).filter(|&mv| m0.verdict(mv) == Verdict::Accepted).collect();
                let stride = (accepted.len() as u64 / firsts).max(1);
                let mut m = m0.clone();
                let mut p = Position::arbitrary_position(build(&m));
                let mut history = Vec::new();
                if w > 0 {
                    let i = ((w - 1) * stride) as usize;
                    if i >= accepted.len() {
                        return Ok(());
                    }
                    history.push(accepted[i]);
                    if w % 2 == 0 {
                        let mut n = m.clone();
                        n.make_move(accepted[i]);
                        let second: Vec<Mv> = t().moves.iter().map(|x| x.0).filter(|&mv| n.verdict(mv) == Verdict::Accepted).collect();
                        if !second.is_empty() {
                            history.push(second[(w as usize * 37) % second.len()]);
                        }
                    }
                }
                for &h in &history {
                    ensure!(p.make_move(to_move(h)).is_some(), "{} + {} rejected", m.show(), show_move(h));
                    m.make_move(h);
                }
                cx.states += 1;
                let good = t().moves.iter().map(|x| x.0).find(|&mv| m.verdict(mv) == Verdict::Accepted);
                for &(mv, imv) in &t().moves {
                    let verdict = m.verdict(mv);
                    if verdict == Verdict::Accepted {
                        continue;
                    }
                    cx.outcome(verdict.name());
                    let what = format!("{} with {} recorded moves + rejected {}", m.show(), history.len(), show_move(mv));
                    let mut q = p.clone();
                    ensure!(q.make_move(imv).is_none(), "{}: accepted", what);
                    unchanged(&q, &p, &m, &history, m0, &what)?;
                    ensure!(!q.make_compact_move(to_compact(mv)), "{}: accepted (compact)", what);
                    unchanged(&q, &p, &m, &history, m0, &what)?;
                    cx.transitions += 2;
                    if let (Some(g), true) = (good, cx.transitions % 16 == 0) {
                        let mut after = m.clone();
                        after.make_move(g);
                        ensure!(q.make_move(to_move(g)).is_some(), "{} then {} rejected", what, show_move(g));
                        if let Some(d) = all_diff(&q, &after) {
                            fail!("{} then {}: {}", what, show_move(g), d);
                        }
                        ensure!(q.moves().len() == history.len() + 1, "{} then {}: {} recorded moves", what, show_move(g), q.moves().len());
                        cx.transitions += 1;
                    }
                    cx.traces += 1;
                }
                Ok(())
            },
        ));
        let ws = Arc::new(roots::worlds(tier));
        let w = ws.clone();
        let cap = tier.pick(30_000, 300_000);
        v.push(section(
            "worlds",
            "every rejected move of every position of the small worlds",
            ws.len() as u64,
            move |u, cx| {
                let (_, squares, root) = &w[u as usize];
                let alphabet = roots::local_alphabet(squares, &all_pieces());
                let mut n = 0;
                let mut step = |p: &PartialPosition, m: &M, q: &PartialPosition, _: &M, mv: Mv, verdict: Verdict, _ok: bool| {
                    if verdict != Verdict::Accepted {
                        n += 1;
                        if let Some(d) = core_diff_full(q, m).or_else(|| derived_diff(q, m)) {
                            fail!("rejected {} changed something: {}", show_move(mv), d);
                        }
                        ensure!(q == p, "after rejected {} the position is not equal to what it was", show_move(mv));
                    }
                    Ok(())
                };
                let done = roots::bfs(
                    root,
                    build(root),
                    &mut roots::Bfs { alphabet: &alphabet, max_states: cap, max_depth: usize::MAX, step: &mut step, merge: None },
                    cx,
                )?;
                cx.outcome(if done { "world explored to its fixpoint" } else { "world capped" });
                cx.outcomes_add("rejected", n);
                Ok(())
            },
        ));
        let r = roots.clone();
        v.push(section(
            "ply-set",
            "setting the ply number to 0 from each ply number 1..65535 and from each root",
            64,
            move |u, cx| {
                let mut m = r[u as usize % r.len()].1.clone();
                let mut p = build(&m);
                for ply in (u * 1024).max(1)..(u + 1) * 1024 {
                    ensure!(p.ply_set(ply as u16), "ply_set({}) fails", ply);
                    m.ply = ply as u16;
                    let before = p.clone();
                    ensure!(!p.ply_set(0), "ply_set(0) succeeds at ply {}", ply);
                    cx.transitions += 2;
                    cx.states += 1;
                    if let Some(d) = core_diff(&p, &m) {
                        fail!("ply_set(0) at ply {}: {}", ply, d);
                    }
                    ensure!(p == before, "ply_set(0) at ply {} changed the position", ply);
                }
                if let Some(d) = all_diff(&p, &m) {
                    fail!("{}", d);
                }
                cx.traces += 1;
                Ok(())
            },
        ));
        v.push(section(
            "hand",
            "in-place additions and removals that fail, for each kind and each count 0..255 of one kind and a few of the others",
            256,
            |u, cx| {
                let t = t();
                for k in 1..=7usize {
                    for rest in [0u8, 1, 255] {
                        let mut c = [rest; 7];
                        c[k - 1] = u as u8;
                        let h = make_hand(&c);
                        cx.states += 1;
                        for kind in 1..=14usize {
                            let mut x = h;
                            if kind > 7 {
                                ensure!(!x.Hand_add(t.kind[kind]), "adding {:?} to a hand succeeds", t.kind[kind]);
                                ensure!(x.added(t.kind[kind]).is_none(), "adding {:?} to a hand succeeds", t.kind[kind]);
                                cx.transitions += 2;
                            }
                            if kind > 7 || c[kind - 1] == 0 {
                                ensure!(!x.Hand_remove(t.kind[kind]), "removing {:?} from {:?} succeeds", t.kind[kind], c);
                                ensure!(x.removed(t.kind[kind]).is_none(), "removing {:?} from {:?} succeeds", t.kind[kind], c);
                                cx.transitions += 2;
                            }
                            ensure!(x == h, "a failed operation with {:?} changed the hand {:?}", t.kind[kind], c);
                            for i in 1..=7 {
                                same!(x.count(t.kind[i]), Some(c[i - 1]), "count of {:?} after failed operations with {:?}", t.kind[i], t.kind[kind]);
                            }
                        }
                        cx.traces += 1;
                    }
                }
                Ok(())
            },
        ));
        v
    });
}
