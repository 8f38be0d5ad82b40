//! C01: making a move follows the pseudo-legal move rules exactly.
use mc::*;
use shogi_core::*;
use std::sync::Arc;

/// Executes the move in every form on a copy and compares verdict and successor.
fn step(p: &PartialPosition, m: &M, mv: Mv, imv: Move, cx: &mut Cx) -> R {
    let mut after = m.clone();
    let verdict = after.make_move(mv);
    let mut q = p.clone();
    let ok = q.make_move(imv).is_some();
    cx.transitions += 1;
    cx.traces += 1;
    cx.outcome(verdict.name());
    if ok != (verdict == Verdict::Accepted) {
        fail!("{} + {}: the rules say {:?}, make_move says {}", m.show(), show_move(mv), verdict, if ok { "Some(())" } else { "None" });
    }
    if ok {
        if let Some(d) = core_diff(&q, &after) {
            fail!("{} + {}: {}", m.show(), show_move(mv), d);
        }
    }
    Ok(())
}
fn step_compact(p: &PartialPosition, m: &M, mv: Mv, cx: &mut Cx) -> R {
    let mut after = m.clone();
    let verdict = after.make_move(mv);
    let mut q = p.clone();
    let ok = q.make_compact_move(to_compact(mv));
    cx.transitions += 1;
    cx.traces += 1;
    if ok != (verdict == Verdict::Accepted) {
        fail!("{} + {}: the rules say {:?}, make_compact_move says {}", m.show(), show_move(mv), verdict, ok);
    }
    if ok {
        if let Some(d) = core_diff_full(&q, &after) {
            fail!("{} + {} (compact): {}", m.show(), show_move(mv), d);
        }
    }
    Ok(())
}

fn backgrounds() -> Vec<M> {
    let empty = M::empty();
    let mut some = M::empty();
    some.hands = [[1, 2, 3, 4, 1, 2, 1], [2, 1, 4, 3, 2, 1, 2]];
    some.ply = 100;
    some.board[0] = 8;
    some.board[80] = 24;
    some.board[62] = 7;
    some.board[63] = 23;
    let crowded = roots::roots().into_iter().find(|r| r.0 == "crowded, white to move").unwrap().1;
    vec![empty, some, crowded]
}

fn main() {
    runner::main(|tier| {
        let bgs: Arc<Vec<(M, PartialPosition)>> = Arc::new(
            backgrounds()
                .into_iter()
                .map(|m| {
                    let p = build(&m);
                    (m, p)
                })
                .collect(),
        );
        let mut v = Vec::new();
        let b = bgs.clone();
        v.push(section(
            "one-step-normal",
            "each origin and destination x each piece (or none) on the origin x each occupant of the destination x promotion x turn, on an empty, a sparse and a full board",
            81 * 81,
            move |u, cx| {
                let (from, to) = ((u / 81) as u8, (u % 81) as u8);
                let t = t();
                for (bg, bp) in b.iter() {
                    for piece in std::iter::once(0).chain(all_pieces()) {
                        for target in std::iter::once(0).chain(all_pieces()) {
                            if from == to && target != piece {
                                continue;
                            }
                            for side in 0..2 {
                                let mut m = bg.clone();
                                let mut p = bp.clone();
                                m.side = side;
                                p.side_to_move_set(t.color[side as usize]);
                                m.board[to as usize] = target;
                                p.piece_set(t.sq[to as usize], t.pc[target as usize]);
                                m.board[from as usize] = piece;
                                p.piece_set(t.sq[from as usize], t.pc[piece as usize]);
                                cx.states += 1;
                                for promote in [false, true] {
                                    let mv = Mv::Normal { from, to, promote };
                                    step(&p, &m, mv, to_move(mv), cx)?;
                                }
                                if piece != 0 {
                                    step_compact(&p, &m, Mv::Normal { from, to, promote: target % 2 == 1 }, cx)?;
                                }
                            }
                        }
                    }
                }
                cx.sample(|| format!("all pieces on {} moving to {}", square_text(from), square_text(to)));
                Ok(())
            },
        ));
        v.push(section(
            "one-step-drop",
            "each dropped piece x each square x each occupant x turn x many counts of that kind in both hands",
            81,
            move |u, cx| {
                let to = u as u8;
                let t = t();
                let counts: &[u8] = &[0, 1, 2, 3, 4, 5, 9, 10, 17, 18, 19, 99, 100, 127, 128, 200, 254, 255];
                for piece in all_pieces() {
                    let k = kind_of(piece) as usize;
                    for side in 0..2u8 {
                        for &own in counts {
                            for other in [0u8, 1] {
                                let mut m = M::empty();
                                m.side = side;
                                if k <= 7 {
                                    m.hands[side_of(piece) as usize][k - 1] = own;
                                    m.hands[1 - side_of(piece) as usize][k - 1] = other;
                                } else {
                                    m.hands = [[own; 7]; 2];
                                }
                                let base = build(&m);
                                for occ in std::iter::once(0).chain(all_pieces()) {
                                    let mut m = m.clone();
                                    let mut p = base.clone();
                                    m.board[to as usize] = occ;
                                    p.piece_set(t.sq[to as usize], t.pc[occ as usize]);
                                    cx.states += 1;
                                    let mv = Mv::Drop { piece, to };
                                    step(&p, &m, mv, to_move(mv), cx)?;
                                    step_compact(&p, &m, mv, cx)?;
                                }
                            }
                        }
                    }
                }
                cx.sample(|| format!("all drops onto {}", square_text(to)));
                Ok(())
            },
        ));
        v.push(section(
            "hand-counts",
            "captures of each piece and drops of each kind with each count 0..255 of that kind in the mover's hand",
            256,
            move |u, cx| {
                let n = u as u8;
                for side in 0..2u8 {
                    for victim in 1..=14u8 {
                        for (from, to) in [(0u8, 80u8), (62, 63), (63, 62), (40, 8)] {
                            let mut m = M::empty();
                            m.side = side;
                            m.board[from as usize] = make_piece(7, side);
                            m.board[to as usize] = make_piece(victim, 1 - side);
                            m.hands[side as usize] = [n; 7];
                            m.hands[1 - side as usize] = [255 - n; 7];
                            let p = build(&m);
                            cx.states += 1;
                            for promote in [false, true] {
                                let mv = Mv::Normal { from, to, promote };
                                step(&p, &m, mv, to_move(mv), cx)?;
                                step_compact(&p, &m, mv, cx)?;
                            }
                            for k in 1..=7 {
                                let mv = Mv::Drop { piece: make_piece(k, side), to: 30 };
                                step(&p, &m, mv, to_move(mv), cx)?;
                            }
                        }
                    }
                }
                Ok(())
            },
        ));
        v.push(section(
            "ply",
            "each ply number 1..65535 x accepted board move, accepted drop, capture, and the same as a position with history",
            256,
            move |u, cx| {
                let mut m = M::empty();
                m.board[0] = 1;
                m.board[80] = 17;
                m.hands = [[1; 7]; 2];
                for ply in (u * 256).max(1)..(u + 1) * 256 {
                    m.ply = ply as u16;
                    m.side = (ply % 2) as u8;
                    let p = build(&m);
                    same!(p.ply(), ply as u16, "ply after ply_set({})", ply);
                    cx.states += 1;
                    let (a, b) = if m.side == 0 { (0, 80) } else { (80, 0) };
                    for mv in [
                        Mv::Normal { from: a, to: 40, promote: false },
                        Mv::Normal { from: a, to: b, promote: true },
                        Mv::Drop { piece: make_piece(5, m.side), to: 41 },
                    ] {
                        step(&p, &m, mv, to_move(mv), cx)?;
                        let mut q = Position::arbitrary_position(p.clone());
                        let mut after = m.clone();
                        after.make_move(mv);
                        ensure!(q.make_move(to_move(mv)).is_some(), "{} + {} rejected", m.show(), show_move(mv));
                        if let Some(d) = core_diff(&q, &after) {
                            fail!("{} + {} on a position with history: {}", m.show(), show_move(mv), d);
                        }
                        cx.transitions += 1;
                        cx.traces += 1;
                    }
                }
                Ok(())
            },
        ));
        let roots: Arc<Vec<(&'static str, M)>> = Arc::new(roots::roots());
        let r = roots.clone();
        v.push(section(
            "roots-one-step",
            "all 15,390 moves, in both representations, from each root position and its colour-swapped turn, also with history",
            roots.len() as u64 * 2,
            move |u, cx| {
                let mut m = r[u as usize / 2].1.clone();
                if u % 2 == 1 {
                    m.side = 1 - m.side;
                }
                let p = build(&m);
                let pos = Position::arbitrary_position(p.clone());
                if let Some(d) = all_diff(&p, &m) {
                    fail!("building {}: {}", m.show(), d);
                }
                cx.states += 1;
                for &(mv, imv) in &t().moves {
                    step(&p, &m, mv, imv, cx)?;
                    step_compact(&p, &m, mv, cx)?;
                    let mut after = m.clone();
                    let verdict = after.make_move(mv);
                    let mut q = pos.clone();
                    let ok = q.make_move(imv).is_some();
                    cx.transitions += 1;
                    ensure!(ok == (verdict == Verdict::Accepted), "{} + {} with history: the rules say {:?}, make_move says {}", m.show(), show_move(mv), verdict, ok);
                    if let Some(d) = core_diff_full(&q, &after) {
                        fail!("{} + {} with history: {}", m.show(), show_move(mv), d);
                    }
                }
                cx.sample(|| format!("all moves from {}", m.show()));
                Ok(())
            },
        ));
        // Depth two: every accepted first move, then every move.
        for (ri, (name, root)) in roots.iter().enumerate() {
            if tier == Tier::Quick && ![0usize, 2].contains(&ri) {
                continue;
            }
            let firsts: Vec<Mv> = t().moves.iter().map(|x| x.0).filter(|&mv| root.verdict(mv) == Verdict::Accepted).collect();
            let root = root.clone();
            // Quick: every third first move of the big root, none left out of the starting position's.
            let stride = if tier == Tier::Quick && ri != 0 { 5 } else { 1 };
            let firsts: Vec<Mv> = firsts.into_iter().step_by(stride).collect();
            v.push(section(
                &format!("depth-two: {}", name),
                &format!("{} accepted first moves (stride {}), each followed by all 15,390 moves", firsts.len(), stride),
                firsts.len() as u64,
                move |u, cx| {
                    let mv1 = firsts[u as usize];
                    let mut m = root.clone();
                    let mut p = build(&m);
                    m.make_move(mv1);
                    ensure!(p.make_move(to_move(mv1)).is_some(), "{} + {} rejected", root.show(), show_move(mv1));
                    cx.states += 1;
                    for &(mv, imv) in &t().moves {
                        step(&p, &m, mv, imv, cx).map_err(|e| format!("after {}: {}", show_move(mv1), e))?;
                    }
                    Ok(())
                },
            ));
        }
        let ws = Arc::new(roots::worlds(tier));
        let w = ws.clone();
        let cap = tier.pick(60_000, 600_000);
        v.push(section(
            "worlds",
            "breadth-first search of all positions reachable inside small sets of squares, with all moves and drops inside them (ply and last move are not part of the state)",
            ws.len() as u64,
            move |u, cx| {
                let (name, squares, root) = &w[u as usize];
                let alphabet = roots::local_alphabet(squares, &all_pieces());
                let p = build(root);
                let mut outcomes = [0u64; 2];
                let mut step = |_: &PartialPosition, m: &M, q: &PartialPosition, n: &M, mv: Mv, verdict: Verdict, ok: bool| {
                    outcomes[ok as usize] += 1;
                    if ok != (verdict == Verdict::Accepted) {
                        fail!("{} + {}: the rules say {:?}, make_move says {}", m.show(), show_move(mv), verdict, ok);
                    }
                    if ok {
                        if let Some(d) = core_diff(q, n) {
                            fail!("{}", d);
                        }
                    }
                    Ok(())
                };
                let done = roots::bfs(
                    root,
                    p,
                    &mut roots::Bfs {
                        alphabet: &alphabet,
                        max_states: cap,
                        max_depth: usize::MAX,
                        step: &mut step,
                        merge: None,
                    },
                    cx,
                )?;
                cx.outcome(if done { "world explored to its fixpoint" } else { "world capped" });
                cx.outcomes_add("accepted", outcomes[1]);
                cx.outcomes_add("rejected", outcomes[0]);
                cx.sample(|| format!("world {}", name));
                Ok(())
            },
        ));
        let shuttle = tier.pick(3_000, 70_000);
        v.push(section(
            "long-game",
            "one complete game: everything capturable is captured, everything is dropped, then pieces shuttle; each step compared",
            1,
            move |_, cx| {
                let mut p = PartialPosition::startpos();
                let mut q = PartialPosition::startpos();
                let mut with_history = [Position::startpos(), Position::startpos()];
                let mut n = 0;
                roots::long_game(shuttle, |m, mv| {
                    n += 1;
                    ensure!(p.make_move(to_move(mv)).is_some(), "move {} ({}) of the long game is rejected", n, show_move(mv));
                    ensure!(q.make_compact_move(to_compact(mv)), "move {} ({}) of the long game is rejected as a compact move", n, show_move(mv));
                    ensure!(with_history[0].make_move(to_move(mv)).is_some(), "move {} ({}) of the long game is rejected by a position with history", n, show_move(mv));
                    ensure!(with_history[1].make_compact_move(to_compact(mv)), "move {} ({}) of the long game is rejected as a compact move by a position with history", n, show_move(mv));
                    for x in [&p, &q, with_history[0].inner(), with_history[1].inner()] {
                        if let Some(d) = core_diff(x, m) {
                            fail!("after {} moves of the long game, the last being {}: {}", n, show_move(mv), d);
                        }
                    }
                    // Of the moves the rules reject here, a few, in turn.
                    for &(x, _) in t().moves.iter().skip(n as usize * 7 % 1999).step_by(1999) {
                        if m.verdict(x) != Verdict::Accepted {
                            cx.transitions += 4;
                            let accepted = [
                                p.make_move(to_move(x)).is_some(),
                                q.make_compact_move(to_compact(x)),
                                with_history[0].make_move(to_move(x)).is_some(),
                                with_history[1].make_compact_move(to_compact(x)),
                            ];
                            ensure!(accepted == [false; 4], "after {} moves of the long game, {}: the rules say {:?}, accepted: {:?}", n, show_move(x), m.verdict(x), accepted);
                        }
                    }
                    Ok(())
                })?;
                cx.transitions += 4 * n;
                cx.traces += 4;
                cx.states += n;
                Ok(())
            },
        ));
        let edited = Arc::new(edits::worlds(tier));
        let n = edited.len() as u64;
        v.push(section(
            "edited worlds",
            "breadth-first search over moves, sets of squares, changes of turn and of hands on a few squares, to the fixpoint; the last move is part of the state",
            n,
            move |u, cx| {
                let (name, ops, limit) = &edited[u as usize];
                edits::explore(ops, *limit, tier.pick(150_000, 1_500_000), |p, m| core_diff(p, m), cx)?;
                cx.sample(|| format!("world {} of {} operations", name, ops.len()));
                Ok(())
            },
        ));
        // A move after a move: whatever the code remembers of the first meets the second.
        v.push(section(
            "pairs of moves",
            "each first move (every origin, destination and promotion, every drop) x each second move, with the board edited between them so that the second can be made",
            81 * 82,
            move |u, cx| {
                let t = t();
                let (a, to1) = ((u / 81) as u8, (u % 81) as u8);
                let mut firsts = Vec::new();
                if a == 81 {
                    firsts.extend((1..=7).map(|k| Mv::Drop { piece: k, to: to1 }));
                } else if a != to1 {
                    firsts.extend([false, true].map(|promote| Mv::Normal { from: a, to: to1, promote }));
                }
                for first in firsts {
                    let mut m1 = M::empty();
                    match first {
                        Mv::Normal { from, .. } => m1.board[from as usize] = 7,
                        Mv::Drop { .. } => m1.hands[0] = [1; 7],
                    }
                    let mut p1 = build(&m1);
                    let v = m1.make_move(first);
                    ensure!(v == Verdict::Accepted && p1.make_move(to_move(first)).is_some(), "{} rejected", show_move(first));
                    let second = |cx: &mut Cx, m2: &M, p2: &PartialPosition, mv: Mv| -> R {
                        let mut m3 = m2.clone();
                        m3.make_move(mv);
                        let mut p3 = p2.clone();
                        cx.transitions += 1;
                        let ok = p3.make_move(to_move(mv)).is_some();
                        let (x, y) = match mv {
                            Mv::Normal { from, to, .. } => (from, to),
                            Mv::Drop { to, .. } => (to, to),
                        };
                        let same = ok
                            && p3.side_to_move() == t.color[m3.side as usize]
                            && p3.ply() == m3.ply
                            && p3.last_move() == Some(to_move(mv))
                            && [x, y, to1].iter().all(|&s| p3.piece_at(t.sq[s as usize]) == t.pc[m3.board[s as usize] as usize])
                            && (0..2).all(|c| p3.hand_of_a_player(t.color[c]) == make_hand(&m3.hands[c]));
                        if !same {
                            fail!("{} then {}: {}", m2.show(), show_move(mv), if ok { core_diff(&p3, &m3).unwrap_or_default() } else { "rejected".to_string() });
                        }
                        Ok(())
                    };
                    for from in 0..81u8 {
                        let mut m = m1.clone();
                        let mut p = p1.clone();
                        m.board[from as usize] = 23;
                        p.piece_set(t.sq[from as usize], t.pc[23]);
                        cx.states += 1;
                        for to in 0..81u8 {
                            if to == from {
                                continue;
                            }
                            for promote in [false, true] {
                                // All pairs of promotions only where a square is shared.
                                let shared = [from, to].iter().any(|&s| s == to1 || s == a);
                                if tier == Tier::Quick && !shared && promote != ((from ^ to) & 1 == 1) {
                                    continue;
                                }
                                second(cx, &m, &p, Mv::Normal { from, to, promote })?;
                            }
                        }
                    }
                    let mut m = m1.clone();
                    m.hands[1] = [2; 7];
                    let mut p = p1.clone();
                    *p.hand_of_a_player_mut(Color::White) = make_hand(&m.hands[1]);
                    for to in 0..81u8 {
                        if m.board[to as usize] == 0 {
                            for k in 1..=7 {
                                second(cx, &m, &p, Mv::Drop { piece: make_piece(k, 1), to })?;
                            }
                        }
                    }
                    cx.traces += 1;
                }
                Ok(())
            },
        ));
        v.push(edits::position_section(tier, |p, m| core_diff(p, m)));
        v
    });
}
