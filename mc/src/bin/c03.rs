//! C03: piece sets and king squares always agree with the board.
use mc::*;
use shogi_core::*;
use std::sync::Arc;

/// By membership and count, square by square: does not rely on comparing bitboards.
fn derived_slow<V: View>(p: &V, m: &M) -> R {
    let t = t();
    let mask = |f: &dyn Fn(u8) -> bool| -> u128 { (0..81).filter(|&i| f(m.board[i])).map(|i| 1u128 << i).sum() };
    let one = |name: String, b: Bitboard, expected: u128| -> R {
        if bb_mask(b) != expected {
            fail!("{}: {} is {}, expected {}", m.show(), name, show_bb(b), show_mask(expected));
        }
        if b.count() as u32 != expected.count_ones() || b.is_empty() != (expected == 0) {
            fail!("{}: {} {} has count {}, is_empty {}", m.show(), name, show_bb(b), b.count(), b.is_empty());
        }
        Ok(())
    };
    one("occupied set".into(), p.v_occupied(), mask(&|b| b != 0))?;
    one("vacant set".into(), p.v_vacant(), mask(&|b| b == 0))?;
    for c in 0..2u8 {
        one(format!("set of {:?}", t.color[c as usize]), p.v_player(t.color[c as usize]), mask(&|b| b != 0 && side_of(b) == c))?;
    }
    for k in KINDS {
        one(format!("set of {:?}", t.kind[k as usize]), p.v_partial().piece_kind_bitboard(t.kind[k as usize]), mask(&|b| b != 0 && kind_of(b) == k))?;
        for c in 0..2 {
            let n = make_piece(k, c);
            one(format!("set of {}", piece_text(n)), p.v_piece(t.pc[n as usize].unwrap()), mask(&|b| b == n))?;
        }
    }
    Ok(())
}
fn check<V: View>(p: &V, m: &M, what: &dyn Fn() -> String) -> R {
    match derived_diff(p, m) {
        None => Ok(()),
        Some(d) => Err(format!("{}: {}", what(), d)),
    }
}

fn main() {
    runner::main(|tier| {
        let mut v = Vec::new();
        let roots = Arc::new(roots::roots());
        let r = roots.clone();
        v.push(section(
            "set-one",
            "each square x each piece or none x then each piece or none again, from the empty board, each root, and one more set elsewhere",
            81,
            move |u, cx| {
                let t = t();
                let s = u as usize;
                for (name, root) in r.iter() {
                    let base = build(root);
                    for a in std::iter::once(0u8).chain(all_pieces()) {
                        let mut m = root.clone();
                        let mut p = base.clone();
                        m.board[s] = a;
                        p.piece_set(t.sq[s], t.pc[a as usize]);
                        check(&p, &m, &|| format!("root {}: {} set to {}", name, square_text(s as u8), a))?;
                        derived_slow(&p, &m)?;
                        cx.states += 1;
                        for b in std::iter::once(0u8).chain(all_pieces()) {
                            let mut n = m.clone();
                            let mut q = p.clone();
                            n.board[s] = b;
                            q.piece_set(t.sq[s], t.pc[b as usize]);
                            check(&q, &n, &|| format!("root {}: {} set to {}, then to {}", name, square_text(s as u8), a, b))?;
                            let o = (s * 7 + 13) % 81;
                            n.board[o] = a;
                            q.piece_set(t.sq[o], t.pc[a as usize]);
                            check(&q, &n, &|| format!("root {}: {} set to {}, to {}, then {} to {}", name, square_text(s as u8), a, b, square_text(o as u8), a))?;
                            cx.transitions += 2;
                            cx.traces += 1;
                        }
                    }
                }
                cx.sample(|| format!("all pieces set on {} and replaced", square_text(s as u8)));
                Ok(())
            },
        ));
        let pairs: Vec<(u8, u8)> = {
            let list = [0u8, 8, 9, 40, 61, 62, 63, 64, 72, 80];
            let mut v = Vec::new();
            for &a in &list {
                for &b in &list {
                    if a < b {
                        v.push((a, b));
                    }
                }
            }
            v
        };
        let n_pairs = pairs.len() as u64;
        v.push(section(
            "set-sequences",
            "pairs of squares x all sequences of three sets on them with all 28 pieces or none",
            n_pairs * 29,
            move |u, cx| {
                let t = t();
                let (a, b) = pairs[(u / 29) as usize];
                let all: Vec<u8> = std::iter::once(0).chain(all_pieces()).collect();
                let x = all[(u % 29) as usize];
                for &y in &all {
                    for &z in &all {
                        for where_ in 0..8u8 {
                            let mut m = M::empty();
                            let mut p = PartialPosition::empty();
                            for (i, &pc) in [x, y, z].iter().enumerate() {
                                let s = if where_ >> i & 1 == 0 { a } else { b };
                                m.board[s as usize] = pc;
                                p.piece_set(t.sq[s as usize], t.pc[pc as usize]);
                            }
                            check(&p, &m, &|| format!("sets {} {} {} on {} or {} (pattern {})", x, y, z, square_text(a), square_text(b), where_))?;
                            cx.transitions += 3;
                            cx.traces += 1;
                            cx.states += 1;
                        }
                    }
                }
                Ok(())
            },
        ));
        // Kings: sets and moves mixed, no state merging, since the king squares are history-dependent data.
        #[derive(Clone, Copy, Debug)]
        enum Op {
            Set(u8, u8),
            Mv(Mv),
            Turn(u8),
        }
        let squares = [0u8, 62, 63, 80];
        let mut ops = Vec::new();
        for &s in &squares {
            for p in [8u8, 24, 0, 7] {
                ops.push(Op::Set(s, p));
            }
        }
        for &from in &squares[..3] {
            for &to in &squares[..3] {
                if from != to {
                    ops.push(Op::Mv(Mv::Normal { from, to, promote: false }));
                }
            }
        }
        ops.push(Op::Turn(0));
        ops.push(Op::Turn(1));
        let depth = tier.pick(5, 6);
        let ops = Arc::new(ops);
        let n_ops = ops.len() as u64;
        v.push(section(
            "kings",
            &format!("all sequences of {} operations out of {}: setting and removing kings and a rook on four squares, moving between three, passing the turn", depth, n_ops),
            n_ops * n_ops,
            move |u, cx| {
                fn go(p: &PartialPosition, m: &M, ops: &[Op], path: &mut Vec<Op>, depth: usize, cx: &mut Cx, first: &[usize]) -> R {
                    if path.len() == depth {
                        cx.traces += 1;
                        return Ok(());
                    }
                    for (i, &op) in ops.iter().enumerate() {
                        if path.len() < first.len() && first[path.len()] != i {
                            continue;
                        }
                        let mut q = p.clone();
                        let mut n = m.clone();
                        match op {
                            Op::Set(s, pc) => {
                                n.board[s as usize] = pc;
                                q.piece_set(t().sq[s as usize], t().pc[pc as usize]);
                            }
                            Op::Mv(mv) => {
                                let v = n.make_move(mv);
                                if v != Verdict::Accepted {
                                    continue;
                                }
                                let _ = q.make_move(to_move(mv));
                            }
                            Op::Turn(c) => {
                                if n.side == c {
                                    continue;
                                }
                                n.side = c;
                                q.side_to_move_set(t().color[c as usize]);
                            }
                        }
                        path.push(op);
                        cx.transitions += 1;
                        check(&q, &n, &|| format!("from the empty board after {:?}", path))?;
                        go(&q, &n, ops, path, depth, cx, first)?;
                        path.pop();
                    }
                    Ok(())
                }
                let first = [(u / n_ops) as usize, (u % n_ops) as usize];
                cx.states += 1;
                go(&PartialPosition::empty(), &M::empty(), &ops, &mut Vec::new(), depth, cx, &first)
            },
        ));
        v.push(section(
            "one-step-normal",
            "each origin and destination x each piece on the origin x each occupant of the destination x promotion: derived sets after the move",
            81 * 81,
            move |u, cx| {
                let (from, to) = ((u / 81) as u8, (u % 81) as u8);
                let t = t();
                let mut bg = M::empty();
                bg.board[(from as usize + 5) % 81] = 8;
                bg.board[(to as usize + 17) % 81] = 24;
                for piece in all_pieces() {
                    for target in std::iter::once(0).chain(all_pieces()) {
                        if from == to {
                            continue;
                        }
                        let mut m = bg.clone();
                        m.side = side_of(piece);
                        m.board[to as usize] = target;
                        m.board[from as usize] = piece;
                        for promote in [false, true] {
                            let mv = Mv::Normal { from, to, promote };
                            if m.verdict(mv) != Verdict::Accepted {
                                continue;
                            }
                            let mut p = build(&m);
                            p.side_to_move_set(t.color[m.side as usize]);
                            let mut n = m.clone();
                            n.make_move(mv);
                            let _ = p.make_move(to_move(mv));
                            cx.transitions += 1;
                            cx.states += 1;
                            cx.traces += 1;
                            check(&p, &n, &|| format!("{} + {}", m.show(), show_move(mv)))?;
                        }
                    }
                }
                Ok(())
            },
        ));
        let r = roots.clone();
        v.push(section(
            "roots",
            "each root and each accepted move from it (both forms, with and without history): derived sets by comparison and by membership",
            roots.len() as u64 * 2,
            move |u, cx| {
                let mut m = r[u as usize / 2].1.clone();
                if u % 2 == 1 {
                    m.side = 1 - m.side;
                }
                let p = build(&m);
                let pos = Position::arbitrary_position(p.clone());
                derived_slow(&p, &m)?;
                derived_slow(&pos, &m)?;
                cx.states += 1;
                for &(mv, imv) in &t().moves {
                    let mut n = m.clone();
                    if n.make_move(mv) != Verdict::Accepted {
                        continue;
                    }
                    let mut q = p.clone();
                    let _ = q.make_move(imv);
                    check(&q, &n, &|| format!("{} + {}", m.show(), show_move(mv)))?;
                    derived_slow(&q, &n)?;
                    let mut q = pos.clone();
                    let _ = q.make_compact_move(to_compact(mv));
                    check(&q, &n, &|| format!("{} + {} (compact, with history)", m.show(), show_move(mv)))?;
                    derived_slow(&q, &n)?;
                    cx.transitions += 2;
                    cx.traces += 2;
                    cx.outcome("accepted");
                }
                Ok(())
            },
        ));
        v.push(section("fresh", "empty, starting and default positions", 1, |_, cx| {
            for (p, m) in [
                (PartialPosition::empty(), M::empty()),
                (PartialPosition::startpos(), M::startpos()),
                (PartialPosition::default(), M::startpos()),
            ] {
                if let Some(d) = all_diff(&p, &m) {
                    fail!("{}: {}", m.show(), d);
                }
                derived_slow(&p, &m)?;
                let q = Position::arbitrary_position(p.clone());
                derived_slow(&q, &m)?;
                cx.states += 1;
                cx.transitions += 1;
                cx.traces += 1;
            }
            for p in [Position::startpos(), Position::default()] {
                if let Some(d) = all_diff(&p, &M::startpos()) {
                    fail!("starting position with history: {}", d);
                }
                derived_slow(&p, &M::startpos())?;
            }
            Ok(())
        }));
        let ws = Arc::new(roots::worlds(tier));
        let w = ws.clone();
        let cap = tier.pick(60_000, 400_000);
        v.push(section(
            "worlds",
            "every accepted move of every position of the small worlds",
            ws.len() as u64,
            move |u, cx| {
                let (_, squares, root) = &w[u as usize];
                let alphabet = roots::local_alphabet(squares, &all_pieces());
                let mut n = 0;
                let mut step = |_: &PartialPosition, _: &M, q: &PartialPosition, after: &M, mv: Mv, verdict: Verdict, _ok: bool| {
                    if verdict == Verdict::Accepted {
                        n += 1;
                        check(q, after, &|| show_move(mv))?;
                    }
                    Ok(())
                };
                let done = roots::bfs(
                    root,
                    build(root),
                    &mut roots::Bfs { alphabet: &alphabet, max_states: cap, max_depth: usize::MAX, step: &mut step, merge: None },
                    cx,
                )?;
                cx.outcome(if done { "world explored to its fixpoint" } else { "world capped" });
                cx.outcomes_add("accepted", n);
                Ok(())
            },
        ));
        let shuttle = tier.pick(3_000, 60_000);
        v.push(section("long-game", "a complete game with all captures and drops, then shuttling: derived sets at each step", 1, move |_, cx| {
            let mut p = Position::startpos();
            let mut n = 0;
            roots::long_game(shuttle, |m, mv| {
                n += 1;
                let _ = p.make_move(to_move(mv));
                check(&p, m, &|| format!("after {} moves of the long game", n))?;
                derived_slow(&p, m)
            })?;
            cx.transitions += n;
            cx.states += n;
            cx.traces += 1;
            Ok(())
        }));
        let edited = Arc::new(edits::worlds(tier));
        let n = edited.len() as u64;
        v.push(section(
            "edited worlds",
            "breadth-first search over moves, sets of squares, changes of turn and of hands on a few squares, to the fixpoint; the last move is part of the state",
            n,
            move |u, cx| {
                let (name, ops, limit) = &edited[u as usize];
                edits::explore(ops, *limit, tier.pick(60_000, 600_000), |p, m| derived_diff(p, m), cx)?;
                cx.sample(|| format!("world {} of {} operations", name, ops.len()));
                Ok(())
            },
        ));
        v.push(edits::position_section(tier, |p, m| derived_diff(p, m)));
        v
    });
}
