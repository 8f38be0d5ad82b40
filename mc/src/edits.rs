//! Positions that are edited between moves: breadth-first search over moves, sets of squares, changes of the turn and of
//! hands, in small worlds. The last move is part of the state, so it meets every board that an edit can make.
use crate::model::*;
use crate::obs::*;
use crate::roots::{key, Key};
use crate::runner::*;
use shogi_core::*;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Make(Mv),
    Set(u8, u8),
    Turn,
    Hand(u8, u8, u8),
}
pub fn show(o: Op) -> String {
    match o {
        Op::Make(m) => show_move(m),
        Op::Set(s, 0) => format!("clear {}", square_text(s)),
        Op::Set(s, p) => format!("set {} {}", square_text(s), piece_text(p)),
        Op::Turn => "turn".to_string(),
        Op::Hand(side, k, n) => format!("hand {} {} {}", side, letter(k), n),
    }
}
pub fn model(m: &mut M, o: Op) -> Option<Verdict> {
    match o {
        Op::Make(mv) => return Some(m.make_move(mv)),
        Op::Set(s, p) => m.board[s as usize] = p,
        Op::Turn => m.side = 1 - m.side,
        Op::Hand(side, k, n) => m.hands[side as usize][k as usize - 1] = n,
    }
    None
}
/// Whether a move was accepted.
pub fn real(p: &mut PartialPosition, m_after: &M, o: Op) -> Option<bool> {
    let t = t();
    match o {
        Op::Make(mv) => return Some(p.make_move(to_move(mv)).is_some()),
        Op::Set(s, x) => p.piece_set(t.sq[s as usize], t.pc[x as usize]),
        Op::Turn => p.side_to_move_set(p.side_to_move().flip()),
        Op::Hand(side, _, _) => *p.hand_of_a_player_mut(t.color[side as usize]) = make_hand(&m_after.hands[side as usize]),
    }
    None
}

/// (name, operations, limit of counts in hands)
pub fn worlds(tier: Tier) -> Vec<(&'static str, Vec<Op>, u8)> {
    let ops = |squares: &[u8], pieces: &[u8], hands: &[u8]| {
        let mut v = vec![Op::Turn];
        for &s in squares {
            v.push(Op::Set(s, 0));
            v.extend(pieces.iter().map(|&p| Op::Set(s, p)));
            for &to in squares {
                for promote in [false, true] {
                    v.push(Op::Make(Mv::Normal { from: s, to, promote }));
                }
            }
            for &k in hands {
                for side in 0..2 {
                    v.push(Op::Make(Mv::Drop { piece: make_piece(k, side), to: s }));
                }
            }
        }
        for &k in hands {
            for side in 0..2 {
                v.extend((0..2).map(|n| Op::Hand(side, k, n)));
            }
        }
        v
    };
    let mut v = vec![
        ("pawns", ops(&[60, 61], &[1, 17, 9, 25], &[1]), 2),
        ("golds over the word boundary", ops(&[62, 63], &[5, 21], &[5]), 2),
        ("kings and a rook", ops(&[0, 80], &[8, 24, 7, 30], &[7]), 1),
        ("bishops of both sides", ops(&[40, 44], &[6, 22, 13, 29], &[6]), 1),
    ];
    v.push(("silvers of both sides", ops(&[9, 10], &[4, 20, 12, 28], &[4]), 3));
    v.push(("three squares", ops(&[62, 63, 64], &[4, 20, 12], &[4]), 1));
    v.push(("two kinds", ops(&[8, 72], &[2, 18, 3, 19, 26], &[2, 3]), 1));
    v.push(("kings on three squares", ops(&[4, 40, 76], &[8, 24, 23], &[7]), 1));
    if tier == Tier::Thorough {
        v.push(("three squares, two kinds", ops(&[53, 54, 62], &[4, 20, 5, 21, 28], &[4, 5]), 1));
        v.push(("four squares", ops(&[0, 1, 9, 80], &[1, 17, 25], &[1]), 2));
    }
    v
}

/// Returns whether the graph was explored completely.
pub fn explore(
    ops: &[Op],
    limit: u8,
    cap: usize,
    check: impl FnMut(&PartialPosition, &M) -> Option<String>,
    cx: &mut Cx,
) -> Result<bool, String> {
    explore_meeting(ops, limit, cap, check, |_, _| None, cx)
}
/// `meet` gets each position together with the one that reached the same state first (their ply numbers made equal).
pub fn explore_meeting(
    ops: &[Op],
    limit: u8,
    cap: usize,
    mut check: impl FnMut(&PartialPosition, &M) -> Option<String>,
    mut meet: impl FnMut(&PartialPosition, &PartialPosition) -> Option<String>,
    cx: &mut Cx,
) -> Result<bool, String> {
    let root = M::empty();
    let mut seen: HashMap<Key, usize> = HashMap::new();
    let mut nodes = vec![(root.clone(), build(&root), 0usize, None::<Op>)];
    seen.insert(key(&root), 0);
    let mut complete = true;
    let mut i = 0;
    let mut verdicts = [0u64; 2];
    while i < nodes.len() {
        for &o in ops {
            let mut m = nodes[i].0.clone();
            let mut p = nodes[i].1.clone();
            let verdict = model(&mut m, o);
            let ok = real(&mut p, &m, o);
            cx.transitions += 1;
            let k = key(&m);
            let bad = if ok != verdict.map(|v| v == Verdict::Accepted) {
                Some(format!("the rules say {:?}, the code {:?}", verdict, ok))
            } else {
                check(&p, &m).or_else(|| {
                    if ok == Some(false) {
                        return None;
                    }
                    let first = &nodes[*seen.get(&k)?].1;
                    let mut p = p.clone();
                    let _ = p.ply_set(first.ply());
                    meet(&p, first)
                })
            };
            if let Some(e) = bad {
                let mut path = vec![o];
                let mut j = i;
                while let Some(x) = nodes[j].3 {
                    path.push(x);
                    j = nodes[j].2;
                }
                path.reverse();
                return Err(format!("empty position, then {}: {}", path.iter().map(|&x| show(x)).collect::<Vec<_>>().join(", "), e));
            }
            if let Some(ok) = ok {
                verdicts[ok as usize] += 1;
            }
            if m.hands.iter().flatten().any(|&n| n > limit) {
                continue;
            }
            if !seen.contains_key(&k) {
                if nodes.len() >= cap {
                    complete = false;
                    continue;
                }
                seen.insert(k, nodes.len());
                nodes.push((m, p, i, Some(o)));
                cx.states += 1;
            }
        }
        i += 1;
    }
    cx.traces += nodes.len() as u64;
    cx.outcomes_add("accepted", verdicts[1]);
    cx.outcomes_add("rejected", verdicts[0]);
    cx.outcome(if complete { "world explored to its fixpoint" } else { "world capped" });
    Ok(complete)
}

/// Operations for positions with history: moves, and edits by the deprecated methods.
pub fn position_ops() -> Vec<Op> {
    vec![
        Op::Set(62, 0),
        Op::Set(62, 5),
        Op::Set(62, 21),
        Op::Set(63, 24),
        Op::Set(63, 0),
        Op::Set(9, 8),
        Op::Hand(0, 5, 0),
        Op::Hand(0, 5, 1),
        Op::Hand(1, 5, 1),
        Op::Make(Mv::Normal { from: 62, to: 63, promote: false }),
        Op::Make(Mv::Normal { from: 63, to: 62, promote: false }),
        Op::Make(Mv::Drop { piece: 5, to: 63 }),
        Op::Make(Mv::Drop { piece: 21, to: 64 }),
    ]
}

/// Every sequence of `depth` operations on a position with history, beginning with the given ones; nothing is merged, as
/// the history is part of the state. `check` gets the position after every operation if `each`, otherwise only the final ones.
#[allow(deprecated)]
pub fn explore_position(
    root: &M,
    first: &[usize],
    depth: usize,
    each: bool,
    mut check: impl FnMut(&Position, &M) -> Option<String>,
    cx: &mut Cx,
) -> R {
    struct Walk<'a, F> {
        ops: Vec<Op>,
        path: Vec<Op>,
        first: &'a [usize],
        depth: usize,
        each: bool,
        check: F,
    }
    fn go<F: FnMut(&Position, &M) -> Option<String>>(w: &mut Walk<F>, p: &Position, m: &M, cx: &mut Cx) -> R {
        if w.path.len() == w.depth {
            cx.traces += 1;
            return Ok(());
        }
        for i in 0..w.ops.len() {
            if w.path.len() < w.first.len() && w.first[w.path.len()] != i {
                continue;
            }
            let op = w.ops[i];
            let mut n = m.clone();
            let verdict = model(&mut n, op);
            // a copy that has been asked as much as the original
            let mut q = p.clone();
            let ok = match op {
                Op::Make(mv) => Some(q.make_move(to_move(mv)).is_some()),
                Op::Set(s, x) => {
                    q.piece_set(t().sq[s as usize], t().pc[x as usize]);
                    None
                }
                Op::Hand(side, _, _) => {
                    *q.hand_of_a_player_mut(t().color[side as usize]) = make_hand(&n.hands[side as usize]);
                    None
                }
                Op::Turn => unreachable!(),
            };
            w.path.push(op);
            cx.transitions += 1;
            let text = |w: &Walk<F>| w.path.iter().map(|&x| show(x)).collect::<Vec<_>>().join(", ");
            if ok != verdict.map(|v| v == Verdict::Accepted) {
                fail!("position with history, then {}: the rules say {:?}, the code {:?}", text(w), verdict, ok);
            }
            if w.each || w.path.len() == w.depth {
                if let Some(e) = (w.check)(&q, &n) {
                    fail!("position with history, then {}: {}", text(w), e);
                }
            }
            // a rejected move leads nowhere new
            if ok != Some(false) {
                cx.states += 1;
                go(w, &q, &n, cx)?;
            }
            w.path.pop();
        }
        Ok(())
    }
    let p = Position::arbitrary_position(build(root));
    if each {
        if let Some(e) = check(&p, root) {
            fail!("position with history: {}", e);
        }
    }
    let mut w = Walk { ops: position_ops(), path: Vec::new(), first, depth, each, check };
    go(&mut w, &p, root, cx)
}

/// A section of all those sequences, each unit twice: asked after every operation, and only at the end.
pub fn position_section(tier: Tier, check: fn(&Position, &M) -> Option<String>) -> Section {
    let n = position_ops().len() as u64;
    let depth = tier.pick(5usize, 6);
    section(
        "positions with history, edited",
        &format!("all sequences of {} of {} operations (moves, and sets of squares and hands by the deprecated methods) on a position with history, asked after each or only at the end", depth, n),
        n * n * 2,
        move |u, cx| {
            let (u, each) = (u / 2, u % 2 == 0);
            let mut root = M::empty();
            root.board[0] = 8;
            root.hands[1][4] = 1;
            explore_position(&root, &[(u / n) as usize, (u % n) as usize], depth, each, check, cx)
        },
    )
}
