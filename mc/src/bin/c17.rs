//! C17: a position with history equals its initial position plus its moves.
use mc::*;
use shogi_core::*;
use std::sync::Arc;

#[derive(Clone)]
struct State {
    p: Position,
    initial: M,
    m: M,
    history: Vec<Mv>,
}
impl State {
    fn new(p: PartialPosition, m: &M) -> State {
        State { p: Position::arbitrary_position(p), initial: m.clone(), m: m.clone(), history: Vec::new() }
    }
    fn check(&self) -> R {
        if let Some(d) = history_diff(&self.p, &self.initial, &self.history, &self.m).or_else(|| delegation_diff(&self.p)) {
            fail!("{}: {}", self.show(), d);
        }
        Ok(())
    }
    fn show(&self) -> String {
        format!(
            "from {} after [{}]",
            self.initial.show(),
            self.history.iter().rev().take(20).rev().map(|&x| show_move(x)).collect::<Vec<_>>().join(", ")
        )
    }
    /// What replaying the recorded moves gives.
    fn replay(&self) -> R {
        let mut q = self.p.initial_position().clone();
        let mut r = Position::arbitrary_position(self.p.initial_position().clone());
        for (i, &mv) in self.p.moves().iter().enumerate() {
            ensure!(q.make_move(mv).is_some(), "{}: replaying move {} ({:?}) is rejected", self.show(), i, mv);
            ensure!(r.make_compact_move(mv.into()), "{}: replaying move {} ({:?}) is rejected", self.show(), i, mv);
        }
        ensure!(q == *self.p.inner(), "{}: the current position is not what replaying the moves gives", self.show());
        ensure!(r == self.p, "{}: replaying gives an unequal position with history", self.show());
        ensure!(r.moves() == self.p.moves(), "{}: replaying gives other moves", self.show());
        Ok(())
    }
    fn make(&mut self, mv: Mv, form: u8) -> R {
        let v = self.m.make_move(mv) == Verdict::Accepted;
        let ok = match form {
            0 => self.p.make_move(to_move(mv)).is_some(),
            _ => self.p.make_compact_move(to_compact(mv)),
        };
        ensure!(ok == v, "{} + {} (form {}): accepted {}, expected {}", self.show(), show_move(mv), form, ok, v);
        if v {
            self.history.push(mv);
        }
        Ok(())
    }
}

/// Starting points: roots fresh, and roots that already have a last move.
fn starts() -> Vec<(PartialPosition, M)> {
    let mut v = Vec::new();
    for (_, m) in roots::roots() {
        let p = build(&m);
        for n in [0usize, 37] {
            if let Some(mv) = t().moves.iter().map(|x| x.0).filter(|&x| m.verdict(x) == Verdict::Accepted).nth(n) {
                let mut m2 = m.clone();
                m2.make_move(mv);
                let mut q = p.clone();
                assert!(q.make_move(to_move(mv)).is_some());
                v.push((q, m2));
            }
        }
        v.push((p, m));
    }
    for ply in [65534, 65535] {
        let mut m = M::startpos();
        m.ply = ply;
        v.push((build(&m), m));
    }
    v
}

/// All sequences of moves in a world to a depth; each prefix is checked. Every other node clones before going on, the
/// rest move in place and continue on the clone taken before.
fn dfs(s: &State, alphabet: &[Mv], depth: usize, k: &mut u64, cx: &mut Cx) -> R {
    for &mv in alphabet {
        *k += 1;
        let mut a = s.clone();
        a.make(mv, (*k % 2) as u8)?;
        a.check()?;
        cx.transitions += 1;
        if a.m == s.m {
            ensure!(a.p == s.p, "{} + rejected {}: unequal", s.show(), show_move(mv));
            continue;
        }
        ensure!(a.p != s.p, "{} + {}: equal to the position before", s.show(), show_move(mv));
        cx.states += 1;
        a.replay()?;
        cx.traces += 1;
        cx.sample(|| a.show());
        if depth > 1 {
            dfs(&a, alphabet, depth - 1, k, cx)?;
        }
        // What came from the clone must not have reached the original.
        s.check()?;
    }
    Ok(())
}

/// Operations for the section on edits and clones.
#[derive(Clone, Copy, Debug)]
enum Op {
    Make(usize, Mv, u8),
    Set(usize, u8, u8),
    Hand(usize, u8, u8, bool),
    /// One becomes a clone of the other.
    Clone(usize),
    CloneFrom(usize),
    Swap,
}

fn apply(v: &mut [State; 2], op: Op) -> R {
    match op {
        Op::Make(i, mv, form) => v[i].make(mv, form)?,
        #[allow(deprecated)]
        Op::Set(i, sq, pc) => {
            v[i].p.piece_set(t().sq[sq as usize], t().pc[pc as usize]);
            v[i].m.board[sq as usize] = pc;
        }
        #[allow(deprecated)]
        Op::Hand(i, side, kind, up) => {
            let h = v[i].p.hand_of_a_player_mut(t().color[side as usize]);
            let k = t().kind[kind as usize];
            let n = &mut v[i].m.hands[side as usize][kind as usize - 1];
            if up {
                *h = h.added(k).ok_or("added failed")?;
                *n = n.wrapping_add(1);
            } else {
                let r = h.removed(k);
                ensure!(r.is_some() == (*n > 0), "removed: {:?}, count was {}", r, n);
                if let Some(r) = r {
                    *h = r;
                    *n -= 1;
                }
            }
        }
        Op::Clone(i) => v[i] = v[1 - i].clone(),
        Op::CloneFrom(i) => {
            let o = v[1 - i].clone();
            v[i].p.clone_from(&o.p);
            v[i] = State { p: v[i].p.clone(), ..o };
        }
        Op::Swap => v.swap(0, 1),
    }
    Ok(())
}

/// All sequences of at most so many moves that lead back to the board, hands and side they started from.
fn cycles(start: &M, m: &M, alphabet: &[Mv], depth: usize, path: &mut Vec<Mv>, out: &mut Vec<Vec<Mv>>) {
    if !path.is_empty() && m.board == start.board && m.hands == start.hands && m.side == start.side {
        out.push(path.clone());
        return;
    }
    if depth == 0 {
        return;
    }
    for &mv in alphabet {
        let mut n = m.clone();
        if n.make_move(mv) == Verdict::Accepted {
            path.push(mv);
            cycles(start, &n, alphabet, depth - 1, path, out);
            path.pop();
        }
    }
}
/// Shuttles of one piece of each player.
fn shuttles(m: &M) -> Vec<Vec<Mv>> {
    let steps = |m: &M| -> Vec<(u8, u8)> {
        let v: Vec<(u8, u8)> = t().moves.iter().filter_map(|x| match x.0 {
            Mv::Normal { from, to, promote: false } if m.verdict(x.0) == Verdict::Accepted && m.board[to as usize] == 0 => Some((from, to)),
            _ => None,
        }).collect();
        [v.len() / 7, v.len() / 2, v.len().saturating_sub(1)].iter().filter_map(|&i| v.get(i).copied()).collect()
    };
    let mut out = Vec::new();
    if t().moves.iter().all(|x| m.verdict(x.0) != Verdict::Accepted) {
        return out;
    }
    for (a, b) in steps(m) {
        let mut n = m.clone();
        n.make_move(Mv::Normal { from: a, to: b, promote: false });
        for (c, d) in steps(&n) {
            out.push([(a, b), (c, d), (b, a), (d, c)].iter().map(|&(from, to)| Mv::Normal { from, to, promote: false }).collect());
        }
    }
    out
}
fn lasso(s: &State, cycle: &[Mv], rounds: usize, alphabet: &[Mv], cx: &mut Cx) -> R {
    let mut s = s.clone();
    for round in 0..rounds {
        for (i, &mv) in cycle.iter().enumerate() {
            s.make(mv, (round + i) as u8 % 2)?;
            s.check()?;
            cx.transitions += 1;
        }
        // Leaving the cycle, on a clone.
        let mut a = s.clone();
        for k in 0..alphabet.len() {
            let mv = alphabet[(k + round) % alphabet.len()];
            if a.m.verdict(mv) == Verdict::Accepted {
                a.make(mv, 0)?;
                a.check()?;
                break;
            }
        }
        cx.states += 1;
    }
    s.replay()?;
    cx.traces += 1;
    cx.sample(|| s.show());
    Ok(())
}

fn edits(v: &[State; 2], ops: &[Op], depth: usize, cx: &mut Cx) -> R {
    for &op in ops {
        let mut w = v.clone();
        apply(&mut w, op).map_err(|e| format!("{:?}: {}", op, e))?;
        cx.transitions += 1;
        for s in &w {
            s.check().map_err(|e| format!("after {:?}: {}", op, e))?;
        }
        let same = w[0].initial == w[1].initial && w[0].m == w[1].m && w[0].history == w[1].history;
        ensure!((w[0].p == w[1].p) == same, "after {:?}: {} and {}: equal is {}", op, w[0].show(), w[1].show(), !same);
        if depth > 1 {
            edits(&w, ops, depth - 1, cx).map_err(|e| format!("after {:?}: {}", op, e))?;
        } else {
            cx.traces += 1;
        }
    }
    cx.states += 1;
    for s in v {
        s.check()?;
    }
    Ok(())
}

fn main() {
    runner::main(|tier| {
        let mut out = Vec::new();
        let st = Arc::new(starts());

        let s = st.clone();
        out.push(section(
            "one step",
            "each starting point (roots; roots with a last move; ply about to wrap) x each move in each form: history, queries, replay",
            st.len() as u64 * 2,
            move |u, cx| {
                let (p, m) = &s[u as usize / 2];
                let a = State::new(p.clone(), m);
                a.check()?;
                a.replay()?;
                for &(mv, _) in &t().moves {
                    let mut b = a.clone();
                    b.make(mv, (u % 2) as u8)?;
                    cx.transitions += 1;
                    if let Some(d) = history_diff(&b.p, &b.initial, &b.history, &b.m) {
                        fail!("{} + {}: {}", a.show(), show_move(mv), d);
                    }
                    ensure!((b.p == a.p) == b.history.is_empty(), "{} + {}: equality with the position before", a.show(), show_move(mv));
                    if !b.history.is_empty() {
                        b.check()?;
                        b.replay()?;
                        cx.states += 1;
                        cx.traces += 1;
                        cx.sample(|| b.show());
                    }
                }
                a.check()
            },
        ));

        let s = st.clone();
        let stride = tier.pick(17, 6);
        out.push(section(
            "two and three steps",
            "each starting point x every n-th accepted move x every n-th accepted move x a rejected and an accepted one",
            st.len() as u64,
            move |u, cx| {
                let (p, m) = &s[u as usize];
                let a = State::new(p.clone(), m);
                let accepted = |m: &M, off: usize| -> Vec<Mv> {
                    t().moves.iter().map(|x| x.0).filter(|&x| m.verdict(x) == Verdict::Accepted).skip(off).step_by(stride).collect()
                };
                for (i, mv) in accepted(m, 0).into_iter().enumerate() {
                    let mut b = a.clone();
                    b.make(mv, (i % 2) as u8)?;
                    for (j, mv2) in accepted(&b.m, i % stride).into_iter().enumerate() {
                        let mut c = b.clone();
                        c.make(mv2, (j % 2) as u8)?;
                        c.check()?;
                        // now rejected: the piece belongs to the player who just moved
                        c.make(mv2, 0)?;
                        c.check()?;
                        c.replay()?;
                        cx.transitions += 2;
                        if let Some(&mv3) = accepted(&c.m, j % stride).get(i % 5) {
                            c.make(mv3, (i % 2) as u8)?;
                            c.check()?;
                            c.replay()?;
                            cx.transitions += 1;
                        }
                        cx.states += 1;
                        cx.traces += 1;
                    }
                    b.check()?;
                }
                Ok(())
            },
        ));

        let worlds = Arc::new(roots::worlds(tier));
        let depth = tier.pick(5, 7);
        let w = worlds.clone();
        out.push(section(
            "all sequences",
            &format!("small worlds: every sequence of moves inside the world to depth {}, branching by clones, replayed at every node", depth),
            worlds.len() as u64,
            move |u, cx| {
                let (_, squares, m) = &w[u as usize];
                let pieces: Vec<u8> = [1, 17, 4, 20, 7].to_vec();
                let alphabet: Vec<Mv> = roots::local_alphabet(squares, &pieces).into_iter().map(|x| x.0).collect();
                let s = State::new(build(m), m);
                cx.states += 1;
                dfs(&s, &alphabet, depth, &mut 0, cx)
            },
        ));

        let w = worlds.clone();
        out.push(section(
            "histories of one position",
            "small worlds: each position reached in two ways: equal exactly when the histories are equal, current positions always equal",
            worlds.len() as u64,
            move |u, cx| {
                let (_, squares, m) = &w[u as usize];
                let alphabet = roots::local_alphabet(squares, &[1, 17, 4, 20, 7]);
                let mut step = |b: &Position, bm: &M, a: &Position, am: &M, mv: Mv, v: Verdict, ok: bool| -> R {
                    ensure!(ok == (v == Verdict::Accepted), "{}: accepted {}, expected {:?}", show_move(mv), ok, v);
                    let n = a.moves().len();
                    if ok {
                        ensure!(n == b.moves().len() + 1, "{}: {} moves recorded", show_move(mv), n);
                        ensure!(a.moves()[..n - 1] == *b.moves(), "{}: earlier moves changed", show_move(mv));
                        ensure!(a.moves()[n - 1] == to_move(mv), "{}: recorded as {:?}", show_move(mv), a.moves()[n - 1]);
                    } else {
                        ensure!(a.moves() == b.moves(), "{}: the moves changed", show_move(mv));
                    }
                    ensure!(a.initial_position() == b.initial_position(), "{}: the initial position changed", show_move(mv));
                    let _ = bm;
                    match core_diff(a, am) {
                        Some(d) => Err(format!("{}: {}", show_move(mv), d)),
                        None => Ok(()),
                    }
                };
                let mut merged = 0;
                let mut merge = |a: &Position, b: &Position, _: &M| -> R {
                    merged += 1;
                    ensure!((a == b) == (a.moves() == b.moves() && a.ply() == b.ply()), "equality of {:?} and {:?} is {}", a.moves(), b.moves(), a == b);
                    if a.ply() == b.ply() {
                        ensure!(a.inner() == b.inner(), "current positions after {:?} and {:?} are unequal", a.moves(), b.moves());
                    }
                    Ok(())
                };
                let mut b = roots::Bfs {
                    alphabet: &alphabet,
                    max_states: tier.pick(20000, 200000),
                    max_depth: 60,
                    step: &mut step,
                    merge: Some(&mut merge),
                };
                roots::bfs(m, Position::arbitrary_position(build(m)), &mut b, cx)?;
                cx.outcomes_add("positions reached again", merged);
                Ok(())
            },
        ));

        let (depth, rounds) = tier.pick((6, 18), (8, 40));
        let w = worlds.clone();
        out.push(section(
            "repetitions in small worlds",
            &format!("every sequence of at most {} moves inside the world that leads back to the start (of those with four moves and more, some {} evenly spread), played {} times over, and left after each round", depth, tier.pick(400, 4000), rounds),
            worlds.len() as u64,
            move |u, cx| {
                let (_, squares, m) = &w[u as usize];
                let alphabet: Vec<Mv> = roots::local_alphabet(squares, &[1, 17, 4, 20, 7]).into_iter().map(|x| x.0).collect();
                let mut all = Vec::new();
                cycles(m, m, &alphabet, depth, &mut Vec::new(), &mut all);
                let s = State::new(build(m), m);
                let step = all.len() / tier.pick(400, 4000) + 1;
                for c in all.iter().filter(|c| c.len() < 4).chain(all.iter().filter(|c| c.len() >= 4).step_by(step)) {
                    lasso(&s, c, rounds, &alphabet, cx)?;
                }
                Ok(())
            },
        ));
        let s = st.clone();
        let rounds = tier.pick(70, 300);
        out.push(section(
            "repetitions",
            &format!("each starting point: one piece of each player moves to and fro {} times, and the game is left after each round", rounds),
            st.len() as u64,
            move |u, cx| {
                let (p, m) = &s[u as usize];
                let a = State::new(p.clone(), m);
                let alphabet: Vec<Mv> = t().moves.iter().map(|x| x.0).step_by(7).collect();
                for c in shuttles(m) {
                    lasso(&a, &c, rounds, &alphabet, cx)?;
                }
                Ok(())
            },
        ));

        let depth = tier.pick(3, 5);
        // Every pair of short games.
        let count = tier.pick(600usize, 1600);
        out.push(section(
            "overwritten by another game",
            &format!("games of at most four moves in four small worlds and from the starting position (at most {} of each): each overwritten by each (assigned, clone_from, exchanged), and continued", count),
            48,
            move |u, cx| {
                let mut pool: Vec<State> = Vec::new();
                let shuttle = [(16u8, 25u8), (64, 55), (25, 16), (55, 64), (60, 59), (20, 21)];
                let lists: Vec<Vec<Mv>> = vec![shuttle.iter().map(|&(from, to)| Mv::Normal { from, to, promote: false }).collect(), vec![], vec![]];
                let ws = roots::worlds(Tier::Quick);
                let mut starts = vec![(M::startpos(), lists[0].clone())];
                for k in [1, 4, 9, 14] {
                    let (_, squares, m) = &ws[k];
                    starts.push((m.clone(), roots::local_alphabet(squares, &[1, 17, 4, 20, 7]).into_iter().map(|x| x.0).collect()));
                }
                for (m, alphabet) in &starts {
                    // breadth first, so that every length occurs; long games from the end of the list too
                    let mut level = vec![State::new(build(m), m)];
                    for _ in 0..4 {
                        pool.extend(level.iter().take(count / 4).cloned());
                        let mut next = Vec::new();
                        'all: for s in &level {
                            for &mv in alphabet {
                                if s.m.verdict(mv) == Verdict::Accepted {
                                    let mut a = s.clone();
                                    a.make(mv, 0)?;
                                    next.push(a);
                                    if next.len() > 2000 {
                                        break 'all;
                                    }
                                }
                            }
                        }
                        // evenly, if there are too many
                        let step = next.len().div_ceil(count / 4).max(1);
                        level = next.into_iter().step_by(step).collect();
                    }
                    pool.extend(level.iter().take(count / 4).cloned());
                }
                for (i, a) in pool.iter().enumerate() {
                    if i as u64 % 48 != u {
                        continue;
                    }
                    for b in &pool {
                        for how in 0..3 {
                            let mut p = a.p.clone();
                            let mut other = b.p.clone();
                            match how {
                                0 => p.clone_from(&other),
                                1 => p = other.clone(),
                                _ => std::mem::swap(&mut p, &mut other),
                            }
                            let mut s = State { p, ..b.clone() };
                            s.check().map_err(|e| format!("a game {} overwritten ({}) by another: {}", a.show(), how, e))?;
                            ensure!(s.p == b.p, "a game {} overwritten ({}) by another: unequal to that", a.show(), how);
                            let left = State { p: other, ..if how == 2 { a.clone() } else { b.clone() } };
                            ensure!(left.p == if how == 2 { a.p.clone() } else { b.p.clone() }, "a game {} overwritten ({}) by another: the other changed", a.show(), how);
                            if how == 0 {
                                if let Some(&last) = a.history.last() {
                                    s.make(last, 1)?;
                                    s.check()?;
                                }
                            }
                            cx.transitions += 1;
                        }
                        cx.traces += 1;
                    }
                    cx.states += 1;
                }
                Ok(())
            },
        ));
        out.push(section(
            "edits and clones",
            &format!("two positions, all sequences to depth {} of moves in both forms, deprecated edits, clones, clone_from, exchange", depth),
            24,
            move |u, cx| {
                let mut m = M::empty();
                m.board[62] = 1;
                m.board[63] = 24;
                m.board[64] = 17;
                m.hands[0][0] = 1;
                let a = State::new(build(&m), &m);
                let mut m2 = M::startpos();
                m2.ply = 300;
                m2.side = 1;
                let b = State::new(build(&m2), &m2);
                let n = |from, to, promote| Mv::Normal { from, to, promote };
                let mut ops = Vec::new();
                for i in 0..2 {
                    ops.push(Op::Make(i, n(62, 64, true), 0));
                    ops.push(Op::Make(i, n(63, 62, false), 1));
                    ops.push(Op::Make(i, n(64, 62, false), 0));
                    ops.push(Op::Make(i, n(2, 3, false), 1));
                    ops.push(Op::Make(i, Mv::Drop { piece: 1, to: 40 }, i as u8));
                    ops.push(Op::Set(i, 62, 14));
                    ops.push(Op::Set(i, 2, 0));
                    ops.push(Op::Set(i, 64, 8));
                    ops.push(Op::Hand(i, 0, 1, true));
                    ops.push(Op::Hand(i, 1, 7, false));
                    ops.push(Op::Clone(i));
                    ops.push(Op::CloneFrom(i));
                }
                ops.push(Op::Swap);
                let mut v = [a, b];
                apply(&mut v, ops[u as usize])?;
                edits(&v, &ops, depth, cx).map_err(|e| format!("after {:?}: {}", ops[u as usize], e))
            },
        ));

        let len = tier.pick(70_000usize, 200_000);
        out.push(section(
            "long history",
            &format!("a game of {} moves in both forms: the list, the ply and the clones taken on the way", len),
            2,
            move |u, cx| {
                let m = M::startpos();
                let mut s = State::new(build(&m), &m);
                let mut snaps: Vec<State> = Vec::new();
                roots::long_game(len, |after, mv| {
                    s.make(mv, ((u + s.history.len() as u64) % 2) as u8)?;
                    cx.transitions += 1;
                    cx.states += 1;
                    let n = s.history.len();
                    ensure!(*after == s.m, "model out of step");
                    ensure!(s.p.moves().len() == n, "{} moves recorded after {}", s.p.moves().len(), n);
                    ensure!(s.p.moves()[n - 1] == to_move(mv), "move {} recorded as {:?}", n, s.p.moves()[n - 1]);
                    if let Some(d) = core_diff(&s.p, &s.m) {
                        fail!("after {} moves: {}", n, d);
                    }
                    if n < 600 || n.is_power_of_two() || (n + 1).is_power_of_two() || n % 8192 < 2 || n % 65536 < 3 {
                        s.check().map_err(|e| format!("after {} moves: {}", n, e))?;
                        if n < 400 || n.is_power_of_two() || n % 65536 < 2 {
                            snaps.push(s.clone());
                        }
                    }
                    Ok(())
                })?;
                s.replay()?;
                for x in &snaps {
                    x.check().map_err(|e| format!("clone taken after {} moves: {}", x.history.len(), e))?;
                }
                snaps.last().unwrap().replay()?;
                cx.traces += 1;
                Ok(())
            },
        ));

        out.push(section("constructors", "startpos, default, the C pair, arbitrary_position of every starting point", 1, |_, cx| {
            let mut list: Vec<(&str, Position, M)> = vec![
                ("startpos", Position::startpos(), M::startpos()),
                ("default", Position::default(), M::startpos()),
                ("arbitrary_position(empty)", Position::arbitrary_position(PartialPosition::empty()), M::empty()),
                ("arbitrary_position(startpos)", Position::arbitrary_position(PartialPosition::startpos()), M::startpos()),
            ];
            unsafe {
                let q = Position::Position_startpos();
                list.push(("Position_startpos", (*q).clone(), M::startpos()));
                assert!((*q).make_move(to_move(Mv::Normal { from: 60, to: 59, promote: false })).is_some());
                let r = Position::Position_startpos();
                list.push(("Position_startpos again", (*r).clone(), M::startpos()));
                Position::Position_destruct(q);
                list.push(("Position_startpos after another is gone", (*r).clone(), M::startpos()));
                Position::Position_destruct(r);
            }
            for (n, p, m) in &list {
                let s = State { p: p.clone(), initial: m.clone(), m: m.clone(), history: vec![] };
                s.check().map_err(|e| format!("{}: {}", n, e))?;
                for (n2, p2, m2) in &list {
                    ensure!((p == p2) == (m == m2), "{} == {} is {}", n, n2, p == p2);
                    cx.transitions += 1;
                }
                cx.states += 1;
                cx.traces += 1;
            }
            Ok(())
        }));
        out
    })
}
