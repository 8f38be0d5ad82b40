//! C19: provided legality operations gate on the game status and obey the checker.
//!
//! The checker is the environment: every answer it may give is enumerated. It gives the answer under test only when it is
//! asked about the right position and the right move; asked about anything else, it gives a different one.
use mc::*;
use shogi_core::*;
use std::cell::Cell;
use std::sync::Arc;

const STATUS: [PositionStatus; 5] = [
    PositionStatus::BlackWins,
    PositionStatus::WhiteWins,
    PositionStatus::Draw,
    PositionStatus::InProgress,
    PositionStatus::Invalid,
];
const KINDS: [IllegalMoveKind; 7] = [
    IllegalMoveKind::IncorrectMove,
    IllegalMoveKind::TwoPawns,
    IllegalMoveKind::IgnoredCheck,
    IllegalMoveKind::DropPawnMate,
    IllegalMoveKind::DropStuck,
    IllegalMoveKind::NormalStuck,
    IllegalMoveKind::GameFinished,
];
/// 0: legal, 1..=7: that kind of illegality.
type Answer = u8;
fn verdict(a: Answer) -> Result<(), IllegalMoveKind> {
    match a {
        0 => Ok(()),
        k => Err(KINDS[k as usize - 1]),
    }
}

/// One assignment of answers.
#[derive(Clone)]
struct Env {
    /// What it should be asked about.
    position: Position,
    mv: Move,
    status: PositionStatus,
    /// The status of the current position alone; the provided operations must go by the history.
    partial: PositionStatus,
    legal: Answer,
    lite: bool,
    list: Vec<Move>,
    strangers: Cell<u32>,
}
impl Env {
    fn knows(&self, p: &PartialPosition) -> bool {
        let ok = p == self.position.inner();
        if !ok {
            self.strangers.set(self.strangers.get() + 1);
        }
        ok
    }
}
impl LegalityChecker for Env {
    fn status(&self, p: &Position) -> PositionStatus {
        if *p == self.position && p.moves() == self.position.moves() {
            self.status
        } else {
            self.strangers.set(self.strangers.get() + 1);
            if self.status == PositionStatus::InProgress { PositionStatus::Draw } else { PositionStatus::InProgress }
        }
    }
    fn status_partial(&self, p: &PartialPosition) -> PositionStatus {
        self.knows(p);
        self.partial
    }
    fn is_legal_partial(&self, p: &PartialPosition, mv: Move) -> Result<(), IllegalMoveKind> {
        if self.knows(p) && mv == self.mv {
            verdict(self.legal)
        } else {
            verdict((self.legal + 1) % 8)
        }
    }
    fn is_legal_partial_lite(&self, p: &PartialPosition, mv: Move) -> bool {
        self.lite == (self.knows(p) && mv == self.mv)
    }
    fn all_legal_moves_partial(&self, p: &PartialPosition) -> Vec<Move> {
        if self.knows(p) {
            self.list.clone()
        } else {
            vec![self.mv; self.list.len() + 1]
        }
    }
    fn normal_from_candidates(&self, _: &PartialPosition, from: Square) -> Bitboard {
        Bitboard::single(from)
    }
    fn normal_to_candidates(&self, _: &PartialPosition, to: Square, _: Piece) -> Bitboard {
        Bitboard::single(to)
    }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
}

#[derive(Clone)]
struct State {
    p: Position,
    initial: M,
    m: M,
    history: Vec<Mv>,
}
impl State {
    fn diff(&self, q: &Position) -> Option<String> {
        history_diff(q, &self.initial, &self.history, &self.m)
    }
}

/// All provided operations under one assignment of answers.
fn probe(s: &State, env: &Env, mv: Mv, cx: &mut Cx) -> R {
    let imv = to_move(mv);
    let running = env.status == PositionStatus::InProgress;
    let what = || {
        format!(
            "{} + {}: status {:?} ({:?} for the current position alone), answer {:?}, lite {}, {} moves",
            s.m.show(), show_move(mv), env.status, env.partial, verdict(env.legal), env.lite, env.list.len()
        )
    };
    let d: &dyn LegalityChecker = env;
    for _ in 0..2 {
        let expected = if running { verdict(env.legal) } else { Err(IllegalMoveKind::GameFinished) };
        same!(env.is_legal(&s.p, imv), expected, "is_legal, {}", what());
        same!(d.is_legal(&s.p, imv), expected, "dyn is_legal, {}", what());
        let lite = running && env.lite;
        same!(env.is_legal_lite(&s.p, imv), lite, "is_legal_lite, {}", what());
        same!(d.is_legal_lite(&s.p, imv), lite, "dyn is_legal_lite, {}", what());
        let list: &[Move] = if running { &env.list } else { &[] };
        same!(env.all_legal_moves(&s.p)[..], list[..], "all_legal_moves, {}", what());
        cx.transitions += 5;
    }
    if let Some(x) = s.diff(&s.p) {
        fail!("a query changed the position, {}: {}", what(), x);
    }
    make(s, env, mv, false, cx).map(|_| ()).map_err(|e| format!("{}, {}", e, what()))?;
    if env.strangers.get() != 0 {
        cx.outcome("asked about something else (allowed, if the result is right)");
    }
    Ok(())
}

/// The provided move operation. A checker must answer "legal" only for moves that can be made.
fn make(s: &State, env: &Env, mv: Mv, through_dyn: bool, cx: &mut Cx) -> Result<State, String> {
    let mut next = s.clone();
    let acceptable = s.m.verdict(mv) == Verdict::Accepted;
    let running = env.status == PositionStatus::InProgress;
    if running && env.legal == 0 && !acceptable {
        return Ok(next);
    }
    let r = if through_dyn {
        let d: &dyn LegalityChecker = env;
        d.make_move(&mut next.p, to_move(mv))
    } else {
        env.make_move(&mut next.p, to_move(mv))
    };
    cx.transitions += 1;
    let expected = if running { verdict(env.legal) } else { Err(IllegalMoveKind::GameFinished) };
    if r != expected {
        fail!("make_move gave {:?}, expected {:?}", r, expected);
    }
    if expected.is_ok() {
        next.m.make_move(mv);
        next.history.push(mv);
        cx.outcome("made");
    } else {
        if next.p != s.p {
            fail!("make_move failed with {:?} but the position is unequal to what it was", r);
        }
        cx.outcome("refused");
    }
    if let Some(x) = next.diff(&next.p) {
        fail!("make_move gave {:?}; {}", r, x);
    }
    Ok(next)
}

fn states() -> Vec<State> {
    let mut v = Vec::new();
    for (_, m) in roots::roots() {
        let s = State { p: Position::arbitrary_position(build(&m)), initial: m.clone(), m, history: vec![] };
        let mut x = s.clone();
        v.push(s);
        // after one and after three moves
        for n in 0..3usize {
            let mv = t().moves.iter().map(|y| y.0).filter(|&y| x.m.verdict(y) == Verdict::Accepted).nth(n * 11);
            if let Some(mv) = mv {
                assert!(x.p.make_move(to_move(mv)).is_some());
                x.m.make_move(mv);
                x.history.push(mv);
                if n != 1 {
                    v.push(x.clone());
                }
            }
        }
    }
    v
}

fn main() {
    runner::main(|tier| {
        let st = Arc::new(states());
        let n = st.len() as u64;
        let mut out = Vec::new();

        // Few moves, all answers.
        let s = st.clone();
        let stride = tier.pick(401, 23);
        out.push(section(
            "all answers",
            &format!("each position (roots; after one and three moves) x every {}th move x 5 statuses x 5 statuses of the current position x 8 verdicts x 2 short verdicts x 4 move lists", stride),
            n,
            move |u, cx| {
                let s = &s[u as usize];
                let some: Vec<Move> = t().moves.iter().filter(|x| s.m.verdict(x.0) == Verdict::Accepted).map(|x| x.1).collect();
                let lists = [vec![], some.iter().take(1).cloned().collect(), some.iter().rev().cloned().collect::<Vec<_>>(), vec![t().moves[5].1; 3]];
                for (mv, imv) in t().moves.iter().skip(u as usize % stride).step_by(stride) {
                    let mut env = Env {
                        position: s.p.clone(),
                        mv: *imv,
                        status: STATUS[0],
                        partial: STATUS[0],
                        legal: 0,
                        lite: false,
                        list: vec![],
                        strangers: Cell::new(0),
                    };
                    for status in STATUS {
                        env.status = status;
                        for partial in STATUS {
                            env.partial = partial;
                            for legal in 0..8 {
                                env.legal = legal;
                                for k in 0..4 {
                                    env.list = lists[k].clone();
                                    // The short verdict varies with the list: all pairs with the list over both parities
                                    for lite in [false, true] {
                                        if k >= 2 && (lite == (k == 2)) {
                                            continue;
                                        }
                                        env.lite = lite;
                                        env.strangers.set(0);
                                        probe(s, &env, *mv, cx)?;
                                        cx.states += 1;
                                    }
                                }
                            }
                        }
                    }
                    cx.traces += 1;
                    cx.sample(|| format!("{} + {}: all answers", s.m.show(), show_move(*mv)));
                }
                Ok(())
            },
        ));

        // All moves, the answers that matter.
        let s = st.clone();
        out.push(section("all moves", "each position x each move x status in progress or not x 8 verdicts: the move operation and the verdicts", n, move |u, cx| {
            let s = &s[u as usize];
            for (i, (mv, imv)) in t().moves.iter().enumerate() {
                for k in 0..10u8 {
                    let env = Env {
                        position: s.p.clone(),
                        mv: *imv,
                        status: if k < 8 { PositionStatus::InProgress } else { STATUS[[0, 1, 2, 4][(i + k as usize) % 4]] },
                        partial: STATUS[(i + k as usize) % 5],
                        legal: if k < 8 { k } else { k - 8 },
                        lite: (i / 2 + k as usize) % 2 == 0,
                        list: vec![],
                        strangers: Cell::new(0),
                    };
                    let expected = if k < 8 { verdict(env.legal) } else { Err(IllegalMoveKind::GameFinished) };
                    same!(env.is_legal(&s.p, *imv), expected, "is_legal: {} + {}, status {:?}", s.m.show(), show_move(*mv), env.status);
                    same!(env.is_legal_lite(&s.p, *imv), k < 8 && env.lite, "is_legal_lite: {} + {}, status {:?}", s.m.show(), show_move(*mv), env.status);
                    cx.transitions += 2;
                    let a = make(s, &env, *mv, i % 2 == 1, cx).map_err(|e| format!("{} + {}, status {:?}: {}", s.m.show(), show_move(*mv), env.status, e))?;
                    cx.states += 1;
                    if a.history.len() > s.history.len() {
                        cx.traces += 1;
                    }
                }
            }
            Ok(())
        }));

        // Sequences: the environment answers anew at each step.
        let depth = tier.pick(4, 5);
        let worlds = Arc::new(roots::worlds(Tier::Quick));
        let w = worlds.clone();
        out.push(section(
            "sequences",
            &format!("small worlds: every sequence to depth {} of moves through the checker, with every combination of in progress or won or drawn and legal or two kinds of refusal at each step", depth),
            worlds.len() as u64,
            move |u, cx| {
                let (_, squares, m) = &w[u as usize];
                let s = State { p: Position::arbitrary_position(build(m)), initial: m.clone(), m: m.clone(), history: vec![] };
                let alphabet: Vec<Mv> = roots::local_alphabet(squares, &[1, 17, 4]).into_iter().map(|x| x.0).collect();
                fn go(s: &State, alphabet: &[Mv], depth: usize, cx: &mut Cx) -> R {
                    cx.states += 1;
                    for &mv in alphabet {
                        let can = s.m.verdict(mv) == Verdict::Accepted;
                        for (status, legal) in [(3, 0), (3, 1), (3, 7), (0, 0), (2, 0), (4, 3)] {
                            let env = Env {
                                position: s.p.clone(),
                                mv: to_move(mv),
                                status: STATUS[status],
                                partial: STATUS[3],
                                legal,
                                lite: true,
                                list: vec![],
                                strangers: Cell::new(0),
                            };
                            let a = make(s, &env, mv, legal == 1, cx).map_err(|e| format!("{} + {}, status {:?}: {}", s.m.show(), show_move(mv), env.status, e))?;
                            if can && status == 3 && legal == 0 {
                                cx.traces += 1;
                                if depth > 1 {
                                    go(&a, alphabet, depth - 1, cx)?;
                                }
                            }
                        }
                    }
                    Ok(())
                }
                go(&s, &alphabet, depth, cx)
            },
        ));

        // Long lists and long histories.
        out.push(section("long", "lists of 0 to 600 moves and of all moves; a history of 400 moves made through the checker", 1, |_, cx| {
            let m = M::startpos();
            let mut s = State { p: Position::startpos(), initial: m.clone(), m, history: vec![] };
            let env = |s: &State, mv: Mv, list: Vec<Move>, status| Env {
                position: s.p.clone(),
                mv: to_move(mv),
                status,
                partial: PositionStatus::Invalid,
                legal: 0,
                lite: true,
                list,
                strangers: Cell::new(0),
            };
            let first = Mv::Normal { from: 60, to: 59, promote: false };
            for n in (0..=600).chain([t().moves.len()]) {
                let list: Vec<Move> = t().moves.iter().rev().take(n).map(|x| x.1).collect();
                for status in STATUS {
                    let e = env(&s, first, list.clone(), status);
                    let got = e.all_legal_moves(&s.p);
                    if status == PositionStatus::InProgress {
                        ensure!(got == list, "all_legal_moves gives {} moves for a list of {}", got.len(), n);
                    } else {
                        ensure!(got.is_empty(), "all_legal_moves gives {} moves with status {:?}", got.len(), status);
                    }
                    cx.transitions += 1;
                }
                cx.states += 1;
            }
            let mut moves = Vec::new();
            roots::long_game(260, |_, mv| {
                moves.push(mv);
                Ok(())
            })?;
            for mv in moves {
                for status in STATUS {
                    if status != PositionStatus::InProgress {
                        make(&s, &env(&s, mv, vec![], status), mv, false, cx)?;
                    }
                }
                s = make(&s, &env(&s, mv, vec![], PositionStatus::InProgress), mv, false, cx)?;
            }
            cx.traces += 1;
            ensure!(s.history.len() == 400, "{} moves were made", s.history.len());
            Ok(())
        }));
        out
    })
}
