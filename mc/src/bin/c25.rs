//! C25: games conserve pieces and alternate turns. No model: only what the positions themselves show is compared.
use mc::*;
use shogi_core::*;
use std::collections::HashSet;
use std::sync::Arc;

/// Pieces by unpromoted kind, on the board and in both hands.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Census {
    total: [u32; 8],
    kings: [u32; 2],
    biggest_hand: u8,
    /// The two ways of asking for a hand agree.
    agree: bool,
}
fn base(k: PieceKind) -> usize {
    match k {
        PieceKind::Pawn | PieceKind::ProPawn => 0,
        PieceKind::Lance | PieceKind::ProLance => 1,
        PieceKind::Knight | PieceKind::ProKnight => 2,
        PieceKind::Silver | PieceKind::ProSilver => 3,
        PieceKind::Gold => 4,
        PieceKind::Bishop | PieceKind::ProBishop => 5,
        PieceKind::Rook | PieceKind::ProRook => 6,
        PieceKind::King => 7,
    }
}
fn census<V: View>(p: &V) -> Census {
    let t = t();
    let mut c = Census { total: [0; 8], kings: [0; 2], biggest_hand: 0, agree: true };
    for s in t.sq {
        if let Some(x) = p.v_at(s) {
            c.total[base(x.piece_kind())] += 1;
            if x.piece_kind() == PieceKind::King {
                c.kings[color_num(x.color()) as usize] += 1;
            }
        }
    }
    for color in t.color {
        let h = p.v_hand_of(color);
        for k in 1..=14 {
            if let Some(n) = h.count(t.kind[k]) {
                c.total[base(t.kind[k])] += n as u32;
                c.biggest_hand = c.biggest_hand.max(n);
                if p.v_hand(Piece::new(t.kind[k], color)) != Some(n) {
                    c.agree = false;
                }
            }
        }
    }
    c
}

/// One move in one form. `None`: rejected.
fn step<V: View>(p: &V, before: &Census, mv: Mv, form: u8) -> Result<Option<(V, Census)>, String> {
    let mut q = p.clone();
    let ok = if form == 0 { q.v_make(to_move(mv)) } else { q.v_make_compact(to_compact(mv)) };
    if !ok {
        return Ok(None);
    }
    let after = census(&q);
    let what = || format!("{} + {} (form {}) = {}", p.v_sfen(), show_move(mv), form, q.v_sfen());
    ensure!(after.agree, "{}: hand(piece) is not what the hand of its player has", what());
    ensure!(after.kings == before.kings, "{}: kings {:?} before, {:?} after", what(), before.kings, after.kings);
    if before.biggest_hand < 255 {
        ensure!(after.total == before.total, "{}: pieces by kind {:?} before, {:?} after", what(), before.total, after.total);
    }
    ensure!(q.v_side() != p.v_side(), "{}: the turn did not pass", what());
    ensure!(q.v_ply() == p.v_ply().wrapping_add(1), "{}: ply {} before, {} after", what(), p.v_ply(), q.v_ply());
    ensure!(q.v_last() == Some(to_move(mv)), "{}: last move {:?}", what(), q.v_last());
    ensure!(q.v_last_compact() == Some(to_compact(mv)), "{}: last compact move {:?}", what(), q.v_last_compact());
    let (Mv::Normal { to, .. } | Mv::Drop { to, .. }) = mv;
    let end = q.v_at(t().sq[to as usize]);
    ensure!(end.map(|x| x.color()) == Some(p.v_side()), "{}: {:?} stands on the destination", what(), end);
    Ok(Some((q, after)))
}

fn starts() -> Vec<(String, M)> {
    roots::roots().into_iter().map(|(n, m)| (n.to_string(), m)).collect()
}

type Seen = (Color, Vec<Option<Piece>>, Vec<Hand>);
fn seen_key<V: View>(p: &V) -> Seen {
    let t = t();
    (p.v_side(), t.sq.iter().map(|&s| p.v_at(s)).collect(), t.color.iter().map(|&c| p.v_hand_of(c)).collect())
}

/// A graph of positions, told apart by what they show, from one start.
fn graph<V: View>(start: V, alphabet: &[Mv], max: usize, cx: &mut Cx) -> R {
    let c = census(&start);
    let mut seen: HashSet<Seen> = HashSet::new();
    seen.insert(seen_key(&start));
    let mut queue = vec![(start, c)];
    let mut i = 0;
    while i < queue.len() {
        let (p, c) = queue[i].clone();
        for (k, &mv) in alphabet.iter().enumerate() {
            cx.transitions += 1;
            if let Some((q, d)) = step(&p, &c, mv, (k % 2) as u8)? {
                if queue.len() < max && seen.insert(seen_key(&q)) {
                    queue.push((q, d));
                }
            }
        }
        i += 1;
    }
    cx.states += queue.len() as u64;
    cx.traces += queue.len() as u64;
    if queue.len() < max {
        cx.outcome("graphs explored completely");
    }
    Ok(())
}

/// One long game by a fixed rule: at each turn the accepted move found first from a place in the list that goes round.
fn game<V: View>(start: V, stride: usize, plies: usize, cx: &mut Cx) -> R {
    let all = &t().moves;
    let first = census(&start);
    let mut c = first;
    let mut p = start;
    let mut at = stride;
    for n in 0..plies {
        let mut found = None;
        for k in 0..all.len() {
            let mv = all[(at + k) % all.len()].0;
            cx.transitions += 1;
            if let Some(x) = step(&p, &c, mv, (n % 2) as u8).map_err(|e| format!("after {} moves: {}", n, e))? {
                found = Some(x);
                at = (at + k + stride) % all.len();
                break;
            }
        }
        match found {
            None => break,
            Some((q, d)) => {
                p = q;
                c = d;
                cx.states += 1;
            }
        }
    }
    ensure!(c.kings == first.kings, "kings changed over the game");
    if c.biggest_hand < 255 && first.biggest_hand < 100 {
        ensure!(c.total == first.total, "pieces changed over the game: {:?} to {:?}", first.total, c.total);
    }
    cx.traces += 1;
    cx.sample(|| format!("stride {}: ends in {}", stride, p.v_sfen()));
    Ok(())
}

fn main() {
    runner::main(|tier| {
        let mut out = Vec::new();
        let st = Arc::new(starts());
        let n = st.len() as u64;
        let s = st.clone();
        let third = tier.pick(0, 211);
        out.push(section(
            "two moves",
            &format!("each root x each accepted move x each move, both forms{}", if third > 0 { format!("; x every {}th move", third) } else { String::new() }),
            n * 32,
            move |u, cx| {
                let (_, m) = &s[u as usize / 32];
                let p = build(m);
                let c = census(&p);
                for (i, &(mv, _)) in t().moves.iter().enumerate().skip(u as usize % 32).step_by(32) {
                    for form in 0..2u8 {
                        cx.transitions += 1;
                        if let Some((q, d)) = step(&p, &c, mv, form)? {
                            cx.states += 1;
                            if form == 1 {
                                continue;
                            }
                            for (j, &(mv2, _)) in t().moves.iter().enumerate() {
                                cx.transitions += 1;
                                if let Some((r, e)) = step(&q, &d, mv2, ((i + j) % 2) as u8)? {
                                    cx.traces += 1;
                                    if third > 0 {
                                        for &(mv3, _) in t().moves.iter().skip((i + j) % third).step_by(third) {
                                            cx.transitions += 1;
                                            if step(&r, &e, mv3, (j % 2) as u8)?.is_some() {
                                                cx.traces += 1;
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        ));
        let worlds = Arc::new(roots::worlds(tier));
        let w = worlds.clone();
        out.push(section(
            "small worlds",
            "every position reachable inside small sets of squares, with and without history",
            worlds.len() as u64 * 2,
            move |u, cx| {
                let (_, squares, m) = &w[u as usize / 2];
                let alphabet: Vec<Mv> = roots::local_alphabet(squares, &all_pieces()).into_iter().map(|x| x.0).collect();
                let p = build(m);
                if u % 2 == 0 {
                    graph(p, &alphabet, tier.pick(30_000, 400_000), cx)
                } else {
                    graph(Position::arbitrary_position(p), &alphabet, tier.pick(3_000, 40_000), cx)
                }
            },
        ));
        let s = st.clone();
        let strides = tier.pick(24u64, 120);
        out.push(section(
            "long games",
            &format!("each root x {} fixed rules for choosing moves, 600 plies, with and without history", strides),
            n * strides,
            move |u, cx| {
                let (_, m) = &s[(u / strides) as usize];
                let stride = [1, 83, 167, 661, 1301, 2477, 4001, 6007, 9001, 12007, 13123, 14503][(u % strides) as usize % 12] + 97 * ((u % strides) as usize / 12);
                if u % 3 == 0 {
                    game(Position::arbitrary_position(build(m)), stride, 600, cx)
                } else {
                    game(build(m), stride, 600, cx)
                }
            },
        ));
        out.push(section("very long games", "70,000 plies from the opening, from full hands, from the ply before the counter wraps", 6, |u, cx| {
            let mut m = if u % 2 == 0 { M::startpos() } else { roots::roots()[6].1.clone() };
            if u / 2 == 1 {
                m.ply = 65530;
            }
            game(build(&m), [83, 661, 13123][u as usize / 2], 70_000, cx)
        }));
        out
    })
}
