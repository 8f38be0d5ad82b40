//! C05: SFEN text is exact for every position.
use mc::*;
use shogi_core::*;
use std::fmt::Write;

/// The sink of someone who counts pieces of text: keeps every call.
#[derive(Default)]
struct Pieces(Vec<String>);
impl Write for Pieces {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.push(s.to_string());
        Ok(())
    }
}
struct Shown<'a>(&'a PartialPosition);
impl std::fmt::Display for Shown<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.to_sfen(f)
    }
}
fn quick(p: &PartialPosition, m: &M) -> R {
    let want = m.sfen();
    let got = p.to_sfen_owned();
    if got != want {
        fail!("SFEN is {:?}, expected {:?}", got, want);
    }
    Ok(())
}
fn with_history(p: &Position, m: &M) -> R {
    let want = m.sfen();
    same!(p.to_sfen_owned(), want, "Position::to_sfen_owned");
    same!(p.inner().to_sfen_owned(), want, "to_sfen_owned of the inner position");
    same!(c_text(|b| unsafe { p.to_sfen_c(b) })?, want, "Position::to_sfen_c");
    same!(c_text(|b| unsafe { p.inner().to_sfen_c(b) })?, want, "to_sfen_c of the inner position");
    Ok(())
}
/// All ways, and reading it back.
fn full(p: &PartialPosition, m: &M) -> R {
    quick(p, m)?;
    let want = m.sfen();
    let mut s = String::from("x");
    ensure!(p.to_sfen(&mut s).is_ok(), "to_sfen into a string failed for {}", want);
    same!(s, format!("x{}", want), "to_sfen into a string");
    let mut v = Pieces::default();
    ensure!(p.to_sfen(&mut v).is_ok(), "to_sfen into a sink failed for {}", want);
    same!(v.0.concat(), want, "to_sfen into a sink");
    same!(format!("{}", Shown(p)), want, "to_sfen into a formatter");
    same!(c_text(|b| unsafe { p.to_sfen_c(b) })?, want, "to_sfen_c");
    let q = Position::arbitrary_position(p.clone());
    with_history(&q, m)?;
    let mut back = match parse_sfen(&p.to_sfen_owned()) {
        None => fail!("{:?} cannot be read back", p.to_sfen_owned()),
        Some(x) => x,
    };
    back.last = m.last;
    ensure!(back == *m, "{:?} reads back as {}, not {}", want, back.show(), m.show());
    Ok(())
}

fn main() {
    runner::main(|tier| {
        let mut s = Vec::new();
        s.push(section(
            "rank patterns",
            "each rank x each of the 512 sets of occupied squares x each of the 28 pieces there, others empty; each 28-cycle with others full",
            9 * 28,
            move |u, cx| {
                let t = t();
                let (r, k) = (u as usize / 28, u as usize % 28);
                let pieces = all_pieces();
                for full_ in [false, true] {
                    let mut base = M::empty();
                    if full_ {
                        for i in 0..81 {
                            base.board[i] = pieces[(i + k) % 28];
                        }
                        for f in 0..9 {
                            base.board[9 * f + r] = 0;
                        }
                        base.side = 1;
                        base.ply = 10 * k as u16 + 9;
                    }
                    let p0 = build(&base);
                    for pat in 0..512u32 {
                        let mut m = base.clone();
                        let mut p = p0.clone();
                        for f in 0..9 {
                            if pat >> f & 1 == 1 {
                                let pc = if full_ { pieces[(k + 3 * f) % 28] } else { pieces[k] };
                                m.board[9 * f + r] = pc;
                                p.piece_set(t.sq[9 * f + r], t.pc[pc as usize]);
                            }
                        }
                        if pat % 16 == 7 { full(&p, &m)? } else { quick(&p, &m)? }
                        cx.states += 1;
                        cx.transitions += 1;
                    }
                }
                cx.traces += 2;
                cx.sample(|| format!("rank {} with piece {}", r + 1, piece_text(pieces[k])));
                Ok(())
            },
        ));
        s.push(section(
            "pairs of ranks",
            "each two ranks x each of the 512 x 512 sets of occupied squares",
            36 * 64,
            move |u, cx| {
                let t = t();
                let mut pair = u as usize / 64;
                let (mut a, mut b) = (0, 1);
                while pair > 0 {
                    pair -= 1;
                    b += 1;
                    if b == 9 {
                        a += 1;
                        b = a + 1;
                    }
                }
                let pieces = all_pieces();
                for x in 0..8u32 {
                    let x = (u as u32 % 64) * 8 + x;
                    let mut m0 = M::empty();
                    for f in 0..9 {
                        if x >> f & 1 == 1 {
                            m0.board[9 * f + a] = pieces[(x as usize + f) % 28];
                        }
                    }
                    let p0 = build(&m0);
                    for y in 0..512u32 {
                        let mut m = m0.clone();
                        let mut p = p0.clone();
                        for f in 0..9 {
                            if y >> f & 1 == 1 {
                                let pc = pieces[(y as usize + 5 * f + 2) % 28];
                                m.board[9 * f + b] = pc;
                                p.piece_set(t.sq[9 * f + b], t.pc[pc as usize]);
                            }
                        }
                        quick(&p, &m)?;
                        cx.states += 1;
                        cx.transitions += 1;
                    }
                }
                cx.traces += 1;
                Ok(())
            },
        ));
        s.push(section(
            "pieces side by side",
            "in each rank: all 29 x 29 x 29 contents of three squares next to each other (at the left, in the middle, at the right)",
            9 * 29,
            move |u, cx| {
                let t = t();
                let (r, x) = (u as usize / 29, u as usize % 29);
                let all: Vec<u8> = std::iter::once(0).chain(all_pieces()).collect();
                for top in [8usize, 5, 2] {
                    let mut m = M::empty();
                    let mut p = PartialPosition::empty();
                    let put = |m: &mut M, p: &mut PartialPosition, f: usize, pc: u8| {
                        m.board[9 * f + r] = pc;
                        p.piece_set(t.sq[9 * f + r], t.pc[pc as usize]);
                    };
                    put(&mut m, &mut p, top, all[x]);
                    for &y in &all {
                        put(&mut m, &mut p, top - 1, y);
                        for &z in &all {
                            put(&mut m, &mut p, top - 2, z);
                            quick(&p, &m)?;
                            cx.states += 1;
                            cx.transitions += 1;
                        }
                    }
                    cx.traces += 1;
                }
                Ok(())
            },
        ));
        s.push(section(
            "one and two squares",
            "each square x each piece x each other square x a piece there, on the empty board and, removed, from a full one",
            81,
            move |u, cx| {
                let t = t();
                let a = u as usize;
                let pieces = all_pieces();
                let mut crowd = M::empty();
                for i in 0..81 {
                    crowd.board[i] = pieces[(i * 3 + a) % 28];
                }
                let full0 = build(&crowd);
                for (i, &x) in pieces.iter().enumerate() {
                    let mut m = M::empty();
                    m.board[a] = x;
                    let mut p = PartialPosition::empty();
                    p.piece_set(t.sq[a], t.pc[x as usize]);
                    full(&p, &m)?;
                    for b in 0..81 {
                        if b == a {
                            continue;
                        }
                        let y = pieces[(i * 5 + b) % 28];
                        let mut n = m.clone();
                        n.board[b] = y;
                        let mut q = p.clone();
                        q.piece_set(t.sq[b], t.pc[y as usize]);
                        quick(&q, &n)?;
                        if i % 7 == 0 {
                            let mut n = crowd.clone();
                            n.board[a] = 0;
                            n.board[b] = 0;
                            let mut q = full0.clone();
                            q.piece_set(t.sq[a], None);
                            q.piece_set(t.sq[b], None);
                            quick(&q, &n)?;
                        }
                        cx.states += 1;
                        cx.transitions += 1;
                    }
                    cx.traces += 1;
                }
                Ok(())
            },
        ));
        s.push(section("ply numbers", "all 65536 ply numbers (0 by wrapping around), on two boards", 256, move |u, cx| {
            let roots = roots::roots();
            for (i, (_, root)) in roots.iter().enumerate() {
                if i > 1 && i != 2 && i != 6 {
                    continue;
                }
                for lo in 0..256u32 {
                    let ply = (u as u32 * 256 + lo) as u16;
                    let mut m = root.clone();
                    m.ply = ply;
                    let p = if ply == 0 {
                        // only a move gets there
                        m.ply = 65535;
                        let mut p = build(&m);
                        let mv = all_moves().into_iter().find(|&x| m.verdict(x) == Verdict::Accepted).unwrap();
                        m.make_move(mv);
                        ensure!(p.make_move(to_move(mv)).is_some(), "{} rejected", show_move(mv));
                        p
                    } else {
                        build(&m)
                    };
                    if ply % 97 == 0 || ply < 1000 { full(&p, &m)? } else { quick(&p, &m)? }
                    cx.states += 1;
                    cx.transitions += 1;
                }
            }
            cx.traces += 1;
            cx.sample(|| format!("plies {}..{}", u * 256, u * 256 + 255));
            Ok(())
        }));
        s.push(section("hand counts", "each kind and player x all 256 counts, alone, with small counts of the others, and with equal and large ones", 14, move |u, cx| {
            let (c, k) = (u as usize / 7, u as usize % 7);
            for others in 0..6u8 {
                for n in 0..=255u8 {
                    let mut m = M::empty();
                    m.side = (n % 2) as u8;
                    for d in 0..2 {
                        for j in 0..7 {
                            m.hands[d][j] = match others {
                                0 => 0,
                                1 => 1,
                                2 => 2 + j as u8,
                                3 => n,
                                4 => 255 - (j as u8) * 17,
                                _ => if d == c { 0 } else { n },
                            };
                        }
                    }
                    m.hands[c][k] = n;
                    let p = build(&m);
                    full(&p, &m)?;
                    let want = hands_text(&m.hands);
                    let got = [p.hand_of_a_player(Color::Black), p.hand_of_a_player(Color::White)].to_usi_owned();
                    same!(got, want, "text of the two hands");
                    cx.states += 1;
                    cx.transitions += 1;
                }
            }
            cx.traces += 6;
            Ok(())
        }));
        s.push(section("hand kinds", "all 2^14 sets of kinds in the two hands x count patterns", 128, move |u, cx| {
            for lo in 0..128u32 {
                let set = u as u32 * 128 + lo;
                for pat in 0..tier.pick(5u8, 12) {
                    let mut m = M::empty();
                    for i in 0..14 {
                        if set >> i & 1 == 1 {
                            m.hands[i / 7][i % 7] = match pat {
                                0 => 1,
                                1 => 2,
                                2 => 10 + i as u8,
                                3 => 1 + (i as u8 % 3),
                                4 => [1, 9, 10, 99, 100, 255, 18][(i * 3 + lo as usize) % 7],
                                x => (x - 4) * 11 + i as u8 * 7,
                            };
                        }
                    }
                    let p = build(&m);
                    quick(&p, &m)?;
                    same!([p.hand_of_a_player(Color::Black), p.hand_of_a_player(Color::White)].to_usi_owned(), hands_text(&m.hands), "text of the two hands");
                    cx.states += 1;
                    cx.transitions += 1;
                }
            }
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("pairs of counts", "for each two of the fourteen counts: all 256 x 256 values (quick: those near powers of ten and two)", 91, move |u, cx| {
            let (mut a, mut b, mut n) = (0usize, 1usize, u);
            while n > 0 {
                n -= 1;
                b += 1;
                if b == 14 {
                    a += 1;
                    b = a + 1;
                }
            }
            let some: Vec<u8> = if tier == Tier::Quick { vec![0, 1, 2, 3, 4, 9, 10, 11, 18, 19, 20, 63, 64, 99, 100, 101, 127, 128, 199, 200, 209, 210, 254, 255] } else { (0..=255).collect() };
            let t = t();
            let color = |i: usize| t.color[i / 7];
            for &x in &some {
                let mut m = M::empty();
                m.hands[a / 7][a % 7] = x;
                let p0 = build(&m);
                for &y in &some {
                    let mut n = m.clone();
                    n.hands[b / 7][b % 7] = y;
                    let mut p = p0.clone();
                    *p.hand_of_a_player_mut(color(b)) = make_hand(&n.hands[b / 7]);
                    quick(&p, &n)?;
                    cx.states += 1;
                    cx.transitions += 1;
                }
            }
            cx.traces += 1;
            Ok(())
        }));
        let w = roots::worlds(tier);
        let cap = tier.pick(20_000, 400_000);
        s.push(section("small worlds", "every position reached in the small worlds (breadth first)", w.len() as u64, move |u, cx| {
            let (name, squares, m) = &w[u as usize];
            let alphabet = roots::local_alphabet(squares, &all_pieces());
            let mut step = |_: &PartialPosition, _: &M, q: &PartialPosition, m: &M, _: Mv, v: Verdict, ok: bool| -> R {
                if ok && v == Verdict::Accepted { quick(q, m) } else { Ok(()) }
            };
            let mut b = roots::Bfs { alphabet: &alphabet, max_states: cap, max_depth: 40, step: &mut step, merge: None };
            let c = roots::bfs(m, build(m), &mut b, cx).map_err(|e| format!("world {}: {}", name, e))?;
            cx.outcome(if c { "worlds explored completely" } else { "worlds cut at the state bound" });
            Ok(())
        }));
        s.push(section("every move from each root", "the text after each accepted one of the 15390 moves, and after each pair of edits", 11, move |u, cx| {
            let t = t();
            let (name, root) = &roots::roots()[u as usize];
            let p0 = build(root);
            full(&p0, root)?;
            for (mv, imv) in &t.moves {
                let mut m = root.clone();
                if m.make_move(*mv) != Verdict::Accepted {
                    continue;
                }
                let mut p = p0.clone();
                let mut h = Position::arbitrary_position(p0.clone());
                if p.make_move(*imv).is_none() || h.make_move(*imv).is_none() {
                    continue; // another property's business
                }
                quick(&p, &m).map_err(|e| format!("{} after {}: {}", name, show_move(*mv), e))?;
                with_history(&h, &m).map_err(|e| format!("{} after {}, with history: {}", name, show_move(*mv), e))?;
                same!(c_text(|b| unsafe { p.to_sfen_c(b) })?, m.sfen(), "{} after {}, to_sfen_c", name, show_move(*mv));
                cx.states += 1;
                cx.transitions += 1;
            }
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("a long game", "the text after each move of a long game", 1, move |_, cx| {
            let mut p = Position::startpos();
            let n = std::cell::Cell::new(0u64);
            roots::long_game(tier.pick(1500, 70_000), |m, mv| {
                if p.make_move(to_move(mv)).is_none() {
                    fail!("{} rejected", show_move(mv));
                }
                n.set(n.get() + 1);
                with_history(&p, m).map_err(|e| format!("after move {} of a long game: {}", n.get(), e))
            })?;
            cx.states += n.get();
            cx.transitions += n.get();
            cx.traces += 1;
            Ok(())
        }));
        let some: Vec<u8> = tier.pick(vec![0, 1, 25, 14], vec![0, 1, 25, 24, 14, 17, 7]);
        let k = some.len();
        s.push(section("rank contents", "each rank x all contents of it from {vacant, P, +p, +R} (thorough: {vacant, P, +p, k, +R, p, R})", 9 * k.pow(4) as u64, move |u, cx| {
            let t = t();
            let (r, x) = (u as usize / k.pow(4), u as usize % k.pow(4));
            let mut m = M::empty();
            m.side = (x % 2) as u8;
            let mut p = build(&m);
            let mut n = x;
            for f in 0..4 {
                m.board[9 * f + r] = some[n % k];
                p.piece_set(t.sq[9 * f + r], t.pc[some[n % k] as usize]);
                n /= k;
            }
            for y in 0..k.pow(5) {
                let mut n = y;
                for f in 4..9 {
                    m.board[9 * f + r] = some[n % k];
                    p.piece_set(t.sq[9 * f + r], t.pc[some[n % k] as usize]);
                    n /= k;
                }
                quick(&p, &m)?;
                cx.states += 1;
                cx.transitions += 1;
            }
            cx.traces += 1;
            Ok(())
        }));
        let edited = std::sync::Arc::new(edits::worlds(tier));
        let n = edited.len() as u64;
        s.push(section(
            "edited worlds",
            "breadth-first search over moves, sets of squares, changes of turn and of hands on a few squares, to the fixpoint; the last move is part of the state",
            n,
            move |u, cx| {
                let (name, ops, limit) = &edited[u as usize];
                edits::explore(ops, *limit, tier.pick(200_000, 900_000), |p, m| quick(p, m).err(), cx)?;
                cx.sample(|| format!("world {} of {} operations", name, ops.len()));
                Ok(())
            },
        ));
        s.push(edits::position_section(tier, |p, m| quick(p.inner(), m).err()));
        s
    });
}
