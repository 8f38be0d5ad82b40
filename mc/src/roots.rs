//! Starting points and explorers shared by several checks.
use crate::model::*;
use crate::obs::*;
use crate::runner::*;
use shogi_core::*;
use std::collections::HashMap;

/// Named root positions: opening, middle game with promoted pieces and hands, bare boards, crowded and odd ones.
pub fn roots() -> Vec<(&'static str, M)> {
    let f = |n: &'static str, s: &str| (n, parse_sfen(s).unwrap_or_else(|| panic!("bad root {}", s)));
    vec![
        ("start", M::startpos()),
        ("start, white to move", {
            let mut m = M::startpos();
            m.side = 1;
            m
        }),
        f("middle game", "l3k1+Rnl/1+P1sg4/p1np1p1pp/2p3p2/1s2P4/P1PP1G+b1P/1P1SK1P2/5+l3/LN1g3N1 b BGSN3Pr2p 87"),
        f("promoted everywhere", "+P+L+N+S+B+R2k/9/+p+l+n+s+b+r3/9/9/9/+P+P+P+p+p+p3/9/8K w RBGSNLPrbgsnlp 120"),
        f("kings only", "4k4/9/9/9/9/9/9/9/4K4 b - 1"),
        f("no kings", "lnsg1gsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSG1GSNL b - 1"),
        f("all in hand", "4k4/9/9/9/9/9/9/9/4K4 w RB2G2S2N2L9Prb2g2s2n2l9p 300"),
        ("crowded", {
            let mut m = M::empty();
            let v = all_pieces();
            for i in 0..81 {
                m.board[i] = v[(i * 5 + 3) % 28];
            }
            m.ply = 255;
            m
        }),
        ("crowded, white to move", {
            let mut m = M::empty();
            let v = all_pieces();
            for i in 0..81 {
                m.board[i] = v[(i * 11 + 7) % 28];
            }
            m.side = 1;
            m.ply = 256;
            m.hands = [[18, 4, 4, 4, 4, 2, 2], [17, 3, 1, 2, 3, 1, 1]];
            m
        }),
        ("checkered", {
            let mut m = M::empty();
            let v = all_pieces();
            for i in (0..81).step_by(2) {
                m.board[i] = v[(i * 3 + 1) % 28];
            }
            m.hands = [[1, 0, 2, 0, 1, 0, 1], [0, 1, 0, 2, 0, 1, 0]];
            m.ply = 999;
            m
        }),
        ("huge hands", {
            let mut m = M::empty();
            m.board[40] = 8;
            m.board[44] = 24;
            m.board[0] = 14;
            m.board[1] = 30;
            m.board[80] = 1;
            m.board[79] = 17;
            m.hands = [[255, 254, 128, 127, 100, 99, 10], [9, 10, 11, 64, 200, 255, 1]];
            m.ply = 65534;
            m
        }),
    ]
}

/// A graph of positions explored breadth first, each transition executed on the implementation and the model.
pub struct Bfs<'a, V: View> {
    pub alphabet: &'a [(Mv, Move)],
    pub max_states: usize,
    pub max_depth: usize,
    /// Called after each transition: (before, before model, after, after model, move, verdict, accepted by the implementation).
    #[allow(clippy::type_complexity)]
    pub step: &'a mut dyn FnMut(&V, &M, &V, &M, Mv, Verdict, bool) -> Result<(), String>,
    /// Called when a known state is reached on another path: (state there, state here).
    #[allow(clippy::type_complexity)]
    pub merge: Option<&'a mut dyn FnMut(&V, &V, &M) -> Result<(), String>>,
}

/// Board, hands, turn and last move. The ply number is not part of the key: it only counts, and the sections on ply
/// numbers cover it.
pub type Key = (u8, [[u8; 7]; 2], [u8; 81], Option<Mv>);
pub fn key(m: &M) -> Key {
    (m.side, m.hands, m.board, m.last)
}

/// Returns whether the graph was explored to its fixpoint.
pub fn bfs<V: View>(root: &M, start: V, b: &mut Bfs<V>, cx: &mut Cx) -> Result<bool, String> {
    let mut seen: HashMap<Key, usize> = HashMap::new();
    let mut nodes: Vec<(M, V, usize, Option<Mv>, usize)> = vec![(root.clone(), start, 0, None, 0)];
    seen.insert(key(root), 0);
    cx.states += 1;
    let mut complete = true;
    let mut i = 0;
    while i < nodes.len() {
        if nodes[i].4 >= b.max_depth {
            complete = false;
            i += 1;
            continue;
        }
        for &(mv, imv) in b.alphabet {
            let mut m = nodes[i].0.clone();
            let verdict = m.make_move(mv);
            let mut p = nodes[i].1.clone();
            let ok = p.v_make(imv);
            cx.transitions += 1;
            if let Err(e) = (b.step)(&nodes[i].1, &nodes[i].0, &p, &m, mv, verdict, ok) {
                let mut path = vec![mv];
                let mut j = i;
                while let Some(x) = nodes[j].3 {
                    path.push(x);
                    j = nodes[j].2;
                }
                path.reverse();
                return Err(format!(
                    "from {} after moves [{}]: {}",
                    nodes[0].0.show(),
                    path.iter().map(|&x| show_move(x)).collect::<Vec<_>>().join(", "),
                    e
                ));
            }
            if verdict == Verdict::Accepted {
                match seen.get(&key(&m)) {
                    None => {
                        if nodes.len() >= b.max_states {
                            complete = false;
                            continue;
                        }
                        seen.insert(key(&m), nodes.len());
                        let d = nodes[i].4 + 1;
                        nodes.push((m, p, i, Some(mv), d));
                        cx.states += 1;
                    }
                    Some(&j) => {
                        if let Some(f) = b.merge.as_mut() {
                            f(&nodes[j].1, &p, &m)
                                .map_err(|e| format!("{} reached in two ways: {}", m.show(), e))?;
                        }
                    }
                }
            }
        }
        i += 1;
    }
    cx.traces += nodes.len() as u64;
    Ok(complete)
}

/// All moves between the given squares, and all drops onto them.
pub fn local_alphabet(squares: &[u8], pieces: &[u8]) -> Vec<(Mv, Move)> {
    let mut v = Vec::new();
    for &from in squares {
        for &to in squares {
            for promote in [false, true] {
                v.push(Mv::Normal { from, to, promote });
            }
        }
    }
    for &piece in pieces {
        for &to in squares {
            v.push(Mv::Drop { piece, to });
        }
    }
    v.into_iter().map(|m| (m, to_move(m))).collect()
}

/// Small worlds: (name, squares in play, pieces on them, hands). Everything a move can do inside them is explored.
pub fn worlds(tier: Tier) -> Vec<(String, Vec<u8>, M)> {
    let mut v = Vec::new();
    let mut add = |name: &str, squares: &[u8], pieces: &[u8], hands: [[u8; 7]; 2]| {
        for side in 0..2 {
            let mut m = M::empty();
            for (i, &p) in pieces.iter().enumerate() {
                m.board[squares[i] as usize] = p;
            }
            m.hands = hands;
            m.side = side;
            v.push((format!("{} ({} first)", name, ["black", "white"][side as usize]), squares.to_vec(), m));
        }
    };
    let z = [[0; 7]; 2];
    // Corners and the middle; the squares around the word boundary of the bitboards (7I = 62, 8A = 63, 8B = 64).
    add("four corners, P+p", &[0, 8, 72, 80], &[1, 25], z);
    add("word boundary, R r", &[61, 62, 63, 64], &[7, 23], z);
    add("word boundary, B +b K", &[61, 62, 63, 64], &[6, 29, 8], z);
    add("row, S g in hand", &[0, 9, 18, 27], &[4, 17], [[0, 0, 0, 0, 1, 0, 0], [0; 7]]);
    add("column, +L +n k", &[4, 5, 6, 7], &[10, 27, 24], z);
    add("kings and pawns", &[40, 41, 49, 50], &[8, 24, 1, 17], z);
    add("all kinds in hand", &[62, 63], &[1, 17], [[1, 1, 0, 0, 1, 0, 0], [0, 0, 1, 0, 0, 0, 1]]);
    add("three silvers", &[10, 20, 30, 70], &[4, 20, 12], z);
    add("lance knight", &[0, 1, 79, 80], &[2, 19, 3], z);
    if tier == Tier::Thorough {
        add("five squares, P p R", &[8, 17, 26, 35, 44], &[1, 17, 7], z);
        add("five squares, S s G g", &[60, 61, 62, 63, 64], &[4, 20, 5, 21], z);
        add("six squares, +B +r P", &[0, 10, 20, 30, 40, 80], &[13, 30, 1], z);
        add("five squares, kings N n L", &[36, 37, 38, 45, 46], &[8, 24, 3, 19, 2], z);
        add("four squares, many kinds", &[2, 6, 74, 78], &[1, 18, 3, 20], [[0, 0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 0, 1, 0]]);
    }
    v
}

/// A complete deterministic game that visits much: one side's rook takes everything it may, then both drop everything,
/// then pieces shuttle for `shuttle` plies. `f` sees every step.
pub fn long_game(shuttle: usize, mut f: impl FnMut(&M, Mv) -> Result<(), String>) -> Result<M, String> {
    let mut m = M::startpos();
    let mut play = |m: &mut M, mv: Mv| -> Result<(), String> {
        let v = m.make_move(mv);
        assert_eq!(v, Verdict::Accepted, "{} {}", m.show(), show_move(mv));
        f(m, mv)
    };
    // Each rook (8H..: black 2H = 16, white 8B = 64) alternately captures the next capturable enemy piece.
    for _ in 0..60 {
        let rook = match (0..81).find(|&i| m.board[i] != 0 && side_of(m.board[i]) == m.side && kind_of(m.board[i]) % 7 == 0)
        {
            Some(r) => r as u8,
            None => break,
        };
        let target = (0..81).find(|&i| {
            let b = m.board[i];
            b != 0 && side_of(b) != m.side && kind_of(b) != 8 && kind_of(b) != 7 && kind_of(b) != 14
        });
        match target {
            None => {
                // Nothing left: step to a vacant square.
                let to = (0..81).rev().find(|&i| m.board[i] == 0).unwrap() as u8;
                play(&mut m, Mv::Normal { from: rook, to, promote: false })?;
            }
            Some(x) => {
                let promote = kind_of(m.board[rook as usize]) == 7 && x % 5 == 0;
                play(&mut m, Mv::Normal { from: rook, to: x as u8, promote })?;
            }
        }
    }
    // Drop everything.
    for _ in 0..80 {
        let k = (1..=7u8).find(|&k| m.hands[m.side as usize][k as usize - 1] > 0);
        let vacant = (0..81u8).find(|&i| m.board[i as usize] == 0).unwrap();
        let mv = match k {
            Some(k) => Mv::Drop {
                piece: make_piece(k, m.side),
                to: vacant,
            },
            None => {
                let from = (0..81u8)
                    .find(|&i| m.board[i as usize] != 0 && side_of(m.board[i as usize]) == m.side)
                    .unwrap();
                Mv::Normal { from, to: vacant, promote: false }
            }
        };
        play(&mut m, mv)?;
    }
    for i in 0..shuttle {
        let from = (0..81u8)
            .cycle()
            .skip(i % 81)
            .find(|&j| m.board[j as usize] != 0 && side_of(m.board[j as usize]) == m.side)
            .unwrap();
        let to = (0..81u8).cycle().skip((i * 7) % 81).find(|&j| m.board[j as usize] == 0).unwrap();
        let promote = i % 3 == 0 && promote_kind(kind_of(m.board[from as usize])).is_some();
        play(&mut m, Mv::Normal { from, to, promote })?;
    }
    Ok(m)
}
