//! C04: equality, ordering and hashing are coherent and depend on content only.
use mc::order::*;
use mc::*;
use shogi_core::c_compat::*;
use shogi_core::*;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::hash::Hash;
use std::sync::Arc;

fn twice<T: Clone>(v: Vec<T>) -> (Vec<T>, Vec<u64>) {
    let n = v.len() as u64;
    let mut w = v.clone();
    w.extend(v);
    (w, (0..n).chain(0..n).collect())
}
/// Values with the numbers of their contents, from several constructions of the same value.
fn merged<T>(lists: Vec<Vec<T>>) -> (Vec<T>, Vec<u64>) {
    let mut v = Vec::new();
    let mut id = Vec::new();
    for l in lists {
        id.extend(0..l.len() as u64);
        v.extend(l);
    }
    (v, id)
}

const RESOLUTIONS: [GameResolution; 5] = [
    GameResolution::BlackWins,
    GameResolution::WhiteWins,
    GameResolution::Draw,
    GameResolution::Rematch,
    GameResolution::Aborted,
];

/// The same content by another way: junk first, other order, hands up and down, the ply twice.
fn build_otherwise(m: &M, variant: u8) -> PartialPosition {
    let t = t();
    let mut p = match variant {
        0 => PartialPosition::startpos(),
        1 => build(&roots::roots()[7].1),
        _ => PartialPosition::default(),
    };
    if variant == 2 {
        // moves first, then everything set back
        for x in [Mv::Normal { from: 60, to: 59, promote: false }, Mv::Normal { from: 2, to: 3, promote: true }] {
            assert!(p.make_move(to_move(x)).is_some());
        }
    }
    let order: Vec<usize> = if variant == 1 { (0..81).rev().collect() } else { (0..81).map(|i| i * 32 % 81).collect() };
    for i in order {
        if variant == 1 {
            p.piece_set(t.sq[i], t.pc[[8, 24, 1, 30][i % 4]]);
        }
        p.piece_set(t.sq[i], t.pc[m.board[i] as usize]);
    }
    for c in 0..2 {
        let mut h = make_hand(&m.hands[c]);
        if variant == 1 && !m.hands[c].contains(&255) {
            for k in 1..=7 {
                h = h.added(t.kind[k]).unwrap();
            }
            for k in (1..=7).rev() {
                h = h.removed(t.kind[k]).unwrap();
            }
        }
        *p.hand_of_a_player_mut(t.color[c]) = h;
    }
    p.side_to_move_set(t.color[1 - m.side as usize]);
    p.side_to_move_set(t.color[m.side as usize]);
    if m.ply != 0 {
        assert!(p.ply_set(7));
        assert!(p.ply_set(m.ply));
    }
    p
}

/// A position with the content of `m`, `m.last` included: makes the move from a suitable position, then sets the rest.
fn with_last(m: &M) -> Option<PartialPosition> {
    let t = t();
    let mv = match m.last {
        None => return Some(build(m)),
        Some(x) => x,
    };
    let mut p = PartialPosition::empty();
    match mv {
        Mv::Normal { from, promote, .. } => {
            if mv_to(mv) == from {
                return None;
            }
            let _ = promote;
            p.piece_set(t.sq[from as usize], t.pc[1]);
        }
        Mv::Drop { piece, .. } => {
            if kind_of(piece) > 7 {
                return None;
            }
            let c = t.color[side_of(piece) as usize];
            p.side_to_move_set(c);
            *p.hand_of_a_player_mut(c) = Hand::new().added(t.kind[kind_of(piece) as usize])?;
        }
    }
    p.make_move(to_move(mv))?;
    for i in 0..81 {
        p.piece_set(t.sq[i], t.pc[m.board[i] as usize]);
    }
    for c in 0..2 {
        *p.hand_of_a_player_mut(t.color[c]) = make_hand(&m.hands[c]);
    }
    p.side_to_move_set(t.color[m.side as usize]);
    assert!(p.ply_set(m.ply));
    Some(p)
}
fn mv_to(m: Mv) -> u8 {
    match m {
        Mv::Normal { to, .. } | Mv::Drop { to, .. } => to,
    }
}

/// Roots and everything that differs from one in a single component.
fn neighbours(stride: usize) -> Vec<M> {
    let mut v = Vec::new();
    for (ri, (_, root)) in roots::roots().into_iter().enumerate() {
        v.push(root.clone());
        let mut m = root.clone();
        m.side = 1 - m.side;
        v.push(m);
        for s in (0..81).step_by(stride) {
            let s = (s + ri) % 81;
            for d in [0u8, 1, 17, 9, 24] {
                let mut m = root.clone();
                if m.board[s] == d {
                    continue;
                }
                m.board[s] = d;
                v.push(m);
            }
        }
        for c in 0..2 {
            for k in 0..7 {
                for d in [1u8, 255, 2, 16] {
                    let mut m = root.clone();
                    m.hands[c][k] = m.hands[c][k].wrapping_add(d);
                    v.push(m);
                }
            }
        }
        for b in 0..16 {
            let mut m = root.clone();
            m.ply ^= 1 << b;
            if m.ply != 0 {
                v.push(m);
            }
        }
        for last in [
            Mv::Normal { from: 0, to: 1, promote: false },
            Mv::Normal { from: 1, to: 0, promote: false },
            Mv::Normal { from: 0, to: 1, promote: true },
            Mv::Normal { from: 80, to: 64, promote: false },
            Mv::Drop { piece: 1, to: 1 },
            Mv::Drop { piece: 17, to: 1 },
            Mv::Drop { piece: 7, to: 80 },
        ] {
            let mut m = root.clone();
            m.last = Some(last);
            v.push(m);
        }
    }
    v
}
fn ids(v: &[M]) -> Vec<u64> {
    let mut seen: HashMap<M, u64> = HashMap::new();
    v.iter()
        .map(|m| {
            let n = seen.len() as u64;
            *seen.entry(m.clone()).or_insert(n)
        })
        .collect()
}
/// Two positions that must be the same in every respect.
fn indistinguishable(a: &PartialPosition, b: &PartialPosition) -> R {
    if a != b || !(a == b) || b != a {
        fail!("not equal although nothing observable differs: {:?} and {:?}", a, b);
    }
    if a.cmp(b) != Ordering::Equal || b.cmp(a) != Ordering::Equal || a.partial_cmp(b) != Some(Ordering::Equal) || a < b || a > b || !(a <= b) || !(a >= b) {
        fail!("equal positions do not compare as equal: {:?} and {:?}", a, b);
    }
    if a.king_position(Color::Black) != b.king_position(Color::Black) || a.king_position(Color::White) != b.king_position(Color::White) {
        fail!("equal positions report different king squares: {:?} and {:?}", a, b);
    }
    equal_hash(a, b)
}

fn main() {
    runner::main(|tier| {
        let t = t();
        let mut s: Vec<Section> = Vec::new();
        macro_rules! values {
            ($name:expr, $about:expr, $lists:expr, $stride:expr) => {{
                let (v, id) = merged($lists);
                s.push(order_section($name, $about, v, id, $stride));
            }};
        }
        values!("colors", "all colours, constructed in two ways", vec![vec![Color::Black, Color::White], vec![Color::White.flip(), Color::Black.flip()]], 1);
        values!("piece-kinds", "all kinds, named and by number", vec![KIND_LIST.to_vec(), (1..=14).map(|i| PieceKind::from_u8(i).unwrap()).collect()], 1);
        let pieces: Vec<Piece> = all_pieces().iter().map(|&p| t.pc[p as usize].unwrap()).collect();
        let pieces2: Vec<Piece> = all_pieces()
            .iter()
            .map(|&p| {
                let x = Option::<Piece>::from(OptionPiece::from(t.pc[p as usize])).unwrap();
                x.promote().and_then(|y| y.unpromote()).or(x.unpromote().and_then(|y| y.promote())).unwrap_or(x)
            })
            .collect();
        values!("pieces", "all pieces, constructed and promoted back and forth", vec![pieces.clone(), pieces2.clone()], 1);
        let sq: Vec<Square> = t.sq.to_vec();
        let sq2: Vec<Square> = t.sq.iter().map(|s| s.flip().flip()).collect();
        let sq3: Vec<Square> = (1..=81).map(|i| Square::from_u8(i).unwrap()).collect();
        let sq4: Vec<Square> = Square::all().collect();
        values!("squares", "all squares, constructed in four ways", vec![sq.clone(), sq2, sq3, sq4], 1);
        fn opts<T: Copy, O: From<Option<T>>>(v: &[T]) -> Vec<O> {
            std::iter::once(None).chain(v.iter().copied().map(Some)).map(O::from).collect()
        }
        values!("optional squares", "all values of OptionSquare", vec![opts::<_, OptionSquare>(&sq), opts::<_, OptionSquare>(&sq)], 1);
        values!("optional pieces", "all values of OptionPiece", vec![opts::<_, OptionPiece>(&pieces), opts::<_, OptionPiece>(&pieces2)], 1);
        values!("optional piece kinds", "all values of OptionPieceKind", vec![opts::<_, OptionPieceKind>(&KIND_LIST), opts::<_, OptionPieceKind>(&KIND_LIST)], 1);
        values!("resolutions", "all game resolutions", vec![RESOLUTIONS.to_vec(), (1..=5).map(|i| unsafe { GameResolution::from_u8_unchecked(i) }).collect()], 1);
        values!("optional resolutions", "all values of OptionGameResolution, the default included", {
            let mut a = opts::<_, OptionGameResolution>(&RESOLUTIONS);
            let b = a.clone();
            a[0] = OptionGameResolution::default();
            vec![a, b]
        }, 1);
        let kinds = [
            IllegalMoveKind::TwoPawns,
            IllegalMoveKind::IgnoredCheck,
            IllegalMoveKind::DropPawnMate,
            IllegalMoveKind::DropStuck,
            IllegalMoveKind::NormalStuck,
            IllegalMoveKind::GameFinished,
            IllegalMoveKind::IncorrectMove,
        ];
        values!("illegal move kinds", "all illegal move kinds", vec![kinds.to_vec(), (1..=7).map(|i| IllegalMoveKind::from_u8(i).unwrap()).collect()], 1);
        values!("results", "all values of ResultUnitIllegalMoveKind", {
            let mut a = opts::<_, ResultUnitIllegalMoveKind>(&kinds);
            a[0] = ResultUnitIllegalMoveKind::default();
            let b = std::iter::once(Ok(())).chain(kinds.iter().map(|&k| Err(k))).map(ResultUnitIllegalMoveKind::from).collect();
            vec![a, b]
        }, 1);
        {
            let st = vec![PositionStatus::BlackWins, PositionStatus::WhiteWins, PositionStatus::Draw, PositionStatus::InProgress, PositionStatus::Invalid];
            let (v, id) = twice(st);
            s.push(order_section("statuses", "all position statuses", v, id, 1));
        }
        // moves
        let mvs = all_moves();
        let moves: Vec<Move> = mvs.iter().map(|&m| to_move(m)).collect();
        let compact: Vec<CompactMove> = mvs.iter().map(|&m| to_compact(m)).collect();
        let n = mvs.len() as u64;
        let stride = 1;
        s.push(order_section("moves", "all moves", moves.clone(), (0..n).collect(), stride));
        s.push(order_section("compact moves", "all compact moves", compact.clone(), (0..n).collect(), stride));
        let oc: Vec<OptionCompactMove> = opts::<_, OptionCompactMove>(&compact);
        s.push(order_section("optional compact moves", "all values of OptionCompactMove", oc, (0..=n).collect(), stride));
        s.push(section("moves rebuilt", "every move against the same move by other constructions", 1, move |_, cx| {
            for (i, &m) in mvs.iter().enumerate() {
                let a = moves[i];
                let b: Move = compact[i].into();
                ensure!(a == b && a.cmp(&b) == Ordering::Equal, "{:?} and {:?} are the same move", a, b);
                equal_hash(&a, &b)?;
                let (x, y): (CompactMove, CompactMove) = (compact[i], a.into());
                ensure!(x == y && x.cmp(&y) == Ordering::Equal, "{:?} and {:?} are the same move ({})", x, y, show_move(m));
                equal_hash(&x, &y)?;
                let (x, y) = (OptionCompactMove::from(Some(x)), OptionCompactMove::from(Some(y)));
                ensure!(x == y, "{:?} and {:?} are the same", x, y);
                equal_hash(&x, &y)?;
                cx.transitions += 3;
                cx.states += 1;
                cx.traces += 1;
            }
            let (x, y) = (OptionCompactMove::from(None), OptionCompactMove::default());
            ensure!(x == y, "the default of OptionCompactMove is {:?}", y);
            equal_hash(&x, &y)
        }));
        // bitboards
        let masks = if tier == Tier::Quick { vals::pair_masks() } else { vals::masks(Tier::Quick).into_iter().step_by(19).collect() };
        let bb: Vec<Bitboard> = masks.iter().map(|&m| mask_bb(m)).collect();
        let bb2: Vec<Bitboard> = masks.iter().map(|&m| !mask_bb(!m & vals::FULL)).collect();
        let bb3: Vec<Bitboard> = masks.iter().map(|&m| {
            // the same set through intersections, differences and a pop
            let x = mask_bb(m);
            let mut y = (mask_bb(vals::FULL) & x) ^ mask_bb(vals::FULL & !m) ^ mask_bb(vals::FULL & !m);
            if let Some(q) = y.pop() {
                y |= q;
            }
            y
        }).collect();
        values!("bitboards", "sets built by union, by complement, and by intersection, difference and removal", vec![bb.clone(), bb2.clone(), bb3], tier.pick(2, 1));
        values!("byte-swapped bitboards", "byte-swapped sets", vec![
            bb.iter().map(|b| b.swap_bytes()).collect(),
            bb2.iter().map(|b| unsafe { ByteSwappedBitboard::from_u128_unchecked(b.swap_bytes().to_u128()) }).collect()
        ], tier.pick(2, 1));
        // hands
        let mut hv: Vec<[u8; 7]> = vec![[0; 7]];
        for k in 0..7 {
            for n in [1u8, 2, 3, 9, 10, 18, 127, 128, 200, 255] {
                let mut h = [0; 7];
                h[k] = n;
                hv.push(h);
                let mut h = [1u8, 2, 3, 4, 5, 6, 7];
                h[k] = h[k].wrapping_add(n.wrapping_add(7));
                hv.push(h);
            }
        }
        for p in 1..128u32 {
            if p.count_ones() > 1 {
                hv.push(core::array::from_fn(|k| (p >> k & 1) as u8));
            }
        }
        for a in [0u8, 1, 2, 255] {
            for b in [0u8, 1, 2, 255] {
                for c in [1u8, 3, 4] {
                    hv.push([a, b, 5, 5, c, 9, 11]);
                    hv.push([11, 9, c, 5, 5, b, a]);
                    hv.push([20, a, 20, b, 20, c, 20]);
                }
            }
        }
        hv.sort();
        hv.dedup();
        let h1: Vec<Hand> = hv.iter().map(make_hand).collect();
        let h2: Vec<Hand> = hv
            .iter()
            .map(|c| {
                let mut h = Hand::default();
                for k in (1..=7u8).rev() {
                    // down through the wrap: 256 additions leave a count where it was
                    let n = c[k as usize - 1] as u32;
                    for _ in 0..256 + n + (n < 255) as u32 {
                        h.Hand_add(t_kind(k));
                    }
                    if n < 255 {
                        h.Hand_remove(t_kind(k));
                    }
                }
                h
            })
            .collect();
        values!("hands", "hands by additions, and by additions past the wrap and removals", vec![h1, h2], 1);
        // positions
        let ms = neighbours(tier.pick(4, 2));
        let mut ps = Vec::new();
        let mut pm = Vec::new();
        for m in &ms {
            if let Some(p) = with_last(m) {
                ps.push(p);
                pm.push(m.clone());
            }
        }
        for (_, m) in roots::roots() {
            for variant in 0..2 {
                if m.last.is_none() {
                    ps.push(build_otherwise(&m, variant));
                    let mut x = m.clone();
                    x.last = None;
                    pm.push(x);
                }
            }
            let mut x = m.clone();
            x.last = Some(Mv::Normal { from: 2, to: 3, promote: true });
            ps.push(build_otherwise(&m, 2));
            pm.push(x.clone());
            ps.push(with_last(&x).unwrap());
            pm.push(x);
        }
        let pid = ids(&pm);
        s.push(order_section("positions", "roots, all kinds of single-component changes, other constructions", ps.clone(), pid.clone(), tier.pick(3, 1)));
        s.push(section("positions match", "the positions just compared have the contents they should have", ps.len().div_ceil(64) as u64, {
            let (ps, pm) = (ps.clone(), pm.clone());
            move |u, cx| {
                for i in (u as usize * 64..ps.len()).take(64) {
                    if let Some(d) = all_diff(&ps[i], &pm[i]) {
                        fail!("{}: {}", pm[i].show(), d);
                    }
                    cx.states += 1;
                    cx.transitions += 1;
                }
                Ok(())
            }
        }));
        // every square and piece, every pair of pieces on one square
        s.push(section("one square", "for every square: the 29 contents of it, all pairs, on three boards", 81, move |u, cx| {
            for (_, root) in [&roots::roots()[0], &roots::roots()[4], &roots::roots()[8]] {
                let mut ps = Vec::new();
                for a in std::iter::once(0).chain(all_pieces()) {
                    let mut m = root.clone();
                    m.board[u as usize] = a;
                    ps.push(build(&m));
                }
                let r = ranked(ps, (0..29).collect());
                for i in 0..29 {
                    for j in 0..29 {
                        pair(&r, i, j)?;
                        cx.transitions += 1;
                    }
                    cx.states += 1;
                    cx.traces += 1;
                }
            }
            Ok(())
        }));
        s.push(section("hand counts", "one count of a hand, all 256 values, all pairs, in a position", 14, move |u, cx| {
            let (c, k) = (u as usize / 7, u as usize % 7);
            for (ri, step) in [(4usize, 1), (2, 5)] {
                let root = &roots::roots()[ri].1;
                let mut ps = Vec::new();
                let mut id = Vec::new();
                for n in (0..256usize).step_by(step) {
                    let mut m = root.clone();
                    m.hands[c][k] = n as u8;
                    ps.push(build(&m));
                    id.push(n as u64);
                }
                let r = ranked(ps, id);
                for i in 0..r.v.len() {
                    for j in 0..r.v.len() {
                        pair(&r, i, j)?;
                        cx.transitions += 1;
                    }
                    cx.states += 1;
                    cx.traces += 1;
                }
            }
            Ok(())
        }));
        {
            let mut v = Vec::new();
            let mut content: HashMap<[[u8; 7]; 2], u64> = HashMap::new();
            let mut id = Vec::new();
            let base = build(&roots::roots()[4].1);
            let mut add = |h: [[u8; 7]; 2]| {
                let mut p = base.clone();
                for c in 0..2 {
                    *p.hand_of_a_player_mut(crate::t().color[c]) = make_hand(&h[c]);
                }
                v.push(p);
                let k = content.len() as u64;
                id.push(*content.entry(h).or_insert(k));
            };
            let few: &[u8] = tier.pick(&[1, 2, 18, 19, 128, 255], &[1, 2, 3, 16, 17, 18, 19, 20, 31, 32, 64, 127, 128, 255]);
            for a in 0..14usize {
                for n in 0..=255u8 {
                    let mut h = [[0u8; 7]; 2];
                    h[a / 7][a % 7] = n;
                    add(h);
                }
                for b in 0..a {
                    for &x in few {
                        for &y in few {
                            let mut h = [[0u8; 7]; 2];
                            h[a / 7][a % 7] = x;
                            h[b / 7][b % 7] = y;
                            add(h);
                        }
                    }
                }
            }
            s.push(order_section("both hands", "positions with one count of the 14 in their hands, any number, or two of some numbers", v, id, tier.pick(2, 1)));
        }
        s.push(section("ply numbers", "every ply number against those that differ from it in a bit, a byte or by one", 64, move |u, cx| {
            let base = build(&roots::roots()[2].1);
            let mut p = base.clone();
            let mut q = base.clone();
            for ply in (1..65536u32).skip(u as usize).step_by(64) {
                ensure!(p.ply_set(ply as u16), "ply_set({}) failed", ply);
                let mut others: Vec<u32> = (0..16).map(|b| ply ^ (1 << b)).collect();
                others.extend([ply, (ply + 1) % 65536, ply.swap_bytes() >> 16, ply ^ 0xff, ply ^ 0xff00, 65536 - ply]);
                for o in others {
                    if o == 0 || o > 65535 {
                        continue;
                    }
                    ensure!(q.ply_set(o as u16), "ply_set({}) failed", o);
                    if (p == q) != (o == ply) || (p != q) != (o != ply) {
                        fail!("positions with plies {} and {}: == is {}", ply, o, p == q);
                    }
                    let c = p.cmp(&q);
                    if (c == Ordering::Equal) != (o == ply) || q.cmp(&p) != c.reverse() || p.partial_cmp(&q) != Some(c) || (p < q) != (c == Ordering::Less) || (p >= q) == (c == Ordering::Less) {
                        fail!("positions with plies {} and {}: cmp is {:?} and {:?}", ply, o, c, q.cmp(&p));
                    }
                    if o == ply {
                        equal_hash(&p, &q)?;
                    }
                    cx.transitions += 1;
                }
                cx.states += 1;
                cx.traces += 1;
            }
            Ok(())
        }));
        // last moves
        {
            let mut v = Vec::new();
            for m in all_moves() {
                let mut x = roots::roots()[2].1.clone();
                x.last = Some(m);
                if let Some(p) = with_last(&x) {
                    v.push(p);
                }
            }
            v.push(build(&roots::roots()[2].1));
            let n = v.len() as u64;
            s.push(order_section("last moves", "positions that differ only in the last move, all that can be last moves, and none", v, (0..n).collect(), tier.pick(31, 3)));
        }
        // history independence
        let w = roots::worlds(tier);
        let cap = tier.pick(30_000, 600_000);
        s.push(section("reached in several ways", "small worlds: whenever a position is reached by another sequence of moves, and when rebuilt by edits", w.len() as u64, {
            move |u, cx| {
                let (name, squares, m) = &w[u as usize];
                let pieces = all_pieces();
                let alphabet = roots::local_alphabet(squares, &pieces);
                let mut count = (0u64, 0u64);
                let mut step = |_: &PartialPosition, _: &M, q: &PartialPosition, m: &M, mv: Mv, v: Verdict, ok: bool| -> R {
                    if (v == Verdict::Accepted) != ok {
                        fail!("{} should be {}", show_move(mv), v.name());
                    }
                    if ok {
                        // the same board and hands by edits after the same last move
                        let o = with_last(m).ok_or("the last move cannot be made")?;
                        indistinguishable(q, &o)?;
                        count.1 += 1;
                    }
                    Ok(())
                };
                let mut merge = |a: &PartialPosition, b: &PartialPosition, _: &M| -> R {
                    count.0 += 1;
                    let mut b = b.clone();
                    let _ = b.ply_set(a.ply());
                    indistinguishable(a, &b)
                };
                let mut b = roots::Bfs { alphabet: &alphabet, max_states: cap, max_depth: 40, step: &mut step, merge: Some(&mut merge) };
                let complete = roots::bfs(m, build(m), &mut b, cx).map_err(|e| format!("world {}: {}", name, e))?;
                cx.outcome(if complete { "worlds explored completely" } else { "worlds cut at the state bound" });
                cx.outcomes_add("positions reached in two ways", count.0);
                cx.outcomes_add("positions rebuilt by edits", count.1);
                cx.sample(|| name.clone());
                Ok(())
            }
        }));
        let edited = edits::worlds(tier);
        let cap = tier.pick(30_000, 300_000);
        s.push(section("edited in several ways", "small worlds with moves, sets of squares, changes of turn and of hands, two kings of one side among them: whenever a position is reached by another sequence", edited.len() as u64, {
            move |u, cx| {
                let (name, ops, limit) = &edited[u as usize];
                let mut met = 0;
                edits::explore_meeting(
                    ops,
                    *limit,
                    cap,
                    |_, _| None,
                    |a, b| {
                        met += 1;
                        indistinguishable(a, b).err()
                    },
                    cx,
                )?;
                cx.outcomes_add("positions reached in two ways", met);
                cx.sample(|| format!("world {} of {} operations", name, ops.len()));
                Ok(())
            }
        }));
        s.push(section("edit orders", "all orders of up to five edits with one result, from each root", 11, move |u, cx| {
            let root = &roots::roots()[u as usize].1;
            let t = crate::t();
            // edits on different components
            let edits: Vec<(&str, Box<dyn Fn(&mut PartialPosition, &mut M)>)> = vec![
                ("K on 5e", Box::new(|p, m| { p.piece_set(crate::t().sq[40], crate::t().pc[8]); m.board[40] = 8; })),
                ("K on 1a", Box::new(|p, m| { p.piece_set(crate::t().sq[0], crate::t().pc[8]); m.board[0] = 8; })),
                ("k on 9i", Box::new(|p, m| { p.piece_set(crate::t().sq[80], crate::t().pc[24]); m.board[80] = 24; })),
                ("7i cleared", Box::new(|p, m| { p.piece_set(crate::t().sq[62], None); m.board[62] = 0; })),
                ("5i cleared", Box::new(|p, m| { p.piece_set(crate::t().sq[44], None); m.board[44] = 0; })),
                ("hand", Box::new(|p, m| { p.hand_of_a_player_mut(Color::White).Hand_add(PieceKind::Gold); m.hands[1][4] = m.hands[1][4].wrapping_add(1); })),
                ("ply", Box::new(|p, m| { let _ = p.ply_set(4000); m.ply = 4000; })),
                ("side", Box::new(|p, m| { p.side_to_move_set(Color::White); m.side = 1; })),
            ];
            let n = edits.len();
            let len = 5;
            let mut groups: HashMap<u32, PartialPosition> = HashMap::new();
            let mut idx = vec![0usize; len];
            loop {
                let set: u32 = idx.iter().map(|&i| 1u32 << i).fold(0, |a, b| a | b);
                if set.count_ones() as usize == len {
                    let mut p = build(root);
                    let mut m = root.clone();
                    for &i in &idx {
                        (edits[i].1)(&mut p, &mut m);
                    }
                    let names = || idx.iter().map(|&i| edits[i].0).collect::<Vec<_>>().join(", ");
                    if let Some(d) = core_diff(&p, &m) {
                        fail!("{} then {}: {}", root.show(), names(), d);
                    }
                    match groups.get(&set) {
                        None => {
                            let o = build(&m);
                            indistinguishable(&p, &o).map_err(|e| format!("{} then {}: {}", root.show(), names(), e))?;
                            groups.insert(set, p);
                        }
                        Some(o) => indistinguishable(&p, o).map_err(|e| format!("{} then {}: {}", root.show(), names(), e))?,
                    }
                    cx.transitions += len as u64;
                    cx.traces += 1;
                }
                let mut i = 0;
                while i < len {
                    idx[i] += 1;
                    if idx[i] < n {
                        break;
                    }
                    idx[i] = 0;
                    i += 1;
                }
                if i == len {
                    break;
                }
            }
            cx.states += groups.len() as u64;
            let _ = t;
            Ok(())
        }));
        // positions with history
        {
            let rs = roots::roots();
            let mut v: Vec<Position> = Vec::new();
            let mut content: Vec<(M, Vec<Mv>, u8)> = Vec::new();
            // With edits of the current position afterwards: 3 is 1 undone, so it is like none.
            #[allow(deprecated)]
            let edited = |m: &M, seq: &[Mv], edit: u8, v: &mut Vec<Position>, content: &mut Vec<(M, Vec<Mv>, u8)>| {
                let mut p = Position::arbitrary_position(build(m));
                for &x in seq {
                    assert!(p.make_move(to_move(x)).is_some(), "{} {}", m.show(), show_move(x));
                }
                let s = t.sq[44];
                let was = p.piece_at(s);
                if edit == 1 || edit == 3 {
                    p.piece_set(s, t.pc[21]);
                }
                if edit == 2 {
                    let h = p.hand_of_a_player_mut(Color::White);
                    *h = h.added(PieceKind::Knight).unwrap();
                }
                if edit == 3 {
                    p.piece_set(s, was);
                }
                v.push(p);
                content.push((m.clone(), seq.to_vec(), edit % 3));
            };
            let add = |m: &M, seq: &[Mv], v: &mut Vec<Position>, content: &mut Vec<(M, Vec<Mv>, u8)>| edited(m, seq, 0, v, content);
            // Sequences that end in the same position by different moves, and others.
            let n = |from, to, promote| Mv::Normal { from, to, promote };
            let seqs: Vec<Vec<Mv>> = vec![
                vec![],
                vec![n(6, 5, false)],
                vec![n(6, 5, false), n(2, 3, false)],
                vec![n(6, 5, false), n(2, 3, true)],
                vec![n(6, 5, false), n(11, 12, false)],
                vec![n(15, 14, false), n(2, 3, false)],
                vec![n(6, 5, false), n(2, 3, false), n(15, 14, false), n(11, 12, false)],
                vec![n(15, 14, false), n(2, 3, false), n(6, 5, false), n(11, 12, false)],
                vec![n(6, 5, false), n(11, 12, false), n(15, 14, false), n(2, 3, false)],
                vec![n(15, 14, false), n(11, 12, false), n(6, 5, false), n(2, 3, false)],
                vec![n(16, 2, false)],
                vec![n(16, 2, true)],
                vec![n(16, 2, false), n(11, 12, false), Mv::Drop { piece: 1, to: 40 }],
                vec![n(16, 2, false), n(11, 12, false), Mv::Drop { piece: 1, to: 40 }, n(12, 11, false)],
                vec![n(16, 15 - 1, false)],
            ];
            for ply in [1u16, 2, 300] {
                for first in 0..4u8 {
                    let mut m = rs[0].1.clone();
                    m.ply = ply;
                    if first == 3 {
                        // Taken, a promoted pawn is like a pawn.
                        m.board[2] = 25;
                    }
                    if first == 1 {
                        m.hands[0][0] = 1;
                    }
                    if first == 2 {
                        m.board[40] = 5;
                    }
                    for q in &seqs {
                        if first == 2 && q.iter().any(|x| mv_to(*x) == 40) {
                            continue;
                        }
                        if first == 3 && q.iter().any(|x| *x == n(2, 3, true)) {
                            continue;
                        }
                        add(&m, q, &mut v, &mut content);
                        add(&m, q, &mut v, &mut content);
                        if ply < 3 {
                            for edit in 1..=3 {
                                edited(&m, q, edit, &mut v, &mut content);
                            }
                        }
                    }
                }
            }
            for (_, m) in &rs {
                add(m, &[], &mut v, &mut content);
            }
            v.push(Position::startpos());
            content.push((M::startpos(), vec![], 0));
            v.push(Position::default());
            content.push((M::startpos(), vec![], 0));
            let mut seen: HashMap<(M, Vec<Mv>, u8), u64> = HashMap::new();
            let id: Vec<u64> = content
                .iter()
                .map(|c| {
                    let k = seen.len() as u64;
                    *seen.entry(c.clone()).or_insert(k)
                })
                .collect();
            s.push(order_section("positions with history", "different initial positions, sequences that transpose or end in one position from different ones, edits afterwards, duplicates", v, id, 1));
        }
        s.push(section("long histories", "two games that differ only in their first moves (or only in one move far back), compared after each of many common moves", 4, move |u, cx| {
            let n = |from, to| to_move(Mv::Normal { from, to, promote: false });
            let quiet = |a: u8, b: u8, c: u8, d: u8| [n(a, b), n(c, d), n(b, a), n(d, c)];
            let (x, y) = (quiet(6, 5, 2, 3), quiet(15, 14, 11, 12));
            let lead = [0usize, 1, 7, 70][u as usize];
            let mut p = Position::startpos();
            let mut q = Position::startpos();
            let mut both = Vec::new();
            for _ in 0..lead {
                both.extend(quiet(24, 23, 20, 21));
            }
            for m in both {
                ensure!(p.make_move(m).is_some() && q.make_move(m).is_some(), "{:?} rejected", m);
            }
            let o = p.clone();
            ensure!(p == q && p.cmp(&q) == Ordering::Equal, "equal histories of {} moves are not equal", p.moves().len());
            equal_hash(&p, &q)?;
            for m in x {
                ensure!(p.make_move(m).is_some(), "{:?} rejected", m);
            }
            for m in y {
                ensure!(q.make_move(m).is_some(), "{:?} rejected", m);
            }
            let first = p.cmp(&q);
            let mut r = p.clone();
            for i in 0..tier.pick(400, 4000) {
                for m in quiet(33, 32, 29, 30) {
                    ensure!(p.make_move(m).is_some() && q.make_move(m).is_some() && r.make_move(m).is_some(), "{:?} rejected", m);
                    if p == q || !(p != q) || p.cmp(&q) == Ordering::Equal || q.cmp(&p) != p.cmp(&q).reverse() {
                        fail!("games of {} moves that differ at move {} are equal (cmp {:?})", p.moves().len(), 4 * lead, p.cmp(&q));
                    }
                    if p.inner() != q.inner() {
                        fail!("the current positions differ after transposition and move {} of the common part", i);
                    }
                    if p != r || p.cmp(&r) != Ordering::Equal {
                        fail!("the same game of {} moves is not equal to itself", p.moves().len());
                    }
                    cx.transitions += 3;
                }
                equal_hash(&p, &r)?;
                ensure!(p != o && p.cmp(&o) != Ordering::Equal, "a longer game equals its beginning");
                cx.states += 1;
            }
            let _ = first;
            cx.traces += 3;
            Ok(())
        }));
        // Asking is not part of the content.
        s.push(section("asked or not", "positions, with history and without, and games: one answers any two queries, an equal one none, and they stay equal", asked::kinds(), asked::unit));
        // games
        {
            let mut games = Vec::new();
            let mut pg = Vec::new();
            let mut id = Vec::new();
            for a in 0..6usize {
                for b in 0..6usize {
                    for c in 0..6usize {
                        let mut g = Game::default();
                        let mut p = PartialGame::default();
                        for x in [a, b, c] {
                            if x == 0 {
                                g.unresolve();
                                p.unresolve();
                            } else {
                                g.resolve(RESOLUTIONS[x - 1]);
                                p.resolve(RESOLUTIONS[x - 1]);
                            }
                        }
                        games.push(g);
                        pg.push(p);
                        id.push(c as u64);
                    }
                }
            }
            s.push(order_section("games", "all sequences of three resolutions or resets", games, id.clone(), 1));
            s.push(order_section("partial games", "all sequences of three resolutions or resets", pg, id, 1));
        }
        let _ = Arc::new(());
        s
    });
}
fn t_kind(k: u8) -> PieceKind {
    t().kind[k as usize]
}

mod asked {
    use super::*;
    fn ask_partial(p: &PartialPosition, q: usize) {
        let t = crate::t();
        match q {
            0 => drop(p.to_sfen_owned()),
            1 => drop(c_text(|b| unsafe { p.to_sfen_c(b) })),
            2 => drop(t.sq.map(|s| (p.piece_at(s), p.PartialPosition_piece_at(s)))),
            3 => drop(t.color.map(|c| (p.hand_of_a_player(c), p.king_position(c)))),
            4 => drop(t.color.map(|c| p.player_bitboard(c).count())),
            5 => drop((p.vacant_bitboard().count(), p.occupied_bitboard().count())),
            6 => t.pc.iter().flatten().for_each(|&x| drop((p.piece_bitboard(x).count(), p.hand(x)))),
            7 => KIND_LIST.iter().for_each(|&k| drop(p.piece_kind_bitboard(k).count())),
            8 => drop((p.last_move(), p.last_compact_move(), p.PartialPosition_last_compact_move())),
            9 => drop((p.side_to_move(), p.ply())),
            10 => drop((hashes(p), format!("{:?}", p))),
            _ => drop((p.cmp(&PartialPosition::startpos()), *p == PartialPosition::empty(), p.clone())),
        }
    }
    const PARTIAL: usize = 12;
    fn ask(p: &Position, q: usize) {
        let t = crate::t();
        match q {
            0 => drop(p.to_sfen_owned()),
            1 => drop(c_text(|b| unsafe { p.to_sfen_c(b) })),
            2 => drop(t.sq.map(|s| (p.piece_at(s), p.Position_piece_at(s)))),
            3 => drop(t.color.map(|c| p.hand_of_a_player(c))),
            4 => drop(t.color.map(|c| p.player_bitboard(c).count())),
            5 => drop((p.vacant_bitboard().count(), p.occupied_bitboard().count())),
            6 => t.pc.iter().flatten().for_each(|&x| drop((p.piece_bitboard(x).count(), p.hand(x)))),
            7 => drop((p.moves().len(), p.initial_position().ply(), p.moves().last().copied())),
            8 => drop((p.last_move(), p.last_compact_move(), p.Position_last_compact_move())),
            9 => drop((p.side_to_move(), p.ply())),
            10 => drop((hashes(p), format!("{:?}", p))),
            11 => drop((p.cmp(&Position::startpos()), *p == Position::default(), p.clone())),
            _ => match q - 12 {
                x if x < PARTIAL => ask_partial(p.inner(), x),
                x => ask_partial(p.initial_position(), x - PARTIAL),
            },
        }
    }
    const FULL: usize = 12 + 2 * PARTIAL;
    fn same<T: Ord + Hash + Clone + std::fmt::Debug>(asked: &T, fresh: &T, other: &T, what: &dyn Fn() -> String) -> R {
        let ok = asked == fresh && fresh == asked && !(asked != fresh) && !(fresh != asked);
        ensure!(ok, "after {}, a position or game is not equal to one like it that was not asked: {:?} and {:?}", what(), asked, fresh);
        let o = [asked.cmp(fresh), fresh.cmp(asked), asked.partial_cmp(fresh).unwrap_or(Ordering::Less), fresh.partial_cmp(asked).unwrap_or(Ordering::Less)];
        ensure!(o == [Ordering::Equal; 4], "after {}, compared with one not asked: {:?}", what(), o);
        let c = asked.clone();
        ensure!(c == *fresh && c.cmp(fresh) == Ordering::Equal, "after {}, a clone is not equal to one not asked", what());
        let (x, y) = (asked.cmp(other), fresh.cmp(other));
        ensure!(x == y && (asked == other) == (fresh == other), "after {}, compared with another: {:?}, one not asked: {:?}", what(), x, y);
        equal_hash(asked, fresh).map_err(|e| format!("after {}: {}", what(), e))?;
        equal_hash(&c, fresh).map_err(|e| format!("after {}, a clone: {}", what(), e))
    }
    fn sweep<T: Ord + Hash + Clone + std::fmt::Debug>(make: &dyn Fn() -> T, other: &T, n: usize, ask: &dyn Fn(&T, usize), cx: &mut Cx) -> R {
        for a in 0..n {
            for b in 0..=n {
                let x = make();
                ask(&x, a);
                if b < n {
                    ask(&x, b);
                }
                let y = make();
                same(&x, &y, other, &|| format!("queries {} and {} of {}", a, b, n))?;
                cx.transitions += 2;
                cx.traces += 1;
            }
        }
        cx.states += 1;
        Ok(())
    }
    fn after(n: usize, m: &M) -> Position {
        let mut p = Position::arbitrary_position(build(m));
        let line = [(6, 5), (2, 3), (15, 14), (11, 12)];
        for i in 0..n {
            let (a, b) = line[i % 4];
            let (from, to) = if i / 4 % 2 == 0 { (a, b) } else { (b, a) };
            let _ = p.make_move(to_move(Mv::Normal { from, to, promote: false }));
        }
        p
    }
    pub fn kinds() -> u64 {
        (roots::roots().len() + 9) as u64
    }
    pub fn unit(u: u64, cx: &mut Cx) -> R {
        let rs = roots::roots();
        let u = u as usize;
        if u < rs.len() {
            let m = &rs[u].1;
            let other = build(&rs[(u + 1) % rs.len()].1);
            sweep(&|| build(m), &other, PARTIAL, &ask_partial, cx)?;
            let other = after(0, &rs[(u + 1) % rs.len()].1);
            sweep(&|| after(0, m), &other, FULL, &ask, cx)?;
            return sweep(&|| after(3, m), &other, FULL, &ask, cx);
        }
        let start = M::startpos();
        let other = after(2, &start);
        match u - rs.len() {
            7 => {
                let mut g = Game::default();
                g.resolve(RESOLUTIONS[1]);
                sweep(&Game::default, &g, FULL + 1, &|g, q| if q < FULL { ask(g.position(), q) } else { drop((g.resolution(), g.Game_resolution())) }, cx)
            }
            8 => {
                let mut g = PartialGame::default();
                g.resolve(RESOLUTIONS[1]);
                let q = |g: &PartialGame, q: usize| if q < PARTIAL { ask_partial(g.position(), q) } else { drop((g.resolution(), g.PartialGame_resolution())) };
                sweep(&PartialGame::default, &g, PARTIAL + 1, &q, cx)
            }
            i => {
                let n = [0, 1, 4, 8, 16, 37, 100][i];
                sweep(&|| after(n, &start), &other, FULL, &ask, cx)
            }
        }
    }
}
