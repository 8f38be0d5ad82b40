//! C16: a hand is a multiset of the seven hand kinds.
use mc::*;
use shogi_core::*;

/// All counts at once.
fn is(h: Hand, m: &[u8; 7], what: &dyn Fn() -> String) -> R {
    let t = t();
    for k in KINDS {
        let want = if k <= 7 { Some(m[k as usize - 1]) } else { None };
        let kind = t.kind[k as usize];
        if h.count(kind) != want || h.Hand_count(kind) != want.unwrap_or(0) {
            fail!("{}: count of {:?} is {:?} (C: {}), expected {:?}", what(), kind, h.count(kind), h.Hand_count(kind), want);
        }
    }
    Ok(())
}
/// Every operation on this hand.
fn ops(h: Hand, m: &[u8; 7], cx: &mut Cx) -> R {
    let t = t();
    is(h, m, &|| format!("{:?}", m))?;
    for k in KINDS {
        let kind = t.kind[k as usize];
        let add = if k <= 7 { let mut x = *m; x[k as usize - 1] = x[k as usize - 1].wrapping_add(1); Some(x) } else { None };
        let rem = if k <= 7 && m[k as usize - 1] > 0 { let mut x = *m; x[k as usize - 1] -= 1; Some(x) } else { None };
        for (name, want, pure) in [("added", add, h.added(kind)), ("removed", rem, h.removed(kind))] {
            let what = || format!("{:?} {} {:?}", m, name, kind);
            match (pure, want) {
                (None, None) => {}
                (Some(g), Some(w)) => {
                    is(g, &w, &what)?;
                    if w != *m && g == h {
                        fail!("{}: equal to the hand before", what());
                    }
                }
                (g, w) => fail!("{}: {:?}, expected {:?}", what(), g, w),
            }
            let mut x = h;
            let ok = if name == "added" { x.Hand_add(kind) } else { x.Hand_remove(kind) };
            if ok != want.is_some() {
                fail!("{} in place: reports {}", what(), ok);
            }
            is(x, &want.unwrap_or(*m), &|| format!("{} in place", what()))?;
            if let Some(g) = pure {
                if x != g {
                    fail!("{} in place gives {:?}, otherwise {:?}", what(), x, g);
                }
            } else if x != h {
                fail!("{} in place failed but changed the hand to {:?}", what(), x);
            }
            is(h, m, &|| format!("{}: the original", what()))?;
        }
        cx.transitions += 4;
    }
    cx.states += 1;
    Ok(())
}

fn main() {
    runner::main(|tier| {
        let mut s = Vec::new();
        s.push(section("kinds", "hand kinds, their enumeration, the empty hand", 1, |_, cx| {
            let t = t();
            for k in KINDS {
                same!(Hand::is_hand_piece(t.kind[k as usize]), k <= 7, "is_hand_piece({:?})", t.kind[k as usize]);
                same!(Hand::Hand_is_hand_piece(t.kind[k as usize]), k <= 7, "C is_hand_piece({:?})", t.kind[k as usize]);
                cx.transitions += 2;
            }
            let all: Vec<PieceKind> = Hand::all_hand_pieces().collect();
            ensure!(all.len() == 7, "{} hand kinds: {:?}", all.len(), all);
            for k in 1..=7 {
                ensure!(all.contains(&t.kind[k]), "{:?} is not among the hand kinds", t.kind[k]);
            }
            same!(Hand::NUM_HAND_PIECES, 7, "number of hand kinds");
            mc::iters::laws(&|| "Hand::all_hand_pieces()".into(), Hand::all_hand_pieces, &all, |k| *k as usize)?;
            for k in 0..9 {
                same!(Hand::all_hand_pieces().nth(k), all.get(k).copied(), "nth hand kind");
            }
            is(Hand::new(), &[0; 7], &|| "new".into())?;
            is(Hand::default(), &[0; 7], &|| "default".into())?;
            ensure!(Hand::new() == Hand::default(), "new and default differ");
            cx.states += 1;
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("one count", "each kind x all 256 counts x others none, one, many, 255: every operation", 7 * 6, |u, cx| {
            let k = u as usize / 6;
            for n in 0..=255u8 {
                let mut m: [u8; 7] = match u % 6 {
                    0 => [0; 7],
                    1 => [1; 7],
                    2 => [18, 4, 4, 4, 4, 2, 2],
                    3 => [255; 7],
                    4 => [128, 127, 3, 64, 200, 16, 99],
                    _ => [n; 7],
                };
                m[k] = n;
                ops(make_hand(&m), &m, cx)?;
            }
            cx.traces += 1;
            cx.sample(|| format!("kind {} with all counts", letter(k as u8 + 1)));
            Ok(())
        }));
        s.push(section("two counts", "each two kinds x all pairs of counts: every operation (quick: every fifth first count)", 21 * 16, move |u, cx| {
            let (mut a, mut b, mut n) = (0usize, 1usize, u / 16);
            while n > 0 {
                n -= 1;
                b += 1;
                if b == 7 {
                    a += 1;
                    b = a + 1;
                }
            }
            for x in (u % 16 * 16..u % 16 * 16 + 16).filter(|x| tier == Tier::Thorough || x % 3 == 0 || x % 10 == 0 || *x == 255 || x.is_power_of_two()) {
                let mut m = [0u8; 7];
                m[a] = x as u8;
                let mut h = make_hand(&m);
                for y in 0..=255u8 {
                    m[b] = y;
                    ops(h, &m, cx)?;
                    h = h.added(t().kind[b + 1]).ok_or("added failed")?;
                }
                // and after 256 additions it is where it began
                m[b] = 0;
                is(h, &m, &|| format!("{:?} after 256 additions", m))?;
            }
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("small hands", "all hands with counts from a small set for all seven kinds: every operation", 7 * 7, move |u, cx| {
            let some: Vec<u8> = tier.pick(vec![0, 1, 2, 255], vec![0, 1, 2, 9, 18, 128, 255]);
            let n = some.len() as u64;
            let total = n.pow(7);
            for i in (u..total).step_by(49) {
                let mut m = [0u8; 7];
                let mut x = i;
                for k in 0..7 {
                    m[k] = some[(x % n) as usize];
                    x /= n;
                }
                ops(make_hand(&m), &m, cx)?;
            }
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("operation sequences", "all sequences of in-place additions and removals of all 14 kinds to a depth, from the empty hand and hands at the limits", 28 * 3, move |u, cx| {
            fn go(h: &mut Hand, m: &mut [u8; 7], path: &mut Vec<u64>, depth: usize, cx: &mut Cx) -> R {
                if path.len() == depth {
                    is(*h, m, &|| format!("after operations {:?} (below 14: add)", path))?;
                    cx.traces += 1;
                    return Ok(());
                }
                for op in 0..28u64 {
                    step(h, m, path, op, depth, cx)?;
                }
                Ok(())
            }
            fn step(h: &mut Hand, m: &mut [u8; 7], path: &mut Vec<u64>, op: u64, depth: usize, cx: &mut Cx) -> R {
                let (h0, m0) = (*h, *m);
                path.push(op);
                let k = (op % 14) as u8 + 1;
                let kind = t().kind[k as usize];
                let want = if k > 7 {
                    false
                } else if op < 14 {
                    m[k as usize - 1] = m[k as usize - 1].wrapping_add(1);
                    true
                } else if m[k as usize - 1] > 0 {
                    m[k as usize - 1] -= 1;
                    true
                } else {
                    false
                };
                let got = if op < 14 { h.Hand_add(kind) } else { h.Hand_remove(kind) };
                if got != want {
                    fail!("operations {:?} (below 14: add): the last reports {}", path, got);
                }
                if path.len() < 3 {
                    is(*h, m, &|| format!("after operations {:?}", path))?;
                }
                cx.transitions += 1;
                go(h, m, path, depth, cx)?;
                path.pop();
                *h = h0;
                *m = m0;
                Ok(())
            }
            let mut m = [[0u8; 7], [255; 7], [0, 255, 1, 254, 0, 255, 1]][u as usize / 28];
            cx.states += 1;
            step(&mut make_hand(&m), &mut m, &mut Vec::new(), u % 28, tier.pick(4, 5), cx)
        }));
        s.push(section("in a position", "the hand of each player inside a position: in-place operations change only that hand's count", 2 * 7, |u, cx| {
            let t = t();
            let (c, k) = (u as usize / 7, u as usize % 7);
            for (_, root) in roots::roots() {
                let mut m = root.clone();
                let mut p = build(&m);
                for i in 0..520u32 {
                    let add = i < 260;
                    let want = if add { m.hands[c][k] = m.hands[c][k].wrapping_add(1); true } else if m.hands[c][k] > 0 { m.hands[c][k] -= 1; true } else { false };
                    let h = p.hand_of_a_player_mut(t.color[c]);
                    let got = if add { h.Hand_add(t.kind[k + 1]) } else { h.Hand_remove(t.kind[k + 1]) };
                    ensure!(got == want, "step {} reports {}", i, got);
                    if let Some(d) = core_diff_full(&p, &m) {
                        fail!("{}: {}", m.show(), d);
                    }
                    cx.transitions += 1;
                }
                cx.states += 1;
                cx.traces += 1;
            }
            Ok(())
        }));
        s
    });
}
