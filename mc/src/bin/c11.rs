//! C11: enumerating a bitboard yields each member exactly once.
use mc::vals::FULL;
use mc::*;
use shogi_core::c_compat::*;
use shogi_core::*;
use std::sync::Arc;

fn hint(b: &Bitboard, left: usize, m: u128) -> R {
    let (lo, hi) = b.size_hint();
    if lo > left || hi.map_or(false, |h| h < left) {
        fail!("{}: size hint ({}, {:?}) with {} squares left", show_mask(m), lo, hi, left);
    }
    Ok(())
}
/// Takes everything in one way (pop, next, pop of the C interface); returns the order.
fn takes(way: usize, m: u128, out: &mut Vec<Square>) -> R {
    let name = ["pop", "next", "C pop"][way];
    let take = |b: &mut Bitboard| match way {
        0 => b.pop(),
        1 => b.next(),
        _ => b.Bitboard_pop().into(),
    };
    out.clear();
    let mut b = mask_bb(m);
    let mut left = m;
    loop {
        hint(&b, left.count_ones() as usize, m)?;
        match take(&mut b) {
            None => {
                if left != 0 {
                    fail!("{}: {} gives none while {} are left", show_mask(m), name, show_mask(left));
                }
                break;
            }
            Some(q) => {
                let i = sq_num(q);
                if left >> i & 1 == 0 {
                    fail!("{}: {} gives {}, left are {}", show_mask(m), name, square_text(i), show_mask(left));
                }
                left &= !(1 << i);
                out.push(q);
                if b != mask_bb(left) || b.count() as u32 != left.count_ones() {
                    fail!("{}: after {} of {} the set is {}, expected {}", show_mask(m), name, square_text(i), show_bb(b), show_mask(left));
                }
            }
        }
    }
    for _ in 0..3 {
        if b.pop().is_some() || b.next().is_some() || Option::<Square>::from(b.Bitboard_pop()).is_some() {
            fail!("{}: a square after the end", show_mask(m));
        }
        if b != Bitboard::empty() || !b.is_empty() {
            fail!("{}: after the end the set is {}", show_mask(m), show_bb(b));
        }
        hint(&b, 0, m)?;
    }
    Ok(())
}
fn pops(m: u128, out: &mut Vec<Square>) -> R {
    takes(0, m, out)
}
/// The other ways of taking squares; leaves the order of the plain enumeration. Which member pop takes is not specified,
/// hence not whether next takes the same one.
fn ways(m: u128, order: &mut Vec<Square>) -> R {
    let mut c = Vec::new();
    takes(2, m, &mut c)?;
    if c != *order {
        fail!("{}: pop gives {:?}, C pop {:?}", show_mask(m), order, c);
    }
    takes(1, m, order)
}
fn adaptors(m: u128, v: &[Square], deep: bool) -> R {
    let b = mask_bb(m);
    let n = v.len();
    macro_rules! eq {
        ($name:expr, $got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            if g != w {
                fail!("{}: {} gives {:?}, plain enumeration {:?}", show_mask(m), $name, g, w);
            }
        }};
    }
    eq!("collect", b.collect::<Vec<_>>(), v);
    let mut w = Vec::new();
    for q in b {
        w.push(q);
    }
    eq!("for", &w[..], v);
    eq!("Iterator::count", Iterator::count(b), n);
    eq!("last", b.last(), v.last().copied());
    eq!("fold", b.fold(Vec::new(), |mut a, q| { a.push(q); a }), v);
    let mut w = Vec::new();
    b.for_each(|q| w.push(q));
    eq!("for_each", &w[..], v);
    eq!("max", Iterator::max(b), v.iter().copied().max());
    eq!("min", Iterator::min(b), v.iter().copied().min());
    eq!("map sum", b.map(|q| q.index() as u32).sum::<u32>(), v.iter().map(|q| q.index() as u32).sum::<u32>());
    eq!("reduce", b.reduce(|_, q| q), v.iter().copied().reduce(|_, q| q));
    eq!("fuse", b.fuse().collect::<Vec<_>>(), v);
    eq!("peekable", { let mut p = b.peekable(); let f = p.peek().copied(); (f, p.collect::<Vec<_>>()) }, (v.first().copied(), v.to_vec()));
    eq!("enumerate", b.enumerate().map(|(i, q)| (q, i)).collect::<Vec<_>>(), v.iter().copied().zip(0..n).collect::<Vec<_>>());
    eq!("chain", b.chain(b).collect::<Vec<_>>(), [v, v].concat());
    eq!("zip", b.zip(b).collect::<Vec<_>>(), v.iter().copied().zip(v.iter().copied()).collect::<Vec<_>>());
    eq!("eq", Iterator::eq(b, v.iter().copied()), true);
    eq!("partition", b.partition::<Vec<Square>, _>(|q| q.index() % 2 == 0), v.iter().copied().partition::<Vec<Square>, _>(|q| q.index() % 2 == 0));
    eq!("cycle", b.cycle().take(2 * n + 1).collect::<Vec<_>>(), v.iter().copied().cycle().take(2 * n + 1).collect::<Vec<_>>());
    eq!("try_fold", { let mut c = b; let r: Option<usize> = c.try_fold(0, |a, _| if a < 3 { Some(a + 1) } else { None }); (r, c.collect::<Vec<_>>()) },
        { let mut c = v.iter().copied(); let r: Option<usize> = c.try_fold(0, |a, _| if a < 3 { Some(a + 1) } else { None }); (r, c.collect::<Vec<_>>()) });
    let mut e = Vec::new();
    e.extend(b);
    eq!("extend", &e[..], v);
    let ks: Vec<usize> = if deep { (0..=n + 2).collect() } else { [0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1, 63, 64, 81, 82].into_iter().collect() };
    for k in ks {
        let mut c = b;
        let got = c.nth(k);
        let rest: Vec<Square> = c.collect();
        if got != v.get(k).copied() || rest != v.get(k + 1..).unwrap_or(&[]) {
            fail!("{}: nth({}) gives {:?} and leaves {:?}; plain enumeration gives {:?}", show_mask(m), k, got, rest, v);
        }
        eq!(format!("skip({})", k), b.skip(k).collect::<Vec<_>>(), v.get(k..).unwrap_or(&[]));
        eq!(format!("take({})", k), b.take(k).collect::<Vec<_>>(), &v[..k.min(n)]);
        eq!(format!("step_by({})", k + 1), b.step_by(k + 1).collect::<Vec<_>>(), v.iter().copied().step_by(k + 1).collect::<Vec<_>>());
        let mut c = b;
        let first: Vec<Square> = c.by_ref().take(k).collect();
        eq!(format!("by_ref().take({})", k), (first.len(), c.collect::<Vec<_>>()), (k.min(n), v.get(k..).unwrap_or(&[]).to_vec()));
    }
    for &q in v.iter().chain([&t().sq[0], &t().sq[63]]) {
        let has = m >> sq_num(q) & 1 == 1;
        let mut c = b;
        eq!("find", c.find(|&x| x == q), if has { Some(q) } else { None });
        let at = v.iter().position(|&x| x == q);
        eq!("find leaves", c.collect::<Vec<_>>(), at.map_or(&[][..], |k| &v[k + 1..]));
        let mut c = b;
        eq!("position", c.position(|x| x == q), at);
        let mut c = b;
        eq!("any", c.any(|x| x == q), has);
        let mut c = b;
        eq!("all", c.all(|x| x != q), !has);
    }
    // the original is not consumed: a bitboard is copied
    if b != mask_bb(m) {
        fail!("{}: the set changed by enumerating a copy", show_mask(m));
    }
    Ok(())
}

fn main() {
    runner::main(|tier| {
        let mut s = Vec::new();
        let masks = Arc::new(vals::masks(tier));
        let ms = masks.clone();
        s.push(section("families", "each set of the family: all pops, all ways of taking the next, hints, adaptors on every eighth", masks.len().div_ceil(64) as u64, move |u, cx| {
            let mut order = Vec::new();
            for (i, &m) in ms.iter().enumerate().skip(u as usize * 64).take(64) {
                pops(m, &mut order)?;
                ways(m, &mut order)?;
                if i % 8 == 0 || m.count_ones() <= 2 {
                    adaptors(m, &order, i % 64 == 0)?;
                    cx.outcome("adaptors");
                }
                cx.states += 1;
                cx.transitions += m.count_ones() as u64 * 3;
                cx.traces += 3;
            }
            cx.sample(|| show_mask(ms[u as usize * 64]));
            Ok(())
        }));
        // every subset of windows of consecutive squares, others none or all
        let width = tier.pick(12usize, 17);
        let starts: Vec<usize> = tier.pick(vec![0, 20, 45, 52, 57, 62, 63, 69], vec![0, 10, 30, 46, 50, 55, 60, 62, 63, 64]);
        s.push(section("windows", "all subsets of consecutive squares, alone and with all other squares", starts.len() as u64 * 32, move |u, cx| {
            let at = starts[u as usize / 32];
            let mut order = Vec::new();
            for p in (u as u128 % 32..1 << width).step_by(32) {
                let w = (p << at) & FULL;
                for m in [w, FULL & !w] {
                    pops(m, &mut order)?;
                    if p % 64 == 5 {
                        adaptors(m, &order, false)?;
                    }
                    cx.states += 1;
                    cx.transitions += m.count_ones() as u64;
                    cx.traces += 1;
                }
            }
            Ok(())
        }));
        s.push(section("deep adaptors", "adaptors with every argument, on sets of all sizes", 82 * 3, |u, cx| {
            let k = u as usize / 3;
            let m = match u % 3 {
                0 => if k == 0 { 0 } else { FULL >> (81 - k) },
                1 => (0..k).fold(0u128, |m, i| m | 1 << (i * 32 % 81)),
                _ => if k == 0 { 0 } else { (FULL << (81 - k)) & FULL },
            };
            let mut order = Vec::new();
            pops(m, &mut order)?;
            ways(m, &mut order)?;
            adaptors(m, &order, true)?;
            mc::iters::laws(&|| show_mask(m), || mask_bb(m), &order, |q| sq_num(*q) as usize)?;
            cx.states += 1;
            cx.transitions += order.len() as u64 * 20;
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("interleaved", "all sequences of popping and adding squares (two sets, popped in turns) to a depth", 10 * 10, move |u, cx| {
            let squares = [0usize, 40, 62, 63, 80];
            fn go(a: (Bitboard, u128), b: (Bitboard, u128), path: &mut Vec<u64>, depth: usize, first: [u64; 2], squares: &[usize; 5], cx: &mut Cx) -> R {
                if path.len() == depth {
                    cx.traces += 1;
                    return Ok(());
                }
                for op in 0..10u64 {
                    if path.len() < 2 && first[path.len()] != op {
                        continue;
                    }
                    path.push(op);
                    let (mut a2, mut b2) = (a, b);
                    match op {
                        0..=4 => {
                            a2.0 |= t().sq[squares[op as usize]];
                            a2.1 |= 1 << squares[op as usize];
                        }
                        5 | 6 | 7 => {
                            let x = if op == 6 { &mut b2 } else { &mut a2 };
                            let got = if op == 7 { x.0.next() } else { x.0.pop() };
                            match got {
                                None => if x.1 != 0 { fail!("operations {:?}: none from {}", path, show_mask(x.1)) },
                                Some(q) => {
                                    if x.1 >> sq_num(q) & 1 == 0 {
                                        fail!("operations {:?}: {:?} from {}", path, q, show_mask(x.1));
                                    }
                                    x.1 &= !(1 << sq_num(q));
                                }
                            }
                        }
                        8 => b2 = a2,
                        _ => { a2.0 = a2.0 ^ b2.0; a2.1 ^= b2.1; }
                    }
                    if a2.0 != mask_bb(a2.1) || b2.0 != mask_bb(b2.1) {
                        fail!("operations {:?}: sets are {} and {}, expected {} and {}", path, show_bb(a2.0), show_bb(b2.0), show_mask(a2.1), show_mask(b2.1));
                    }
                    cx.transitions += 1;
                    go(a2, b2, path, depth, first, squares, cx)?;
                    path.pop();
                }
                Ok(())
            }
            cx.states += 1;
            let z = (Bitboard::empty(), 0);
            go(z, z, &mut Vec::new(), tier.pick(7, 8), [u / 10, u % 10], &squares, cx)
        }));
        if tier == Tier::Thorough {
            s.push(section("deep family", vals::DEEP, vals::DEEP_UNITS, |u, cx| {
                cx.traces += 1;
                let mut order = Vec::new();
                vals::deep(u, |m| {
                    cx.states += 1;
                    cx.transitions += m.count_ones() as u64;
                    pops(m, &mut order)
                })
            }));
        }
        s
    });
}
