//! C13: byte-swapped bitboards mirror ordinary ones.
use mc::*;
use shogi_core::*;
use std::sync::Arc;

fn one(m: u128) -> R {
    let b = mask_bb(m);
    let w = b.swap_bytes();
    if w.to_u128() != b.to_u128().swap_bytes() {
        fail!("{}: reversed raw value is {:#x}, of {:#x}", show_mask(m), w.to_u128(), b.to_u128());
    }
    let back = w.swap_bytes();
    if back != b || bb_mask(back) != m || back.count() as u32 != m.count_ones() {
        fail!("{} becomes {} when reversed twice", show_mask(m), show_bb(back));
    }
    let raw = unsafe { ByteSwappedBitboard::from_u128_unchecked(w.to_u128()) };
    if raw != w || raw.to_u128() != w.to_u128() || raw.swap_bytes() != b {
        fail!("{}: the reversed set becomes {:?} through its raw value, not {:?}", show_mask(m), raw, w);
    }
    Ok(())
}
fn two(ma: u128, mb: u128) -> R {
    let (a, b) = (mask_bb(ma), mask_bb(mb));
    let (x, y) = (a.swap_bytes(), b.swap_bytes());
    for (name, plain, got, want) in [
        ("or", a.or(b), x.or(y), ma | mb),
        ("and", a.and(b), x.and(y), ma & mb),
        ("xor", a.xor(b), x.xor(y), ma ^ mb),
        ("andnot", a.andnot(b), x.andnot(y), !ma & mb),
    ] {
        if got != plain.swap_bytes() || got.swap_bytes() != mask_bb(want) {
            fail!("{} of reversed {} and {} is {:?}, reversed back {}", name, show_mask(ma), show_mask(mb), got, show_bb(got.swap_bytes()));
        }
    }
    if (x == y) != (ma == mb) {
        fail!("reversed {} == reversed {} is {}", show_mask(ma), show_mask(mb), x == y);
    }
    Ok(())
}

fn main() {
    runner::main(|tier| {
        let mut s = Vec::new();
        let masks = Arc::new(vals::masks(tier));
        let ms = masks.clone();
        s.push(section("families", "each set of the family: reversal, raw value, back", masks.len().div_ceil(256) as u64, move |u, cx| {
            for &m in ms.iter().skip(u as usize * 256).take(256) {
                one(m)?;
                cx.states += 1;
                cx.transitions += 4;
            }
            if u == 0 {
                ensure!(ByteSwappedBitboard::default() == Bitboard::empty().swap_bytes(), "the default is not the reversed empty set");
            }
            cx.traces += 1;
            cx.sample(|| show_mask(ms[u as usize * 256]));
            Ok(())
        }));
        let pm = Arc::new(vals::pair_masks());
        let n = pm.len() as u64;
        s.push(section("pairs", "all pairs from the family x union, intersection, symmetric difference, difference", n, move |u, cx| {
            for &b in pm.iter() {
                two(pm[u as usize], b)?;
                cx.transitions += 4;
            }
            cx.states += 1;
            cx.traces += 1;
            Ok(())
        }));
        let ms = masks.clone();
        s.push(section("larger family", "each set of the family with its shifted, complemented and mirrored selves and neighbours in the family", masks.len().div_ceil(256) as u64, move |u, cx| {
            for (i, &m) in ms.iter().enumerate().skip(u as usize * 256).take(256) {
                for o in [!m & vals::FULL, m >> 1, (m << 9) & vals::FULL, ms[(i * 7 + 1) % ms.len()], ms[(i * 31 + 5) % ms.len()], ms[(i + 1) % ms.len()]] {
                    two(m, o)?;
                    cx.transitions += 4;
                }
                cx.states += 1;
            }
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("operation sequences", "all sequences of the four operations and reversals on two registers to a depth", 8 * 8, move |u, cx| {
            type S = (ByteSwappedBitboard, u128, ByteSwappedBitboard, u128);
            fn step(op: u64, s: S) -> S {
                let (a, ma, b, mb) = s;
                match op {
                    0 => (a.or(b), ma | mb, b, mb),
                    1 => (a.and(b), ma & mb, b, mb),
                    2 => (a.xor(b), ma ^ mb, b, mb),
                    3 => (a.andnot(b), !ma & mb, b, mb),
                    4 => (b, mb, a, ma),
                    5 => ((!a.swap_bytes()).swap_bytes(), !ma & vals::FULL, b, mb),
                    6 => (unsafe { ByteSwappedBitboard::from_u128_unchecked(a.to_u128()) }, ma, b, mb),
                    _ => (a.or(Bitboard::single(t().sq[63]).swap_bytes()), ma | 1 << 63, b, mb),
                }
            }
            fn go(s: S, path: &mut Vec<u64>, depth: usize, cx: &mut Cx) -> R {
                if s.0.swap_bytes() != mask_bb(s.1) || s.0 != mask_bb(s.1).swap_bytes() {
                    fail!("operations {:?}: {:?}, reversed back {}, expected {}", path, s.0, show_bb(s.0.swap_bytes()), show_mask(s.1));
                }
                cx.transitions += 1;
                if path.len() == depth {
                    cx.traces += 1;
                    return Ok(());
                }
                for op in 0..8 {
                    path.push(op);
                    go(step(op, s), path, depth, cx)?;
                    path.pop();
                }
                Ok(())
            }
            let (m, n) = (0x15_5555_0000_1234_5678_9abc % vals::FULL, (1u128 << 62) | (1 << 63) | 0xff00ff);
            let s: S = (mask_bb(m).swap_bytes(), m, mask_bb(n).swap_bytes(), n);
            cx.states += 1;
            let s = step(u % 8, step(u / 8, s));
            go(s, &mut vec![u / 8, u % 8], tier.pick(6, 8), cx)
        }));
        if tier == Tier::Thorough {
            s.push(section("deep family", vals::DEEP, vals::DEEP_UNITS, |u, cx| {
                cx.traces += 1;
                vals::deep(u, |m| {
                    cx.states += 1;
                    cx.transitions += 4;
                    one(m)
                })
            }));
        }
        s
    });
}
