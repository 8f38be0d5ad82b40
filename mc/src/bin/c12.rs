//! C12: bitboard geometry: shifts, flips and file patterns.
use mc::vals::FULL;
use mc::*;
use shogi_core::*;
use std::sync::Arc;

/// The set moved by files and ranks; what leaves the board is dropped.
fn moved(m: u128, df: i32, dr: i32) -> u128 {
    let mut r = 0;
    let mut x = m;
    while x != 0 {
        let i = x.trailing_zeros() as i32;
        x &= x - 1;
        let (f, k) = (i / 9 + df, i % 9 + dr);
        if (0..9).contains(&f) && (0..9).contains(&k) {
            r |= 1u128 << (9 * f + k);
        }
    }
    r
}
fn flipped(m: u128) -> u128 {
    let mut r = 0;
    for i in 0..81 {
        if m >> i & 1 == 1 {
            let (f, k) = (i / 9, i % 9);
            r |= 1u128 << (9 * (8 - f) + 8 - k);
        }
    }
    r
}
fn is(b: Bitboard, m: u128, what: &dyn Fn() -> String) -> R {
    if b != mask_bb(m) || b.count() as u32 != m.count_ones() || b.is_empty() != (m == 0) || b.to_u128() != mask_bb(m).to_u128() {
        fail!("{} gives {}, expected {}", what(), show_bb(b), show_mask(m));
    }
    Ok(())
}
fn geometry(m: u128, cx: &mut Cx) -> R {
    let b = mask_bb(m);
    for d in 0..=9u8 {
        let k = d as i32;
        // Safety: the amount is at most 9, as documented.
        unsafe {
            is(b.shift_up(d), moved(m, 0, -k), &|| format!("{} shifted up by {}", show_mask(m), d))?;
            is(b.shift_down(d), moved(m, 0, k), &|| format!("{} shifted down by {}", show_mask(m), d))?;
            is(b.shift_left(d), moved(m, k, 0), &|| format!("{} shifted left by {}", show_mask(m), d))?;
            is(b.shift_right(d), moved(m, -k, 0), &|| format!("{} shifted right by {}", show_mask(m), d))?;
        }
    }
    is(b.flip(), flipped(m), &|| format!("{} flipped", show_mask(m)))?;
    is(b.flip().flip(), m, &|| format!("{} flipped twice", show_mask(m)))?;
    let mut again = Bitboard::empty();
    for f in 1..=9u8 {
        let want = (m >> (9 * (f - 1))) as u16 & 511;
        let got = unsafe { b.get_file_unchecked(f) };
        if got != want {
            fail!("file {} of {} is {:#b}, expected {:#b}", f, show_mask(m), got, want);
        }
        let part = unsafe { Bitboard::from_file_unchecked(f, got) };
        is(part, m & (511 << (9 * (f - 1))), &|| format!("file {} with pattern {:#b}", f, got))?;
        again = again | part;
    }
    is(again, m, &|| format!("{} put together from its files", show_mask(m)))?;
    cx.states += 1;
    cx.transitions += 61;
    Ok(())
}

fn main() {
    runner::main(|tier| {
        let mut s = Vec::new();
        let masks = Arc::new(vals::masks(tier));
        let ms = masks.clone();
        s.push(section("families", "each set of the family x shifts by 0 to 9 in four directions, flip, files", masks.len().div_ceil(128) as u64, move |u, cx| {
            for &m in ms.iter().skip(u as usize * 128).take(128) {
                geometry(m, cx)?;
            }
            cx.traces += 1;
            cx.sample(|| show_mask(ms[u as usize * 128]));
            Ok(())
        }));
        let pm = vals::pair_masks();
        s.push(section("pairs", "unions and differences of pairs of sets x the same", pm.len() as u64, move |u, cx| {
            let a = pm[u as usize];
            for (j, &b) in pm.iter().enumerate() {
                if j % tier.pick(3, 1) == u as usize % tier.pick(3, 1) {
                    geometry(a | b, cx)?;
                    geometry(a & !b & FULL, cx)?;
                    geometry((a ^ b) & FULL, cx)?;
                }
            }
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("files", "each file x each of the 512 patterns, also in a constant", 9, |u, cx| {
            let f = u as u8 + 1;
            const EDGE: [Bitboard; 3] = unsafe {
                [Bitboard::from_file_unchecked(1, 511), Bitboard::from_file_unchecked(7, 257), Bitboard::from_file_unchecked(9, 256)]
            };
            is(EDGE[0], 511, &|| "constant file 1".into())?;
            is(EDGE[1], 257 << 54, &|| "constant file 7".into())?;
            is(EDGE[2], 256 << 72, &|| "constant file 9".into())?;
            for p in 0..512u16 {
                let b = unsafe { Bitboard::from_file_unchecked(f, p) };
                is(b, (p as u128) << (9 * (f - 1)), &|| format!("file {} pattern {:#b}", f, p))?;
                for g in 1..=9 {
                    let got = unsafe { b.get_file_unchecked(g) };
                    let want = if g == f { p } else { 0 };
                    ensure!(got == want, "file {} of (file {} pattern {:#b}) is {:#b}", g, f, p, got);
                    cx.transitions += 1;
                }
                geometry((p as u128) << (9 * (f - 1)), cx)?;
            }
            cx.traces += 1;
            Ok(())
        }));
        // all pairs of adjacent file patterns: what crosses a file boundary
        s.push(section("adjacent files", "each two adjacent files x all pairs of patterns (quick: every second)", 8 * 64, move |u, cx| {
            let f = u as usize / 64;
            for p in (u as u128 % 64..512).step_by(64) {
                for q in (p % 2..512).step_by(tier.pick(2, 1)) {
                    geometry((p << (9 * f)) | (q << (9 * f + 9)), cx)?;
                }
            }
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("sequences", "all sequences of shifts and flips to a depth, from several sets: each result is the next operand", 42, move |u, cx| {
            let starts = [FULL, 1 << 62 | 1 << 63, (1 << 40) | 1, 0x1_0000_0000_FFFF_0101_0F0F % FULL, (511 << 54) | (511 << 63)];
            fn step(b: Bitboard, m: u128, op: u64) -> (Bitboard, u128) {
                let d = (op % 10) as u8;
                let k = d as i32;
                unsafe {
                    match op / 10 {
                        0 => (b.shift_up(d), moved(m, 0, -k)),
                        1 => (b.shift_down(d), moved(m, 0, k)),
                        2 => (b.shift_left(d), moved(m, k, 0)),
                        3 => (b.shift_right(d), moved(m, -k, 0)),
                        _ if op == 40 => (b.flip(), flipped(m)),
                        _ => (!b, !m & FULL),
                    }
                }
            }
            fn go(b: Bitboard, m: u128, path: &mut Vec<u64>, depth: usize, cx: &mut Cx) -> R {
                is(b, m, &|| format!("operations {:?} (tens: up, down, left, right; 40 flip; 41 complement)", path))?;
                cx.transitions += 1;
                if path.len() == depth {
                    cx.traces += 1;
                    return Ok(());
                }
                for op in 0..42 {
                    path.push(op);
                    let (b2, m2) = step(b, m, op);
                    go(b2, m2, path, depth, cx)?;
                    path.pop();
                }
                Ok(())
            }
            for &m in &starts {
                cx.states += 1;
                let (b, m2) = step(mask_bb(m), m, u);
                go(b, m2, &mut vec![u], tier.pick(4, 5), cx)?;
            }
            Ok(())
        }));
        if tier == Tier::Thorough {
            s.push(section("deep family", &format!("every fourth part of: {}", vals::DEEP), vals::DEEP_UNITS / 4, |u, cx| {
                cx.traces += 1;
                vals::deep(u * 4 + u % 4, |m| geometry(m, cx))
            }));
        }
        s
    });
}
