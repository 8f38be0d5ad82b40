//! Families of sets of squares, as bit masks: what "all sets" is replaced by.
use crate::runner::Tier;

pub const FULL: u128 = (1 << 81) - 1;

/// Sets with few or many members, intervals, files, ranks, periodic and mixed patterns.
pub fn masks(tier: Tier) -> Vec<u128> {
    let mut v = Vec::new();
    let bit = |i: usize| 1u128 << i;
    let mut push = |m: u128| {
        v.push(m & FULL);
        v.push(!m & FULL);
    };
    push(0);
    for i in 0..81 {
        push(bit(i));
    }
    for i in 0..81 {
        for j in 0..i {
            push(bit(i) | bit(j));
            // from j to i
            push((bit(i + 1) - 1) & !(bit(j) - 1));
        }
    }
    for i in 0..81 {
        for j in 0..i {
            for k in 0..j {
                push(bit(i) | bit(j) | bit(k));
                if tier == Tier::Thorough {
                    for l in 0..k {
                        push(bit(i) | bit(j) | bit(k) | bit(l));
                    }
                }
            }
        }
    }
    // the same pattern in every file, and each pattern in each file
    for p in 0..512u128 {
        let mut all = 0;
        for f in 0..9 {
            push(p << (9 * f));
            all |= p << (9 * f);
        }
        push(all);
    }
    // each pattern of files
    for p in 0..512u32 {
        let mut m = 0u128;
        for f in 0..9 {
            if p >> f & 1 == 1 {
                m |= 511 << (9 * f);
            }
        }
        push(m);
    }
    // periodic
    for step in 2..30 {
        for off in 0..step {
            let mut m = 0;
            let mut i = off;
            while i < 81 {
                m |= bit(i);
                i += step;
            }
            push(m);
        }
    }
    // all patterns of the 14 squares around the word boundary
    for p in 0..(1u128 << 14) {
        push(p << 56);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// A small family for pairs: every singleton, file, rank, the boundary, some mixed patterns, complements.
pub fn pair_masks() -> Vec<u128> {
    let mut v = vec![0, FULL];
    for i in 0..81 {
        v.push(1 << i);
        v.push(FULL & !(1 << i));
        v.push((1 << i) - 1);
    }
    for f in 0..9 {
        v.push(511 << (9 * f));
        let mut r = 0;
        for g in 0..9 {
            r |= 1 << (9 * g + f);
        }
        v.push(r);
        v.push(FULL & !r);
    }
    for step in 2..14 {
        for off in 0..step {
            let mut m = 0u128;
            let mut i = off;
            while i < 81 {
                m |= 1 << i;
                i += step;
            }
            v.push(m);
        }
    }
    for p in 0..64u128 {
        v.push(p << 60);
        v.push(FULL & !(p << 60));
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub const DEEP_UNITS: u64 = 36 * 512 + 62 * 1024;
pub const DEEP: &str = "all pairs of patterns of any two files, and all subsets of any 20 consecutive squares with and without all other squares";
/// A family too large to keep: see `DEEP`.
pub fn deep(unit: u64, mut f: impl FnMut(u128) -> crate::runner::R) -> crate::runner::R {
    if unit < 36 * 512 {
        let (mut a, mut b, mut n) = (0, 1, unit / 512);
        while n > 0 {
            n -= 1;
            b += 1;
            if b == 9 {
                a += 1;
                b = a + 1;
            }
        }
        for p in 0..512u128 {
            f(((unit % 512) as u128) << (9 * a) | p << (9 * b))?;
        }
        return Ok(());
    }
    let unit = unit - 36 * 512;
    let at = unit / 1024;
    for p in 0..1024u128 {
        let m = (((unit % 1024) as u128) << 10 | p) << at;
        f(m)?;
        f(!m & FULL)?;
    }
    Ok(())
}
