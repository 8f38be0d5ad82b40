//! C10: bitboards behave as sets of squares.
use mc::vals::FULL;
use mc::*;
use shogi_core::*;
use std::sync::Arc;

/// Everything one bitboard shows against the set.
fn shows(b: Bitboard, m: u128, what: &dyn Fn() -> String) -> R {
    if bb_mask(b) != m {
        fail!("{}: members are {}, expected {}", what(), show_bb(b), show_mask(m));
    }
    if b.count() as u32 != m.count_ones() {
        fail!("{}: count of {} is {}", what(), show_bb(b), b.count());
    }
    if b.is_empty() != (m == 0) {
        fail!("{}: is_empty of {} is {}", what(), show_bb(b), b.is_empty());
    }
    let canonical = mask_bb(m);
    if b != canonical || !(b == canonical) || b.to_u128() != canonical.to_u128() {
        fail!("{}: {} is not equal to the same set built from its squares, {}", what(), show_bb(b), show_bb(canonical));
    }
    let raw = unsafe { Bitboard::from_u128_unchecked(b.to_u128()) };
    if raw != b {
        fail!("{}: {} becomes {} through its raw value", what(), show_bb(b), show_bb(raw));
    }
    Ok(())
}
/// Cheaper: equality with the canonical form says all of it, once the canonical forms have been examined.
fn is(b: Bitboard, m: u128, what: &dyn Fn() -> String) -> R {
    if b != mask_bb(m) || b.count() as u32 != m.count_ones() || b.is_empty() != (m == 0) {
        return shows(b, m, what).and(Err(format!("{}: {} is not {}", what(), show_bb(b), show_mask(m))));
    }
    Ok(())
}
#[allow(clippy::op_ref)]
fn binary(a: Bitboard, ma: u128, b: Bitboard, mb: u128) -> R {
    macro_rules! op {
        ($name:expr, $got:expr, $want:expr) => {
            is($got, $want, &|| format!("{} of {} and {}", $name, show_mask(ma), show_mask(mb)))?
        };
    }
    op!("and", a.and(b), ma & mb);
    op!("or", a.or(b), ma | mb);
    op!("xor", a.xor(b), ma ^ mb);
    op!("andnot", a.andnot(b), !ma & mb);
    op!("&", a & b, ma & mb);
    op!("| ", a | b, ma | mb);
    op!("^", a ^ b, ma ^ mb);
    op!("& ref", a & &b, ma & mb);
    op!("| ref", a | &b, ma | mb);
    op!("^ ref", a ^ &b, ma ^ mb);
    op!("ref &", &a & b, ma & mb);
    op!("ref |", &a | b, ma | mb);
    op!("ref ^", &a ^ b, ma ^ mb);
    op!("ref & ref", &a & &b, ma & mb);
    op!("ref | ref", &a | &b, ma | mb);
    op!("ref ^ ref", &a ^ &b, ma ^ mb);
    op!("C and", Bitboard::Bitboard_bitand(a, b), ma & mb);
    op!("C or", Bitboard::Bitboard_bitor(a, b), ma | mb);
    op!("C xor", Bitboard::Bitboard_bitxor(a, b), ma ^ mb);
    macro_rules! assign {
        ($name:expr, $want:expr, |$x:ident| $e:expr) => {{
            let mut v = a;
            {
                let $x = &mut v;
                $e;
            }
            op!($name, v, $want);
        }};
    }
    assign!("&=", ma & mb, |x| *x &= b);
    assign!("|=", ma | mb, |x| *x |= b);
    assign!("^=", ma ^ mb, |x| *x ^= b);
    assign!("&= ref", ma & mb, |x| *x &= &b);
    assign!("|= ref", ma | mb, |x| *x |= &b);
    assign!("^= ref", ma ^ mb, |x| *x ^= &b);
    assign!("C and-assign", ma & mb, |x| Bitboard::Bitboard_bitand_assign(x, b));
    assign!("C or-assign", ma | mb, |x| Bitboard::Bitboard_bitor_assign(x, b));
    assign!("C xor-assign", ma ^ mb, |x| Bitboard::Bitboard_bitxor_assign(x, b));
    if (a == b) != (ma == mb) {
        fail!("{} == {} is {}", show_mask(ma), show_mask(mb), a == b);
    }
    Ok(())
}
#[allow(clippy::op_ref)]
fn unary(b: Bitboard, m: u128) -> R {
    shows(b, m, &|| show_mask(m))?;
    shows(!b, !m & FULL, &|| format!("complement of {}", show_mask(m)))?;
    shows(!&b, !m & FULL, &|| format!("complement (by reference) of {}", show_mask(m)))?;
    shows(!!b, m, &|| format!("double complement of {}", show_mask(m)))?;
    let t = t();
    for i in 0..81 {
        let (sq, one) = (t.sq[i], 1u128 << i);
        macro_rules! assign {
            ($name:expr, $want:expr, |$x:ident| $e:expr) => {{
                let mut v = b;
                {
                    let $x = &mut v;
                    $e;
                }
                is(v, $want, &|| format!("{} {} {}", show_mask(m), $name, square_text(i as u8)))?;
            }};
        }
        assign!("|= square", m | one, |x| *x |= sq);
        assign!("&= square", m & one, |x| *x &= sq);
        assign!("^= square", m ^ one, |x| *x ^= sq);
        assign!("|= &square", m | one, |x| *x |= &sq);
        assign!("&= &square", m & one, |x| *x &= &sq);
        assign!("^= &square", m ^ one, |x| *x ^= &sq);
    }
    Ok(())
}

fn main() {
    runner::main(|tier| {
        let mut s = Vec::new();
        s.push(section("singletons", "the empty set and each singleton, by all constructors", 1, |_, cx| {
            let t = t();
            shows(Bitboard::empty(), 0, &|| "empty".into())?;
            shows(Bitboard::Bitboard_empty(), 0, &|| "C empty".into())?;
            shows(Bitboard::default(), 0, &|| "default".into())?;
            for i in 0..81 {
                shows(Bitboard::single(t.sq[i]), 1 << i, &|| format!("single {}", square_text(i as u8)))?;
                shows(Bitboard::Bitboard_single(t.sq[i]), 1 << i, &|| format!("C single {}", square_text(i as u8)))?;
                cx.states += 1;
                cx.transitions += 2;
            }
            cx.traces += 1;
            Ok(())
        }));
        let masks = Arc::new(vals::masks(tier));
        let units = masks.len().div_ceil(128) as u64;
        let ms = masks.clone();
        s.push(section("one set", "each set of the family: members, count, emptiness, complement, raw value, operators with every square", units, move |u, cx| {
            for &m in ms.iter().skip(u as usize * 128).take(128) {
                unary(mask_bb(m), m)?;
                cx.states += 1;
                cx.transitions += 81 * 6 + 4;
            }
            cx.traces += 1;
            cx.sample(|| show_mask(ms[u as usize * 128]));
            Ok(())
        }));
        let pm = Arc::new(vals::pair_masks());
        let n = pm.len() as u64;
        s.push(section("two sets", "all pairs from the family x all binary operators and forms", n, move |u, cx| {
            let ma = pm[u as usize];
            let a = mask_bb(ma);
            for &mb in pm.iter() {
                binary(a, ma, mask_bb(mb), mb)?;
                cx.transitions += 28;
            }
            cx.states += 1;
            cx.traces += 1;
            Ok(())
        }));
        // every pair of subsets of a window, on an empty and a full background
        let width = tier.pick(6usize, 9);
        let windows: Vec<usize> = (0..=75).collect();
        s.push(section("windows", "all pairs of subsets of consecutive squares x all binary operators, on four backgrounds", windows.len() as u64 * 4, move |u, cx| {
            let at = windows[u as usize / 4];
            let bg = u % 4;
            let w = (((1u128 << width) - 1) << at) & FULL;
            let (ba, bb) = (if bg & 1 == 1 { FULL & !w } else { 0 }, if bg & 2 == 2 { FULL & !w } else { 0 });
            for x in 0..1u128 << width {
                let ma = ba | (x << at);
                if ma > FULL {
                    continue;
                }
                let a = mask_bb(ma);
                for y in 0..1u128 << width {
                    let mb = bb | (y << at);
                    if mb > FULL {
                        continue;
                    }
                    binary(a, ma, mask_bb(mb), mb)?;
                    cx.transitions += 28;
                }
                cx.states += 1;
            }
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("operation sequences", "all sequences of operations on two sets to a depth: complement, union, intersection, difference, symmetric difference, add, toggle and pop squares, exchange", 24 * 24, move |u, cx| {
            // (register a, register b) with models
            let squares = [0usize, 8, 40, 62, 63, 80];
            type S = (Bitboard, u128, Bitboard, u128);
            let start: S = (Bitboard::empty(), 0, Bitboard::empty(), 0);
            fn apply(op: usize, s: S, squares: &[usize; 6]) -> Result<S, String> {
                let t = t();
                let (mut a, ma, b, mb) = s;
                Ok(match op {
                    0 => (!a, !ma & FULL, b, mb),
                    1 => (a | b, ma | mb, b, mb),
                    2 => (a & b, ma & mb, b, mb),
                    3 => (a ^ b, ma ^ mb, b, mb),
                    4 => (a.andnot(b), !ma & mb, b, mb),
                    5 => (b, mb, a, ma),
                    6..=11 => { a |= t.sq[squares[op - 6]]; (a, ma | 1 << squares[op - 6], b, mb) }
                    12..=17 => { a ^= t.sq[squares[op - 12]]; (a, ma ^ 1 << squares[op - 12], b, mb) }
                    18 => match a.pop() {
                        None => { if ma != 0 { fail!("pop of {} gives none", show_mask(ma)) } (a, ma, b, mb) }
                        Some(q) => { let i = sq_num(q); if ma >> i & 1 == 0 { fail!("pop of {} gives {}", show_mask(ma), square_text(i)) } (a, ma & !(1 << i), b, mb) }
                    },
                    19 => (a, ma, a, ma),
                    20 => { a &= t.sq[62]; (a, ma & 1 << 62, b, mb) }
                    21 => (a.swap_bytes().swap_bytes(), ma, b, mb),
                    22 => (unsafe { Bitboard::from_u128_unchecked(a.to_u128()) }, ma, b, mb),
                    _ => { a &= !Bitboard::single(t.sq[63]); (a, ma & !(1 << 63), b, mb) }
                })
            }
            let depth = tier.pick(5, 6);
            fn go(s: S, path: &mut Vec<usize>, depth: usize, squares: &[usize; 6], cx: &mut Cx) -> R {
                is(s.0, s.1, &|| format!("after operations {:?}", path))?;
                cx.transitions += 1;
                if path.len() == depth {
                    shows(s.0, s.1, &|| format!("after operations {:?}", path))?;
                    cx.traces += 1;
                    return Ok(());
                }
                for op in 0..24 {
                    path.push(op);
                    let n = apply(op, s, squares).map_err(|e| format!("operations {:?}: {}", path, e))?;
                    go(n, path, depth, squares, cx)?;
                    path.pop();
                }
                Ok(())
            }
            let mut path = Vec::new();
            let mut st = start;
            for op in [u as usize / 24, u as usize % 24] {
                path.push(op);
                st = apply(op, st, &squares).map_err(|e| format!("operations {:?}: {}", path, e))?;
            }
            cx.states += 1;
            go(st, &mut path, depth, &squares, cx)
        }));
        if tier == Tier::Thorough {
            s.push(section("deep family", vals::DEEP, vals::DEEP_UNITS, |u, cx| {
                cx.traces += 1;
                vals::deep(u, |m| {
                    cx.states += 1;
                    cx.transitions += 3;
                    let b = mask_bb(m);
                    if bb_mask(b) != m {
                        fail!("members of {} are {}", show_mask(m), show_bb(b));
                    }
                    is(!b, !m & FULL, &|| format!("complement of {}", show_mask(m)))?;
                    is(unsafe { Bitboard::from_u128_unchecked(b.to_u128()) }, m, &|| format!("{} through its raw value", show_mask(m)))?;
                    is(b, m, &|| show_mask(m))
                })
            }));
        }
        s
    });
}
