//! C14: square coordinates, indices, relative views and shifts agree.
use mc::*;
use shogi_core::c_compat::*;
use shogi_core::*;

/// The 81 named constants, by name.
fn named() -> Vec<(&'static str, Square, Square)> {
    macro_rules! list {
        ($($n:ident)*) => { vec![$((stringify!($n), Square::$n, consts::square::$n)),*] };
    }
    list!(
        SQ_1A SQ_1B SQ_1C SQ_1D SQ_1E SQ_1F SQ_1G SQ_1H SQ_1I
        SQ_2A SQ_2B SQ_2C SQ_2D SQ_2E SQ_2F SQ_2G SQ_2H SQ_2I
        SQ_3A SQ_3B SQ_3C SQ_3D SQ_3E SQ_3F SQ_3G SQ_3H SQ_3I
        SQ_4A SQ_4B SQ_4C SQ_4D SQ_4E SQ_4F SQ_4G SQ_4H SQ_4I
        SQ_5A SQ_5B SQ_5C SQ_5D SQ_5E SQ_5F SQ_5G SQ_5H SQ_5I
        SQ_6A SQ_6B SQ_6C SQ_6D SQ_6E SQ_6F SQ_6G SQ_6H SQ_6I
        SQ_7A SQ_7B SQ_7C SQ_7D SQ_7E SQ_7F SQ_7G SQ_7H SQ_7I
        SQ_8A SQ_8B SQ_8C SQ_8D SQ_8E SQ_8F SQ_8G SQ_8H SQ_8I
        SQ_9A SQ_9B SQ_9C SQ_9D SQ_9E SQ_9F SQ_9G SQ_9H SQ_9I
    )
}
/// One square, file and rank known, by whatever route it was made.
fn is(s: Square, f: u8, r: u8, what: &dyn Fn() -> String) -> R {
    let n = 9 * (f - 1) + r;
    let ok = s.file() == f && s.rank() == r && s.index() == n && s.array_index() == n as usize - 1;
    if !ok {
        fail!("{}: file {}, rank {}, index {}, array index {}; expected file {}, rank {}, index {}", what(), s.file(), s.rank(), s.index(), s.array_index(), f, r, n);
    }
    for (c, rf, rr) in [(Color::Black, f, r), (Color::White, 10 - f, 10 - r)] {
        if s.relative_file(c) != rf || s.relative_rank(c) != rr {
            fail!("{}: relative file and rank for {:?} are {} and {}, expected {} and {}", what(), c, s.relative_file(c), s.relative_rank(c), rf, rr);
        }
    }
    if s != t().sq[n as usize - 1] {
        fail!("{}: {:?} is not the square constructed from file {} and rank {}", what(), s, f, r);
    }
    Ok(())
}
fn maybe(s: Option<Square>, f: i32, r: i32, what: &dyn Fn() -> String) -> R {
    if (1..=9).contains(&f) && (1..=9).contains(&r) {
        match s {
            None => fail!("{}: none, expected file {} rank {}", what(), f, r),
            Some(s) => is(s, f as u8, r as u8, what),
        }
    } else {
        match s {
            Some(s) => fail!("{}: {:?} (file {} rank {}), expected none", what(), s, s.file(), s.rank()),
            None => Ok(()),
        }
    }
}

fn main() {
    runner::main(|tier| {
        let mut s = Vec::new();
        s.push(section("coordinates", "all 256 x 256 file and rank numbers, absolute and relative to both players, in Rust and C form", 256, |u, cx| {
            let f = u as u8;
            for r in 0..=255u8 {
                let what = |n: &str| format!("{}({}, {})", n, f, r);
                let (a, b) = (f as i32, r as i32);
                maybe(Square::new(f, r), a, b, &|| what("new"))?;
                maybe(Square::Square_new(f, r).into(), a, b, &|| what("C new"))?;
                maybe(Square::new_relative(f, r, Color::Black), a, b, &|| what("new_relative black"))?;
                maybe(Square::Square_new_relative(f, r, Color::Black).into(), a, b, &|| what("C new_relative black"))?;
                // seen by white, file 1 is 9
                let (wa, wb) = (10 - a, 10 - b);
                maybe(Square::new_relative(f, r, Color::White), wa, wb, &|| what("new_relative white"))?;
                maybe(Square::Square_new_relative(f, r, Color::White).into(), wa, wb, &|| what("C new_relative white"))?;
                if let Some(q) = Square::new_relative(f, r, Color::White) {
                    ensure!(q.relative_file(Color::White) == f && q.relative_rank(Color::White) == r, "new_relative({}, {}, White) has relative file {} and rank {}", f, r, q.relative_file(Color::White), q.relative_rank(Color::White));
                    ensure!(Square::new(f, r).map(|x| x.flip()) == Some(q), "new_relative({}, {}, White) is not the flipped square", f, r);
                }
                cx.transitions += 6;
                cx.states += 1;
            }
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("indices", "all 256 numbers", 1, |_, cx| {
            for n in 0..=255u8 {
                let (f, r) = if (1..=81).contains(&n) { ((n as i32 - 1) / 9 + 1, (n as i32 - 1) % 9 + 1) } else { (0, 0) };
                maybe(Square::from_u8(n), f, r, &|| format!("from_u8({})", n))?;
                maybe(Square::Square_from_u8(n).into(), f, r, &|| format!("C from_u8({})", n))?;
                if f > 0 {
                    is(unsafe { Square::from_u8_unchecked(n) }, f as u8, r as u8, &|| format!("from_u8_unchecked({})", n))?;
                    is(unsafe { Square::Square_from_u8_unchecked(n) }, f as u8, r as u8, &|| format!("C from_u8_unchecked({})", n))?;
                }
                cx.transitions += 4;
            }
            cx.states += 256;
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("squares", "all 81: flip, constants, enumeration, number of squares", 1, |_, cx| {
            let t = t();
            for i in 0..81u8 {
                let (f, r) = (i / 9 + 1, i % 9 + 1);
                let q = t.sq[i as usize];
                is(q, f, r, &|| format!("square {}", i))?;
                is(q.flip(), 10 - f, 10 - r, &|| format!("square {} flipped", i))?;
                is(q.flip().flip(), f, r, &|| format!("square {} flipped twice", i))?;
                cx.transitions += 3;
            }
            for (name, a, b) in named() {
                let f = name.as_bytes()[3] - b'0';
                let r = name.as_bytes()[4] - b'A' + 1;
                is(a, f, r, &|| format!("Square::{}", name))?;
                is(b, f, r, &|| format!("consts::square::{}", name))?;
                cx.transitions += 2;
            }
            same!(Square::NUM, 81, "number of squares");
            let all: Vec<Square> = Square::all().collect();
            ensure!(all.len() == 81, "all() has {} squares", all.len());
            for q in t.sq {
                ensure!(all.iter().filter(|&&x| x == q).count() == 1, "all() has {:?} {} times", q, all.iter().filter(|&&x| x == q).count());
            }
            for k in 0..=83 {
                let mut it = Square::all();
                let a = it.nth(k);
                ensure!(a == all.get(k).copied() && it.count() == 81usize.saturating_sub(k + 1), "all().nth({}) is {:?}", k, a);
            }
            mc::iters::laws(&|| "Square::all()".into(), Square::all, &all, |q| sq_num(*q) as usize)?;
            let mut it = Square::all();
            for k in 0..82 {
                let (lo, hi) = it.size_hint();
                ensure!(lo <= 81 - k.min(81) && hi.map_or(true, |h| h >= 81 - k.min(81)), "size hint of all() after {}: {} {:?}", k, lo, hi);
                ensure!(it.next() == all.get(k).copied(), "all() differs the second time");
            }
            cx.states += 81;
            cx.traces += 1;
            cx.sample(|| format!("SQ_5E has index {}", Square::SQ_5E.index()));
            Ok(())
        }));
        s.push(section("shifts", "all squares x all 256 x 256 deltas, in Rust and C form", 81, |u, cx| {
            let q = t().sq[u as usize];
            let (f, r) = (u as i32 / 9 + 1, u as i32 % 9 + 1);
            for a in -128..=127i32 {
                for b in -128..=127i32 {
                    let got = q.shift(a as i8, b as i8);
                    let want = if (1..=9).contains(&(f + a)) && (1..=9).contains(&(r + b)) { Some(t().sq[(9 * (f + a - 1) + r + b - 1) as usize]) } else { None };
                    if got != want || q.Square_shift(a as i8, b as i8) != OptionSquare::from(want) {
                        fail!("{} shifted by {} files and {} ranks: {:?} and {:?}, expected {:?}", square_text(u as u8), a, b, got, q.Square_shift(a as i8, b as i8), want);
                    }
                    cx.transitions += 2;
                }
            }
            cx.states += 1;
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("sequences", "all sequences of flips and unit shifts to a depth from each square: each result is the next operand", 81, move |u, cx| {
            fn go(q: Square, f: i32, r: i32, depth: usize, path: &mut Vec<(i32, i32)>, cx: &mut Cx) -> R {
                cx.transitions += 1;
                if depth == 0 {
                    cx.traces += 1;
                    return is(q, f as u8, r as u8, &|| format!("after {:?}", path));
                }
                for (a, b) in [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (8, 8), (-8, -8), (1, -2), (-4, 3)] {
                    path.push((a, b));
                    if (a, b) == (0, 0) {
                        go(q.flip(), 10 - f, 10 - r, depth - 1, path, cx)?;
                    } else {
                        let x = q.shift(a as i8, b as i8);
                        maybe(x, f + a, r + b, &|| format!("after {:?} (0, 0 is a flip)", path))?;
                        if let Some(x) = x {
                            go(x, f + a, r + b, depth - 1, path, cx)?;
                        }
                    }
                    path.pop();
                }
                Ok(())
            }
            cx.states += 1;
            go(t().sq[u as usize], u as i32 / 9 + 1, u as i32 % 9 + 1, tier.pick(5, 7), &mut Vec::new(), cx)
        }));
        s
    });
}
