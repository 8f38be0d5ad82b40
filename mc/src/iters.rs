//! The laws of iterators: every method agrees with the plain enumeration.
use crate::R;
use std::fmt::Debug;
use std::ops::ControlFlow;

/// Numbers of items to take or skip: all small ones, and those that a narrower number would confuse with them.
pub fn arguments(n: usize) -> Vec<usize> {
    (0..n + 3)
        .chain([7usize, 8, 15, 16, 31, 32].into_iter().flat_map(|b| [0, 1, 2, 63, 64].map(|d| (1 << b) + d)))
        .chain([32, 63].into_iter().flat_map(|b| [0usize, 1, 2].map(|d| (1 << b) + d)))
        .chain([usize::MAX - 1, usize::MAX])
        .collect()
}

/// `make` starts the enumeration of `v` anew each time; `number` tells its items apart.
pub fn laws<T: Copy + PartialEq + Debug, I: Iterator<Item = T>>(name: &dyn Fn() -> String, make: impl Fn() -> I, v: &[T], number: impl Fn(&T) -> usize) -> R {
    let n = v.len();
    let num = |x: &T| number(x);
    macro_rules! eq {
        ($what:expr, $got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            if g != w {
                return Err(format!("{}: {} gives {:?}, plain enumeration {:?}", name(), $what, g, w));
            }
        }};
    }
    macro_rules! same {
        ($what:expr, $x:ident => $e:expr) => {{
            let got = { let $x = make(); $e };
            let want = { let $x = v.iter().copied(); $e };
            if got != want {
                return Err(format!("{}: {} gives {:?}, plain enumeration {:?}", name(), $what, got, want));
            }
        }};
    }
    eq!("collect", make().collect::<Vec<T>>(), v.to_vec());
    same!("count", x => x.count());
    same!("last", x => x.last());
    same!("fold", x => x.fold(1usize, |a, q| a.wrapping_mul(131).wrapping_add(num(&q))));
    same!("reduce", x => x.reduce(|_, b| b));
    same!("sum", x => x.map(|q| num(&q)).sum::<usize>());
    same!("max by key", x => x.max_by_key(|q| num(q) % 7));
    same!("min by key", x => x.min_by_key(|q| num(q) % 7));
    same!("max by", x => x.max_by(|a, b| (num(a) % 5).cmp(&(num(b) % 5))));
    same!("min by", x => x.min_by(|a, b| (num(a) % 5).cmp(&(num(b) % 5))));
    same!("filter", x => x.filter(|q| num(q) % 3 == 1).collect::<Vec<T>>());
    same!("filter map", x => x.filter_map(|q| (num(&q) % 3 == 1).then_some(num(&q))).collect::<Vec<usize>>());
    same!("flat map", x => x.flat_map(|q| [q, q]).collect::<Vec<T>>());
    same!("scan", x => x.scan(0usize, |a, q| { *a += num(&q); Some(*a) }).collect::<Vec<usize>>());
    same!("inspect", x => { let mut c = 0; let r = x.inspect(|_| c += 1).last(); (r, c) });
    same!("unzip", x => x.map(|q| (q, num(&q))).unzip::<T, usize, Vec<T>, Vec<usize>>());
    same!("partition", x => x.partition::<Vec<T>, _>(|q| num(q) % 2 == 0));
    same!("is sorted by key", x => x.is_sorted_by_key(|q| num(&q)));
    same!("eq by number", x => x.map(|q| num(&q)).eq(v.iter().map(num)));
    same!("cmp by number", x => x.map(|q| num(&q)).cmp(v.iter().skip(1).map(num)));
    same!("partial_cmp by number", x => x.map(|q| num(&q)).partial_cmp(v.iter().map(num).chain([0])));
    eq!("eq", make().eq(v.iter().copied()), true);
    eq!("ne", make().ne(v.iter().copied()), false);
    if n > 0 {
        eq!("eq with less", make().eq(v[..n - 1].iter().copied()), false);
        eq!("ne with less", make().ne(v[..n - 1].iter().copied()), true);
        eq!("eq with another order", make().eq(v.iter().rev().copied()), v.iter().eq(v.iter().rev()));
        eq!("eq with more", make().eq(v.iter().copied().chain([v[0]])), false);
    }
    for k in arguments(n) {
        let (got, rest) = { let mut x = make(); (x.nth(k), x.collect::<Vec<T>>()) };
        eq!(format!("nth({})", k), (got, &rest[..]), (v.get(k).copied(), v.get(k.saturating_add(1)..).unwrap_or(&[])));
        same!(format!("skip({})", k), x => x.skip(k).collect::<Vec<T>>());
        same!(format!("take({})", k), x => x.take(k).collect::<Vec<T>>());
        same!(format!("skip({}) counted", k), x => x.skip(k).count());
        same!(format!("last of skip({})", k), x => x.skip(k).last());
        same!(format!("step_by({})", k.max(1)), x => x.step_by(k.max(1)).collect::<Vec<T>>());
        same!(format!("skip({}) and step_by(2)", k), x => x.skip(k).step_by(2).collect::<Vec<T>>());
        same!(format!("nth({}) after next", k), x => { let mut x = x; (x.next(), x.nth(k), x.next(), x.collect::<Vec<T>>()) });
        same!(format!("nth({}) of by_ref", k), x => { let mut x = x; (x.by_ref().nth(k), x.nth(0), x.count()) });
        if k <= n + 2 {
            same!(format!("stopping fold after {}", k), x => {
                let mut x = x;
                let r = x.try_fold(0, |a, q| if a < k { ControlFlow::Continue(a + 1) } else { ControlFlow::Break(q) });
                (r, x.collect::<Vec<T>>())
            });
            same!(format!("stopping for_each after {}", k), x => {
                let (mut x, mut a) = (x, 0);
                let r = x.try_for_each(|q| if a < k { a += 1; Ok(()) } else { Err(q) });
                (r, x.collect::<Vec<T>>())
            });
            let mut a = 0;
            eq!(format!("take_while {}", k), make().take_while(|_| { a += 1; a <= k }).count(), k.min(n));
            let mut a = 0;
            eq!(format!("skip_while {}", k), make().skip_while(|_| { a += 1; a <= k }).collect::<Vec<T>>(), v.get(k..).unwrap_or(&[]).to_vec());
            let mut a = 0;
            eq!(format!("map_while {}", k), make().map_while(|q| { a += 1; (a <= k).then_some(q) }).collect::<Vec<T>>(), v[..k.min(n)].to_vec());
            same!(format!("hint after {}", k), x => {
                let mut x = x;
                for _ in 0..k {
                    x.next();
                }
                let (lo, hi) = x.size_hint();
                let left = n.saturating_sub(k);
                lo <= left && hi.map_or(true, |h| h >= left)
            });
        }
    }
    for q in v {
        let i = num(q);
        same!("find", x => { let mut x = x; (x.find(|a| num(a) == i), x.count()) });
        same!("find_map", x => { let mut x = x; (x.find_map(|a| (num(&a) == i).then_some(i)), x.count()) });
        same!("position", x => { let mut x = x; (x.position(|a| num(&a) == i), x.count()) });
        same!("any", x => { let mut x = x; (x.any(|a| num(&a) == i), x.count()) });
        same!("all", x => { let mut x = x; (x.all(|a| num(&a) != i), x.count()) });
    }
    Ok(())
}
