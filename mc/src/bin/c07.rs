//! C07: USI text of every value is exact.
use mc::*;
use shogi_core::*;
use std::collections::HashMap;
use std::fmt::Write;

#[derive(Default)]
struct Fixed {
    buf: Vec<u8>,
    calls: usize,
}
impl Write for Fixed {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.buf.extend_from_slice(s.as_bytes());
        self.calls += 1;
        Ok(())
    }
}
struct Shown<'a, T>(&'a T);
impl<T: ToUsi> std::fmt::Display for Shown<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.to_usi(f)
    }
}
fn check<T: ToUsi>(v: &T, want: &str, what: &dyn Fn() -> String) -> R {
    let got = v.to_usi_owned();
    if got != want {
        fail!("{} is written {:?}, expected {:?}", what(), got, want);
    }
    let mut f = Fixed::default();
    if v.to_usi(&mut f).is_err() {
        fail!("{}: failed although the sink accepts everything", what());
    }
    if f.buf != want.as_bytes() {
        fail!("{} is streamed {:?}, expected {:?}", what(), String::from_utf8_lossy(&f.buf), want);
    }
    let mut s = String::from("before ");
    if v.to_usi(&mut s).is_err() || s.strip_prefix("before ") != Some(want) {
        fail!("{} appended to a string gives {:?}, expected {:?}", what(), s, want);
    }
    if v.to_usi_owned() != want {
        fail!("{} is written differently the second time", what());
    }
    Ok(())
}
fn formatted<T: ToUsi>(v: &T, want: &str, what: &dyn Fn() -> String) -> R {
    let s = format!("{}", Shown(v));
    if s != want {
        fail!("{} formatted gives {:?}, expected {:?}", what(), s, want);
    }
    Ok(())
}
fn distinct<T: ToUsi>(vals: impl Iterator<Item = (String, T)>, cx: &mut Cx) -> R {
    let mut seen: HashMap<String, String> = HashMap::new();
    for (name, v) in vals {
        cx.transitions += 1;
        if let Some(o) = seen.insert(v.to_usi_owned(), name.clone()) {
            fail!("{} and {} have the same text {:?}", o, name, v.to_usi_owned());
        }
    }
    cx.states += seen.len() as u64;
    Ok(())
}

fn main() {
    runner::main(|tier| {
        let mut s = Vec::new();
        s.push(section("atoms", "all squares, pieces, piece kinds and colours: text, and that different ones differ", 1, |_, cx| {
            let t = t();
            for i in 0..81u8 {
                let q = t.sq[i as usize];
                check(&q, &square_text(i), &|| format!("square {}", i))?;
                formatted(&q, &square_text(i), &|| format!("square {}", i))?;
                cx.transitions += 1;
            }
            for p in all_pieces() {
                let q = t.pc[p as usize].unwrap();
                check(&q, &piece_text(p), &|| format!("piece {}", p))?;
                formatted(&q, &piece_text(p), &|| format!("piece {}", p))?;
                cx.transitions += 1;
            }
            for k in KINDS {
                check(&t.kind[k as usize], letter(k), &|| format!("kind {}", k))?;
                formatted(&t.kind[k as usize], letter(k), &|| format!("kind {}", k))?;
                cx.transitions += 1;
            }
            for c in 0..2 {
                check(&t.color[c], ["b", "w"][c], &|| format!("colour {}", c))?;
                formatted(&t.color[c], ["b", "w"][c], &|| format!("colour {}", c))?;
                cx.transitions += 1;
            }
            distinct((0..81usize).map(|i| (format!("square {}", i), t.sq[i])), cx)?;
            distinct(all_pieces().into_iter().map(|p| (format!("piece {}", p), t.pc[p as usize].unwrap())), cx)?;
            distinct(KINDS.map(|k| (format!("kind {}", k), t.kind[k as usize])), cx)?;
            distinct((0..2).map(|c| (format!("colour {}", c), t.color[c])), cx)?;
            cx.traces += 1;
            cx.sample(|| format!("5e is written {}", t.sq[40].to_usi_owned()));
            Ok(())
        }));
        s.push(section("moves", "all 15390 moves in both forms", 81, |u, cx| {
            for (m, im) in t().moves.iter().skip(u as usize).step_by(81) {
                let want = move_text(*m);
                check(im, &want, &|| format!("{:?}", im))?;
                let c = to_compact(*m);
                check(&c, &want, &|| format!("compact {:?}", im))?;
                formatted(im, &want, &|| format!("{:?}", im))?;
                formatted(&c, &want, &|| format!("compact {:?}", im))?;
                // the same move converted
                let c2: CompactMove = (*im).into();
                check(&c2, &want, &|| format!("converted {:?}", im))?;
                let m2: Move = c.into();
                check(&m2, &want, &|| format!("converted compact {:?}", im))?;
                cx.states += 1;
                cx.transitions += 6;
            }
            cx.traces += 1;
            cx.sample(|| format!("{:?} is written {}", t().moves[u as usize].1, t().moves[u as usize].1.to_usi_owned()));
            Ok(())
        }));
        s.push(section("moves differ", "different moves have different texts (drops: by piece kind and square)", 1, |_, cx| {
            let v = |m: &Mv| !matches!(*m, Mv::Drop { piece, .. } if side_of(piece) == 1);
            distinct(t().moves.iter().filter(|x| v(&x.0)).map(|x| (show_move(x.0), x.1)), cx)?;
            distinct(t().moves.iter().filter(|x| v(&x.0)).map(|x| (show_move(x.0), to_compact(x.0))), cx)?;
            let v = |m: &Mv| matches!(*m, Mv::Drop { piece, .. } if side_of(piece) == 1);
            distinct(t().moves.iter().filter(|x| v(&x.0)).map(|x| (show_move(x.0), x.1)), cx)?;
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("hands: one count", "each kind and player x all 256 counts x other counts 0, 1, many", 14, |u, cx| {
            let (c, k) = (u as usize / 7, u as usize % 7);
            for other in [0u8, 1, 2, 10, 255] {
                for n in 0..=255u8 {
                    let mut h = [[other; 7]; 2];
                    h[c][k] = n;
                    let v = [make_hand(&h[0]), make_hand(&h[1])];
                    check(&v, &hands_text(&h), &|| format!("hands {:?}", h))?;
                    formatted(&v, &hands_text(&h), &|| format!("hands {:?}", h))?;
                    cx.states += 1;
                    cx.transitions += 2;
                }
            }
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("hands: two counts", "each two of the fourteen counts x all pairs of values", 91, move |u, cx| {
            let (mut a, mut b, mut n) = (0usize, 1usize, u);
            while n > 0 {
                n -= 1;
                b += 1;
                if b == 14 {
                    a += 1;
                    b = a + 1;
                }
            }
            let step = tier.pick(3, 1);
            let by_count: Vec<Vec<Hand>> = (0..7).map(|k| (0..=255).map(|n| { let mut h = [0; 7]; h[k] = n; make_hand(&h) }).collect()).collect();
            for x in (0..=255u8).step_by(1) {
                for y in ((x as usize % step)..256).step_by(step) {
                    let mut h = [[0u8; 7]; 2];
                    h[a / 7][a % 7] = x;
                    h[b / 7][b % 7] = y as u8;
                    let v = if a / 7 == b / 7 {
                        let mut q = by_count[a % 7][x as usize];
                        for _ in 0..y.min(3) {
                            q = q.added(t().kind[b % 7 + 1]).unwrap();
                        }
                        if y > 3 {
                            q = make_hand(&h[a / 7]);
                        }
                        if a / 7 == 0 { [q, Hand::new()] } else { [Hand::new(), q] }
                    } else {
                        [by_count[a % 7][x as usize], by_count[b % 7][y]]
                    };
                    let want = hands_text(&h);
                    let mut f = Fixed::default();
                    ensure!(v.to_usi(&mut f).is_ok(), "hands {:?}: failed", h);
                    ensure!(f.buf == want.as_bytes(), "hands {:?} are written {:?}, expected {:?}", h, String::from_utf8_lossy(&f.buf), want);
                    cx.states += 1;
                    cx.transitions += 1;
                }
            }
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("hands: sets of kinds", "all 2^14 sets of kinds in the two hands x count patterns, all different", 1, move |_, cx| {
            let mut seen: HashMap<String, [[u8; 7]; 2]> = HashMap::new();
            for set in 0..1u32 << 14 {
                for pat in 0..tier.pick(6u8, 20) {
                    let mut h = [[0u8; 7]; 2];
                    for i in 0..14 {
                        if set >> i & 1 == 1 {
                            h[i / 7][i % 7] = match pat {
                                0 => 1,
                                1 => 2,
                                2 => [1, 2, 10, 11, 12, 100, 112][(i + set as usize) % 7],
                                3 => 10,
                                4 => 18 - i as u8,
                                5 => 255,
                                x => (x.wrapping_mul(37)).wrapping_add(i as u8 * 19).max(1),
                            };
                        }
                    }
                    let v = [make_hand(&h[0]), make_hand(&h[1])];
                    let want = hands_text(&h);
                    let got = v.to_usi_owned();
                    ensure!(got == want, "hands {:?} are written {:?}, expected {:?}", h, got, want);
                    if let Some(o) = seen.insert(got, h) {
                        ensure!(o == h, "hands {:?} and {:?} have the same text {:?}", o, h, want);
                    }
                    cx.transitions += 1;
                }
            }
            cx.states += seen.len() as u64;
            cx.traces += 1;
            Ok(())
        }));
        s
    });
}
