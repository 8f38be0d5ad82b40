//! C06: the C string form of SFEN stays within its documented buffer.
use mc::*;
use shogi_core::*;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
const PAGE: usize = 4096;
/// One page between two that cannot be touched.
struct Arena(*mut u8);
impl Arena {
    fn new() -> Arena {
        unsafe {
            let p = mmap(core::ptr::null_mut(), 3 * PAGE, 3, 0x22, -1, 0);
            assert!(p as isize != -1);
            assert!(mprotect(p, PAGE, 0) == 0 && mprotect(p.add(2 * PAGE), PAGE, 0) == 0);
            Arena(p.add(PAGE))
        }
    }
}
thread_local! {
    static A: Arena = Arena::new();
}
/// Runs the call on a buffer of exactly the right size: guard page after it or before it, known bytes on the other side.
fn bounded(want: &str, f: &dyn Fn(*mut u8), what: &dyn Fn() -> String) -> R {
    let n = want.len() + 1;
    A.with(|a| {
        for (at, canary) in [(PAGE - n, 0xA5u8), (0, 0x5Au8), (1000, b'/'), (1001, 0)] {
            let page = unsafe { std::slice::from_raw_parts_mut(a.0, PAGE) };
            page.fill(canary);
            f(unsafe { a.0.add(at) });
            let page = unsafe { std::slice::from_raw_parts(a.0, PAGE) };
            for (i, &b) in page.iter().enumerate() {
                let ok = if i < at || i >= at + n {
                    b == canary
                } else if i == at + n - 1 {
                    b == 0
                } else {
                    b == want.as_bytes()[i - at]
                };
                if !ok {
                    fail!(
                        "{}: byte {} of the buffer is {:#04x}; the text {:?} has {} bytes with its NUL (bytes outside it were {:#04x})",
                        what(), i as isize - at as isize, b, want, n, canary
                    );
                }
            }
        }
        Ok(())
    })
}
fn check(p: &PartialPosition, m: &M, history: bool) -> R {
    let want = m.sfen();
    bounded(&want, &|b| unsafe { p.to_sfen_c(b) }, &|| format!("{} PartialPosition::to_sfen_c", m.show()))?;
    same!(p.to_sfen_owned(), want, "the SFEN text");
    if history {
        let q = Position::arbitrary_position(p.clone());
        bounded(&want, &|b| unsafe { q.to_sfen_c(b) }, &|| format!("{} Position::to_sfen_c", m.show()))?;
    }
    Ok(())
}

const LIMIT: usize = 139;
const SET: [usize; 9] = [0, 18, 4, 4, 4, 4, 2, 2, 2];
fn digits(n: usize) -> usize {
    match n {
        0 => 0,
        1 => 1,
        2..=9 => 2,
        _ => 3,
    }
}
/// The most digits a board with n pieces can have in its ranks, for every n, with a distribution that has them.
fn runs() -> Vec<Option<(usize, Vec<usize>)>> {
    let mut best: Vec<Option<(usize, Vec<usize>)>> = vec![None; 82];
    best[0] = Some((0, vec![]));
    for _ in 0..9 {
        let mut next: Vec<Option<(usize, Vec<usize>)>> = vec![None; 82];
        for (n, b) in best.iter().enumerate() {
            if let Some((r, d)) = b {
                for k in 0..=9usize {
                    if n + k > 81 {
                        continue;
                    }
                    let r2 = r + (k + 1).min(9 - k);
                    if next[n + k].as_ref().map_or(true, |x| x.0 < r2) {
                        let mut d2 = d.clone();
                        d2.push(k);
                        next[n + k] = Some((r2, d2));
                    }
                }
            }
        }
        best = next;
    }
    best
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct Choice {
    plain: usize,
    promoted: usize,
    black: usize,
    white: usize,
}
/// All ways to place at most the set's pieces of a kind.
fn choices(kind: usize) -> Vec<Choice> {
    let t = SET[kind];
    let mut v = Vec::new();
    for plain in 0..=t {
        for promoted in 0..=t - plain {
            if promoted > 0 && promote_kind(kind as u8).is_none() {
                continue;
            }
            for black in 0..=t - plain - promoted {
                for white in 0..=t - plain - promoted - black {
                    if kind == 8 && black + white > 0 {
                        continue;
                    }
                    v.push(Choice { plain, promoted, black, white });
                }
            }
        }
    }
    v
}
/// Characters apart from runs and separators; hands count only when not both empty.
fn cost(c: Choice) -> usize {
    c.plain + 2 * c.promoted + digits(c.black) + digits(c.white)
}
/// A position with these choices, its pieces spread for the most digits.
fn position(sel: &[Choice], spread: &[usize], reverse: bool) -> M {
    let mut m = M::empty();
    let mut list = Vec::new();
    for (i, c) in sel.iter().enumerate() {
        let k = i as u8 + 1;
        for j in 0..c.plain {
            list.push(make_piece(k, (j % 2) as u8));
        }
        for j in 0..c.promoted {
            list.push(make_piece(promote_kind(k).unwrap(), (j % 2) as u8));
        }
        if k <= 7 {
            m.hands[0][i] = c.black as u8;
            m.hands[1][i] = c.white as u8;
        }
    }
    if reverse {
        list.reverse();
    }
    let mut it = list.into_iter();
    for (r, &n) in spread.iter().enumerate() {
        // n pieces with a gap between each two while squares last
        let mut files = Vec::new();
        let mut f = if n <= 4 { 1 } else { 0 };
        while files.len() < n && f < 9 {
            files.push(f);
            f += 2;
        }
        let mut f = 0;
        while files.len() < n {
            if !files.contains(&f) {
                files.push(f);
            }
            f += 1;
        }
        for f in files {
            m.board[9 * f + r] = it.next().unwrap();
        }
    }
    assert!(it.next().is_none());
    m
}

fn main() {
    runner::main(|tier| {
        let mut s = Vec::new();
        s.push(section(
            "longest texts",
            "every distribution of the 40 pieces over board, promotion and hands is folded kind by kind (all choices per kind, maxima per number of pieces on the board); each maximum is built and written",
            41,
            move |u, cx| {
                let n = u as usize;
                let runs = runs();
                // best[pieces on board] = (characters, choices)
                let mut best: Vec<Option<(usize, Vec<Choice>)>> = vec![None; 41];
                best[0] = Some((0, vec![]));
                let mut examined = 0;
                for kind in 1..=8 {
                    let cs = choices(kind);
                    let mut next: Vec<Option<(usize, Vec<Choice>)>> = vec![None; 41];
                    for (k, b) in best.iter().enumerate() {
                        if let Some((len, sel)) = b {
                            for &c in &cs {
                                examined += 1;
                                let k2 = k + c.plain + c.promoted;
                                if k2 <= 40 && next[k2].as_ref().map_or(true, |x| x.0 < len + cost(c)) {
                                    let mut s2 = sel.clone();
                                    s2.push(c);
                                    next[k2] = Some((len + cost(c), s2));
                                }
                            }
                        }
                    }
                    best = next;
                }
                cx.transitions += examined;
                let (len, sel) = best[n].clone().unwrap();
                let (r, spread) = runs[n].clone().unwrap();
                for rev in [false, true] {
                    for side in 0..2 {
                        let mut m = position(&sel, &spread, rev);
                        m.ply = 65535;
                        m.side = side;
                        let hands = if m.hands == [[0; 7]; 2] { 1 } else { 0 };
                        // board, 8 slashes, 3 spaces, turn, ply, NUL
                        let expected = len + r + hands + 8 + 3 + 1 + 5 + 1;
                        ensure!(m.sfen().len() + 1 == expected, "harness: {} has {} bytes, computed {}", m.sfen(), m.sfen().len() + 1, expected);
                        let p = build(&m);
                        let mut buf = vec![0x11u8; 1000];
                        unsafe { p.to_sfen_c(buf.as_mut_ptr()) };
                        let used = buf.iter().position(|&b| b == 0).map(|x| x + 1);
                        match used {
                            Some(x) if x <= LIMIT => {}
                            _ => fail!("{} needs {:?} bytes, documented are {}", m.show(), used, LIMIT),
                        }
                        check(&p, &m, true)?;
                        // and one move later, with history
                        let first = t().moves.iter().find(|(x, _)| m.verdict(*x) == Verdict::Accepted);
                        if let Some((mv, imv)) = first {
                            let mut q = Position::arbitrary_position(p.clone());
                            let mut m2 = m.clone();
                            m2.make_move(*mv);
                            if q.make_move(*imv).is_some() {
                                let w = m2.sfen();
                                bounded(&w, &|b| unsafe { q.to_sfen_c(b) }, &|| format!("{} with history", m2.show()))?;
                            }
                        }
                        cx.traces += 1;
                        cx.states += 1;
                    }
                }
                cx.sample(|| format!("{} pieces on the board: at most {} bytes", n, len + r + 18));
                Ok(())
            },
        ));
        s.push(section("boards", "each square x each piece, each rank pattern, on empty and full boards: exact bytes, nothing else touched", 81, move |u, cx| {
            let t = t();
            let pieces = all_pieces();
            let sq = u as usize;
            for (i, &a) in pieces.iter().enumerate() {
                let mut m = M::empty();
                m.board[sq] = a;
                m.ply = 1 + (i as u16 * 81 + sq as u16) % 9999;
                let p = build(&m);
                check(&p, &m, i == 0)?;
                let mut m = M::empty();
                for j in 0..81 {
                    m.board[j] = pieces[(j + i) % 28];
                }
                m.board[sq] = 0;
                m.hands = [[255; 7]; 2];
                m.ply = 65535;
                check(&build(&m), &m, i == 0)?;
                cx.states += 2;
                cx.transitions += 2;
            }
            let r = sq / 9;
            for pat in (sq % 9..512).step_by(9) {
                let mut m = M::empty();
                for f in 0..9 {
                    if pat >> f & 1 == 1 {
                        m.board[9 * f + r] = pieces[(pat + f) % 28];
                    }
                }
                let p = build(&m);
                check(&p, &m, false)?;
                cx.states += 1;
                cx.transitions += 1;
            }
            cx.traces += 1;
            let _ = t;
            Ok(())
        }));
        s.push(section("plies", "all ply numbers", 64, move |u, cx| {
            let m0 = roots::roots()[2].1.clone();
            let mut p = build(&m0);
            for ply in (1..65536u32).skip(u as usize).step_by(64) {
                let mut m = m0.clone();
                m.ply = ply as u16;
                let _ = p.ply_set(m.ply);
                if ply < 300 || ply % tier.pick(7, 1) == 0 {
                    check(&p, &m, ply % 50 == 0)?;
                    cx.states += 1;
                    cx.transitions += 1;
                }
            }
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("hands", "each kind and player x all counts, alone and with full hands", 14, move |u, cx| {
            let (c, k) = (u as usize / 7, u as usize % 7);
            for n in 0..=255u8 {
                for other in [0u8, 1, 12, 255] {
                    let mut m = M::empty();
                    m.hands = [[other; 7]; 2];
                    m.hands[c][k] = n;
                    check(&build(&m), &m, n % 16 == 0)?;
                    cx.states += 1;
                    cx.transitions += 1;
                }
            }
            cx.traces += 1;
            Ok(())
        }));
        s.push(section("reached", "every accepted move from each root, and a long game", 12, move |u, cx| {
            if u == 11 {
                let mut p = Position::startpos();
                let n = std::cell::Cell::new(0u64);
                roots::long_game(tier.pick(400, 20_000), |m, mv| {
                    if p.make_move(to_move(mv)).is_none() {
                        fail!("{} rejected", show_move(mv));
                    }
                    n.set(n.get() + 1);
                    let w = m.sfen();
                    ensure!(w.len() < LIMIT, "harness: {:?} is longer than a game's text can be", w);
                    bounded(&w, &|b| unsafe { p.to_sfen_c(b) }, &|| format!("after move {} of a long game", n.get()))
                })?;
                cx.states += n.get();
                cx.transitions += n.get();
                cx.traces += 1;
                return Ok(());
            }
            let (name, root) = &roots::roots()[u as usize];
            let p0 = build(root);
            check(&p0, root, true)?;
            for (i, (mv, imv)) in t().moves.iter().enumerate() {
                let mut m = root.clone();
                if m.make_move(*mv) != Verdict::Accepted {
                    continue;
                }
                let mut p = p0.clone();
                if p.make_move(*imv).is_none() {
                    continue;
                }
                check(&p, &m, i % 16 == 0).map_err(|e| format!("{} after {}: {}", name, show_move(*mv), e))?;
                cx.states += 1;
                cx.transitions += 1;
            }
            cx.traces += 1;
            Ok(())
        }));
        s
    });
}
