//! C08: a failing text sink is always reported.
use mc::*;
use shogi_core::*;
use std::fmt::Write;
use std::sync::Arc;

/// How a sink fails.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    /// It takes this many bytes; a piece that does not fit is refused.
    Capacity(usize),
    /// It takes this many bytes; of a piece that does not fit it takes what fits, then refuses.
    Partial(usize),
    /// The n-th call and all later ones are refused.
    From(usize),
    /// Only the n-th call is refused; it would take everything after that.
    Only(usize),
    /// As above, but the bytes of the refused call arrived.
    OnlyLate(usize),
}
struct Sink {
    fault: Fault,
    got: Vec<u8>,
    calls: usize,
    failed: bool,
    after: usize,
}
impl Sink {
    fn new(fault: Fault) -> Sink {
        Sink { fault, got: Vec::new(), calls: 0, failed: false, after: 0 }
    }
    fn take(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.after += s.len();
        }
        let n = self.calls;
        self.calls += 1;
        let ok = match self.fault {
            Fault::Capacity(c) => self.got.len() + s.len() <= c,
            Fault::Partial(c) => {
                let room = c - self.got.len();
                if s.len() > room {
                    self.got.extend_from_slice(&s.as_bytes()[..room]);
                    self.failed = true;
                    return Err(std::fmt::Error);
                }
                true
            }
            Fault::From(k) => n < k,
            Fault::Only(k) => n != k,
            Fault::OnlyLate(k) => {
                if n == k {
                    self.got.extend_from_slice(s.as_bytes());
                }
                n != k
            }
        };
        if !ok {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.got.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.take(s)
    }
    fn write_char(&mut self, c: char) -> std::fmt::Result {
        let mut b = [0; 4];
        self.take(c.encode_utf8(&mut b))
    }
}
/// A formatter over the sink: what `write!(sink, "{}", value)` goes through.
struct Shown<'a, T>(&'a T);
impl<T: Text> std::fmt::Display for Shown<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.put(f)
    }
}
trait Text {
    fn put<W: Write>(&self, w: &mut W) -> std::fmt::Result;
}
struct Usi<T>(T);
impl<T: ToUsi> Text for Usi<T> {
    fn put<W: Write>(&self, w: &mut W) -> std::fmt::Result {
        self.0.to_usi(w)
    }
}
struct Sfen(PartialPosition);
impl Text for Sfen {
    fn put<W: Write>(&self, w: &mut W) -> std::fmt::Result {
        self.0.to_sfen(w)
    }
}

fn one<T: Text>(v: &T, fault: Fault, full: &[u8], through_formatter: bool, what: &dyn Fn() -> String) -> Result<bool, String> {
    let mut s = Sink::new(fault);
    let r = if through_formatter { write!(s, "{}", Shown(v)) } else { v.put(&mut s) };
    if r.is_ok() {
        if s.failed {
            fail!("{}: with {:?} the call reports success although the sink refused a write (it has {:?})", what(), fault, String::from_utf8_lossy(&s.got));
        }
        if s.got != full {
            fail!("{}: with {:?} the call reports success, but the sink has {:?} of {:?}", what(), fault, String::from_utf8_lossy(&s.got), String::from_utf8_lossy(full));
        }
    } else if !s.failed {
        fail!("{}: with {:?} the call reports failure although the sink took everything", what(), fault);
    }
    if s.after > 0 {
        fail!("{}: with {:?} the output continues after a refused write ({} bytes)", what(), fault, s.after);
    }
    if !full.starts_with(&s.got) {
        fail!("{}: with {:?} the sink has {:?}, not a prefix of {:?}", what(), fault, String::from_utf8_lossy(&s.got), String::from_utf8_lossy(full));
    }
    Ok(s.failed)
}
/// All faults: every capacity, every call.
fn all<T: Text>(v: &T, cx: &mut Cx, what: &dyn Fn() -> String) -> R {
    let mut s = Sink::new(Fault::From(usize::MAX));
    if v.put(&mut s).is_err() {
        fail!("{}: the call reports failure although the sink takes everything", what());
    }
    let (full, calls) = (s.got, s.calls);
    let mut failed = 0;
    let mut run = 0;
    for c in 0..=full.len() {
        for f in [Fault::Capacity(c), Fault::Partial(c)] {
            run += 1;
            failed += one(v, f, &full, false, what)? as u64;
        }
    }
    for k in 0..=calls {
        for f in [Fault::From(k), Fault::Only(k), Fault::OnlyLate(k)] {
            run += 1;
            failed += one(v, f, &full, false, what)? as u64;
        }
        run += 1;
        failed += one(v, Fault::Only(k), &full, true, what)? as u64;
    }
    cx.transitions += run;
    cx.states += 1;
    cx.traces += failed;
    if failed < full.len() as u64 {
        fail!("{}: harness: only {} of {} faults reached the sink", what(), failed, run);
    }
    cx.outcomes_add("reported failures", failed);
    cx.outcomes_add("successes", run - failed);
    cx.sample(|| format!("{:?}: {} faults, {} of them refused a write", String::from_utf8_lossy(&full), run, failed));
    Ok(())
}

fn main() {
    runner::main(|tier| {
        let mut s = Vec::new();
        s.push(section("atoms", "squares, pieces, kinds, colours: every capacity and every failing call", 1, |_, cx| {
            let t = t();
            for i in 0..81 {
                all(&Usi(t.sq[i]), cx, &|| format!("square {}", square_text(i as u8)))?;
            }
            for p in all_pieces() {
                all(&Usi(t.pc[p as usize].unwrap()), cx, &|| format!("piece {}", piece_text(p)))?;
            }
            for k in KINDS {
                all(&Usi(t.kind[k as usize]), cx, &|| format!("kind {}", letter(k)))?;
            }
            for c in 0..2 {
                all(&Usi(t.color[c]), cx, &|| format!("colour {}", c))?;
            }
            Ok(())
        }));
        s.push(section("moves", "all moves in both forms", 81, |u, cx| {
            for (m, im) in t().moves.iter().skip(u as usize).step_by(81) {
                all(&Usi(*im), cx, &|| format!("move {}", show_move(*m)))?;
                all(&Usi(to_compact(*m)), cx, &|| format!("compact move {}", show_move(*m)))?;
            }
            Ok(())
        }));
        s.push(section("hands", "each kind and player x all counts alone and with others; all sets of kinds", 14 + 128, |u, cx| {
            if u < 14 {
                let (c, k) = (u as usize / 7, u as usize % 7);
                for other in [0u8, 1, 12, 123] {
                    for n in 0..=255u8 {
                        let mut h = [[other; 7]; 2];
                        h[c][k] = n;
                        all(&Usi([make_hand(&h[0]), make_hand(&h[1])]), cx, &|| format!("hands {}", hands_text(&h)))?;
                    }
                }
            } else {
                for lo in 0..128u32 {
                    let set = (u as u32 - 14) * 128 + lo;
                    let mut h = [[0u8; 7]; 2];
                    for i in 0..14 {
                        if set >> i & 1 == 1 {
                            h[i / 7][i % 7] = [1, 2, 10, 100, 9, 255, 18][(i + lo as usize) % 7];
                        }
                    }
                    all(&Usi([make_hand(&h[0]), make_hand(&h[1])]), cx, &|| format!("hands {}", hands_text(&h)))?;
                }
            }
            Ok(())
        }));
        // positions
        let mut ms: Vec<M> = Vec::new();
        let pieces = all_pieces();
        for (_, m) in roots::roots() {
            ms.push(m);
        }
        for r in 0..9 {
            for pat in 0..512u32 {
                let mut m = M::empty();
                m.side = (pat % 2) as u8;
                m.ply = [1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65535][pat as usize % 10];
                for f in 0..9 {
                    if pat >> f & 1 == 1 {
                        m.board[9 * f + r] = pieces[(pat as usize * 3 + f) % 28];
                    }
                }
                ms.push(m);
            }
        }
        for sq in 0..81 {
            for &p in &pieces {
                let mut m = M::empty();
                m.board[sq] = p;
                m.hands[sq % 2][p as usize % 7] = (sq * 3) as u8;
                ms.push(m.clone());
                if tier == Tier::Thorough {
                    for i in 0..81 {
                        if i != sq {
                            m.board[i] = pieces[(i * 5 + p as usize) % 28];
                        }
                    }
                    ms.push(m);
                }
            }
        }
        let plies: Vec<u16> = if tier == Tier::Quick {
            (1..=1100).chain((0..16).map(|b| 1 << b)).chain([9999, 10000, 10001, 20000, 65535, 65534, 60000, 12000, 10200, 10030, 10004]).collect()
        } else {
            (1..=65535).collect()
        };
        for p in plies {
            let mut m = M::empty();
            m.board[40] = 8;
            m.ply = p;
            ms.push(m);
        }
        let ms = Arc::new(ms);
        let units = ms.len().div_ceil(64) as u64;
        s.push(section("positions", "SFEN of roots, rank patterns, pieces on squares, ply numbers", units, move |u, cx| {
            for m in ms.iter().skip(u as usize * 64).take(64) {
                let p = build(m);
                all(&Sfen(p), cx, &|| m.show())?;
            }
            Ok(())
        }));
        s.push(section("ply zero", "SFEN after the ply number wrapped around", 1, |_, cx| {
            let mut m = roots::roots()[0].1.clone();
            m.ply = 65535;
            let mut p = build(&m);
            ensure!(p.make_move(to_move(Mv::Normal { from: 6, to: 5, promote: false })).is_some(), "1g1f rejected");
            all(&Sfen(p), cx, &|| "start position, ply wrapped to 0".to_string())
        }));
        s
    });
}
