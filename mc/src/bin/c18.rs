//! C18: a game record returns the last resolution set and keeps its position.
use mc::order::*;
use mc::*;
use shogi_core::c_compat::*;
use shogi_core::*;
use std::cmp::Ordering;

const RES: [GameResolution; 5] = [
    GameResolution::BlackWins,
    GameResolution::WhiteWins,
    GameResolution::Draw,
    GameResolution::Rematch,
    GameResolution::Aborted,
];

/// What both records show.
trait Record: Clone + Default + Eq + Ord + std::hash::Hash + std::fmt::Debug + 'static {
    type P: Clone + Eq + Ord + std::hash::Hash + Default + std::fmt::Debug;
    fn resolve_(&mut self, r: GameResolution);
    fn unresolve_(&mut self);
    fn res(&self) -> Option<GameResolution>;
    fn res_c(&self) -> OptionGameResolution;
    fn pos(&self) -> &Self::P;
    fn shows_start(&self) -> Option<String>;
}
impl Record for Game {
    type P = Position;
    fn resolve_(&mut self, r: GameResolution) {
        self.resolve(r)
    }
    fn unresolve_(&mut self) {
        self.unresolve()
    }
    fn res(&self) -> Option<GameResolution> {
        self.resolution()
    }
    fn res_c(&self) -> OptionGameResolution {
        self.Game_resolution()
    }
    fn pos(&self) -> &Position {
        self.position()
    }
    fn shows_start(&self) -> Option<String> {
        history_diff(self.position(), &M::startpos(), &[], &M::startpos())
    }
}
impl Record for PartialGame {
    type P = PartialPosition;
    fn resolve_(&mut self, r: GameResolution) {
        self.resolve(r)
    }
    fn unresolve_(&mut self) {
        self.unresolve()
    }
    fn res(&self) -> Option<GameResolution> {
        self.resolution()
    }
    fn res_c(&self) -> OptionGameResolution {
        self.PartialGame_resolution()
    }
    fn pos(&self) -> &PartialPosition {
        self.position()
    }
    fn shows_start(&self) -> Option<String> {
        all_diff(self.position(), &M::startpos())
    }
}

/// Operations on a pair of records; the model of each is the resolution's index, 0 for none.
#[derive(Clone, Copy, Debug)]
enum Op {
    Resolve(usize, u8),
    Unresolve(usize),
    Clone(usize),
    CloneFrom(usize),
    Swap,
}
fn ops() -> Vec<Op> {
    let mut v = Vec::new();
    for i in 0..2 {
        for r in 1..=5 {
            v.push(Op::Resolve(i, r));
        }
        v.push(Op::Unresolve(i));
        v.push(Op::Clone(i));
        v.push(Op::CloneFrom(i));
    }
    v.push(Op::Swap);
    v
}
fn byte(x: &OptionGameResolution) -> u8 {
    // A transparent byte.
    unsafe { *(x as *const OptionGameResolution as *const u8) }
}
fn check<G: Record>(g: &G, m: u8, start: &G::P) -> R {
    let expected = if m == 0 { None } else { Some(RES[m as usize - 1]) };
    for _ in 0..2 {
        same!(g.res(), expected, "resolution");
        same!(Option::<GameResolution>::from(g.res_c()), expected, "C form of the resolution");
        same!(g.res_c(), OptionGameResolution::from(expected), "C form of the resolution");
        same!(byte(&g.res_c()), m, "byte of the C form");
        ensure!(g.pos() == start, "the position changed: {:?}", g.pos());
    }
    if let Some(d) = g.shows_start() {
        fail!("position: {}", d);
    }
    Ok(())
}
fn pair_laws<G: Record>(a: &G, b: &G, ma: u8, mb: u8) -> R {
    let o = ma.cmp(&mb);
    ensure!((a == b) == (o == Ordering::Equal), "== of resolutions {} and {} is {}", ma, mb, a == b);
    ensure!((a != b) == (o != Ordering::Equal), "!= of resolutions {} and {} is {}", ma, mb, a != b);
    let c = a.cmp(b);
    ensure!(c == b.cmp(a).reverse(), "cmp of resolutions {} and {} is not antisymmetric", ma, mb);
    ensure!((c == Ordering::Equal) == (o == Ordering::Equal), "cmp of resolutions {} and {} is {:?}", ma, mb, c);
    same!(a.partial_cmp(b), Some(c), "partial_cmp of resolutions {} and {}", ma, mb);
    ensure!((a < b) == (c == Ordering::Less) && (a <= b) == (c != Ordering::Greater), "operators disagree with cmp");
    ensure!((a > b) == (c == Ordering::Greater) && (a >= b) == (c != Ordering::Less), "operators disagree with cmp");
    // position first, then the resolution as its own type orders it
    let expected = a.pos().cmp(b.pos()).then(a.res_c().cmp(&b.res_c()));
    same!(c, expected, "cmp of resolutions {} and {}", ma, mb);
    if o == Ordering::Equal {
        same!(hashes(a), hashes(b), "hashes of equal records");
    }
    Ok(())
}

fn sequences<G: Record>(v: &[(G, u8); 2], start: &G::P, ops: &[Op], depth: usize, cx: &mut Cx) -> R {
    for &op in ops {
        let mut w = v.clone();
        match op {
            Op::Resolve(i, r) => {
                w[i].0.resolve_(RES[r as usize - 1]);
                w[i].1 = r;
            }
            Op::Unresolve(i) => {
                w[i].0.unresolve_();
                w[i].1 = 0;
            }
            Op::Clone(i) => w[i] = w[1 - i].clone(),
            Op::CloneFrom(i) => {
                let o = w[1 - i].clone();
                w[i].0.clone_from(&o.0);
                w[i].1 = o.1;
            }
            Op::Swap => w.swap(0, 1),
        }
        cx.transitions += 1;
        let here = (|| {
            for (g, m) in &w {
                check(g, *m, start)?;
            }
            pair_laws(&w[0].0, &w[1].0, w[0].1, w[1].1)?;
            pair_laws(&w[1].0, &v[0].0, w[1].1, v[0].1)
        })();
        here.map_err(|e: String| format!("after {:?}: {}", op, e))?;
        if depth > 1 {
            sequences(&w, start, ops, depth - 1, cx).map_err(|e| format!("after {:?}: {}", op, e))?;
        } else {
            cx.traces += 1;
        }
    }
    cx.states += 1;
    for (g, m) in v {
        check(g, *m, start)?;
    }
    Ok(())
}

fn sections<G: Record>(name: &'static str, tier: Tier, out: &mut Vec<Section>) {
    let depth = tier.pick(3, 5);
    out.push(section(
        &format!("{} sequences", name),
        &format!("two records: every sequence of resolve (5 values), unresolve, clone, clone_from and exchange to depth {}", depth + 1),
        ops().len() as u64,
        move |u, cx| {
            let ops = ops();
            let mut v = [(G::default(), 0), (G::default(), 0)];
            let start = G::P::default();
            check(&v[0].0, 0, &start)?;
            match ops[u as usize] {
                Op::Resolve(i, r) => {
                    v[i].0.resolve_(RES[r as usize - 1]);
                    v[i].1 = r;
                }
                // From the other records these first steps change nothing; take a resolved start instead.
                _ => {
                    v[0].0.resolve_(RES[u as usize % 5]);
                    v[0].1 = (u % 5) as u8 + 1;
                    v[1].0.resolve_(RES[(u as usize + 2) % 5]);
                    v[1].1 = ((u + 2) % 5) as u8 + 1;
                }
            }
            sequences(&v, &start, &ops, depth, cx).map_err(|e| format!("first {:?}: {}", ops[u as usize], e))
        },
    ));
    out.push(section(
        &format!("{} laws", name),
        "all records with all resolutions, reached in all ways of up to two settings: equality, order, hash on all pairs and triples",
        1,
        move |_, cx| {
            let mut all: Vec<(G, u8)> = Vec::new();
            for first in 0..=6u8 {
                for second in 0..=6u8 {
                    let mut g = G::default();
                    let mut m = 0;
                    for x in [first, second] {
                        match x {
                            0 => {}
                            6 => {
                                g.unresolve_();
                                m = 0
                            }
                            r => {
                                g.resolve_(RES[r as usize - 1]);
                                m = r
                            }
                        }
                    }
                    all.push((g, m));
                }
            }
            for (a, ma) in &all {
                check(a, *ma, &G::P::default())?;
                cx.states += 1;
                for (b, mb) in &all {
                    pair_laws(a, b, *ma, *mb)?;
                    cx.transitions += 1;
                    cx.traces += 1;
                    for (c, _) in &all {
                        ensure!(!(a <= b && b <= c) || a <= c, "<= is not transitive");
                        ensure!(!(a == b && b == c) || a == c, "== is not transitive");
                        cx.transitions += 1;
                    }
                }
            }
            Ok(())
        },
    ));
}

fn main() {
    runner::main(|tier| {
        let mut out = Vec::new();
        sections::<Game>("game", tier, &mut out);
        sections::<PartialGame>("partial game", tier, &mut out);
        out
    })
}
