//! Equality, ordering and hashing of a list of values whose content is known.
use crate::runner::*;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

/// Remembers everything it is fed.
#[derive(Default, PartialEq, Eq, Clone, Debug)]
pub struct Recorder(pub Vec<u8>);
impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        self.0.iter().fold(0xcbf29ce484222325u64, |h, &b| (h ^ b as u64).wrapping_mul(0x100000001b3))
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0.extend_from_slice(bytes);
    }
}
/// What equal values must agree on under any hasher, and under the usual one.
pub fn hashes<T: Hash>(t: &T) -> (Vec<u8>, u64) {
    let mut r = Recorder::default();
    t.hash(&mut r);
    let mut d = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut d);
    (r.0, d.finish())
}

/// A merge sort that never panics, whatever the comparison answers.
fn sort_by_cmp<T: Ord>(v: &[T], idx: Vec<usize>) -> Vec<usize> {
    if idx.len() <= 1 {
        return idx;
    }
    let mut a = idx;
    let b = a.split_off(a.len() / 2);
    let (a, b) = (sort_by_cmp(v, a), sort_by_cmp(v, b));
    let (mut i, mut j) = (0, 0);
    let mut r = Vec::with_capacity(a.len() + b.len());
    while i < a.len() && j < b.len() {
        if v[b[j]].cmp(&v[a[i]]) == Ordering::Less {
            r.push(b[j]);
            j += 1;
        } else {
            r.push(a[i]);
            i += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}

pub struct Ranked<T> {
    pub v: Vec<T>,
    /// The content: equal numbers for equal contents.
    pub id: Vec<u64>,
    pub rank: Vec<u32>,
}
/// Ranks by sorting. If the order is not a total order consistent with the contents, some pair contradicts the ranks.
pub fn ranked<T: Ord>(v: Vec<T>, id: Vec<u64>) -> Ranked<T> {
    assert_eq!(v.len(), id.len());
    let s = sort_by_cmp(&v, (0..v.len()).collect());
    let mut rank = vec![0; v.len()];
    let mut r = 0;
    for k in 0..s.len() {
        if k > 0 && id[s[k]] != id[s[k - 1]] {
            r += 1;
        }
        rank[s[k]] = r;
    }
    Ranked { v, id, rank }
}

/// Value i against value j.
#[inline]
pub fn pair<T: Ord + Debug>(r: &Ranked<T>, i: usize, j: usize) -> R {
    let (a, b) = (&r.v[i], &r.v[j]);
    let same = r.id[i] == r.id[j];
    let expected = r.rank[i].cmp(&r.rank[j]);
    if (a == b) != same || (a != b) == same {
        fail!("{:?} == {:?} is {}, != is {}; their contents are {}", a, b, a == b, a != b, if same { "equal" } else { "different" });
    }
    let c = a.cmp(b);
    if c != expected || a.partial_cmp(b) != Some(expected) {
        fail!(
            "{:?} compared with {:?}: cmp {:?}, partial_cmp {:?}; a total order consistent with equality and the other comparisons needs {:?}",
            a, b, c, a.partial_cmp(b), expected
        );
    }
    let ops = (a < b, a <= b, a > b, a >= b);
    let want = (expected.is_lt(), expected.is_le(), expected.is_gt(), expected.is_ge());
    if ops != want {
        fail!("{:?} against {:?}: (<, <=, >, >=) is {:?} although cmp is {:?}", a, b, ops, c);
    }
    Ok(())
}
pub fn max_min<T: Ord + Debug + Clone>(r: &Ranked<T>, i: usize, j: usize) -> R {
    let (a, b) = (&r.v[i], &r.v[j]);
    let (mx, mn) = (a.clone().max(b.clone()), a.clone().min(b.clone()));
    let (wx, wn) = if r.rank[i] > r.rank[j] { (a, b) } else { (b, a) };
    if mx != *wx || mn != *wn {
        fail!("max and min of {:?} and {:?} are {:?} and {:?}", a, b, mx, mn);
    }
    let c = a.clone().clamp(mn.clone(), mx.clone());
    if c != *a {
        fail!("{:?} clamped to {:?}..={:?} is {:?}", a, mn, mx, c);
    }
    Ok(())
}
pub fn equal_hash<T: Hash + Debug>(a: &T, b: &T) -> R {
    if hashes(a) != hashes(b) {
        fail!("equal values hash differently: {:?} and {:?}", a, b);
    }
    let mut x = Recorder::default();
    let mut y = Recorder::default();
    T::hash_slice(std::slice::from_ref(a), &mut x);
    T::hash_slice(std::slice::from_ref(b), &mut y);
    if x != y {
        fail!("slices of equal values hash differently: {:?} and {:?}", a, b);
    }
    Ok(())
}

/// A section comparing every `stride`-th value with every value, in both directions.
pub fn order_section<T>(name: &str, about: &str, values: Vec<T>, id: Vec<u64>, stride: usize) -> Section
where
    T: Ord + Hash + Debug + Clone + 'static,
{
    let r = Arc::new(ranked(values, id));
    let n = r.v.len();
    const CHUNK: usize = 32;
    let rows: Vec<usize> = (0..n).step_by(stride).collect();
    let units = rows.len().div_ceil(CHUNK) as u64;
    let name_ = name.to_string();
    let full = n <= 3000;
    section(name, &format!("{}: {} values, {} rows of pairs", about, n, rows.len()), units, move |u, cx| {
        for &i in rows.iter().skip(u as usize * CHUNK).take(CHUNK) {
            let a = &r.v[i];
            #[allow(clippy::eq_op)]
            if !(a == a) || a != a || a.cmp(a) != Ordering::Equal {
                fail!("{:?} is not equal to itself", a);
            }
            let c = a.clone();
            if c != *a || c.cmp(a) != Ordering::Equal {
                fail!("the clone of {:?} is {:?}", a, c);
            }
            equal_hash(a, &c)?;
            let (ha, hb) = (hashes(a), hashes(a));
            if ha != hb {
                fail!("{:?} hashes differently the second time", a);
            }
            for j in 0..n {
                pair(&r, i, j)?;
                if stride > 1 {
                    pair(&r, j, i)?;
                }
                if full {
                    max_min(&r, i, j)?;
                    let mut d = a.clone();
                    d.clone_from(&r.v[j]);
                    if d != r.v[j] {
                        fail!("clone_from of {:?} into {:?} gives {:?}", r.v[j], a, d);
                    }
                }
                if i != j && r.id[i] == r.id[j] {
                    equal_hash(a, &r.v[j])?;
                    cx.traces += 1;
                }
            }
            cx.states += 1;
            cx.transitions += n as u64;
            cx.traces += 1;
        }
        cx.sample(|| format!("{}: {:?} against all {} values", name_, r.v[rows[u as usize * CHUNK]], n).chars().take(300).collect());
        Ok(())
    })
}

/// A hash computed without any allocation.
pub fn hash_small<T: Hash>(t: &T) -> u64 {
    let mut d = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut d);
    d.finish()
}
