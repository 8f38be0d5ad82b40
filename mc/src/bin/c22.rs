//! C22: the memory primitives that the no_std C library exports, as compiled, against their C contracts.
//!
//! Memory lies between inaccessible pages: one byte too many ends the process. VERIF_C22_DIR names the libraries.
use mc::dl;
use mc::*;
use std::ffi::c_void;

type Cpy = unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8;
type Set = unsafe extern "C" fn(*mut u8, i32, usize) -> *mut u8;
type Cmp = unsafe extern "C" fn(*const u8, *const u8, usize) -> i32;
type Zero = unsafe extern "C" fn(*mut u8, usize);
struct Lib {
    name: &'static str,
    memcpy: Cpy,
    memset: Set,
    memcmp: Cmp,
    bzero: Zero,
}
const LIBS: [&str; 3] = ["debug", "release", "release-speed"];
thread_local! {
    static LOADED: Vec<Lib> = LIBS.iter().map(|&name| unsafe {
        let l = dl::open(&std::env::var("VERIF_C22_DIR").expect("VERIF_C22_DIR"), name).unwrap();
        let get = |s: &str| dl::symbol(l, s).unwrap_or_else(|| panic!("the {} library does not export {}", name, s));
        Lib {
            name,
            memcpy: std::mem::transmute::<*mut c_void, Cpy>(get("memcpy")),
            memset: std::mem::transmute::<*mut c_void, Set>(get("memset")),
            memcmp: std::mem::transmute::<*mut c_void, Cmp>(get("memcmp")),
            bzero: std::mem::transmute::<*mut c_void, Zero>(get("__bzero")),
        }
    }).collect();
    static MEM: [Pages; 2] = [Pages::new(1 << 21), Pages::new(1 << 21)];
}
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn close(fd: i32) -> i32;
}
/// Accessible memory between inaccessible pages.
struct Pages {
    p: *mut u8,
    size: usize,
}
impl Pages {
    fn new(size: usize) -> Pages {
        unsafe {
            let p = mmap(std::ptr::null_mut(), size + 8192, 3, 0x22, -1, 0);
            assert!(p as isize != -1);
            assert!(mprotect(p, 4096, 0) == 0 && mprotect(p.add(4096 + size), 4096, 0) == 0);
            Pages { p: p.add(4096), size }
        }
    }
    fn all(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.p, self.size) }
    }
}
const WINDOW: usize = 1 << 21;
const LONG: usize = 1 << 32;
const TAIL: usize = 64;
/// More than 4 GiB of addresses: one window of memory again and again, and a page of its own after `LONG` bytes.
struct Long(*mut u8);
impl Long {
    fn new() -> Option<Long> {
        unsafe {
            let p = mmap(std::ptr::null_mut(), LONG + 8192, 0, 0x4022, -1, 0);
            if p as isize == -1 {
                return None;
            }
            let long = Long(p);
            let fd = memfd_create(b"w\0".as_ptr(), 0);
            let mut ok = fd >= 0 && ftruncate(fd, WINDOW as i64) == 0;
            for i in 0..LONG / WINDOW {
                ok = ok && mmap(p.add(i * WINDOW), WINDOW, 3, 0x11, fd, 0) as isize != -1;
            }
            close(fd);
            (ok && mprotect(p.add(LONG), 4096, 3) == 0).then_some(long)
        }
    }
    fn window(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.0, WINDOW) }
    }
    fn tail(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.0.add(LONG), TAIL + 16) }
    }
}
impl Drop for Long {
    fn drop(&mut self) {
        unsafe { munmap(self.0, LONG + 8192) };
    }
}
/// One call with a length that does not fit in 32 bits.
/// Returns whether there were enough addresses to try it.
fn longer(l: &Lib, what: u64) -> Result<bool, String> {
    let n = LONG + TAIL;
    let (Some(x), Some(y)) = (Long::new(), Long::new()) else { return Ok(false) };
    for (i, v) in x.window().iter_mut().chain(x.tail()).enumerate() {
        *v = pattern(i, 3);
    }
    match what {
        0 => {
            y.tail().fill(0x5a);
            let r = unsafe { (l.memcpy)(y.0, x.0, n) };
            ensure!(r == y.0, "memcpy of {} bytes returns another address", n);
            ensure!(x.window() == y.window() && x.tail()[..TAIL] == y.tail()[..TAIL] && y.tail()[TAIL..] == [0x5a; 16], "memcpy of {} bytes copies others", n);
        }
        1 | 2 => {
            let v = if what == 1 { 0xc3 } else { 0 };
            if what == 1 {
                let r = unsafe { (l.memset)(x.0, 0xc3, n) };
                ensure!(r == x.0, "memset of {} bytes returns another address", n);
            } else {
                unsafe { (l.bzero)(x.0, n) };
            }
            let after: Vec<u8> = (WINDOW + TAIL..WINDOW + TAIL + 16).map(|i| pattern(i, 3)).collect();
            ensure!(x.window().iter().chain(&x.tail()[..TAIL]).all(|&b| b == v) && x.tail()[TAIL..] == after, "filling {} bytes with {} fills others", n, v);
        }
        _ => {
            y.window().copy_from_slice(x.window());
            y.tail().copy_from_slice(x.tail());
            y.tail()[TAIL] ^= 0x80;
            y.tail()[TAIL - 7] = x.tail()[TAIL - 7].wrapping_add(1);
            let want = x.tail()[TAIL - 7].cmp(&y.tail()[TAIL - 7]);
            let r = unsafe { (l.memcmp)(x.0, y.0, n) };
            ensure!(r.cmp(&0) == want, "memcmp of {} bytes that differ near the end is {}", n, r);
        }
    }
    Ok(true)
}
/// Where a range of `n` bytes lies: close to the front, or ending close to the end.
#[derive(Clone, Copy, Debug)]
struct Place {
    back: bool,
    off: usize,
}
fn places(offs: usize) -> Vec<Place> {
    (0..offs).flat_map(|off| [Place { back: false, off }, Place { back: true, off }]).collect()
}
impl Place {
    fn start(self, size: usize, n: usize) -> usize {
        if self.back {
            size - n - self.off
        } else {
            self.off
        }
    }
}
fn libs(mut f: impl FnMut(&Lib, &[Pages; 2]) -> R) -> R {
    LOADED.with(|ls| {
        MEM.with(|m| {
            for l in ls {
                f(l, m).map_err(|e| format!("{} build: {}", l.name, e))?;
            }
            Ok(())
        })
    })
}
const EDGE: usize = 80;
fn pattern(i: usize, salt: usize) -> u8 {
    ((i + salt).wrapping_mul(0x9e37_79b1) >> 13) as u8
}
/// The bytes near the range, inside the accessible memory.
fn around(size: usize, s: usize, n: usize) -> (usize, usize) {
    (s.saturating_sub(EDGE), (s + n + EDGE).min(size))
}

fn copy(l: &Lib, m: &[Pages; 2], n: usize, d: Place, s: Place, salt: usize) -> R {
    let (src, dst) = (m[0].all(), m[1].all());
    let (ss, ds) = (s.start(src.len(), n), d.start(dst.len(), n));
    let (sa, sb) = around(src.len(), ss, n);
    let (da, db) = around(dst.len(), ds, n);
    for i in sa..sb {
        src[i] = pattern(i + EDGE - ss, salt);
    }
    for x in &mut dst[da..db] {
        *x = 0x5a;
    }
    let r = unsafe { (l.memcpy)(dst.as_mut_ptr().add(ds), src.as_ptr().add(ss), n) };
    let what = || format!("memcpy of {} bytes from {:?} to {:?}", n, s, d);
    ensure!(r as usize == dst.as_ptr() as usize + ds, "{} returns another address", what());
    for i in da..db {
        let inside = i >= ds && i < ds + n;
        let want = if inside { pattern(i + EDGE - ds, salt) } else { 0x5a };
        ensure!(dst[i] == want, "{}: byte {} is {}, expected {}", what(), i as isize - ds as isize, dst[i], want);
    }
    for i in sa..sb {
        ensure!(src[i] == pattern(i + EDGE - ss, salt), "{} changes its source", what());
    }
    Ok(())
}
fn fill(l: &Lib, m: &[Pages; 2], n: usize, d: Place, c: Option<i32>, before: u8) -> R {
    let dst = m[1].all();
    let ds = d.start(dst.len(), n);
    let (da, db) = around(dst.len(), ds, n);
    for x in &mut dst[da..db] {
        *x = before;
    }
    let p = unsafe { dst.as_mut_ptr().add(ds) };
    let what = || match c {
        Some(c) => format!("memset({}) of {} bytes at {:?}", c, n, d),
        None => format!("__bzero of {} bytes at {:?}", n, d),
    };
    match c {
        Some(c) => {
            let r = unsafe { (l.memset)(p, c, n) };
            ensure!(r == p, "{} returns another address", what());
        }
        None => unsafe { (l.bzero)(p, n) },
    }
    let value = (c.unwrap_or(0) as u32 & 0xff) as u8;
    for i in da..db {
        let want = if i >= ds && i < ds + n { value } else { before };
        ensure!(dst[i] == want, "{}: byte {} is {}, expected {}", what(), i as isize - ds as isize, dst[i], want);
    }
    Ok(())
}
/// Compares `a` and `b` (placed as given); what follows them differs the other way.
fn compare(l: &Lib, m: &[Pages; 2], a: &[u8], b: &[u8], pa: Place, pb: Place) -> R {
    let n = a.len();
    let (x, y) = (m[0].all(), m[1].all());
    let (xs, ys) = (pa.start(x.len(), n), pb.start(y.len(), n));
    x[xs..xs + n].copy_from_slice(a);
    y[ys..ys + n].copy_from_slice(b);
    let want = a.cmp(b);
    if xs + n < x.len() {
        x[xs + n] = if want.is_lt() { 255 } else { 1 };
    }
    if ys + n < y.len() {
        y[ys + n] = if want.is_lt() { 0 } else { 254 };
    }
    if xs > 0 {
        x[xs - 1] = if want.is_lt() { 200 } else { 3 };
    }
    if ys > 0 {
        y[ys - 1] = if want.is_lt() { 4 } else { 201 };
    }
    let (p, q) = unsafe { (x.as_ptr().add(xs), y.as_ptr().add(ys)) };
    let r = unsafe { (l.memcmp)(p, q, n) };
    ensure!(r.cmp(&0) == want, "memcmp of {:?} and {:?} at {:?} and {:?} is {}", a, b, pa, pb, r);
    let r = unsafe { (l.memcmp)(q, p, n) };
    ensure!(r.cmp(&0) == want.reverse(), "memcmp of {:?} and {:?} at {:?} and {:?} is {}", b, a, pb, pa, r);
    ensure!(&x[xs..xs + n] == a && &y[ys..ys + n] == b, "memcmp changes memory");
    Ok(())
}

fn main() {
    runner::main(|tier| {
        let mut out = Vec::new();
        let (max, offs) = tier.pick((520usize, 17usize), (1100, 33));
        let ps = std::sync::Arc::new(places(offs));
        let p1 = ps.clone();
        out.push(section("copying", &format!("lengths 0 to {}, source and destination at offsets 0 to {} from the front and from the back of accessible memory", max, offs - 1), max as u64 + 1, move |u, cx| {
            libs(|l, m| {
                for &d in p1.iter() {
                    for &s in p1.iter() {
                        copy(l, m, u as usize, d, s, d.off * 31 + s.off)?;
                        cx.transitions += 1;
                    }
                }
                cx.states += 1;
                cx.traces += (p1.len() * p1.len()) as u64;
                cx.sample(|| format!("{} build: copies of {} bytes between all places", l.name, u));
                Ok(())
            })
        }));
        let p2 = ps.clone();
        out.push(section("filling and zeroing", "the same lengths and places, several values and prior contents", max as u64 + 1, move |u, cx| {
            libs(|l, m| {
                for &d in p2.iter() {
                    for c in [Some(0), Some(1), Some(0x7f), Some(0x80), Some(0xff), Some(-1), Some(256), Some(0x1234_5678), Some(i32::MIN), Some(i32::MAX), None] {
                        for before in [0u8, 0xff, 0x42] {
                            fill(l, m, u as usize, d, c, before)?;
                            cx.transitions += 1;
                        }
                    }
                }
                cx.states += 1;
                cx.traces += p2.len() as u64 * 33;
                Ok(())
            })
        }));
        out.push(section("fill values", "every value -70,000 to 70,000 and around every power of two, lengths 0 to 20", 21, move |u, cx| {
            libs(|l, m| {
                let powers = (0..31).flat_map(|b| [(1i32 << b) - 1, 1 << b, -(1 << b), (1i32 << b).wrapping_add(0xa5)]);
                for c in (-70_000..=70_000).chain(powers) {
                    fill(l, m, u as usize, Place { back: c % 2 == 0, off: 3 }, Some(c), !(c as u8))?;
                    cx.transitions += 1;
                }
                cx.states += 1;
                cx.traces += 1;
                Ok(())
            })
        }));
        out.push(section("copied values", "every byte at every place of lengths 1 to 40", 40, move |u, cx| {
            libs(|l, m| {
                let n = u as usize + 1;
                for at in 0..n {
                    for v in 0..=255u8 {
                        let (src, dst) = (m[0].all(), m[1].all());
                        src[..n].fill(0);
                        src[at] = v;
                        dst[..n + 1].fill(!v);
                        unsafe { (l.memcpy)(dst.as_mut_ptr(), src.as_ptr(), n) };
                        ensure!(dst[..n] == src[..n] && dst[n] == !v, "copying {:?}", &src[..n]);
                        cx.transitions += 1;
                    }
                }
                cx.states += 1;
                cx.traces += 1;
                Ok(())
            })
        }));
        out.push(section("comparing bytes", "every pair of bytes at every place of lengths 1 to 12, equal before, the other way after", 256, move |u, cx| {
            libs(|l, m| {
                let a = u as u8;
                for n in 1..=12usize {
                    for at in 0..n {
                        for b in 0..=255u8 {
                            let mut x = [0x80u8; 12];
                            let mut y = x;
                            x[at] = a;
                            y[at] = b;
                            for i in at + 1..n {
                                x[i] = if a < b { 0xff } else { 0 };
                                y[i] = if a < b { 0 } else { 0xff };
                            }
                            if a == b {
                                y = x;
                            }
                            compare(l, m, &x[..n], &y[..n], Place { back: at % 2 == 0, off: 1 }, Place { back: b % 2 == 0, off: 0 })?;
                            cx.transitions += 2;
                        }
                    }
                }
                cx.states += 1;
                cx.traces += 1;
                cx.sample(|| format!("{} build: comparisons of byte {} with every byte", l.name, a));
                Ok(())
            })
        }));
        let width = tier.pick(4u32, 5);
        out.push(section("comparing texts", &format!("every pair of texts of up to {} bytes over 0, 1, 127, 128, 255", width), 5u64.pow(width), move |u, cx| {
            let byte = |x: u64, i: u32| [0u8, 1, 127, 128, 255][(x / 5u64.pow(i) % 5) as usize];
            libs(|l, m| {
                for n in 0..=width {
                    if u >= 5u64.pow(n) {
                        continue;
                    }
                    let a: Vec<u8> = (0..n).map(|i| byte(u, i)).collect();
                    for v in 0..5u64.pow(n) {
                        let b: Vec<u8> = (0..n).map(|i| byte(v, i)).collect();
                        compare(l, m, &a, &b, Place { back: true, off: 0 }, Place { back: v % 2 == 0, off: 2 })?;
                        cx.transitions += 2;
                    }
                    cx.states += 1;
                }
                cx.traces += 1;
                Ok(())
            })
        }));
        let p3 = ps.clone();
        out.push(section("comparing ranges", "the same lengths and places, equal or differing at every position", max as u64 + 1, move |u, cx| {
            let n = u as usize;
            libs(|l, m| {
                let a: Vec<u8> = (0..n).map(|i| pattern(i, 5)).collect();
                for (i, &p) in p3.iter().enumerate() {
                    for &q in p3.iter() {
                        compare(l, m, &a, &a, p, q)?;
                        cx.transitions += 2;
                        if n > 0 {
                            let mut b = a.clone();
                            let at = (i * 37 + q.off * 11) % n;
                            b[at] = b[at].wrapping_add(0x80 + i as u8);
                            compare(l, m, &a, &b, p, q)?;
                            cx.transitions += 2;
                        }
                    }
                }
                for at in 0..n {
                    let mut b = a.clone();
                    b[at] ^= 0x80;
                    compare(l, m, &a, &b, Place { back: true, off: 0 }, Place { back: false, off: 0 })?;
                    cx.transitions += 2;
                }
                cx.states += 1;
                cx.traces += 1;
                Ok(())
            })
        }));
        out.push(section("long ranges", "lengths around powers of two up to 2 MiB, to and from the very ends of accessible memory", 66, move |u, cx| {
            let n = (((1usize << (u / 6 + 10)) as i64) + [-2, -1, 0, 1, 2, 7][(u % 6) as usize]) as usize;
            let n = n.min(1 << 21);
            libs(|l, m| {
                let size = m[0].size;
                for d in [Place { back: false, off: 0 }, Place { back: true, off: 0 }] {
                    for s in [Place { back: false, off: 0 }, Place { back: true, off: 0 }] {
                        copy(l, m, n, d, s, n)?;
                        let (x, y) = (m[0].all(), m[1].all());
                        let (xs, ys) = (s.start(size, n), d.start(size, n));
                        let (p, q) = unsafe { (x.as_ptr().add(xs), y.as_ptr().add(ys)) };
                        ensure!(unsafe { (l.memcmp)(p, q, n) } == 0, "memcmp of {} equal bytes", n);
                        for at in [0, n / 2, n - 1] {
                            y[ys + at] ^= 0xff;
                            let (r, want) = (unsafe { (l.memcmp)(p, q, n) }, x[xs + at].cmp(&y[ys + at]));
                            ensure!(r.cmp(&0) == want, "memcmp of {} bytes that differ at {} is {}", n, at, r);
                            y[ys + at] ^= 0xff;
                        }
                        cx.transitions += 5;
                    }
                    for c in [None, Some(0xc3), Some(-2)] {
                        fill(l, m, n, d, c, 0x77)?;
                        cx.transitions += 1;
                    }
                }
                cx.states += 1;
                cx.traces += 1;
                Ok(())
            })
        }));
        let builds = tier.pick(1usize, 0)..LIBS.len();
        out.push(section("beyond 32 bits", &format!("lengths of 4 GiB and {} bytes, each function of {} builds", TAIL, builds.len()), 4 * builds.len() as u64, move |u, cx| {
            let tried = LOADED.with(|ls| {
                let l = &ls[builds.start + u as usize / 4];
                longer(l, u % 4).map_err(|e| format!("{} build: {}", l.name, e))
            })?;
            if tried {
                cx.states += 1;
                cx.transitions += 1;
                cx.traces += 1;
            } else {
                cx.outcome("not tried for want of addresses");
            }
            Ok(())
        }));
        out
    })
}
