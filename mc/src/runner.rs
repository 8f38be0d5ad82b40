//! Runs the units of a check on all cores, counts what they cover, and reports the first violation.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<A>(self, quick: A, thorough: A) -> A {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

#[derive(Default)]
pub struct Cx {
    /// Distinct states (or values) examined.
    pub states: u64,
    /// Operations executed on the implementation and compared with the model.
    pub transitions: u64,
    /// Complete executions: operation sequences from a root that were run on the implementation in step with the model.
    pub traces: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub replaying: bool,
}
impl Cx {
    pub fn outcome(&mut self, name: &'static str) {
        *self.outcomes.entry(name).or_insert(0) += 1;
    }
    pub fn outcomes_add(&mut self, name: &'static str, n: u64) {
        if n > 0 {
            *self.outcomes.entry(name).or_insert(0) += n;
        }
    }
    /// Keeps a few written-out cases per unit.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.is_empty() {
            self.samples.push(f());
        }
    }
    fn merge(&mut self, o: Cx) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
        if self.samples.len() < 2 {
            self.samples.extend(o.samples);
        }
    }
}

pub struct Section {
    pub name: String,
    pub about: String,
    pub units: u64,
    pub run: Box<dyn Fn(u64, &mut Cx) -> R + Sync + Send>,
}
/// What is shared between the workers. Nothing in the harness writes to it; values of the library are cloned from it or queried.
/// The claim is made here so that everything still compiles, and is still checked, when a type of the library loses `Sync`.
pub struct AnyThread<T>(pub T);
unsafe impl<T> Send for AnyThread<T> {}
unsafe impl<T> Sync for AnyThread<T> {}
impl<T> AnyThread<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
}
/// `<Shareable<T>>::YES`: whether `T` is `Sync`.
pub struct Shareable<T>(core::marker::PhantomData<T>);
pub trait NotShareable {
    const YES: bool = false;
}
impl<T> NotShareable for Shareable<T> {}
impl<T: Sync> Shareable<T> {
    pub const YES: bool = true;
}

pub fn section(
    name: &str,
    about: &str,
    units: u64,
    run: impl Fn(u64, &mut Cx) -> R + 'static,
) -> Section {
    let run = AnyThread(run);
    Section {
        name: name.to_string(),
        about: about.to_string(),
        units,
        run: Box::new(move |unit, cx| (run.get())(unit, cx)),
    }
}

#[cfg(not(miri))]
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn run_unit(s: &Section, unit: u64, cx: &mut Cx) -> R {
    match catch_unwind(AssertUnwindSafe(|| (s.run)(unit, cx))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Arguments: --tier quick|thorough, --out FILE, --crumbs FILE, [--only SECTION UNIT], [--threads N], [--shard I/N]: of each section the units U
/// with U % N = I
pub fn main(build: impl FnOnce(Tier) -> Vec<Section>) {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| args.iter().position(|a| a == name).map(|i| args[i + 1].clone());
    let tier = if get("--tier").as_deref() == Some("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        PANIC.with(|p| *p.borrow_mut() = msg);
    }));
    let sections = match catch_unwind(AssertUnwindSafe(|| build(tier))) {
        Ok(s) => s,
        Err(_) => {
            // The tables are built from the library's own values: a panic here is a panic of the library.
            let m = PANIC.with(|p| p.borrow().clone());
            write_out(get("--out"), tier, &[], 0.0, Some((0, 0, "preparation".into(), format!("panicked: {}", m))));
            std::process::exit(1);
        }
    };
    if args.iter().any(|a| a == "--list") {
        for s in &sections {
            println!("{}\t{}", s.name, s.units);
        }
        return;
    }
    if let Some(i) = args.iter().position(|a| a == "--only") {
        let name = &args[i + 1];
        let unit: u64 = args[i + 2].parse().unwrap();
        if name == "preparation" {
            println!("preparation passes");
            return;
        }
        let s = sections.iter().find(|s| &s.name == name).expect("no such section");
        let mut cx = Cx {
            replaying: true,
            ..Cx::default()
        };
        match run_unit(s, unit, &mut cx) {
            Ok(()) => println!("unit {} of {} passes", unit, name),
            Err(e) => {
                println!("VIOLATED in section {} unit {}: {}", name, unit, e);
                std::process::exit(1);
            }
        }
        return;
    }
    let threads: usize = get("--threads").map(|x| x.parse().unwrap()).unwrap_or(8);
    // Where each thread is, in a file, for the case that the process dies or hangs.
    let unseen: Vec<AtomicU64> = (0..2 * threads).map(|_| AtomicU64::new(0)).collect();
    let crumbs: &[AtomicU64] = match get("--crumbs") {
        None => &unseen,
        // Miri has no shared memory; it runs one thread, which writes the file each time (below).
        #[cfg(miri)]
        Some(_) => &unseen,
        #[cfg(not(miri))]
        Some(f) => unsafe {
            use std::os::fd::AsRawFd;
            let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(f).unwrap();
            file.set_len((16 * threads) as u64).unwrap();
            let p = mmap(core::ptr::null_mut(), 16 * threads, 3, 1, file.as_raw_fd(), 0);
            assert!(p as isize != -1);
            std::mem::forget(file);
            std::slice::from_raw_parts(p as *const AtomicU64, 2 * threads)
        },
    };
    let (shard, shards): (u64, u64) = match get("--shard") {
        None => (0, 1),
        Some(x) => {
            let (i, n) = x.split_once('/').unwrap();
            (i.parse().unwrap(), n.parse().unwrap())
        }
    };
    let start = Instant::now();
    let mut results: Vec<(String, String, u64, Cx, f64)> = Vec::new();
    let violation: Mutex<Option<(usize, u64, String, String)>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let only_section = get("--section");
    for (si, s) in sections.iter().enumerate() {
        if let Some(o) = &only_section {
            if o != &s.name {
                continue;
            }
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let total = Mutex::new(Cx::default());
        std::thread::scope(|sc| {
            for th in 0..threads.min(s.units as usize) {
                let (next, total, stop, violation) = (&next, &total, &stop, &violation);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || loop {
                        let u = next.fetch_add(1, SeqCst) * shards + shard;
                        if u >= s.units || stop.load(SeqCst) {
                            crumbs[2 * th].store(0, SeqCst);
                            break;
                        }
                        crumbs[2 * th + 1].store(u, SeqCst);
                        crumbs[2 * th].store(si as u64 + 1, SeqCst);
                        #[cfg(miri)]
                        if let Some(f) = std::env::args().skip_while(|a| a != "--crumbs").nth(1) {
                            let mut b = (si as u64 + 1).to_le_bytes().to_vec();
                            b.extend(u.to_le_bytes());
                            std::fs::write(f, b).unwrap();
                        }
                        let mut cx = Cx::default();
                        let r = run_unit(s, u, &mut cx);
                        total.lock().unwrap().merge(cx);
                        if let Err(e) = r {
                            stop.store(true, SeqCst);
                            let mut v = violation.lock().unwrap();
                            if v.as_ref().map_or(true, |x| x.1 > u) {
                                *v = Some((si, u, s.name.clone(), e));
                            }
                        }
                    })
                    .unwrap();
            }
        });
        results.push((
            s.name.clone(),
            s.about.clone(),
            s.units,
            total.into_inner().unwrap(),
            t0.elapsed().as_secs_f64(),
        ));
        if stop.load(SeqCst) {
            break;
        }
    }
    let v = violation.into_inner().unwrap();
    let bad = v.is_some();
    write_out(get("--out"), tier, &results, start.elapsed().as_secs_f64(), v);
    if bad {
        std::process::exit(1);
    }
}

/// One row per section: name, description, units, what was counted, seconds.
type Row = (String, String, u64, Cx, f64);
/// Section index, unit, section name, message.
type Found = (usize, u64, String, String);

fn write_out(out: Option<String>, tier: Tier, results: &[Row], wall: f64, v: Option<Found>) {
    let mut o = String::from("{\n \"sections\": [\n");
    for (i, (name, about, units, cx, secs)) in results.iter().enumerate() {
        o.push_str(&format!(
            "  {{\"name\": {}, \"about\": {}, \"units\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \"seconds\": {:.3}, \"outcomes\": {{{}}}, \"samples\": [{}]}}{}\n",
            esc(name),
            esc(about),
            units,
            cx.states,
            cx.transitions,
            cx.traces,
            secs,
            cx.outcomes.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "),
            cx.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
            if i + 1 < results.len() { "," } else { "" }
        ));
    }
    o.push_str(&format!(" ],\n \"tier\": \"{:?}\", \"seconds\": {:.3},\n", tier, wall));
    match v {
        None => o.push_str(" \"violation\": null\n}\n"),
        Some((_, unit, name, msg)) => o.push_str(&format!(
            " \"violation\": {{\"section\": {}, \"unit\": {}, \"message\": {}}}\n}}\n",
            esc(&name),
            unit,
            esc(&msg)
        )),
    }
    match out {
        Some(f) => std::fs::write(f, o).unwrap(),
        None => print!("{}", o),
    }
}
