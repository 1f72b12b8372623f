//! Exhaustive-enumeration engine shared by the checks.
//!
//! A check is a list of `Space`s.  A space is a finite, indexed set of cases (an input, an operation
//! history, or the root of a tree of environment choices); the engine runs *every* case of every
//! space on the real code, in parallel, and reports the smallest failing index of the first space
//! that fails.  There is no sampling anywhere: the only random choice is which cases are written
//! out as samples (VERIF_SEED).

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

// ---------------------------------------------------------------- memory

/// Allocator for the checkers: millions of short runs allocate small vectors.  Blocks up to 512 bytes come
/// from free lists of the thread.
pub struct Pool;
const NCLASS: usize = 33;
thread_local! {
    static FREE: std::cell::UnsafeCell<[*mut u8; NCLASS]> = const { std::cell::UnsafeCell::new([std::ptr::null_mut(); NCLASS]) };
}
unsafe impl std::alloc::GlobalAlloc for Pool {
    #[inline]
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let c = (l.size() + 15) / 16;
        if c == 0 || c >= NCLASS || l.align() > 16 {
            return std::alloc::System.alloc(l);
        }
        FREE.with(|f| {
            let head = &mut (*f.get())[c];
            if head.is_null() {
                let size = c * 16;
                let n = (16384 / size).max(8);
                let p = std::alloc::System.alloc(std::alloc::Layout::from_size_align_unchecked(n * size, 16));
                if p.is_null() {
                    return p;
                }
                for i in (0..n).rev() {
                    let b = p.add(i * size);
                    *(b as *mut *mut u8) = *head;
                    *head = b;
                }
            }
            let b = *head;
            *head = *(b as *mut *mut u8);
            b
        })
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let c = (l.size() + 15) / 16;
        if c == 0 || c >= NCLASS || l.align() > 16 {
            return std::alloc::System.dealloc(p, l);
        }
        FREE.with(|f| {
            let head = &mut (*f.get())[c];
            *(p as *mut *mut u8) = *head;
            *head = p;
        })
    }
}

// ---------------------------------------------------------------- hashing

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = self.0.wrapping_mul(0x100000001b3) ^ x as u64;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}

/// Deterministic 64-bit hash (no randomised keys).
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut h = self.0;
        h ^= h >> 33;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 33;
        h = h.wrapping_mul(0xc4ceb9fe1a85ec53);
        h ^ (h >> 33)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = 0u64;
            for (i, &x) in c.iter().enumerate() {
                v |= (x as u64) << (8 * i);
            }
            self.write_u64(v);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x9e3779b97f4a7c15);
    }
    fn write_i128(&mut self, x: i128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}
pub fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = Fnv::default();
    x.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- budgets

thread_local! {
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// Give the code under test at most `n` units of work in this case; running out is a failure to
/// terminate.
pub fn set_budget(n: u64) {
    BUDGET.with(|b| b.set(n));
}
#[inline]
pub fn tick(n: u64) {
    BUDGET.with(|b| {
        let v = b.get();
        if v < n {
            b.set(u64::MAX);
            panic!("does not terminate: work budget of this case exhausted");
        }
        if v != u64::MAX {
            b.set(v - n);
        }
    })
}

// ---------------------------------------------------------------- accounting

const SHARDS: usize = 64;
const MAX_STATES: u64 = 150_000_000;

pub struct Shared {
    states: Vec<Mutex<HashSet<u64, BuildHasherDefault<IdHasher>>>>,
    nstates: AtomicU64,
}

/// Per-worker accumulator handed to every case.
pub struct Acc<'a> {
    shared: &'a Shared,
    buf: Vec<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub cases: u64,
    outcomes: BTreeMap<&'static str, u64>,
    want_sample: bool,
    samples: Vec<String>,
}
impl<'a> Acc<'a> {
    fn new(shared: &'a Shared) -> Self {
        Acc { shared, buf: vec![], transitions: 0, traces: 0, cases: 0, outcomes: BTreeMap::new(), want_sample: false, samples: vec![] }
    }
    /// Record a visited state (deduplicated globally by a 64-bit hash of its canonical form).
    pub fn state<T: Hash>(&mut self, t: &T) {
        self.buf.push(hash_of(t));
        if self.buf.len() >= 8192 {
            self.flush();
        }
    }
    /// Count one execution of an operation of the implementation (or one callback it made).
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Count one complete execution of the implementation that was compared with the model.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn outcome(&mut self, k: &'static str) {
        *self.outcomes.entry(k).or_insert(0) += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            let s = f();
            self.samples.push(s);
        }
    }
    fn flush(&mut self) {
        if self.shared.nstates.load(Ordering::Relaxed) > MAX_STATES {
            self.buf.clear();
            return;
        }
        self.buf.sort_unstable_by_key(|h| h % SHARDS as u64);
        let mut i = 0;
        while i < self.buf.len() {
            let sh = (self.buf[i] % SHARDS as u64) as usize;
            let mut g = self.shared.states[sh].lock().unwrap();
            let before = g.len();
            while i < self.buf.len() && (self.buf[i] % SHARDS as u64) as usize == sh {
                g.insert(self.buf[i]);
                i += 1;
            }
            self.shared.nstates.fetch_add((g.len() - before) as u64, Ordering::Relaxed);
        }
        self.buf.clear();
    }
}

type Runner = Box<dyn Fn(u64, &mut Acc) -> Result<(), String> + Sync + Send>;
pub struct Space {
    pub name: String,
    pub size: u64,
    pub run: Runner,
}
impl Space {
    pub fn new(name: impl Into<String>, size: u64, run: impl Fn(u64, &mut Acc) -> Result<(), String> + Sync + Send + 'static) -> Space {
        Space { name: name.into(), size, run: Box::new(run) }
    }
}

pub struct Check {
    pub id: String,
    pub spaces: Vec<Space>,
    pub assumptions: Vec<String>,
    pub rule: String,
}

fn run_case(sp: &Space, idx: u64, acc: &mut Acc) -> Result<(), String> {
    set_budget(200_000_000);
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (sp.run)(idx, acc)));
    set_budget(u64::MAX);
    match r {
        Ok(r) => r,
        Err(e) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| {
                e.downcast_ref::<String>().cloned().unwrap_or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or_default())
            });
            if m.contains("ENGINE:") {
                eprintln!("engine error in {}#{}: {}", sp.name, idx, m);
                std::process::exit(3);
            }
            Err(format!("panic: {}", m))
        }
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    // lines "property=<id> key=<substring> :: text"; "fixed:" lines and comments suppress nothing.
    let p = std::env::var("VERIF_KNOWN").unwrap_or("/verif/known_findings.txt".into());
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    t.lines()
        .filter_map(|l| {
            let l = l.trim();
            let rest = l.strip_prefix(&format!("property={} key=", id))?;
            let (k, d) = rest.split_once(" :: ")?;
            Some((k.trim().to_string(), d.to_string()))
        })
        .collect()
}

pub fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// Run the check; never returns.
/// argv after the property id may be `--replay <space> <index>`.
pub fn main_check(check: Check) -> ! {
    let start = Instant::now();
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("{} at {}", msg, loc))
            }
        });
    }));
    let args: Vec<String> = std::env::args().collect();
    let shared = Shared {
        states: (0..SHARDS).map(|_| Mutex::new(HashSet::default())).collect(),
        nstates: AtomicU64::new(0),
    };
    if let Some(p) = args.iter().position(|a| a == "--replay") {
        let sp = check.spaces.iter().find(|s| s.name == args[p + 1]).expect("no such space");
        let idx: u64 = args[p + 2].parse().unwrap();
        let mut acc = Acc::new(&shared);
        acc.want_sample = true;
        let r = run_case(sp, idx, &mut acc);
        for s in &acc.samples {
            println!("case: {}", s);
        }
        match r {
            Ok(()) => {
                println!("property {} holds on {}#{}", check.id, sp.name, idx);
                std::process::exit(0)
            }
            Err(e) => {
                println!("property {} fails on {}#{}: {}", check.id, sp.name, idx, e);
                std::process::exit(1)
            }
        }
    }
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let mut tot = (0u64, 0u64, 0u64); // transitions traces cases
    let mut outcomes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut space_report: Vec<(String, u64, f64)> = vec![];
    let known = known_findings(&check.id);
    let mut known_hit: BTreeMap<usize, (u64, String)> = BTreeMap::new();
    let mut violation: Option<(String, u64, String)> = None;
    let rdir = std::env::var("VERIF_DIR").unwrap_or("/verif".into());

    for (si, sp) in check.spaces.iter().enumerate() {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let found: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let kh: Mutex<Vec<(usize, u64, String)>> = Mutex::new(vec![]);
        let chunk = (sp.size / (nthreads as u64 * 64)).clamp(1, 2048);
        let progress: Vec<(AtomicU64, AtomicU64)> = (0..nthreads).map(|_| (AtomicU64::new(0), AtomicU64::new(u64::MAX))).collect();
        let smp = [0, sp.size / 2, (seed().wrapping_mul(0x9e3779b97f4a7c15) >> 1) % sp.size.max(1)];
        let accs: Vec<Acc> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..nthreads)
                .map(|w| {
                    let (next, stop, found, kh, shared, known, progress) = (&next, &stop, &found, &kh, &shared, &known, &progress);
                    std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
                        let mut acc = Acc::new(shared);
                        'o: loop {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= sp.size || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            for idx in a..(a + chunk).min(sp.size) {
                                acc.want_sample = smp.contains(&idx);
                                acc.cases += 1;
                                progress[w].0.fetch_add(1, Ordering::Relaxed);
                                progress[w].1.store(idx, Ordering::Relaxed);
                                let r = run_case(sp, idx, &mut acc);
                                progress[w].1.store(u64::MAX, Ordering::Relaxed);
                                if let Err(e) = r {
                                    let full = format!("{}#{}: {}", sp.name, idx, e);
                                    if let Some(k) = known.iter().position(|(k, _)| full.contains(k.as_str())) {
                                        kh.lock().unwrap().push((k, idx, full));
                                        continue;
                                    }
                                    found.lock().unwrap().push((idx, e));
                                    stop.store(true, Ordering::Relaxed);
                                    break 'o;
                                }
                            }
                        }
                        acc.flush();
                        acc
                    }).unwrap()
                })
                .collect();
            // watchdog: a single case of these tiny spaces that runs for minutes does not terminate
            let (progress, done, rdir, id, name) = (&progress, &done, &rdir, &check.id, &sp.name);
            sc.spawn(move || {
                let mut last: Vec<(u64, Instant)> = progress.iter().map(|p| (p.0.load(Ordering::Relaxed), Instant::now())).collect();
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(50));
                    for (w, p) in progress.iter().enumerate() {
                        let c = p.0.load(Ordering::Relaxed);
                        let idx = p.1.load(Ordering::Relaxed);
                        if c != last[w].0 || idx == u64::MAX {
                            last[w] = (c, Instant::now());
                        } else if last[w].1.elapsed() > Duration::from_secs(120) {
                            report(rdir, id, name, idx, "the call did not return within 120 s (does not terminate)", 0);
                            std::process::exit(1);
                        }
                    }
                }
            });
            let r = hs.into_iter().map(|h| h.join().unwrap()).collect();
            done.store(true, Ordering::Relaxed);
            r
        });
        for a in accs {
            tot.0 += a.transitions;
            tot.1 += a.traces;
            tot.2 += a.cases;
            for (k, v) in a.outcomes {
                *outcomes.entry(k).or_insert(0) += v;
            }
            for s in a.samples {
                if s.len() < 4000 {
                    samples.push(format!("{}: {}", sp.name, s));
                }
            }
        }
        for (k, _i, full) in kh.into_inner().unwrap() {
            let e = known_hit.entry(k).or_insert((0, full));
            e.0 += 1;
        }
        space_report.push((sp.name.clone(), sp.size, t0.elapsed().as_secs_f64()));
        let _ = si;
        let mut f = found.into_inner().unwrap();
        f.sort();
        if let Some((idx, e)) = f.into_iter().next() {
            violation = Some((sp.name.clone(), idx, e));
            break;
        }
    }
    let nstates = shared.nstates.load(Ordering::Relaxed);
    let wall = start.elapsed().as_secs_f64();
    let nviol = violation.is_some() as u32;
    // evidence
    let mut ev = String::new();
    samples.truncate(24);
    ev.push_str(&format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"evaluations\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n",
        jstr(&check.id),
        jstr(if tier() == Tier::Quick { "quick" } else { "thorough" }),
        seed(),
        nstates,
        tot.0,
        tot.1,
        tot.2,
        nviol == 0 && nstates <= MAX_STATES,
        jstr(&check.rule)
    ));
    ev.push_str("  \"spaces\": [");
    ev.push_str(&space_report.iter().map(|(n, s, t)| format!("{{\"name\": {}, \"cases\": {}, \"wall_s\": {:.2}}}", jstr(n), s, t)).collect::<Vec<_>>().join(", "));
    ev.push_str("],\n  \"observed_outcomes\": {");
    ev.push_str(&outcomes.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n  \"samples\": [");
    ev.push_str(&samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   "));
    ev.push_str("]\n },\n \"assumptions\": [");
    ev.push_str(&check.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    ev.push_str(&format!("],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, nviol));
    let edir = format!("{}/evidence", rdir);
    let _ = std::fs::create_dir_all(&edir);
    if std::fs::write(format!("{}/{}.json", edir, check.id), ev).is_err() {
        eprintln!("cannot write evidence");
        std::process::exit(3);
    }
    println!(
        "{}: states={} transitions={} traces={} cases={} wall={:.1}s",
        check.id, nstates, tot.0, tot.1, tot.2, wall
    );
    for (n, s, t) in &space_report {
        println!("  space {} cases={} {:.2}s", n, s, t);
    }
    println!("  outcomes {:?}", outcomes);
    for (k, (n, full)) in &known_hit {
        println!("KNOWN-FINDING: property={} {} ({} cases, first: {})", check.id, known[*k].1, n, full.replace('\n', " "));
    }
    if let Some((name, idx, e)) = violation {
        // replay it: the same case must fail the same way again
        let sp = check.spaces.iter().find(|s| s.name == name).unwrap();
        let mut same = 0;
        for _ in 0..2 {
            let mut acc = Acc::new(&shared);
            if run_case(sp, idx, &mut acc).is_err() {
                same += 1;
            }
        }
        report(&rdir, &check.id, &name, idx, &e, same);
        std::process::exit(1);
    }
    println!("OK property={}", check.id);
    std::process::exit(0)
}

fn report(rdir: &str, id: &str, space: &str, idx: u64, e: &str, same: u32) {
    let dir = format!("{}/replays", rdir);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.txt", dir, id);
    let _ = std::fs::write(
        &path,
        format!("property {}\nspace {} index {}\nreplay: bash /verif/check.sh {} --replay '{}' {}\nreproduced {} of 2 times\n\n{}\n", id, space, idx, id, space, idx, same, e),
    );
    println!("case {}#{} (reproduced {}/2): {}", space, idx, same, e);
    println!("VIOLATION property={} replay={}", id, path);
}

// ---------------------------------------------------------------- enumeration helpers

/// Mixed-radix digits of idx, least significant first.
pub fn digits(mut idx: u64, base: u64, n: usize) -> Vec<u64> {
    (0..n)
        .map(|_| {
            let d = idx % base;
            idx /= base;
            d
        })
        .collect()
}
pub fn take(idx: &mut u64, base: u64) -> u64 {
    let d = *idx % base;
    *idx /= base;
    d
}
pub fn factorial(n: u64) -> u64 {
    (1..=n).product()
}
pub fn zigzag(d: u64) -> i64 {
    // 0,1,-1,2,-2,...: simplest first
    if d % 2 == 1 { (d as i64 + 1) / 2 } else { -(d as i64) / 2 }
}

/// Depth-first exploration of all environment choices: `run` is executed repeatedly; inside it,
/// `Chooser::choose(n)` returns every value 0..n over the executions.  A replayed prefix that meets a
/// different number of alternatives is a hard error.
pub struct Chooser {
    path: Vec<(usize, usize)>,
    pos: usize,
    /// answers fixed by the case index (lets one tree be explored in parallel)
    forced: Vec<usize>,
    fpos: usize,
    pub duplicate: bool,
}
impl Chooser {
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "ENGINE: empty choice");
        if self.fpos < self.forced.len() {
            let c = self.forced[self.fpos];
            self.fpos += 1;
            if c >= n {
                self.duplicate = true;
                return 0;
            }
            return c;
        }
        if self.pos < self.path.len() {
            let (c, m) = self.path[self.pos];
            assert!(m == n, "the same inputs and environment answers led to different behaviour (choice {} had {} alternatives, now {})", self.pos, m, n);
            self.pos += 1;
            c
        } else {
            self.path.push((0, n));
            self.pos += 1;
            0
        }
    }
    /// The execution is over: is it the canonical representative of its prefix?
    pub fn finish(&mut self) {
        if self.forced[self.fpos..].iter().any(|&c| c != 0) {
            self.duplicate = true;
        }
    }
    pub fn path(&self) -> Vec<usize> {
        self.forced.iter().copied().chain(self.path[..self.pos.min(self.path.len())].iter().map(|p| p.0)).collect()
    }
}
/// Explores the whole tree; returns the number of executions.  Panics of an execution (for example a
/// call that does not terminate within the budget) are failures of that execution.
///
/// `forced` fixes the first answers; executions for which that prefix is not a canonical one (an
/// answer out of range, or a prefix longer than the execution that is not all zero) are duplicates of
/// executions explored under another prefix: `run` must not judge them (`ch.duplicate`, set at the
/// latest by `ch.finish()`).
pub fn explore(budget: u64, forced: Vec<usize>, mut run: impl FnMut(&mut Chooser) -> Result<(), String>) -> Result<u64, String> {
    let mut ch = Chooser { path: vec![], pos: 0, forced, fpos: 0, duplicate: false };
    let mut n = 0;
    loop {
        ch.pos = 0;
        ch.fpos = 0;
        ch.duplicate = false;
        set_budget(budget);
        let r = match catch_unwind(AssertUnwindSafe(|| run(&mut ch))) {
            Ok(r) => r,
            Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())),
        };
        ch.finish();
        if !ch.duplicate {
            n += 1;
        }
        if let (Err(e), false) = (r, ch.duplicate) {
            return Err(format!("{} [environment answers {:?}]", e, ch.path()));
        }
        ch.path.truncate(ch.pos);
        loop {
            match ch.path.pop() {
                None => return Ok(n),
                Some((c, m)) if c + 1 < m => {
                    ch.path.push((c + 1, m));
                    break;
                }
                _ => {}
            }
        }
    }
}
