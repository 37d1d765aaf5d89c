//! Runs the families of a check over worker threads, attributes panics,
//! crashes and hangs to single cases, and writes the evidence.

use crate::rng::{hash_bytes, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Witness of a violation.
#[derive(Clone, Debug)]
pub struct Fail {
    pub what: String,
    pub input: String,
    pub detail: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(
    what: impl Into<String>,
    input: impl Into<String>,
    detail: impl Into<String>,
) -> Result<T, Fail> {
    Err(Fail {
        what: what.into(),
        input: input.into(),
        detail: detail.into(),
    })
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

/// Context of one case.
pub struct Cx<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub st: &'a mut Stats,
    /// Set by the case before handing over to the library, for the
    /// attribution of panics.
    pub input: String,
}

impl Cx<'_> {
    /// Record a non-trivial evaluation of the monitor on this input.
    pub fn seen(&mut self, input: &str) {
        self.st.evals += 1;
        let h = hash_bytes(input.as_bytes());
        if self.st.distinct.len() < 2_000_000 {
            self.st.distinct.insert(h);
        }
        if self.st.samples.len() < 2 && input.len() < 600 {
            self.st.samples.push(input.to_string());
        }
    }
    pub fn count(&mut self, name: &str) {
        self.add(name, 1)
    }
    pub fn add(&mut self, name: &str, n: u64) {
        match self.st.counters.get_mut(name) {
            Some(c) => *c += n,
            None => {
                self.st.counters.insert(name.to_string(), n);
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct Family {
    pub name: &'static str,
    pub f: fn(&mut Cx) -> R,
    /// Number of cases in each tier; for an exhaustive family the whole
    /// space, enumerated by index.
    pub quick: u64,
    pub thorough: u64,
    pub exhaustive: bool,
}

pub const fn fam(name: &'static str, f: fn(&mut Cx) -> R, quick: u64, thorough: u64) -> Family {
    Family {
        name,
        f,
        quick,
        thorough,
        exhaustive: false,
    }
}
pub const fn exhaustive(name: &'static str, f: fn(&mut Cx) -> R, n: u64) -> Family {
    Family {
        name,
        f,
        quick: n,
        thorough: n,
        exhaustive: true,
    }
}

/// A space enumerated shortest first, further in the thorough tier.
pub const fn growing(name: &'static str, f: fn(&mut Cx) -> R, quick: u64, thorough: u64) -> Family {
    Family {
        name,
        f,
        quick,
        thorough,
        exhaustive: true,
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub fams: Vec<Family>,
    /// Counters that must be non-zero for the run to count as conclusive.
    pub must: Vec<&'static str>,
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> =
        const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Run `f`; a panic becomes Err((message, location)).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

/// Outcome of one case.
pub enum Outcome {
    Ok,
    Bad(Fail),
    /// Panic inside the harness itself.
    Harness(String),
}

pub fn run_case(fam: &Family, idx: u64, seed: u64, thorough: bool, st: &mut Stats) -> Outcome {
    let mut cx = Cx {
        rng: Rng::for_case(seed, fam.name, idx),
        idx,
        seed,
        thorough,
        st,
        input: String::new(),
    };
    match catch(|| (fam.f)(&mut cx)) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(f)) => Outcome::Bad(f),
        Err((msg, loc)) => {
            // files of this crate are given relative to the crate
            if loc.starts_with("src/") {
                Outcome::Harness(format!("{}#{idx}: {msg} at {loc}", fam.name))
            } else {
                Outcome::Bad(Fail {
                    what: format!("panic: {msg} at {loc}"),
                    input: cx.input.clone(),
                    detail: String::new(),
                })
            }
        }
    }
}

struct Slot {
    /// family * 2^40 + index + 1, 0 when idle
    case: AtomicU64,
    /// thread CPU time at the start of the case, ns
    start: AtomicU64,
    clock: AtomicU64,
}

fn thread_clock() -> u64 {
    let mut id: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) };
    id as u32 as u64
}
fn clock_ns(id: u64) -> Option<u64> {
    let mut t = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    let r = unsafe { libc::clock_gettime(id as u32 as libc::clockid_t, &mut t) };
    (r == 0).then(|| t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64)
}

pub struct Config {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    /// Stop generating cases after this long (the rest is not evaluated).
    pub time: Duration,
    pub scale: f64,
    pub state: Option<String>,
}

/// CPU time one case may use: about 10^5 times what a case needs.
pub const CASE_CPU: u64 = 60_000_000_000;
/// Heap one case may use.
pub const CASE_HEAP: i64 = 3 << 30;

pub struct Report {
    pub stats: Stats,
    pub fails: Vec<(String, u64, Fail)>,
    pub harness: Vec<String>,
    pub per_family: BTreeMap<String, (u64, u64)>,
    pub cut: bool,
}

pub fn run(check: &Check, cfg: &Config) -> Report {
    let total: Vec<u64> = check
        .fams
        .iter()
        .map(|f| {
            let n = if cfg.thorough { f.thorough } else { f.quick };
            if f.exhaustive {
                n
            } else {
                ((n as f64 * cfg.scale) as u64).max(1)
            }
        })
        .collect();
    // A part of the enumerated spaces, for use while developing only.
    let stride: u64 = std::env::var("VCMON_STRIDE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    // Interleave the families in chunks so that all of them progress when
    // the time runs out.
    let chunks: u64 = if cfg.thorough { 512 } else { 64 };
    let mut work: Vec<(usize, u64, u64)> = Vec::new();
    // The first cases of every family come first and in any case.
    let head = 2 * cfg.threads as u64;
    for (i, n) in total.iter().enumerate() {
        for x in 0..head.min(*n) {
            work.push((i, x, x + 1));
        }
    }
    for c in 0..chunks {
        for (i, n) in total.iter().enumerate() {
            let rest = n.saturating_sub(head);
            let a = head + rest * c / chunks;
            let b = head + rest * (c + 1) / chunks;
            // split to have something for every thread
            let mut x = a;
            let step = ((b - a) / cfg.threads as u64).max(1);
            while x < b {
                let y = (x + step).min(b);
                work.push((i, x, y));
                x = y;
            }
        }
    }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let cut = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let start = Instant::now();
    let slots: Vec<Arc<Slot>> = (0..cfg.threads)
        .map(|_| {
            Arc::new(Slot {
                case: AtomicU64::new(0),
                start: AtomicU64::new(0),
                clock: AtomicU64::new(0),
            })
        })
        .collect();
    let fails: Mutex<Vec<(String, u64, Fail)>> = Mutex::new(Vec::new());
    let harness: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let merged: Mutex<(Stats, BTreeMap<String, (u64, u64)>)> =
        Mutex::new((Stats::default(), BTreeMap::new()));

    std::thread::scope(|s| {
        for t in 0..cfg.threads {
            let slot = slots[t].clone();
            let (next, stop, cut, fails, harness, merged, work) =
                (&next, &stop, &cut, &fails, &harness, &merged, &work);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .name(format!("w{t}"))
                .spawn_scoped(s, move || {
                    slot.clock.store(thread_clock(), Ordering::SeqCst);
                    let file = cfg.state.as_ref().and_then(|p| {
                        use std::os::fd::IntoRawFd;
                        std::fs::File::create(format!("{p}.{t}"))
                            .ok()
                            .map(|f| f.into_raw_fd())
                    });
                    let mut st = Stats::default();
                    let mut per: BTreeMap<String, (u64, u64)> = BTreeMap::new();
                    'outer: loop {
                        let w = next.fetch_add(1, Ordering::SeqCst) as usize;
                        if w >= work.len() {
                            break;
                        }
                        let (fi, a, b) = work[w];
                        let fam = &check.fams[fi];
                        let before = st.evals;
                        let mut ran = 0;
                        for idx in a..b {
                            if stop.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            if fam.exhaustive && stride > 1 && Rng::for_case(7, fam.name, idx).next() % stride != 0 {
                                continue;
                            }
                            if !fam.exhaustive && idx >= head && start.elapsed() > cfg.time {
                                cut.store(true, Ordering::Relaxed);
                                break;
                            }
                            let code = ((fi as u64) << 40) + idx + 1;
                            if let Some(fd) = file {
                                let b = code.to_le_bytes();
                                unsafe { libc::pwrite(fd, b.as_ptr() as *const _, 8, 0) };
                            }
                            if let Some(now) = clock_ns(slot.clock.load(Ordering::SeqCst)) {
                                slot.start.store(now, Ordering::SeqCst);
                            }
                            slot.case.store(code, Ordering::SeqCst);
                            crate::alloc::set_limit(CASE_HEAP);
                            let out = run_case(fam, idx, cfg.seed, cfg.thorough, &mut st);
                            slot.case.store(0, Ordering::SeqCst);
                            crate::alloc::set_limit(i64::MAX / 2);
                            ran += 1;
                            match out {
                                Outcome::Ok => {}
                                Outcome::Bad(f) => {
                                    let mut l = fails.lock().unwrap();
                                    l.push((fam.name.to_string(), idx, f));
                                    if l.len() >= 20 {
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                }
                                Outcome::Harness(m) => {
                                    harness.lock().unwrap().push(m);
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                        let e = per.entry(fam.name.to_string()).or_default();
                        e.0 += ran;
                        e.1 += st.evals - before;
                    }
                    slot.case.store(0, Ordering::SeqCst);
                    let mut m = merged.lock().unwrap();
                    m.0.evals += st.evals;
                    m.0.distinct.extend(st.distinct);
                    for (k, v) in st.counters {
                        *m.0.counters.entry(k).or_default() += v;
                    }
                    m.0.samples.extend(st.samples);
                    for (k, v) in per {
                        let e = m.1.entry(k).or_default();
                        e.0 += v.0;
                        e.1 += v.1;
                    }
                })
                .expect("spawn");
        }
        // hang monitor
        let (slots, done, check) = (&slots, &done, &check);
        let cfg2 = cfg;
        s.spawn(move || {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                let mut busy = false;
                for slot in slots.iter() {
                    let code = slot.case.load(Ordering::SeqCst);
                    if code == 0 {
                        continue;
                    }
                    busy = true;
                    let st = slot.start.load(Ordering::SeqCst);
                    let now = clock_ns(slot.clock.load(Ordering::SeqCst));
                    if let Some(now) = now {
                        if now.saturating_sub(st) > CASE_CPU
                            && slot.case.load(Ordering::SeqCst) == code
                        {
                            let fi = (code >> 40) as usize;
                            let idx = (code & ((1 << 40) - 1)) - 1;
                            hang(check, cfg2, fi, idx);
                        }
                    }
                }
                let _ = busy;
                if Arc::strong_count(&slots[0]) == 1 {
                    // the worker has finished
                    if slots.iter().all(|s| Arc::strong_count(s) == 1) {
                        break;
                    }
                }
            }
        });
    });
    done.store(true, Ordering::SeqCst);
    let (stats, per_family) = merged.into_inner().unwrap();
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
    Report {
        stats,
        fails,
        harness: harness.into_inner().unwrap(),
        per_family,
        cut: cut.load(Ordering::SeqCst),
    }
}

fn hang(check: &Check, cfg: &Config, fi: usize, idx: u64) -> ! {
    let f = Fail {
        what: format!("no result after {} s of CPU time", CASE_CPU / 1_000_000_000),
        input: String::new(),
        detail: "the case does not terminate".into(),
    };
    let p = write_replay(check.id, cfg, check.fams[fi].name, idx, &f);
    println!("{}: {}", check.fams[fi].name, f.what);
    println!("VIOLATION property={} replay={}", check.id, p);
    std::process::exit(1)
}

pub fn replay_dir() -> String {
    std::env::var("VCMON_REPLAY").unwrap_or_else(|_| "/verif/evidence/replay".into())
}

pub fn write_replay(id: &str, cfg: &Config, fam: &str, idx: u64, f: &Fail) -> String {
    let dir = replay_dir();
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{}-{fam}-{idx}.txt", cfg.seed);
    let mut s = String::new();
    let _ = writeln!(s, "property={id}");
    let _ = writeln!(s, "family={fam}");
    let _ = writeln!(s, "index={idx}");
    let _ = writeln!(s, "seed={}", cfg.seed);
    let _ = writeln!(s, "thorough={}", cfg.thorough);
    let _ = writeln!(s, "what={:?}", f.what);
    let _ = writeln!(s, "input={:?}", f.input);
    let _ = writeln!(s, "detail:\n{}", f.detail);
    let _ = std::fs::write(&path, s);
    path
}

// ------------------------------------------------------------- evidence

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn evidence(
    check: &Check,
    cfg: &Config,
    rep: &Report,
    wall: f64,
    extra: &BTreeMap<String, String>,
) -> String {
    let mut o = String::new();
    let mut distinct = rep.stats.distinct.len() as u64;
    distinct = distinct.min(rep.stats.evals);
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        json_str(check.id),
        json_str(if cfg.thorough { "thorough" } else { "quick" }),
        cfg.seed
    );
    let _ = writeln!(o, "  \"evaluations\": {},", rep.stats.evals);
    let _ = writeln!(o, "  \"distinct_nontrivial\": {distinct},");
    let _ = writeln!(o, "  \"rule\": {},", json_str(check.rule));
    let mut samples = rep.stats.samples.clone();
    samples.sort();
    samples.truncate(8);
    if samples.is_empty() {
        samples.push("(none)".into());
    }
    let l: Vec<String> = samples.iter().map(|s| json_str(s)).collect();
    let _ = writeln!(o, "  \"samples\": [{}],", l.join(", "));
    let l: Vec<String> = rep
        .per_family
        .iter()
        .map(|(k, v)| {
            format!(
                "{}: {{\"cases\": {}, \"evaluations\": {}}}",
                json_str(k),
                v.0,
                v.1
            )
        })
        .collect();
    let _ = writeln!(o, "  \"families\": {{{}}},", l.join(", "));
    let l: Vec<String> = rep
        .stats
        .counters
        .iter()
        .map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect();
    let _ = writeln!(o, "  \"observed\": {{{}}},", l.join(", "));
    for (k, v) in extra {
        let _ = writeln!(o, "  {}: {},", json_str(k), v);
    }
    let _ = writeln!(
        o,
        "  \"exhaustive\": {},",
        check.fams.iter().all(|f| f.exhaustive)
    );
    let _ = writeln!(o, "  \"stopped_by_time\": {}", rep.cut);
    let _ = write!(
        o,
        " }},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        wall,
        rep.fails.len()
    );
    o
}
