//! vcmon: runtime monitors for the vcard4 library.

mod alloc;
mod clock;
mod gen;
mod model;
mod mutate;
mod props;
mod reader;
mod reference;
mod rng;
mod runner;
mod uri;
mod wire;

use runner::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name)
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(default)
}

fn config(state: Option<String>) -> Config {
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let cpus = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4);
    Config {
        seed: env_u64("VERIF_SEED", 1),
        thorough,
        threads: env_u64("VCMON_THREADS", cpus as u64) as usize,
        time: Duration::from_secs(env_u64("VCMON_TIME", if thorough { 3000 } else { 40 })),
        scale: std::env::var("VCMON_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.0),
        state,
    }
}

fn find(id: &str) -> Check {
    match props::check(id) {
        Some(mut c) => {
            // for experiments: only one family
            if let Ok(only) = std::env::var("VCMON_FAM") {
                c.fams.retain(|f| f.name == only);
                c.must.clear();
            }
            c
        }
        None => {
            eprintln!("unknown check {id}");
            std::process::exit(2)
        }
    }
}

/// Child process: runs the workload.
fn run_check(id: &str, state: &str, evidence_path: &str) -> i32 {
    let check = find(id);
    let cfg = config(Some(state.to_string()));
    let start = Instant::now();
    let mut extra = BTreeMap::new();
    let mut rep = run(&check, &cfg);
    if let Some(f) = props::after(id) {
        f(id, &cfg, &mut rep, &mut extra);
    }
    // what the stages before this one saw: lines of `name json`
    if let Some(s) = std::env::var("VCMON_EXTRA")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
    {
        for l in s.lines() {
            if let Some((k, v)) = l.split_once(' ') {
                extra.insert(k.to_string(), v.to_string());
            }
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let ev = evidence(&check, &cfg, &rep, wall, &extra);
    if let Err(e) = std::fs::write(evidence_path, ev) {
        eprintln!("can't write evidence: {e}");
        return 2;
    }
    if let Some(m) = rep.harness.first() {
        println!("INCONCLUSIVE harness error: {m}");
        return 2;
    }
    if rep.fails.is_empty() {
        let missing: Vec<_> = check
            .must
            .iter()
            .filter(|m| rep.stats.counters.get(**m).copied().unwrap_or(0) == 0)
            .collect();
        if rep.stats.evals == 0 || !missing.is_empty() {
            println!("INCONCLUSIVE nothing observed for {missing:?}");
            return 2;
        }
        println!(
            "{id}: held on {} evaluations ({} distinct) in {wall:.1} s",
            rep.stats.evals,
            rep.stats.distinct.len()
        );
        return 0;
    }
    for (fam, idx, f) in rep.fails.iter().take(3) {
        let p = write_replay(id, &cfg, fam, *idx, f);
        let mut input: String = f.input.chars().take(2000).collect();
        if input.len() < f.input.len() {
            input.push_str("...");
        }
        let detail: String = f.detail.chars().take(3000).collect();
        println!("{fam}#{idx}: {}\n input: {:?}\n {}", f.what, input, detail);
        println!("VIOLATION property={id} replay={p}");
    }
    1
}

/// Supervisor: runs the workload in a child and attributes a crash of the
/// child to the case that was running.
fn supervise(id: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("current_exe");
    let dir = std::env::var("VCMON_STATE").unwrap_or_else(|_| "/verif/target/state".into());
    let _ = std::fs::create_dir_all(&dir);
    let state = format!("{dir}/{id}-{}", std::process::id());
    let ev =
        std::env::var("VCMON_EVIDENCE").unwrap_or_else(|_| format!("/verif/evidence/{id}.json"));
    if let Some(p) = std::path::Path::new(&ev).parent() {
        let _ = std::fs::create_dir_all(p);
    }
    let status = std::process::Command::new(&exe)
        .args(["run", id, &state, &ev])
        .status();
    let mut code = 2;
    match status {
        Ok(s) => {
            if let Some(c) = s.code() {
                code = c;
            } else if let Some(sig) = s.signal() {
                println!("{id}: workload ended by signal {sig}");
                code = attribute(id, &exe, &state, sig);
            }
        }
        Err(e) => eprintln!("can't run the workload: {e}"),
    }
    for t in 0..512 {
        let p = format!("{state}.{t}");
        if std::fs::remove_file(&p).is_err() && t > 64 {
            break;
        }
    }
    code
}

fn attribute(id: &str, exe: &std::path::Path, state: &str, sig: i32) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    if sig == libc::SIGKILL || sig == libc::SIGTERM {
        println!("INCONCLUSIVE the workload was killed from outside");
        return 2;
    }
    let check = find(id);
    let cfg = config(None);
    for t in 0..cfg.threads {
        let Ok(b) = std::fs::read(format!("{state}.{t}")) else {
            continue;
        };
        let Ok(b) = <[u8; 8]>::try_from(&b[..]) else {
            continue;
        };
        let code = u64::from_le_bytes(b);
        if code == 0 {
            continue;
        }
        let fi = (code >> 40) as usize;
        let idx = (code & ((1 << 40) - 1)) - 1;
        let name = check.fams[fi].name;
        let s = std::process::Command::new(exe)
            .args(["one", id, name, &idx.to_string()])
            .status();
        if let Ok(s) = s {
            if let Some(sig) = s.signal() {
                let f = Fail {
                    what: format!("crash: signal {sig}"),
                    input: String::new(),
                    detail: format!("vcmon one {id} {name} {idx}"),
                };
                let p = write_replay(id, &cfg, name, idx, &f);
                println!("{name}#{idx}: {}", f.what);
                println!("VIOLATION property={id} replay={p}");
                return 1;
            }
        }
    }
    println!("INCONCLUSIVE the crash could not be reproduced");
    2
}

fn one(id: &str, fam: &str, idx: u64) -> i32 {
    let check = find(id);
    let cfg = config(None);
    let mut st = Stats::default();
    let Some(f) = check.fams.iter().find(|f| f.name == fam) else {
        eprintln!("unknown family {fam}");
        return 2;
    };
    alloc::set_limit(CASE_HEAP);
    match run_case(f, idx, cfg.seed, cfg.thorough, &mut st) {
        Outcome::Ok => {
            println!("held; {:?}", st.samples);
            0
        }
        Outcome::Bad(f) => {
            println!("{}\n input: {:?}\n {}", f.what, f.input, f.detail);
            1
        }
        Outcome::Harness(m) => {
            println!("INCONCLUSIVE harness error: {m}");
            2
        }
    }
}

/// The inputs of the first `n` cases of a family, separated by NUL.
fn inputs(id: &str, fam: &str, n: u64, out: &str) -> i32 {
    let check = find(id);
    let seed = env_u64("VERIF_SEED", 1);
    let mut st = Stats::default();
    let Some(f) = check.fams.iter().find(|f| f.name == fam) else {
        eprintln!("unknown family {fam}");
        return 2;
    };
    let mut l = Vec::new();
    for idx in 0..n {
        let mut cx = Cx {
            rng: rng::Rng::for_case(seed, f.name, idx),
            idx,
            seed,
            thorough: false,
            st: &mut st,
            input: String::new(),
        };
        let _ = catch(|| (f.f)(&mut cx));
        if !cx.input.contains('\0') {
            l.push(cx.input);
        }
    }
    match std::fs::write(out, l.join("\0")) {
        Ok(()) => 0,
        Err(e) => {
            eprintln!("can't write {out}: {e}");
            2
        }
    }
}

fn replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("can't read {path}");
        return 2;
    };
    let get = |k: &str| {
        s.lines()
            .find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix('=')))
            .unwrap_or("")
            .to_string()
    };
    std::env::set_var("VERIF_SEED", get("seed"));
    if get("thorough") == "true" {
        std::env::set_var("VERIF_TIER", "thorough");
    }
    one(
        &get("property"),
        &get("family"),
        get("index").parse().unwrap_or(0),
    )
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| &s[..]).collect();
    let code = match &a[1..] {
        ["check", id] => supervise(id),
        ["run", id, state, ev] => run_check(id, state, ev),
        ["one", id, fam, idx] => one(id, fam, idx.parse().unwrap_or(0)),
        ["replay", path] => replay(path),
        ["inputs", id, fam, n, out] => inputs(id, fam, n.parse().unwrap_or(0), out),
        rest => match props::tool(rest) {
            Some(c) => c,
            None => {
                eprintln!("usage: vcmon check ID | one ID FAMILY INDEX | replay FILE");
                2
            }
        },
    };
    std::process::exit(code)
}
