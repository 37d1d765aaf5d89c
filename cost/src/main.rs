//! vccost: measures how the cost of the library grows with its input (C22).

mod meter;
mod shapes;

use meter::{measure, Use};
use shapes::Shape;
use std::hint::black_box;
use vcard4::Vcard;

const OPS: [&str; 12] = [
    "parse", "parse_loose", "iterate", "iterate loosely", "try_from",
    "write", "clone", "compare", "validate", "photos", "drop", "debug",
];

/// No operation takes as much per byte on any input seen so far.
const PER_BYTE: u64 = 60_000;
const FIXED: u64 = 40_000_000;

/// All operations on one input; the cards are those of the loose parser.
fn operations(s: &str) -> (Vec<Use>, u64) {
    let limit = FIXED + PER_BYTE * s.len() as u64;
    let mut out = Vec::new();
    let mut seen = 0;
    let (r, u) = measure(limit, || vcard4::parse(s));
    out.push(u);
    seen += r.map(|l| l.len() as u64).unwrap_or(0);
    let (cards, u) = measure(limit, || vcard4::parse_loose(s));
    out.push(u);
    let mut cards = cards.unwrap_or_default();
    let mut items = Vec::new();
    for strict in [true, false] {
        let (n, u) = measure(limit, || {
            let mut n = 0u64;
            for x in vcard4::iter(s, strict) {
                if let Ok(c) = x {
                    if !strict {
                        items.push(c);
                    }
                }
                n += 1;
            }
            n
        });
        seen += n;
        out.push(u);
    }
    if cards.is_empty() {
        cards = items;
    }
    let (r, u) = measure(limit, || Vcard::try_from(s).is_ok());
    seen += r as u64;
    out.push(u);
    let (t, u) = measure(limit, || {
        let mut t = String::new();
        for c in &cards {
            use std::fmt::Write;
            let _ = write!(t, "{c}");
        }
        t
    });
    seen += t.len() as u64;
    out.push(u);
    let (copy, u) = measure(limit, || cards.clone());
    out.push(u);
    let (same, u) = measure(limit, || copy == cards);
    seen += same as u64;
    out.push(u);
    let (n, u) = measure(limit, || cards.iter().filter(|c| c.validate().is_ok()).count());
    seen += n as u64;
    out.push(u);
    let (n, u) = measure(limit, || {
        cards
            .iter()
            .map(|c| c.parse_photo_jpeg().map(|l| l.len()).unwrap_or(0))
            .sum::<usize>()
    });
    seen += n as u64;
    out.push(u);
    let ((), u) = measure(limit, || drop(copy));
    out.push(u);
    let (t, u) = measure(limit, || format!("{cards:?}").len());
    seen += t as u64;
    out.push(u);
    (out, black_box(seen))
}

struct Bounds {
    /// Cost per byte at the largest size, relative to a smaller one.
    work: f64,
    heap: f64,
}
const BOUNDS: Bounds = Bounds { work: 1.4, heap: 2.3 };

/// Measure a shape at growing sizes.
fn shape(s: &Shape, sizes: &[usize]) {
    let mut rows: Vec<(usize, Vec<Use>)> = Vec::new();
    let mut evals = 0;
    for n in sizes {
        let text = s.of(*n);
        println!("AT {} {}", text.len(), s.name);
        let (u, _) = operations(&text);
        evals += u.len();
        rows.push((text.len(), u));
    }
    let mut worst: f64 = 0.0;
    for (k, op) in OPS.iter().enumerate() {
        let (n1, n2) = (rows[0].0 as f64, rows[rows.len() - 1].0 as f64);
        let (a, b) = (rows[0].1[k], rows[rows.len() - 1].1[k]);
        // what is small does not grow
        let grow = |x: u64, y: u64, fixed: f64| {
            (y as f64 / n2) / ((x as f64 + fixed) / n1)
        };
        let w = grow(a.work, b.work, 3_000.0);
        let h = grow(a.bytes, b.bytes, 4_000.0);
        let p = grow(a.peak, b.peak, 4_000.0);
        worst = worst.max(w);
        let table = || {
            rows.iter()
                .map(|(n, u)| format!("{n} bytes: {:?}", u[k]))
                .collect::<Vec<_>>()
                .join("; ")
        };
        if std::env::var_os("VCCOST_SHOW").is_some() {
            println!("ROW {w:.3} {h:.3} {p:.3} {:.0} {:.0} {:.0} {op} of {}: {}", b.work as f64 / n2, b.bytes as f64 / n2, b.peak as f64 / n2, s.name, table());
        }
        if w > BOUNDS.work {
            println!("FAIL work\t{op}\t{:.2}\t{}\t{}", w, s.name, table());
        }
        if h > BOUNDS.heap {
            println!("FAIL bytes allocated\t{op}\t{:.2}\t{}\t{}", h, s.name, table());
        }
        if p > BOUNDS.heap {
            println!("FAIL peak heap\t{op}\t{:.2}\t{}\t{}", p, s.name, table());
        }
    }
    println!("DONE {evals} {worst:.4} {}", s.name);
}

fn plan(thorough: bool, seed: u64) -> (Vec<Shape>, Vec<usize>, Vec<usize>) {
    let mut v = shapes::known();
    let n = if thorough { 6000 } else { 160 };
    for i in 0..n {
        v.push(shapes::random(seed, i));
    }
    let (a, b) = if thorough {
        (vec![16 << 10, 64 << 10, 512 << 10], vec![4 << 10, 16 << 10, 128 << 10])
    } else {
        (vec![6 << 10, 96 << 10], vec![4 << 10, 48 << 10])
    };
    (v, a, b)
}

fn env(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(default)
}

/// One process: every `of`th shape.
fn shard(k: usize, of: usize) {
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let (v, a, b) = plan(thorough, env("VERIF_SEED", 1));
    let start = std::time::Instant::now();
    let max = env("VCMON_TIME", if thorough { 3000 } else { 120 });
    // the first use of anything may set up things
    let _ = operations("BEGIN:VCARD\nVERSION:4.0\nFN:x\\ny\nEND:VCARD\n");
    for (i, s) in v.iter().enumerate() {
        if i % of == k {
            if start.elapsed().as_secs() > max {
                println!("CUT");
                return;
            }
            shape(s, if s.name.starts_with("random") { &b } else { &a });
        }
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn check() -> i32 {
    let start = std::time::Instant::now();
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let seed = env("VERIF_SEED", 1);
    let of = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let exe = std::env::current_exe().expect("exe");
    let children: Vec<_> = (0..of)
        .map(|k| {
            std::process::Command::new(&exe)
                .args(["shard", &k.to_string(), &of.to_string()])
                .stdout(std::process::Stdio::piped())
                .spawn()
                .expect("spawn")
        })
        .collect();
    let mut fails: Vec<String> = Vec::new();
    let (mut evals, mut shapes, mut worst, mut cut) = (0u64, 0u64, 0f64, false);
    let mut inconclusive = Vec::new();
    // all outputs are small enough for the pipes to be read one by one
    let outs: Vec<_> = children
        .into_iter()
        .map(|c| std::thread::spawn(move || c.wait_with_output()))
        .collect();
    for o in outs {
        let o = match o.join() {
            Ok(Ok(o)) => o,
            _ => {
                inconclusive.push("a process could not be read".to_string());
                continue;
            }
        };
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let mut at = "";
        for l in text.lines() {
            if let Some(x) = l.strip_prefix("AT ") {
                at = x;
            } else if let Some(x) = l.strip_prefix("FAIL ") {
                fails.push(x.to_string());
            } else if l == "OVER" {
                fails.push(format!(
                    "work\tany\tmore than {PER_BYTE} steps per byte\t{at}"
                ));
            } else if l == "CUT" {
                cut = true;
            } else if let Some(x) = l.strip_prefix("DONE ") {
                let mut p = x.splitn(3, ' ');
                evals += p.next().and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
                worst = worst.max(p.next().and_then(|s| s.parse().ok()).unwrap_or(0.0));
                shapes += 1;
            } else if l.starts_with("ROW") {
                println!("{l}");
            }
        }
        if !o.status.success() {
            fails.push(format!("crash\t{}\t{at}", o.status));
        }
    }
    let samples: Vec<String> = shapes::known()
        .iter()
        .step_by(29)
        .map(|s| json(&format!("{}: {:?} + {:?}.. + {:?}", s.name, s.head, s.unit, s.tail)))
        .collect();
    let ev = format!(
        "{{\n \"property\": \"C22\",\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {shapes},\n  \"rule\": \"a shape of input is measured at growing sizes for twelve operations: control flow edges executed (library, dependencies and standard library), bytes moved, bytes allocated and peak heap per byte of input may not grow with the size\",\n  \"samples\": [{}],\n  \"largest_growth_of_work_per_byte\": {worst:.4},\n  \"exhaustive\": false,\n  \"stopped_by_time\": {cut}\n }},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json(if thorough { "thorough" } else { "quick" }),
        samples.join(", "),
        start.elapsed().as_secs_f64(),
        fails.len()
    );
    let path = std::env::var("VCMON_EVIDENCE").unwrap_or_else(|_| "/verif/evidence/C22.json".into());
    if std::fs::write(&path, ev).is_err() {
        return 2;
    }
    if !fails.is_empty() {
        let dir = std::env::var("VCMON_REPLAY").unwrap_or_else(|_| "/verif/evidence/replay".into());
        let _ = std::fs::create_dir_all(&dir);
        let p = format!("{dir}/C22-{seed}.txt");
        let _ = std::fs::write(&p, fails.join("\n"));
        for f in fails.iter().take(6) {
            println!("{}", f.chars().take(700).collect::<String>());
        }
        println!("VIOLATION property=C22 replay={p}");
        return 1;
    }
    if !inconclusive.is_empty() || shapes == 0 {
        println!("INCONCLUSIVE {inconclusive:?}");
        return 2;
    }
    println!(
        "C22: held on {evals} measurements of {shapes} shapes in {:.1} s; largest growth {worst:.3}",
        start.elapsed().as_secs_f64()
    );
    0
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| &s[..]).collect();
    match &a[1..] {
        ["shard", k, of] => shard(k.parse().unwrap_or(0), of.parse().unwrap_or(1)),
        ["check"] => std::process::exit(check()),
        _ => std::process::exit(2),
    }
}
