//! C24: builds with other features give the same results.
//!
//! Every build runs the same cases and keeps a log of what it saw; the
//! default build then compares the logs of all.

use super::*;
use crate::rng::{hash_bytes, Rng};
use crate::{gen, mutate, wire};
use std::fmt::Write as _;
use std::sync::Mutex;
use vcard4::Vcard;

/// What one build saw of one case.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Seen {
    input: u64,
    /// Everything.
    all: u64,
    /// Everything, in one case.
    folded: u64,
    /// The text written after strict parsing, in one case; 0 if rejected.
    text: u64,
    /// Whether media types or language tags may make a difference.
    may_differ: bool,
}

type Log = BTreeMap<(String, u64), Seen>;
static LOG: Mutex<Log> = Mutex::new(BTreeMap::new());

fn card(s: &mut String, c: &Vcard) {
    let _ = writeln!(s, "{:?}", dump(c));
    let _ = writeln!(s, "{:?}", super::total::try_write(c));
    let _ = writeln!(s, "valid {}", c.validate().is_ok());
    let _ = writeln!(s, "{:?}", c.parse_photo_jpeg().ok());
    let _ = writeln!(s, "same {}", c.clone() == *c);
}

fn cards(s: &mut String, what: &str, l: Option<&[Vcard]>) {
    match l {
        Some(l) => {
            let _ = writeln!(s, "{what}: {} cards", l.len());
            for c in l {
                card(s, c);
            }
        }
        None => {
            let _ = writeln!(s, "{what}: rejected");
        }
    }
}

/// What a build does with an input, without the words of its errors.
fn document(input: &str) -> (String, Option<String>) {
    let mut s = String::new();
    let strict = vcard4::parse(input).ok();
    cards(&mut s, "parse", strict.as_deref());
    let text = strict.map(|l| {
        l.iter()
            .map(|c| super::total::try_write(c).unwrap_or_default())
            .collect::<String>()
    });
    cards(
        &mut s,
        "parse_loose",
        vcard4::parse_loose(input).ok().as_deref(),
    );
    cards(
        &mut s,
        "try_from",
        Vcard::try_from(input).ok().map(|c| vec![c]).as_deref(),
    );
    let bound = input.matches('\n').count() + 3;
    for strict in [true, false] {
        for item in vcard4::iter(input, strict).take(bound) {
            let l = item.ok().map(|c| vec![c]);
            cards(
                &mut s,
                if strict { "item" } else { "loose item" },
                l.as_deref(),
            );
        }
    }
    (s, text)
}

/// Whether a language tag or a media type is involved.
fn mentions(input: &str) -> bool {
    let mut s = input.replace("\r\n", "\n");
    s = s.replace("\n ", "").replace("\n\t", "").replace('\r', "");
    let s = s.to_lowercase();
    s.contains("lang") || s.contains("mediatype")
}

fn fold_case(s: &str) -> String {
    s.replace("\r\n ", "").to_lowercase()
}

fn note(cx: &mut Cx, fam: &str, input: &str, all: String, text: Option<String>, may_differ: bool) {
    if std::env::var_os("VCMON_SHOW").is_some() {
        println!("{all}");
    }
    cx.seen(input);
    cx.count(fam);
    if may_differ {
        cx.count("with language tags or media types");
    }
    if text.is_some() {
        cx.count("accepted");
    } else {
        cx.count("rejected");
    }
    let seen = Seen {
        input: hash_bytes(input.as_bytes()),
        all: hash_bytes(all.as_bytes()),
        folded: hash_bytes(fold_case(&all).as_bytes()),
        text: text
            .map(|t| hash_bytes(fold_case(&t).as_bytes()) | 1)
            .unwrap_or(0),
        may_differ,
    };
    LOG.lock().unwrap().insert((fam.to_string(), cx.idx), seen);
}

fn run(cx: &mut Cx, fam: &str, input: String, exact: bool) -> R {
    cx.input = input.clone();
    let (all, text) = document(&input);
    let may_differ = !exact && mentions(&input);
    note(cx, fam, &input, all, text, may_differ);
    Ok(())
}

fn styled(r: &mut Rng) -> String {
    let mut l = gen::cards(r);
    l.truncate(3);
    let st = wire::Style::random(r);
    wire::document(r, &st, &l)
}

fn valid(cx: &mut Cx) -> R {
    gen::set_canonical_only(true);
    let input = styled(&mut cx.rng);
    run(cx, "valid", input, true)
}

fn faulty(cx: &mut Cx) -> R {
    gen::set_canonical_only(true);
    let r = &mut cx.rng;
    let c = gen::card(r);
    let st = wire::Style::random(r);
    let mut lines = wire::card_lines(r, &st, &c);
    for _ in 0..*r.of(&[1, 1, 1, 2, 3]) {
        let k = r.below(super::faults::FAULTS);
        let b = super::faults::bad(r, k);
        let at = r.range(2, lines.len() as i64 - 1) as usize;
        lines.insert(at, b.line);
    }
    let input = wire::physical(r, &st, &lines);
    run(cx, "faulty", input, false)
}

fn mutated(cx: &mut Cx) -> R {
    gen::set_canonical_only(true);
    let input = mutate::mutated(&mut cx.rng);
    run(cx, "mutated", input, false)
}

fn soup(cx: &mut Cx) -> R {
    gen::set_canonical_only(true);
    let input = mutate::soup(&mut cx.rng);
    run(cx, "soup", input, false)
}

/// Parameters and values with language tags and media types, good and bad.
fn tagged(cx: &mut Cx) -> R {
    gen::set_canonical_only(true);
    let r = &mut cx.rng;
    const TAGS: [&str; 24] = [
        "en",
        "EN-us",
        "de-DE-1996",
        "zh-Hant-TW",
        "x-private",
        "i-klingon",
        "sl-rozaj-biske",
        "en-a-bbb-x-a",
        "",
        "-",
        "en-",
        "e",
        "1",
        "abcdefghi",
        "en--us",
        "en us",
        "en_US",
        "text/plain",
        "image/PNG",
        "text",
        "text/",
        "/plain",
        "text/plain;charset=utf-8",
        "application/vnd.a+xml",
    ];
    let mut lines = vec![
        "BEGIN:VCARD".to_string(),
        "VERSION:4.0".into(),
        "FN:x".into(),
    ];
    for _ in 0..r.range(1, 3) {
        let t: &str = r.pick(&TAGS);
        let mut t = t.to_string();
        if r.chance(1, 4) {
            mutate::edit(r, &mut t);
        }
        let q = r.chance(1, 3);
        let param = |n: &str| {
            if q {
                format!("{n}=\"{t}\"")
            } else {
                format!("{n}={t}")
            }
        };
        lines.push(match r.below(7) {
            0 => format!("LANG:{t}"),
            1 => format!("LANG;PREF=1:{t}"),
            2 => format!("NOTE;{}:a", param("LANGUAGE")),
            3 => format!("TITLE;PREF=3;{}:a", param("language")),
            4 => format!("URL;{}:http://a/", param("MEDIATYPE")),
            5 => format!("X-A;VALUE=language-tag:{t}"),
            _ => format!(
                "SOUND;{};{}:http://b/",
                param("MEDIATYPE"),
                param("LANGUAGE")
            ),
        });
    }
    lines.push("END:VCARD".into());
    let mut input = lines.join("\n");
    input.push('\n');
    run(cx, "tagged", input, false)
}

/// Cards that are built rather than parsed.
fn built(cx: &mut Cx) -> R {
    gen::set_canonical_only(true);
    let m = gen::card(&mut cx.rng);
    let input = format!("{m:?}");
    cx.input = input.clone();
    let c = match build(&m) {
        Ok(c) => c,
        Err(e) => panic!("generator: {e}"),
    };
    let mut all = String::new();
    card(&mut all, &c);
    let text = super::total::try_write(&c).ok();
    note(cx, "built", &input, all, text, false);
    Ok(())
}

/// The functions on single values.
fn helpers(cx: &mut Cx) -> R {
    let s = mutate::value(&mut cx.rng);
    cx.input = s.clone();
    let mut all = String::new();
    super::total::value_report(&s, &mut all);
    note(cx, "helpers", &s, all, None, false);
    Ok(())
}

pub fn c24() -> Check {
    Check {
        id: "C24",
        rule: "the same cases are run by builds without features, with the default features and with all of them; results of every entry point, model dumps and written text are compared. Only where a language tag or media type is involved may the build with all features reject more or write another case",
        fams: vec![
            fam("valid", valid, 3000, 600_000),
            fam("faulty", faulty, 3000, 600_000),
            fam("mutated", mutated, 5000, 1_200_000),
            fam("soup", soup, 6000, 1_200_000),
            fam("tagged", tagged, 4000, 300_000),
            fam("built", built, 2000, 400_000),
            fam("helpers", helpers, 6000, 1_200_000),
        ],
        must: vec![
            "valid", "faulty", "mutated", "soup", "tagged", "built", "helpers",
            "accepted", "rejected", "with language tags or media types",
        ],
    }
}

fn encode(l: &Log) -> String {
    let mut s = String::new();
    for ((f, i), x) in l {
        let _ = writeln!(
            s,
            "{f} {i} {} {} {} {} {}",
            x.input, x.all, x.folded, x.text, x.may_differ as u8
        );
    }
    s
}

fn decode(s: &str) -> Log {
    let mut l = Log::new();
    for line in s.lines() {
        let p: Vec<&str> = line.split(' ').collect();
        if let [f, i, a, b, e, c, d] = p[..] {
            let n = |s: &str| s.parse::<u64>();
            if let (Ok(i), Ok(a), Ok(b), Ok(e), Ok(c)) = (n(i), n(a), n(b), n(e), n(c)) {
                let x = Seen {
                    input: a,
                    all: b,
                    folded: e,
                    text: c,
                    may_differ: d == "1",
                };
                l.insert((f.to_string(), i), x);
            }
        }
    }
    l
}

/// Transcript of one case in another build.
fn show(exe: &str, fam: &str, idx: u64) -> String {
    std::process::Command::new(exe)
        .args(["one", "C24", fam, &idx.to_string()])
        .env("VCMON_SHOW", "1")
        .output()
        .map(|o| String::from_utf8_lossy(&o.stdout).to_string())
        .unwrap_or_default()
}

pub fn after_c24(_: &str, cfg: &Config, rep: &mut Report, extra: &mut BTreeMap<String, String>) {
    let mine = std::mem::take(&mut *LOG.lock().unwrap());
    // one of the other builds
    if let Ok(p) = std::env::var("VCMON_LOG") {
        if std::fs::write(&p, encode(&mine)).is_err() {
            rep.harness.push(format!("can't write {p}"));
        }
        return;
    }
    let own = std::env::current_exe()
        .map(|p| p.display().to_string())
        .unwrap_or_default();
    let state = cfg.state.clone().unwrap_or_else(|| "/tmp/c24".into());
    let mut running = Vec::new();
    for name in ["none", "all"] {
        let Ok(exe) = std::env::var(format!("VCMON_{}", name.to_uppercase())) else {
            rep.harness
                .push(format!("the build with {name} features is not there"));
            return;
        };
        let log = format!("{state}.{name}.log");
        let child = std::process::Command::new(&exe)
            .args(["check", "C24"])
            .env("VCMON_LOG", &log)
            .env("VCMON_EVIDENCE", format!("{log}.json"))
            .stdout(std::process::Stdio::piped())
            .spawn();
        running.push((name, exe, log, child));
    }
    for (name, exe, log, child) in running {
        let o = match child.and_then(|c| c.wait_with_output()) {
            Ok(o) => o,
            Err(e) => {
                rep.harness.push(format!("can't run {exe}: {e}"));
                continue;
            }
        };
        let theirs = decode(&std::fs::read_to_string(&log).unwrap_or_default());
        let _ = std::fs::remove_file(&log);
        let _ = std::fs::remove_file(format!("{log}.json"));
        let shown = String::from_utf8_lossy(&o.stdout).to_string();
        match o.status.code() {
            Some(0) => {}
            Some(1) => rep.fails.push((
                format!("build-{name}"),
                0,
                Fail {
                    what: format!("with {name} features"),
                    input: String::new(),
                    detail: shown,
                },
            )),
            _ => {
                rep.harness.push(format!("with {name} features: {shown}"));
                continue;
            }
        }
        let (mut same, mut weak) = (0u64, 0u64);
        let mut bad = 0;
        for ((fam, idx), a) in &mine {
            let Some(b) = theirs.get(&(fam.clone(), *idx)) else {
                continue;
            };
            if a.input != b.input {
                rep.harness
                    .push(format!("{fam}#{idx} is another case with {name} features"));
                return;
            }
            let good = if a.may_differ && name == "all" {
                weak += 1;
                b.text == 0 || (b.text == a.text && b.folded == a.folded)
            } else {
                same += 1;
                a == b
            };
            if !good && bad < 3 {
                bad += 1;
                let (x, y) = (show(&own, fam, *idx), show(&exe, fam, *idx));
                let line = x
                    .lines()
                    .zip(y.lines())
                    .find(|(x, y)| x != y)
                    .unwrap_or((&x, &y));
                rep.fails.push((
                    fam.clone(),
                    *idx,
                    Fail {
                        what: format!("another result with {name} features"),
                        input: String::new(),
                        detail: format!("default: {}\n{name}: {}", line.0, line.1),
                    },
                ));
            }
        }
        if same == 0 {
            rep.harness
                .push(format!("nothing to compare with {name} features"));
        }
        extra.insert(
            format!("compared_with_{name}_features"),
            format!("{{\"exactly\": {same}, \"up_to_rejection_and_case\": {weak}}}"),
        );
    }
}
