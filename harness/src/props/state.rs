//! C21: results depend on nothing but the input.

use super::*;
use crate::rng::{hash_bytes, Rng};
use crate::{clock, gen, mutate, wire};
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::sync::{Barrier, Mutex, OnceLock};
use vcard4::Vcard;

/// Everything there is to observe about one card.
pub fn portrait(c: &Vcard) -> String {
    let mut s = format!("{:?}\n", c);
    let _ = writeln!(s, "{:?}", super::total::try_write(c));
    let _ = writeln!(s, "{:?}", c.validate());
    let _ = writeln!(s, "{:?}", c.parse_photo_jpeg());
    let d = c.clone();
    let _ = writeln!(s, "{}", d == *c);
    s
}

fn show(r: vcard4::Result<Vec<Vcard>>) -> String {
    match r {
        Ok(l) => {
            let mut s = format!("{} cards\n", l.len());
            for c in &l {
                s.push_str(&portrait(c));
            }
            s
        }
        Err(e) => format!("{e:?}\n{e}\n"),
    }
}

/// Everything there is to observe about an input.
pub fn transcript(input: &str) -> String {
    let mut s = show(vcard4::parse(input));
    s.push_str(&show(vcard4::parse_loose(input)));
    s.push_str(&show(Vcard::try_from(input).map(|c| vec![c])));
    let bound = input.matches('\n').count() + 3;
    for strict in [true, false] {
        for item in vcard4::iter(input, strict).take(bound) {
            s.push_str(&show(item.map(|c| vec![c])));
        }
    }
    s
}

fn differ(what: &str, input: &str, a: &str, b: &str) -> R {
    if a == b {
        return Ok(());
    }
    let i = a
        .bytes()
        .zip(b.bytes())
        .position(|(x, y)| x != y)
        .unwrap_or(a.len().min(b.len()));
    let near = |s: &str| -> String {
        let b = s.as_bytes();
        String::from_utf8_lossy(&b[i.saturating_sub(120)..(i + 120).min(b.len())]).to_string()
    };
    fail(
        format!("{what}: another result"),
        input,
        format!("first  ..{:?}..\n second ..{:?}..", near(a), near(b)),
    )
}

/// Documents of all kinds: valid, spoilt, and rubbish.
fn input(r: &mut Rng) -> String {
    match r.below(8) {
        0 | 1 => mutate::seed(r),
        2 | 3 => mutate::mutated(r),
        4 => mutate::soup(r),
        5 => dated(r),
        _ => {
            let c = gen::card(r);
            let st = wire::Style::random(r);
            wire::document(r, &st, std::slice::from_ref(&c))
        }
    }
}

/// Dates and times in all forms.
fn dated(r: &mut Rng) -> String {
    let mut s = String::from("BEGIN:VCARD\nVERSION:4.0\nFN:x\n");
    let form = |r: &mut Rng| -> String {
        let d = gen::date(r);
        let t = gen::time(r);
        match r.below(17) {
            0 => wire::w_date(&d),
            1 => format!("{:04}", d.y),
            2 => format!("{:04}-{:02}", d.y, d.m),
            3 => format!("--{:02}{:02}", d.m, d.d),
            4 => format!("--{:02}", d.m),
            5 => format!("---{:02}", d.d),
            6 => wire::w_time(&t),
            7 => format!("{:02}", t.h),
            8 => format!("{:02}{:02}", t.h, t.m),
            9 => format!("-{:02}{:02}", t.m, t.s),
            10 => format!("--{:02}", t.s),
            11 => format!("T{}", wire::w_time(&t)),
            12 => format!("{}T{:02}", wire::w_date(&d), t.h),
            13 => format!("--{:02}{:02}T{:02}{:02}", d.m, d.d, t.h, t.m),
            14 => format!("{}T{:02}{:02}{:02}", wire::w_date(&d), t.h, t.m, t.s),
            15 => format!("--0229T{:02}", t.h),
            _ => wire::w_datetime(&d, &t),
        }
    };
    if r.bool() {
        let _ = writeln!(s, "BDAY:{}", form(r));
    }
    if r.bool() {
        let _ = writeln!(s, "ANNIVERSARY:{}", form(r));
    }
    if r.bool() {
        let _ = writeln!(s, "REV:{}", wire::w_datetime(&gen::date(r), &gen::time(r)));
    }
    for _ in 0..r.range(0, 5) {
        let ty = r.pick(&["date", "time", "date-time", "date-and-or-time", "timestamp"]);
        let v = if r.bool() {
            form(r)
        } else {
            format!("{},{}", form(r), form(r))
        };
        let _ = writeln!(s, "X-A;VALUE={ty}:{v}");
    }
    if r.bool() {
        let _ = writeln!(s, "TZ;VALUE=utc-offset:{}", wire::w_off(gen::offset(r)));
    }
    s.push_str("END:VCARD\n");
    s
}

/// A fixed set of inputs, and what they gave at the beginning.
fn standing(seed: u64) -> &'static Vec<(String, u64)> {
    static SET: OnceLock<Vec<(String, u64)>> = OnceLock::new();
    SET.get_or_init(|| {
        let mut r = Rng::for_case(seed, "standing", 0);
        let mut l: Vec<String> = mutate::SAMPLES.iter().map(|s| s.to_string()).collect();
        for _ in 0..40 {
            l.push(input(&mut r));
            l.push(dated(&mut r));
        }
        l.into_iter()
            .map(|s| {
                let h = hash_bytes(transcript(&s).as_bytes());
                (s, h)
            })
            .collect()
    })
}

fn recheck(cx: &mut Cx, what: &str, n: usize) -> R {
    let set = standing(cx.seed);
    for _ in 0..n {
        let (s, h) = &set[cx.rng.below(set.len())];
        let t = transcript(s);
        if hash_bytes(t.as_bytes()) != *h {
            return fail(
                format!("{what}: another result than at the beginning"),
                s,
                t,
            );
        }
        cx.count("standing inputs looked at again");
    }
    Ok(())
}

/// Again and again, with other calls in between.
fn repeated(cx: &mut Cx) -> R {
    standing(cx.seed);
    let r = &mut cx.rng;
    let l: Vec<String> = (0..r.range(2, 6)).map(|_| input(r)).collect();
    cx.input = l.concat();
    let first: Vec<String> = l.iter().map(|s| transcript(s)).collect();
    for s in &l {
        cx.seen(s);
    }
    let mut order: Vec<usize> = (0..l.len()).chain(0..l.len()).collect();
    cx.rng.shuffle(&mut order);
    for i in order {
        if cx.rng.chance(1, 3) {
            // part of something else
            let k = cx.rng.below(l.len());
            let strict = cx.rng.bool();
            let mut it = vcard4::iter(&l[k], strict);
            let n = cx.rng.below(3);
            for _ in 0..n {
                drop(it.next());
            }
        }
        differ("repeated", &l[i], &first[i], &transcript(&l[i]))?;
        cx.count("repetitions");
    }
    recheck(cx, "repeated", 1)
}

/// Several iterators taken in turn.
fn interleaved(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut l = Vec::new();
    for _ in 0..r.range(2, 4) {
        let mut s = String::new();
        for _ in 0..r.range(1, 5) {
            s.push_str(&input(r));
            if !s.ends_with('\n') {
                s.push('\n');
            }
        }
        l.push((s, r.bool()));
    }
    let alone: Vec<Vec<String>> = l
        .iter()
        .map(|(s, strict)| {
            vcard4::iter(s, *strict)
                .take(s.len())
                .map(|x| show(x.map(|c| vec![c])))
                .collect()
        })
        .collect();
    let mut its: Vec<_> = l
        .iter()
        .map(|(s, strict)| vcard4::iter(s, *strict))
        .collect();
    let mut at = vec![0; l.len()];
    for (s, _) in &l {
        cx.seen(s);
    }
    let steps: usize = alone.iter().map(|a| a.len() + 2).sum();
    for _ in 0..2 * steps {
        let k = cx.rng.below(l.len());
        let got = its[k].next().map(|x| show(x.map(|c| vec![c])));
        let want = alone[k].get(at[k]).cloned();
        at[k] += 1;
        differ(
            "iterators in turn",
            &l[k].0,
            want.as_deref().unwrap_or("none"),
            got.as_deref().unwrap_or("none"),
        )?;
        cx.count("items in turn");
    }
    Ok(())
}

const DAY: i64 = 86400;

/// Second of a calendar date.
fn epoch(y: u16, m: u8, d: u8) -> i64 {
    super::dates::days(&MDate { y: y as i32, m, d }) * DAY
}

/// The moments an input may speak of.
fn moments(s: &str) -> Vec<i64> {
    let mut l = Vec::new();
    let b = s.as_bytes();
    let digits = |i: usize, n: usize| -> Option<i64> {
        let t = s.get(i..i + n)?;
        if t.bytes().all(|c| c.is_ascii_digit()) {
            t.parse().ok()
        } else {
            None
        }
    };
    for i in 0..b.len() {
        let Some(y) = digits(i, 4) else { continue };
        let (m, d) = match (digits(i + 4, 2), digits(i + 6, 2)) {
            (Some(m), Some(d)) => (m, d),
            _ => (1, 1),
        };
        if !(1..=12).contains(&m) || !(1..=31).contains(&d) {
            continue;
        }
        let mut t = epoch(y as u16, m as u8, d as u8);
        if b.get(i + 8) == Some(&b'T') {
            if let Some(h) = digits(i + 9, 2) {
                t += h * 3600;
            }
            if let Some(m) = digits(i + 11, 2) {
                t += m * 60;
            }
            if let Some(s) = digits(i + 13, 2) {
                t += s;
            }
            if let (Some(h), Some(m)) = (digits(i + 16, 2), digits(i + 18, 2)) {
                let o = h * 3600 + m * 60;
                l.push(t);
                t += if b.get(i + 15) == Some(&b'-') { o } else { -o };
            }
        }
        l.push(t);
    }
    l
}

/// At other dates.
fn dates(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let s = if r.chance(2, 3) { dated(r) } else { input(r) };
    cx.seen(&s);
    cx.input = s.clone();
    let v = mutate::value(&mut cx.rng);
    let card = gen::card(&mut cx.rng);
    let run = || {
        let mut t = transcript(&s);
        super::total::value_report(&v, &mut t);
        if let Ok(c) = build(&card) {
            t.push_str(&portrait(&c));
        }
        t
    };
    let (first, n0) = clock::at(0, 0, run);
    cx.add("clock readings by the library", n0);
    let near = moments(&s);
    for k in 0..5 {
        let r = &mut cx.rng;
        // moments around those the input speaks of
        if k >= 3 && !near.is_empty() {
            let base = *r.of(&near);
            let off = *r.of(&[
                0,
                1,
                60,
                240,
                600,
                3600,
                43200,
                DAY,
                7 * DAY,
                30 * DAY,
                366 * DAY,
            ]);
            let off = off + r.range(-2, 2);
            let now = if r.bool() { base + off } else { base - off };
            let step = *r.of(&[0, 0, 1, 60]);
            let (t, n) = clock::at(now, step, run);
            cx.add("clock readings by the library", n);
            cx.count("dates near those of the input");
            if let Err(mut f) = differ(
                "at a date near its own",
                &format!("{s}{v}\n{card:?}"),
                &first,
                &t,
            ) {
                f.detail = format!("clock at {now}, moving by {step}\n {}", f.detail);
                return Err(f);
            }
            continue;
        }
        let day = match r.below(8) {
            // month ends and leap days
            0 => {
                let y = r.range(1971, 2105) as u16;
                let m = r.range(1, 12) as u8;
                epoch(y, m, gen::days_in_month(y as i32, m))
            }
            1 => epoch(*r.of(&[1972, 2000, 2024, 2028, 2096]), 2, 29),
            2 => epoch(r.range(1971, 2105) as u16, 1, 1),
            3 => epoch(r.range(1971, 2105) as u16, 12, 31),
            4 => *r.of(&[
                -DAY,
                0,
                0x7fff_ffff,
                0x8000_0000,
                0xffff_ffff,
                0x1_0000_0000,
            ]),
            5 => epoch(r.range(0, 9999) as u16, r.range(1, 12) as u8, 1),
            _ => r.range(0, 150 * 365) * DAY,
        };
        let now = day
            + match r.below(4) {
                0 => 0,
                1 => DAY - 1,
                2 => r.range(0, 23) * 3600 + 3599,
                _ => r.range(0, DAY - 1),
            };
        let step = *r.of(&[0, 0, 1, -1, 3600, DAY, 31 * DAY, 366 * DAY]);
        let (t, n) = clock::at(now, step, run);
        cx.add("clock readings by the library", n);
        cx.count("dates");
        if let Err(mut f) = differ("at another date", &format!("{s}{v}\n{card:?}"), &first, &t) {
            f.detail = format!("clock at {now}, moving by {step}\n {}", f.detail);
            return Err(f);
        }
    }
    Ok(())
}

/// Something that is almost the same.
fn sibling(r: &mut Rng, s: &str) -> String {
    let mut t = s.to_string();
    match r.below(6) {
        0 => {
            // another zone
            let z = [
                "Z", "+0000", "-0000", "+0100", "-0700", "-07", "+1", "", "Z",
            ];
            for a in ["Z\n", "Z\r", "+0100", "-0700"] {
                if t.contains(a) {
                    let b = format!(
                        "{}{}",
                        r.pick(&z),
                        a.trim_start_matches(|c| c != '\n' && c != '\r')
                    );
                    return t.replacen(a, &b, 1);
                }
            }
            mutate::edit(r, &mut t);
        }
        1 | 2 => {
            // another digit or letter
            let l: Vec<usize> = t
                .char_indices()
                .filter(|(_, c)| c.is_ascii_alphanumeric())
                .map(|(i, _)| i)
                .collect();
            if !l.is_empty() {
                let i = *r.of(&l);
                let c = t.as_bytes()[i];
                let with = match c {
                    b'0'..=b'9' => (b'0' + r.below(10) as u8) as char,
                    c if r.bool() => (c ^ 0x20) as char,
                    _ => (b'a' + r.below(26) as u8) as char,
                };
                t.replace_range(i..=i, &with.to_string());
            }
        }
        3 => {
            // the end is missing, or more
            let l: Vec<usize> = t.char_indices().map(|x| x.0).collect();
            let i = *r.of(&l);
            let line = t[i..].find('\n').map_or(t.len(), |p| i + p);
            t.replace_range(i..line, "");
        }
        _ => mutate::edit(r, &mut t),
    }
    t
}

/// The same inputs, among them almost equal ones, in different orders, each
/// order in a process of its own.
fn processes(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut l: Vec<String> = Vec::new();
    for _ in 0..8 {
        let s = if r.chance(2, 3) { dated(r) } else { input(r) };
        if s.is_empty() {
            continue;
        }
        for _ in 0..r.range(1, 5) {
            let t = sibling(r, &s);
            l.push(t);
        }
        l.push(s);
    }
    let mut orders: Vec<Vec<usize>> = vec![(0..l.len()).collect(), (0..l.len()).rev().collect()];
    for _ in 0..2 {
        let mut o: Vec<usize> = (0..l.len()).collect();
        r.shuffle(&mut o);
        orders.push(o);
    }
    cx.input = l.concat();
    let mut first: Vec<Option<(usize, String)>> = vec![None; l.len()];
    for (k, o) in orders.iter().enumerate() {
        let got = match child(&l, o) {
            Ok(g) if g.len() == o.len() => g,
            Ok(g) => {
                return fail(
                    "a process ended early",
                    l[o[g.len().min(o.len() - 1)]].clone(),
                    format!("{} of {} inputs", g.len(), o.len()),
                )
            }
            Err(e) => {
                return Err(Fail {
                    what: "harness: no process".into(),
                    input: String::new(),
                    detail: e.to_string(),
                })
            }
        };
        for (i, h) in o.iter().zip(got) {
            match &first[*i] {
                None => first[*i] = Some((k, h)),
                Some((_, f)) if *f == h => {}
                Some((j, _)) => {
                    let before = |n: usize| -> Vec<&str> {
                        let o = &orders[n];
                        let at = o.iter().position(|x| x == i).unwrap_or(0);
                        o[..at].iter().rev().take(4).map(|x| &l[*x][..]).collect()
                    };
                    return fail(
                        "another result after other calls",
                        l[*i].clone(),
                        format!("preceded by {:?}\n or by {:?}", before(*j), before(k)),
                    );
                }
            }
        }
    }
    for s in &l {
        cx.seen(s);
    }
    cx.count("sets of inputs in several processes");
    cx.add("inputs in several processes", l.len() as u64);
    Ok(())
}

fn child(l: &[String], order: &[usize]) -> std::io::Result<Vec<String>> {
    use std::io::{Read, Write};
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe()?)
        .arg("transcripts")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()?;
    let mut data = Vec::new();
    for i in order {
        data.extend_from_slice(&(l[*i].len() as u64).to_le_bytes());
        data.extend_from_slice(l[*i].as_bytes());
    }
    c.stdin.take().unwrap().write_all(&data)?;
    let mut out = String::new();
    c.stdout.take().unwrap().read_to_string(&mut out)?;
    c.wait()?;
    Ok(out.lines().map(|s| s.to_string()).collect())
}

/// Transcripts of the inputs given, as hashes.
pub fn transcripts() -> i32 {
    use std::io::{Read, Write};
    let mut data = Vec::new();
    if std::io::stdin().read_to_end(&mut data).is_err() {
        return 2;
    }
    let mut i = 0;
    let mut out = std::io::stdout();
    while let Some(n) = data.get(i..i + 8) {
        let n = u64::from_le_bytes(n.try_into().unwrap()) as usize;
        i += 8;
        let s = String::from_utf8_lossy(&data[i..i + n]).into_owned();
        i += n;
        let _ = writeln!(out, "{:016x}", hash_bytes(transcript(&s).as_bytes()));
    }
    0
}

/// The clock that is seen by the library is the faked one.
fn clocks(cx: &mut Cx) -> R {
    let want = cx.rng.range(0, 4_000_000_000);
    let (got, n) = clock::at(want, 0, || {
        std::time::SystemTime::now()
            .duration_since(std::time::UNIX_EPOCH)
            .map(|d| d.as_secs() as i64)
    });
    if got.as_ref().ok() != Some(&want) || n != 1 {
        return Err(Fail {
            what: "harness: the clock can't be set".into(),
            input: String::new(),
            detail: format!("{want} {got:?} {n}"),
        });
    }
    cx.count("controls of the clock");
    Ok(())
}

/// In a new thread.
fn fresh(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let l: Vec<String> = (0..r.range(1, 3)).map(|_| input(r)).collect();
    cx.input = l.concat();
    let first: Vec<String> = l.iter().map(|s| transcript(s)).collect();
    let got = std::thread::scope(|sc| {
        let l = &l;
        sc.spawn(move || l.iter().map(|s| transcript(s)).collect::<Vec<_>>())
            .join()
    });
    let Ok(got) = got else {
        return fail("panic in a new thread", l.concat(), "");
    };
    for (i, s) in l.iter().enumerate() {
        cx.seen(s);
        differ("in a new thread", s, &first[i], &got[i])?;
    }
    cx.count("new threads");
    Ok(())
}

/// The same inputs from several threads at once.
fn at_once(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let l: Vec<String> = (0..r.range(3, 8)).map(|_| input(r)).collect();
    cx.input = l.concat();
    let first: Vec<String> = l.iter().map(|s| transcript(s)).collect();
    for s in &l {
        cx.seen(s);
    }
    let r = &mut cx.rng;
    let n = r.range(2, 8) as usize;
    let orders: Vec<Vec<usize>> = (0..n)
        .map(|_| {
            let mut o: Vec<usize> = (0..l.len()).chain(0..l.len()).collect();
            r.shuffle(&mut o);
            if r.chance(1, 3) {
                // all the same at the same time
                o = vec![0; o.len()];
            }
            o
        })
        .collect();
    let barrier = Barrier::new(n);
    let bad: Mutex<Vec<Fail>> = Mutex::new(Vec::new());
    std::thread::scope(|sc| {
        for o in &orders {
            let (l, first, barrier, bad) = (&l, &first, &barrier, &bad);
            sc.spawn(move || {
                barrier.wait();
                for &i in o {
                    let t = transcript(&l[i]);
                    if let Err(f) = differ("from several threads", &l[i], &first[i], &t) {
                        bad.lock().unwrap().push(f);
                        return;
                    }
                }
            });
        }
    });
    cx.add("calls at the same time", (n * 2 * l.len()) as u64);
    match bad.into_inner().unwrap().into_iter().next() {
        Some(f) => Err(f),
        None => Ok(()),
    }
}

/// One card used by several threads at once.
#[cfg(feature = "threads")]
fn shared(cx: &mut Cx) -> R {
    use std::sync::Arc;
    let r = &mut cx.rng;
    let s = input(r);
    let cards = vcard4::parse_loose(&s).unwrap_or_default();
    cx.input = s.clone();
    if cards.is_empty() {
        return Ok(());
    }
    cx.seen(&s);
    let first: Vec<String> = cards.iter().map(portrait).collect();
    let n = cx.rng.range(2, 6) as usize;
    let cards = Arc::new(cards);
    let barrier = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let (cards, barrier) = (cards.clone(), barrier.clone());
            std::thread::spawn(move || {
                barrier.wait();
                let mut out: Vec<String> = Vec::new();
                for _ in 0..2 {
                    out.extend(cards.iter().map(portrait));
                }
                // this thread may be the one that drops it
                let c = cards[k % cards.len()].clone();
                drop(cards);
                out.push(portrait(&c));
                (out, c)
            })
        })
        .collect();
    let len = cards.len();
    drop(cards);
    for (k, h) in hs.into_iter().enumerate() {
        let Ok((out, c)) = h.join() else {
            return fail("panic while sharing a card", &s, "");
        };
        for (i, t) in out.iter().enumerate() {
            let w = if i < 2 * len {
                &first[i % len]
            } else {
                &first[k % len]
            };
            differ("shared card", &s, w, t)?;
        }
        differ(
            "card from another thread",
            &s,
            &first[k % len],
            &portrait(&c),
        )?;
    }
    cx.add("uses of shared cards", (n * 2 * len) as u64);
    Ok(())
}

/// An iterator that wanders from thread to thread, and errors that do.
#[cfg(feature = "threads")]
fn wandering(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut s = String::new();
    for _ in 0..r.range(1, 4) {
        s.push_str(&input(r));
        if !s.ends_with('\n') {
            s.push('\n');
        }
    }
    let strict = r.bool();
    cx.input = s.clone();
    cx.seen(&s);
    let alone: Vec<String> = vcard4::iter(&s, strict)
        .take(s.len())
        .map(|x| show(x.map(|c| vec![c])))
        .collect();
    let it = vcard4::iter(&s, strict);
    let mut it = Some(it);
    let mut items: VecDeque<vcard4::Result<Vcard>> = VecDeque::new();
    for _ in 0..alone.len() + 1 {
        let mut mine = it.take().unwrap();
        let got = std::thread::scope(|sc| {
            sc.spawn(move || {
                let x = mine.next();
                (mine, x)
            })
            .join()
        });
        let Ok((back, item)) = got else {
            return fail("panic in the iterator", &s, "");
        };
        it = Some(back);
        items.extend(item);
        cx.count("moves of an iterator");
    }
    let got: Vec<String> = items
        .into_iter()
        .map(|x| show(x.map(|c| vec![c])))
        .collect();
    differ("wandering iterator", &s, &alone.join("\n"), &got.join("\n"))
}

#[cfg(feature = "threads")]
#[allow(dead_code)]
fn types() {
    fn both<T: Send + Sync>() {}
    use vcard4::{parameter::*, property::*};
    both::<Vcard>();
    both::<vcard4::VcardBuilder>();
    both::<vcard4::Error>();
    both::<vcard4::Uri>();
    both::<vcard4::VcardIterator<'static>>();
    both::<vcard4::Date>();
    both::<vcard4::DateTime>();
    both::<Parameters>();
    both::<TimeZoneParameter>();
    both::<TypeParameter>();
    both::<ValueType>();
    both::<Pid>();
    both::<RelatedType>();
    both::<TelephoneType>();
    both::<AddressProperty>();
    both::<DeliveryAddress>();
    both::<ClientPidMap>();
    both::<ClientPidMapProperty>();
    both::<ExtensionProperty>();
    both::<AnyProperty>();
    both::<LanguageProperty>();
    both::<DateTimeProperty>();
    both::<DateAndOrTime>();
    both::<DateAndOrTimeProperty>();
    both::<TextOrUriProperty>();
    both::<DateTimeOrTextProperty>();
    both::<UtcOffsetProperty>();
    both::<TimeZoneProperty>();
    both::<TextProperty>();
    both::<TextListProperty>();
    both::<UriProperty>();
    both::<Kind>();
    both::<KindProperty>();
    both::<Gender>();
    both::<GenderProperty>();
}

/// A long history behind it.
fn history(cx: &mut Cx) -> R {
    recheck(cx, "after a long history", 12)
}

pub fn c21() -> Check {
    Check {
        id: "C21",
        rule: "a transcript of everything observable about an input is compared between repetitions, orders of calls, system dates (the libc clock is interposed), new threads, simultaneous threads and threads sharing a card or an iterator",
        fams: vec![
            fam("repeated", repeated, 1000, 200_000),
            fam("interleaved", interleaved, 400, 60_000),
            fam("dates", dates, 2500, 600_000),
            fam("clocks", clocks, 50, 50),
            fam("processes", processes, 120, 20_000),
            fam("fresh", fresh, 1000, 200_000),
            fam("at once", at_once, 150, 20_000),
            #[cfg(feature = "threads")]
            fam("shared", shared, 400, 60_000),
            #[cfg(feature = "threads")]
            fam("wandering", wandering, 400, 60_000),
            fam("history", history, 400, 20_000),
        ],
        must: vec![
            "repetitions", "items in turn", "dates", "dates near those of the input",
            "sets of inputs in several processes", "controls of the clock",
            "new threads", "calls at the same time",
            #[cfg(feature = "threads")]
            "uses of shared cards",
            #[cfg(feature = "threads")]
            "moves of an iterator",
            "standing inputs looked at again",
        ],
    }
}
