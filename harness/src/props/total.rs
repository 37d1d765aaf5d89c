//! C01: every entry point returns on every input.

use super::*;
use crate::{gen, mutate};
use std::fmt::Write as _;
use std::hint::black_box;
use vcard4::{helper, parameter::*, property::*, Vcard};

/// Write a card, an error instead of a panic when formatting fails.
pub fn try_write(c: &Vcard) -> Result<String, std::fmt::Error> {
    let mut s = String::new();
    write!(s, "{c}")?;
    Ok(s)
}

struct Seen {
    ok: u64,
    err: u64,
    cards: u64,
}

fn use_card(cx: &mut Cx, input: &str, c: Vcard) -> R {
    let text = match try_write(&c) {
        Ok(t) => t,
        Err(_) => {
            return fail(
                "formatting a parsed card fails",
                input,
                format!("{:?}", dump(&c)),
            )
        }
    };
    black_box(format!("{c:?}").len());
    let _ = black_box(c.validate());
    let _ = black_box(c.parse_photo_jpeg());
    let d = c.clone();
    black_box(d == c);
    drop(c);
    black_box(dump(&d).len());
    drop(d);
    // what was written is an input like any other
    let _ = black_box(vcard4::parse(&text));
    let _ = black_box(vcard4::parse_loose(&text));
    cx.count("cards formatted, cloned, compared, dropped");
    Ok(())
}

pub fn everything(cx: &mut Cx, input: &str) -> R {
    cx.input = input.to_string();
    let mut s = Seen {
        ok: 0,
        err: 0,
        cards: 0,
    };
    let mut take = |cx: &mut Cx, r: vcard4::Result<Vec<Vcard>>| -> R {
        match r {
            Ok(l) => {
                s.ok += 1;
                for c in l {
                    s.cards += 1;
                    use_card(cx, input, c)?;
                }
            }
            Err(e) => {
                s.err += 1;
                black_box(e.to_string());
                let n = format!("error {}", variant(&e));
                cx.count(&n);
            }
        }
        Ok(())
    };
    take(cx, vcard4::parse(input))?;
    take(cx, vcard4::parse_loose(input))?;
    take(cx, Vcard::try_from(input).map(|c| vec![c]))?;
    // a stream can't hold more cards than lines
    let bound = input.matches('\n').count() + 3;
    for strict in [true, false] {
        let mut it = vcard4::iter(input, strict);
        let mut n = 0;
        while let Some(item) = it.next() {
            n += 1;
            if n > bound {
                return fail(
                    "the iterator does not end",
                    input,
                    format!("strict {strict}: {n} items"),
                );
            }
            take(cx, item.map(|c| vec![c]))?;
        }
        for _ in 0..3 {
            black_box(it.next().is_some());
        }
    }
    let (ok, err) = (s.ok, s.err);
    cx.add("accepted", ok);
    cx.add("rejected", err);
    Ok(())
}

fn mutated(cx: &mut Cx) -> R {
    let s = mutate::mutated(&mut cx.rng);
    everything(cx, &s)?;
    cx.seen(&s);
    Ok(())
}

fn soup(cx: &mut Cx) -> R {
    let s = mutate::soup(&mut cx.rng);
    everything(cx, &s)?;
    cx.seen(&s);
    Ok(())
}

/// All public functions that take a value.
pub fn value_functions(s: &str) -> (u64, u64) {
    let mut out = String::new();
    let n = value_report(s, &mut out);
    black_box(out);
    n
}

/// What all of them say about a text.
pub fn value_report(s: &str, out: &mut String) -> (u64, u64) {
    let (mut ok, mut err) = (0, 0);
    macro_rules! call {
        ($e:expr) => {
            match $e {
                Ok(v) => {
                    ok += 1;
                    let _ = writeln!(out, "{v:?}");
                }
                Err(e) => {
                    err += 1;
                    let _ = writeln!(out, "{e} {e:?}");
                }
            }
        };
    }
    macro_rules! shown {
        ($t:ty) => {
            match s.parse::<$t>() {
                Ok(v) => {
                    ok += 1;
                    let t = v.to_string();
                    let _ = writeln!(out, "{v:?}");
                    let again = t.parse::<$t>().is_ok();
                    let w = v.clone();
                    let _ = writeln!(out, "{t} {again} {}", w == v);
                }
                Err(e) => {
                    err += 1;
                    let _ = writeln!(out, "{e} {e:?}");
                }
            }
        };
    }
    call!(helper::parse_utc_offset(s));
    call!(helper::parse_time(s));
    call!(helper::parse_time_list(s));
    call!(helper::parse_date(s));
    call!(helper::parse_date_list(s));
    call!(helper::parse_date_time(s));
    call!(helper::parse_date_time_list(s));
    call!(helper::parse_timestamp(s));
    call!(helper::parse_timestamp_list(s));
    call!(helper::parse_date_and_or_time_list(s));
    call!(helper::parse_boolean(s));
    call!(helper::parse_integer_list(s));
    call!(helper::parse_float_list(s));
    call!(UriProperty::try_from(s));
    shown!(vcard4::Uri);
    shown!(vcard4::DateTime);
    shown!(vcard4::Date);
    shown!(DeliveryAddress);
    shown!(ClientPidMap);
    shown!(DateAndOrTime);
    shown!(UtcOffsetProperty);
    shown!(Kind);
    shown!(Gender);
    shown!(Sex);
    shown!(TypeParameter);
    shown!(Pid);
    shown!(RelatedType);
    shown!(TelephoneType);
    shown!(ValueType);
    (ok, err)
}

fn values(cx: &mut Cx) -> R {
    let s = mutate::value(&mut cx.rng);
    cx.input = s.clone();
    let (ok, err) = value_functions(&s);
    cx.add("values accepted", ok);
    cx.add("values rejected", err);
    cx.seen(&s);
    Ok(())
}

const SHORT: &[u8] = b"-+019TZ:,.;X\\\"";
const SHORT_LEN: u32 = 4;

fn nth(alphabet: &[u8], mut i: u64) -> String {
    // strings of all lengths in order
    let n = alphabet.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while i >= count {
        i -= count;
        count *= n;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push(alphabet[(i % n) as usize] as char);
        i /= n;
    }
    s
}
const fn upto(n: u64, len: u32) -> u64 {
    let mut c = 0;
    let mut k = 0;
    while k <= len {
        c += n.pow(k);
        k += 1;
    }
    c
}

/// Every short value, for every function and every kind of property.
fn short(cx: &mut Cx) -> R {
    let s = nth(SHORT, cx.idx);
    cx.input = s.clone();
    let (ok, err) = value_functions(&s);
    cx.add("values accepted", ok);
    cx.add("values rejected", err);
    if cx.idx % 7 == cx.seed % 7 || s.len() < 4 {
        let mut doc = String::from("BEGIN:VCARD\nVERSION:4.0\nKIND:group\nFN:x\n");
        for n in crate::model::FIELDS {
            doc.push_str(&format!("{n}:{s}\n"));
        }
        for v in crate::model::VALUES {
            doc.push_str(&format!("X-A;VALUE={v}:{s}\n"));
        }
        for p in ["TZ=", "GEO=", "PID=", "PREF=", "TYPE=", "X-A=", "SORT-AS="] {
            doc.push_str(&format!("NOTE;{p}{s}:x\n"));
            doc.push_str(&format!("NOTE;{p}\"{s}\":x\n"));
        }
        doc.push_str("END:VCARD\n");
        let _ = black_box(vcard4::parse(&doc));
        if let Ok(l) = vcard4::parse_loose(&doc) {
            for c in l {
                use_card(cx, &doc, c)?;
            }
        }
    }
    cx.seen(&s);
    Ok(())
}

/// Long and deep inputs.
fn large(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = r.range(1000, 20_000) as usize;
    let p = match r.below(4) {
        0 => r.pick(&mutate::DICT).to_string(),
        1 => gen::alnum(r, 1, 3),
        2 => format!("{}{}", r.pick(&mutate::DICT), r.pick(&mutate::DICT)),
        _ => {
            let f = *r.of(&crate::model::FIELDS);
            format!("\n{f}:{}", mutate::value(r))
        }
    };
    let body = p.repeat(n.min(200_000 / p.len().max(1)));
    let head = *r.of(&[
        "NOTE:",
        "X-A:",
        "NOTE;X-A=",
        "NOTE;X-A=\"",
        "CATEGORIES:",
        "ADR:",
        "",
        "FN",
        "NOTE;TYPE=",
        "X-A;VALUE=integer:",
        "BDAY:",
        "UID:",
        "PHOTO;ENCODING=b;TYPE=JPEG:",
    ]);
    let s = if r.chance(1, 6) {
        body
    } else {
        format!("BEGIN:VCARD\nVERSION:4.0\nFN:x\n{head}{body}\nEND:VCARD\n")
    };
    cx.input = s.clone();
    // the outcome of each, without comparing the clones
    for res in [vcard4::parse(&s), vcard4::parse_loose(&s)] {
        if let Ok(l) = res {
            for c in l {
                if try_write(&c).is_err() {
                    return fail("formatting a parsed card fails", s, "");
                }
            }
        }
    }
    let bound = s.len() + 3;
    for strict in [true, false] {
        if vcard4::iter(&s, strict).take(bound).count() == bound {
            return fail("the iterator does not end", s, "");
        }
    }
    if s.len() < 4000 {
        value_functions(&s);
    }
    cx.add("bytes of large inputs", s.len() as u64);
    cx.seen(&s);
    Ok(())
}

/// A single property line of any kind, mutated or not: small enough for an
/// interpreter.
fn tiny(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut line = match r.below(4) {
        0 => {
            let name = *r.of(&crate::model::FIELDS);
            let mut v = mutate::value(r);
            v.truncate(v.char_indices().nth(30).map_or(v.len(), |(i, _)| i));
            format!("{name}:{v}")
        }
        1 => {
            let v = *r.of(&crate::model::VALUES);
            let mut w = mutate::value(r);
            w.truncate(w.char_indices().nth(30).map_or(w.len(), |(i, _)| i));
            format!("X-A;VALUE={v}:{w}")
        }
        _ => {
            let doc = super::refer::remix(r);
            let l: Vec<&str> = doc
                .lines()
                .filter(|l| l.len() < 80 && !l.is_empty())
                .collect();
            match l.is_empty() {
                true => "NOTE:a".to_string(),
                false => r.of(&l).to_string(),
            }
        }
    };
    if r.chance(2, 3) {
        mutate::edit(r, &mut line);
        if line.len() > 200 {
            line = line.chars().take(120).collect();
        }
    }
    let nl = *r.of(&["\n", "\r\n"]);
    let s = format!("BEGIN:VCARD{nl}VERSION:4.0{nl}FN:x{nl}{line}{nl}END:VCARD{nl}");
    cx.input = s.clone();
    let mut it = vcard4::iter(&s, false);
    if let Some(Ok(c)) = it.next() {
        if try_write(&c).is_err() {
            return fail("formatting a parsed card fails", &s[..], "");
        }
        cx.count("small cards written");
    }
    let _ = black_box(it.next().is_some());
    let _ = black_box(vcard4::parse(&s).map(|l| l.len()));
    cx.seen(&s);
    Ok(())
}

/// A unit repeated many times in one place of a document: nothing may use
/// stack in proportion to it.
const DEEP: [(&str, &str, &str); 36] = [
    ("", "NOTE:a\n", ""),
    ("", "g.X-A;X-B=c:a\n", ""),
    ("", "NOTE\n", ""),
    ("", "?\n", ""),
    ("", "\n", ""),
    ("NOTE:", "\n a", "\n"),
    ("NOTE:", "\n ", "\n"),
    ("NOTE:", "\\n", "\n"),
    ("NOTE:", "\\", "\n"),
    ("NOTE:", "é\\,", "\n"),
    ("CATEGORIES:", "a,", "a\n"),
    ("NICKNAME:", "\\,,", "a\n"),
    ("NOTE;X-A=", "a,", "a:b\n"),
    ("NOTE", ";X-A=a", ":b\n"),
    ("NOTE", ";X-A=\"a\"", ":b\n"),
    ("NOTE", ";PREF=1", ":b\n"),
    ("TEL;TYPE=", "home,", "cell:1\n"),
    ("NOTE;PID=", "1.2,", "1:b\n"),
    ("N;SORT-AS=", "a,", "b:b;;;;\n"),
    ("N:", ";", "\n"),
    ("N:", "a,", ";;;;\n"),
    ("ADR:", ";", "\n"),
    ("ORG:", "a;", "\n"),
    ("GENDER:", ";", "\n"),
    ("CLIENTPIDMAP:", "1;", "\n"),
    ("X-A;VALUE=integer:", "1,", "1\n"),
    ("X-A;VALUE=integer:", "1", "\n"),
    ("X-A;VALUE=float:", "1.", "1\n"),
    ("X-A;VALUE=boolean:", "true,", "true\n"),
    ("X-A;VALUE=date:", "2000-01-01,", "2000-01-01\n"),
    (
        "X-A;VALUE=timestamp:",
        "20000101T000000Z,",
        "20000101T000000Z\n",
    ),
    ("X-A;VALUE=uri:http://a", "/..", "\n"),
    ("LANG:", "a-", "a\n"),
    ("URL;MEDIATYPE=\"a/a", ";a=a", "\":http://a\n"),
    ("", "END:VCARD\nBEGIN:VCARD\nVERSION:4.0\nFN:x\n", ""),
    ("", "BEGIN:VCARD\n", ""),
];
/// Half of the stack that Rust gives a thread; frames are larger in builds
/// with a sanitizer.
const DEEP_STACK: usize = 1 << 20;
fn deep_stack() -> usize {
    let f = std::env::var("VCMON_STACK").ok().and_then(|s| s.parse().ok());
    DEEP_STACK * f.unwrap_or(1)
}

fn deep(cx: &mut Cx) -> R {
    let n = if cx.thorough { 150_000 } else { 25_000 };
    let (head, unit, tail) = DEEP[(cx.idx / 2) as usize];
    let s = format!(
        "BEGIN:VCARD\nVERSION:4.0\nFN:x\n{head}{}{tail}END:VCARD\n",
        unit.repeat(n)
    );
    let strict = cx.idx % 2 == 0;
    let input = format!("strict {strict}: {n} times {unit:?} after {head:?}, before {tail:?}");
    cx.input = input.clone();
    let out = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .name("deep".to_string())
            .stack_size(deep_stack())
            .spawn_scoped(sc, || {
                let _ = black_box(vcard4::Vcard::try_from(&s[..]));
                let l = if strict {
                    vcard4::parse(&s)
                } else {
                    vcard4::parse_loose(&s)
                };
                let ended = vcard4::iter(&s, strict).take(s.len() + 3).count() < s.len() + 3;
                let Ok(l) = l else {
                    return (ended, true, 0);
                };
                let c = l.clone();
                let same = c == l;
                let _ = black_box(same);
                let written = l.iter().all(|c| try_write(c).is_ok());
                let _ = black_box(l.iter().all(|c| c.validate().is_ok()));
                (ended, written, l.len())
            })
            .unwrap()
            .join()
    });
    match out {
        Err(_) => return fail("panic on a long input", input, ""),
        Ok((false, ..)) => return fail("the iterator does not end", input, ""),
        Ok((_, false, _)) => return fail("formatting a parsed card fails", input, ""),
        Ok((_, _, 0)) => cx.count("long inputs rejected"),
        Ok(_) => cx.count("long inputs accepted"),
    }
    cx.add("bytes of large inputs", s.len() as u64);
    cx.seen(&input);
    Ok(())
}

/// Cards assembled in memory may hold what no input can contain; only
/// formatting is allowed to fail for them, and not by a panic.
fn in_memory(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut card = gen::card(r);
    for p in &mut card {
        if r.chance(1, 3) {
            if let MVal::Text(s) = &mut p.val {
                edit_text(r, s);
            }
            if let MVal::List(l) = &mut p.val {
                for s in l {
                    edit_text(r, s);
                }
            }
        }
        if r.chance(1, 4) {
            if let Some(q) = &mut p.params {
                for s in [&mut q.alt_id, &mut q.calscale, &mut q.label]
                    .into_iter()
                    .flatten()
                {
                    edit_text(r, s);
                }
            }
        }
        if r.chance(1, 20) {
            if let MVal::List(l) = &mut p.val {
                l.clear();
            }
        }
    }
    if r.chance(1, 10) {
        card.retain(|p| p.name != "FN");
    }
    cx.input = format!("{card:?}");
    let Ok(c) = build(&card) else { return Ok(()) };
    if let Ok(s) = try_write(&c) {
        everything(cx, &s)?;
    }
    let _ = black_box(c.validate());
    let _ = black_box(c.parse_photo_jpeg());
    let input = format!("{card:?}");
    cx.seen(&input);
    Ok(())
}

fn edit_text(r: &mut crate::rng::Rng, s: &mut String) {
    for _ in 0..r.range(1, 3) {
        mutate::edit(r, s);
    }
}

pub fn c01() -> Check {
    Check {
        id: "C01",
        rule: "hostile texts are handed to every public parse function and everything returned is formatted, debugged, validated, cloned, compared, searched for photos and dropped, under overflow checks, a heap limit, a CPU-time watchdog and panic/crash attribution; a case is non-trivial when all calls for its input returned",
        fams: vec![
            fam("mutated", mutated, 12_000, 6_000_000),
            fam("soup", soup, 20_000, 3_000_000),
            fam("values", values, 40_000, 5_000_000),
            exhaustive("short", short, upto(SHORT.len() as u64, SHORT_LEN)),
            fam("tiny", tiny, 20_000, 3_000_000),
            fam("large", large, 120, 4_000),
            exhaustive("deep", deep, 2 * DEEP.len() as u64),
            fam("in-memory", in_memory, 2_500, 800_000),
        ],
        must: vec![
            "accepted",
            "rejected",
            "values accepted",
            "cards formatted, cloned, compared, dropped",
            "long inputs accepted",
            "long inputs rejected",
        ],
    }
}
