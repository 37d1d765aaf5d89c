//! Every dimension of a card at the sizes where counters and buffers turn
//! over: powers of two and ten and their neighbours.  What is at index i
//! differs from what is at the others, so that nothing can be lost, doubled
//! or swapped without being seen.

use super::round::{again_public, conforms_public};
use super::text::{cycle, p, pv};
use super::*;
use crate::gen;
use crate::rng::Rng;
use crate::wire::{self, Style};

/// Sizes of texts.
const LENGTHS: [usize; 36] = [
    15, 16, 17, 31, 32, 33, 63, 64, 65, 74, 75, 76, 127, 128, 129, 255, 256, 257, 511, 512, 513,
    999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537,
];
/// Numbers of things.
const COUNTS: [usize; 30] = [
    2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255,
    256, 257, 511, 512, 513, 1000, 1025,
];

#[derive(Clone, Copy, PartialEq)]
enum Group {
    Props,
    Params,
    Texts,
    Typed,
    Dates,
    Uris,
    Members,
    Tokens,
}
use Group::*;

/// Name, what it belongs to, whether the size is a length.
const DIMS: [(&str, Group, bool); 44] = [
    ("NOTEs", Props, false),
    ("TEL URIs", Props, false),
    ("properties of all kinds", Props, false),
    ("X- properties", Props, false),
    ("PHOTOs", Props, false),
    ("ADRs", Props, false),
    ("FNs", Props, false),
    ("groups", Props, false),
    ("length of a name", Props, true),
    ("length of a group", Props, true),
    ("CLIENTPIDMAPs", Props, false),
    ("X- parameters", Params, false),
    ("values of a parameter", Params, false),
    ("SORT-AS values", Params, false),
    ("length of ALTID", Params, true),
    ("length of LABEL", Params, true),
    ("length of a parameter name", Params, true),
    ("length of a quoted value", Params, true),
    ("properties with parameters", Params, false),
    ("length of a note", Texts, true),
    ("length of newlines", Texts, true),
    ("length of commas", Texts, true),
    ("length of backslashes", Texts, true),
    ("length of a list item", Texts, true),
    ("length of wide characters", Texts, true),
    ("items of CATEGORIES", Texts, false),
    ("items of NICKNAME", Texts, false),
    ("items of ORG", Texts, false),
    ("length of a part of an address", Texts, true),
    ("length of a gender", Texts, true),
    ("integers", Typed, false),
    ("floats", Typed, false),
    ("X- typed text", Typed, true),
    ("typed properties", Typed, false),
    ("dates", Dates, false),
    ("times", Dates, false),
    ("date-and-or-times", Dates, false),
    ("timestamps", Dates, false),
    ("length of a path", Uris, true),
    ("length of a query", Uris, true),
    ("URLs", Uris, false),
    ("MEMBERs", Members, false),
    ("TYPE values", Tokens, false),
    ("PID values", Tokens, false),
];

fn t(s: String) -> MVal {
    MVal::Text(s)
}
/// Letters that are different all along.
fn letters(n: usize, salt: usize) -> String {
    let mut s = String::with_capacity(n + 8);
    let mut i = salt;
    while s.len() < n {
        s.push_str(&format!("{i:x} "));
        i += 1;
    }
    s.truncate(n);
    if s.ends_with(' ') {
        s.pop();
        s.push('.');
    }
    s
}
fn word(n: usize, salt: usize) -> String {
    letters(n, salt).replace([' ', '.'], "-")
}
fn with(name: &str, val: MVal, m: MParams) -> MProp {
    MProp {
        params: Some(m),
        ..p(name, val)
    }
}

fn made(r: &mut Rng, dim: usize, n: usize) -> MCard {
    let mut c = vec![p("FN", t("x".into()))];
    let each = |c: &mut MCard, f: &mut dyn FnMut(usize) -> MProp| {
        for i in 0..n {
            c.push(f(i));
        }
    };
    let d = MParams::default;
    match DIMS[dim].0 {
        "NOTEs" => each(&mut c, &mut |i| p("NOTE", t(format!("note {i}")))),
        "TEL URIs" => each(&mut c, &mut |i| {
            pv("TEL", "uri", MVal::Uri(format!("tel:{i}")))
        }),
        "properties of all kinds" => {
            for _ in 0..n {
                let q = loop {
                    let q = gen::any_prop(r, 10);
                    if q.name != "MEMBER" && !gen::SINGLE.contains(&&q.name[..]) {
                        break q;
                    }
                };
                c.push(q);
            }
        }
        "X- properties" => each(&mut c, &mut |i| p(&format!("X-A{i}"), t(format!("{i}")))),
        "PHOTOs" => each(&mut c, &mut |i| {
            p("PHOTO", MVal::Uri(format!("http://a.b/{i}")))
        }),
        "ADRs" => each(&mut c, &mut |i| {
            let mut a: [Option<String>; 7] = Default::default();
            a[i % 7] = Some(format!("{i}"));
            p("ADR", MVal::Adr(a))
        }),
        "FNs" => each(&mut c, &mut |i| p("FN", t(format!("name {i}")))),
        "groups" => each(&mut c, &mut |i| MProp {
            group: Some(format!("g{i}")),
            ..p("EMAIL", t(format!("{i}@a.b")))
        }),
        "length of a name" => c.push(p(&format!("X-{}", word(n, 1)), t("v".into()))),
        "length of a group" => c.push(MProp {
            group: Some(word(n, 2)),
            ..p("EMAIL", t("v".into()))
        }),
        "CLIENTPIDMAPs" => each(&mut c, &mut |i| {
            p("CLIENTPIDMAP", MVal::PidMap(i as u64 + 1, format!("urn:{i}")))
        }),
        "X- parameters" => {
            let ext = (0..n).map(|i| (format!("X-P{i}"), vec![format!("{i}")])).collect();
            c.push(with("NOTE", t("v".into()), MParams { ext: Some(ext), ..d() }));
        }
        "values of a parameter" => {
            let l = (0..n).map(|i| format!("v{i}")).collect();
            let ext = Some(vec![("X-P".to_string(), l), ("X-Q".to_string(), vec!["q".into()])]);
            c.push(with("NOTE", t("v".into()), MParams { ext, ..d() }));
        }
        "SORT-AS values" => {
            let l = (0..n).map(|i| format!("v{i}")).collect();
            c.push(with(
                "ORG",
                MVal::List(vec!["a".into(), "b".into()]),
                MParams { sort_as: Some(l), ..d() },
            ));
        }
        "length of ALTID" => c.push(with(
            "NOTE",
            t("v".into()),
            MParams { alt_id: Some(letters(n, 3)), ..d() },
        )),
        "length of LABEL" => {
            let mut s = letters(n, 4);
            s.replace_range(n / 2..n / 2 + 1, ":");
            c.push(with("ADR", MVal::Adr(Default::default()), MParams { label: Some(s), ..d() }));
        }
        "length of a parameter name" => {
            let ext = Some(vec![(format!("X-{}", word(n, 5)), vec!["v".to_string()])]);
            c.push(with("NOTE", t("v".into()), MParams { ext, ..d() }));
        }
        "length of a quoted value" => {
            let ext = Some(vec![("X-P".to_string(), vec![letters(n, 6).replace(' ', ";")])]);
            c.push(with("NOTE", t("v".into()), MParams { ext, ..d() }));
        }
        "properties with parameters" => each(&mut c, &mut |i| {
            with(
                "NOTE",
                t(format!("{i}")),
                MParams {
                    alt_id: Some(format!("{i}")),
                    pref: Some((i % 100) as u8 + 1),
                    ..d()
                },
            )
        }),
        "length of a note" => c.push(p("NOTE", t(letters(n, 7)))),
        "length of newlines" => c.push(p("NOTE", t("\n".repeat(n)))),
        "length of commas" => c.push(p("NOTE", t(",".repeat(n)))),
        "length of backslashes" => c.push(p("NOTE", t("\\".repeat(n)))),
        "length of a list item" => c.push(p(
            "CATEGORIES",
            MVal::List(vec!["a".into(), letters(n, 8), "b".into()]),
        )),
        "length of wide characters" => c.push(p(
            "NOTE",
            t(format!("{}{}", "x".repeat(n % 7), "日é\u{1F600}".repeat(n / 9 + 1))),
        )),
        "items of CATEGORIES" => c.push(p(
            "CATEGORIES",
            MVal::List((0..n).map(|i| format!("c{i}")).collect()),
        )),
        "items of NICKNAME" => c.push(p(
            "NICKNAME",
            t((0..n).map(|i| format!("n{i}")).collect::<Vec<_>>().join(",")),
        )),
        "items of ORG" => c.push(p(
            "ORG",
            MVal::List((0..n).map(|i| format!("o{i}")).collect()),
        )),
        "length of a part of an address" => {
            let mut a: [Option<String>; 7] = Default::default();
            a[n % 7] = Some(letters(n, 9));
            a[(n + 1) % 7] = Some("next".into());
            c.push(p("ADR", MVal::Adr(a)));
        }
        "length of a gender" => c.push(p("GENDER", MVal::Gender("F", Some(letters(n, 10))))),
        "integers" => c.push(pv(
            "X-A",
            "integer",
            MVal::Int((0..n as i64).map(|i| i * 7 - 3).collect()),
        )),
        "floats" => c.push(pv(
            "X-A",
            "float",
            MVal::Float((0..n).map(|i| (i as f64 + 0.5).to_bits()).collect()),
        )),
        "X- typed text" => c.push(pv("X-A", "text", t(letters(n, 11)))),
        "typed properties" => each(&mut c, &mut |i| match i % 3 {
            0 => pv("X-A", "integer", MVal::Int(vec![i as i64])),
            1 => pv("X-A", "boolean", MVal::Bool(i % 2 == 0)),
            _ => pv("X-A", "utc-offset", MVal::Off((i % 1439) as i32 * 60)),
        }),
        "dates" => {
            let l = (0..n).map(|_| gen::date(r)).collect();
            c.push(pv("X-A", "date", MVal::Date(l)));
        }
        "times" => {
            let l = (0..n).map(|_| gen::time(r)).collect();
            c.push(pv("X-A", "time", MVal::Time(l)));
        }
        "date-and-or-times" => {
            let l: Vec<MDt> = (0..n).map(|_| gen::dt(r)).collect();
            c.push(p("BDAY", MVal::Dt(l)));
        }
        "timestamps" => {
            let l = (0..n).map(|_| (gen::date(r), gen::time(r))).collect();
            c.push(pv("X-A", "timestamp", MVal::Timestamp(l)));
        }
        "length of a path" => c.push(p("URL", MVal::Uri(format!("http://a.b/{}", word(n, 12))))),
        "length of a query" => {
            c.push(p("URL", MVal::Uri(format!("http://a.b/?{}#f", word(n, 13)))))
        }
        "URLs" => each(&mut c, &mut |i| p("URL", MVal::Uri(format!("http://a.b/{i}")))),
        "MEMBERs" => {
            c.push(p("KIND", MVal::Kind("group")));
            each(&mut c, &mut |i| p("MEMBER", MVal::Uri(format!("urn:m{i}"))));
        }
        "TYPE values" => {
            let l = (0..n)
                .map(|i| match i % 4 {
                    0 => MType::Home,
                    1 => MType::Tel("cell"),
                    2 => MType::Ext(format!("t{i}")),
                    _ => MType::Work,
                })
                .collect();
            c.push(with("TEL", t("1".into()), MParams { types: Some(l), ..d() }));
        }
        "PID values" => {
            let l = (0..n as u64)
                .map(|i| (i, if i % 2 == 0 { None } else { Some(i * 3) }))
                .collect();
            c.push(with("NOTE", t("1".into()), MParams { pid: Some(l), ..d() }));
        }
        _ => unreachable!(),
    }
    sorted(c)
}

/// The cases of some dimensions: (dimension, size) of an index.
fn case(of: &[Group], i: u64) -> Option<(usize, usize)> {
    let mut i = i as usize;
    for (k, (_, g, length)) in DIMS.iter().enumerate() {
        if of.is_empty() || of.contains(g) {
            let sizes: &[usize] = if *length { &LENGTHS } else { &COUNTS };
            if i < sizes.len() {
                return Some((k, sizes[i]));
            }
            i -= sizes.len();
        }
    }
    None
}

/// How many there are.
const fn total(of: &[u8]) -> u64 {
    let mut n = 0;
    let mut k = 0;
    while k < DIMS.len() {
        let g = DIMS[k].1 as u8;
        let mut j = 0;
        let mut found = of.is_empty();
        while j < of.len() {
            if of[j] == g {
                found = true;
            }
            j += 1;
        }
        if found {
            n += if DIMS[k].2 { LENGTHS.len() } else { COUNTS.len() } as u64;
        }
        k += 1;
    }
    n
}
pub const ALL: u64 = total(&[]);

/// Read, loosely too and by the iterators, and written from memory.
fn read_and_written(cx: &mut Cx, of: &[Group]) -> R {
    let Some((dim, n)) = case(of, cx.idx) else {
        return Ok(());
    };
    let what = format!("{n}: {}", DIMS[dim].0);
    let m = made(&mut cx.rng, dim, n);
    let st = Style::random(&mut cx.rng);
    let text = wire::document(&mut cx.rng, &st, &[m.clone()]);
    cx.input = text.clone();
    expect_parse(&what, &text, &[m.clone()])?;
    for strict in [true, false] {
        let l: Result<Vec<_>, _> = vcard4::iter(&text, strict).collect();
        match l {
            Ok(l) => {
                if let Some(d) = diff(&[m.clone()], &dump_all(&l)) {
                    return fail(format!("{what} by the iterator"), text, d);
                }
            }
            Err(e) => return fail(format!("{what} rejected by the iterator"), text, e.to_string()),
        }
    }
    match vcard4::parse_loose(&text) {
        Ok(l) => {
            if let Some(d) = diff(&[m.clone()], &dump_all(&l)) {
                return fail(format!("{what} read loosely"), text, d);
            }
        }
        Err(e) => return fail(format!("{what} rejected loosely"), text, e.to_string()),
    }
    cycle(&what, &m, &m)?;
    cx.count("sizes");
    cx.seen(&text);
    Ok(())
}

macro_rules! group {
    ($f:ident, $n:ident, $($g:expr),*) => {
        pub fn $f(cx: &mut Cx) -> R {
            read_and_written(cx, &[$($g),*])
        }
        pub const $n: u64 = total(&[$($g as u8),*]);
    };
}
group!(props, PROPS, Props);
group!(params, PARAMS, Params);
group!(texts, TEXTS, Texts);
group!(typed, TYPED, Typed);
group!(dates, DATES, Dates);
group!(uris, URIS, Uris);
group!(members, MEMBERS, Members);
group!(tokens, TOKENS, Tokens);

/// What is written is read by the independent reader.
pub fn written(cx: &mut Cx) -> R {
    let Some((dim, n)) = case(&[], cx.idx) else {
        return Ok(());
    };
    let what = format!("{n}: {}", DIMS[dim].0);
    let m = made(&mut cx.rng, dim, n);
    match build(&m) {
        Ok(c) => conforms_public(cx, &what, &[c], &[m])?,
        Err(e) => return fail("building", what, e),
    }
    cx.count("sizes");
    cx.seen(&what);
    Ok(())
}

/// Written, read and written again.
pub fn fixed(cx: &mut Cx) -> R {
    let Some((dim, n)) = case(&[], cx.idx) else {
        return Ok(());
    };
    let what = format!("{n}: {}", DIMS[dim].0);
    let m = made(&mut cx.rng, dim, n);
    match build(&m) {
        Ok(c) => again_public("sizes", &what, &[c])?,
        Err(e) => return fail("building", what, e),
    }
    cx.count("sizes");
    cx.seen(&what);
    Ok(())
}

/// A card of each size, for others to use.
pub fn any(cx: &mut Cx) -> Option<(String, MCard)> {
    let (dim, n) = case(&[], cx.idx)?;
    let m = made(&mut cx.rng, dim, n);
    Some((format!("{n}: {}", DIMS[dim].0), m))
}

// ---------------------------------------------------------------- streams

const CARDS: u64 = COUNTS.len() as u64;
pub const STREAMS: u64 = 5 * CARDS;

/// Many cards; good ones, with bad ones between them, or apart.
pub fn streams(cx: &mut Cx) -> R {
    let n = COUNTS[(cx.idx % CARDS) as usize];
    let kind = cx.idx / CARDS;
    let mut text = String::new();
    let mut want: Vec<Option<MCard>> = Vec::new();
    let card = |text: &mut String, want: &mut Vec<Option<MCard>>, s: String| {
        text.push_str(&format!(
            "BEGIN:VCARD\r\nVERSION:4.0\r\nFN:{s}\r\nEND:VCARD\r\n"
        ));
        want.push(Some(vec![p("FN", t(s))]));
    };
    match kind {
        0 => (0..n).for_each(|i| card(&mut text, &mut want, format!("card {i}"))),
        1 => {
            // bad ones first, then a good one
            for i in 0..n {
                text.push_str(&format!("BEGIN:VCARD\r\nVERSION:4.0\r\nNOTE:{i}\r\nEND:VCARD\r\n"));
                want.push(None);
            }
            card(&mut text, &mut want, "last".into());
        }
        2 => {
            // in turn
            for i in 0..n {
                if i % 2 == 0 {
                    card(&mut text, &mut want, format!("card {i}"));
                } else {
                    text.push_str("BEGIN:VCARD\r\nVERSION:4.0\r\nNOTE:1\r\nEND:VCARD\r\n");
                    want.push(None);
                }
            }
        }
        3 => {
            // without END
            for i in 0..n {
                text.push_str(&format!("BEGIN:VCARD\nVERSION:4.0\nFN:{i}\n"));
                want.push(None);
            }
            card(&mut text, &mut want, "last".into());
        }
        _ => {
            // apart
            card(&mut text, &mut want, "first".into());
            text.push_str(&"\r\n".repeat(n));
            card(&mut text, &mut want, "second".into());
            text.push_str(&"\n".repeat(n));
        }
    }
    cx.input = text.clone();
    for strict in [true, false] {
        let got: Vec<_> = vcard4::iter(&text, strict).take(want.len() + 2).collect();
        if got.len() != want.len() {
            return fail(
                "number of items",
                text,
                format!("kind {kind}, strict {strict}: {} of {}", got.len(), want.len()),
            );
        }
        for (i, (w, g)) in want.iter().zip(&got).enumerate() {
            let ok = match (w, g) {
                (Some(w), Ok(g)) => *w == dump(g),
                (None, Err(_)) => true,
                _ => false,
            };
            if !ok {
                return fail(
                    "an item of many",
                    text,
                    format!("kind {kind}, strict {strict}, item {i}: {g:?}, expected {w:?}"),
                );
            }
        }
        let all = if strict {
            vcard4::parse(&text)
        } else {
            vcard4::parse_loose(&text)
        };
        let whole: Option<Vec<MCard>> = want.iter().cloned().collect();
        let same = match (&all, &whole) {
            (Ok(l), Some(w)) => dump_all(l) == *w,
            (Err(_), None) => true,
            _ => false,
        };
        if !same {
            return fail(
                "all of many",
                text,
                format!("kind {kind}, strict {strict}: {:?}", all.map(|l| l.len())),
            );
        }
    }
    let first = vcard4::Vcard::try_from(&text[..]);
    if first.is_ok() != want[0].is_some() {
        return fail("the first of many", text, format!("{first:?}"));
    }
    cx.count("long streams");
    cx.seen(&text);
    Ok(())
}

// ------------------------------------------------------------ bad lines

pub const FAULTS: u64 = 4 * COUNTS.len() as u64;

/// A fault after many good lines is still found, and many faults are all
/// dropped.
pub fn faults(cx: &mut Cx) -> R {
    let n = COUNTS[cx.idx as usize % COUNTS.len()];
    let kind = cx.idx as usize / COUNTS.len();
    let bad = ["FOO:1", "NOTE;PREF=0:1", "REV:x", "NOTE;BAR=1:x"];
    let mut text = String::from("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\n");
    let mut want = vec![p("FN", t("x".into()))];
    let (a, b) = match kind {
        0 => (n, 1),
        1 => (1, n),
        2 => (n, n),
        _ => (0, n),
    };
    for i in 0..a.max(b) {
        if i < a {
            text.push_str(&format!("NOTE:{i}\r\n"));
            want.push(p("NOTE", t(i.to_string())));
        }
        if i + b >= a.max(b) {
            text.push_str(bad[i % 4]);
            text.push_str("\r\n");
        }
    }
    text.push_str("NOTE:last\r\nEND:VCARD\r\n");
    want.push(p("NOTE", t("last".into())));
    cx.input = text.clone();
    if let Ok(l) = vcard4::parse(&text) {
        return fail("faulty lines among many accepted", text, format!("{:?}", dump_all(&l)));
    }
    match vcard4::parse_loose(&text) {
        Ok(l) => {
            if let Some(d) = diff(&[sorted(want)], &dump_all(&l)) {
                return fail("loose parsing of many lines", text, d);
            }
        }
        Err(e) => return fail("loose parsing of many lines fails", text, e.to_string()),
    }
    cx.count("many lines");
    cx.seen(&text);
    Ok(())
}
